#!/bin/bash
# Nothing has to be installed: the checks are Python, TLA+ and C++ sources. Make sure the tools answer.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
python -c 'import numpy, vlib.core' || PYTHONPATH="$PWD" python -c 'import vlib.core' || exit 1
java -version >/dev/null 2>&1 || exit 1
mkdir -p evidence
