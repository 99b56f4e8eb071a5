"""Shared machinery of the checks: scratch builds of /repo, TLC runs, driver processes, evidence and verdicts."""
import atexit, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/vp/venv/bin/python'
NCPU = len(os.sched_getaffinity(0))
TLA_CP = '/opt/veriftools/tla/tla2tools.jar'

MODULE_SOURCES = ['src/pnumpy/' + f + '.cpp' for f in
                  '_pnumpy module_init common ledger getitem conversions recycler sorting'.split()] + \
                 ['src/atop/' + f + '.cpp' for f in
                  'atop threads recarray sort fill ops_binary ops_compare ops_unary ops_trig ops_log'.split()]
CXXFLAGS = ['-fno-strict-overflow', '-DNDEBUG', '-O2', '-g0', '-w', '-fPIC',
            '-DPyUnicode_GET_SIZE=PyUnicode_GET_LENGTH', '-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION',
            '-mavx2', '-fpermissive', '-std=c++11', '-pthread', '-falign-functions=32']


class CheckError(Exception):
    """The check itself could not give an answer."""


class TLCResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r'(\d[\d,]*) states generated(?: \([^)]*\))?, (\d[\d,]*) distinct states found', out)
        self.generated = int(m[-1][0].replace(',', '')) if m else 0
        self.distinct = int(m[-1][1].replace(',', '')) if m else 0
        if not m:
            m = re.findall(r'The number of states generated: (\d[\d,]*)', out)
            if m:
                self.generated = self.distinct = int(m[-1].replace(',', ''))
        self.ok = rc == 0
        self.violated = 'is violated' in out or 'Deadlock reached' in out or 'properties were violated' in out \
            or 'POSTCONDITION' in out and 'violated' in out or rc in (10, 11, 12, 13)

    def error_text(self):
        i = self.out.find('Error:')
        return (self.out[-2500:] if 'arsing' in self.out[i:i+40] else self.out[max(0, i):i + 6000]) if i >= 0 else self.out[-3000:]


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.quick = tier != 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        os.chmod(self.scratch, 0o755)
        atexit.register(self.cleanup)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.level = 'model_checking'
        self._built = None
        self._lock = threading.Lock()
        self.known = load_known(prop)
        self.known_hit = []

    # ------------------------------------------------------------------ life cycle
    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def log(self, *a):
        print('[%6.1fs]' % (time.time() - self.t0), *a, flush=True)

    def path(self, *p):
        return os.path.join(self.scratch, *p)

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def watch(self):
        """Give the answer in time: end early once there are violations, and at the latest before the time limit."""
        if not self.quick:
            return

        def tick(*_):
            t = time.time() - self.t0
            if t > 810 or (self.violations and t > 240):
                try:
                    self.log('out of time' if t > 810 else 'enough violations')
                    rc = self.finish() if self.violations else 2
                    sys.stdout.flush()
                except RuntimeError:      # the main thread is just printing: at the next tick
                    signal.setitimer(signal.ITIMER_REAL, 1, 5)
                    return
                kill_children()
                self.cleanup()
                os._exit(rc)
        signal.signal(signal.SIGALRM, tick)
        signal.setitimer(signal.ITIMER_REAL, 5, 5)

    # ------------------------------------------------------------------ building the code under test
    def copy_tree(self, dest):
        os.makedirs(dest, exist_ok=True)
        src = os.path.join(dest, 'src')
        shutil.copytree(os.path.join(REPO, 'src'), src,
                        ignore=shutil.ignore_patterns('*.so', '__pycache__', 'tests', '*.egg-info'))
        for f in ('_add_newdocs.py', 'setup.py'):
            shutil.copy(os.path.join(REPO, f), dest)
        for f in ('src/pnumpy/PNUMPY.h', 'src/pnumpy/_version.py'):
            p = os.path.join(dest, f)
            if os.path.exists(p):
                os.remove(p)
        subprocess.run([PY, '-c', 'import _add_newdocs; _add_newdocs.main()'], cwd=dest, check=True,
                       env=dict(os.environ, PYTHONPATH=dest), stdout=subprocess.DEVNULL)
        with open(os.path.join(src, 'pnumpy', '_version.py'), 'w') as f:
            f.write("__version__='2.0.23'\n")
        return src

    def module_sources(self):
        try:
            text = open(os.path.join(REPO, 'setup.py')).read()
            text = re.sub(r'#.*', '', text)
            l = re.findall(r"'(src/(?:pnumpy|atop)/[A-Za-z0-9_]+\.cpp)'", text)
            if l:
                return list(dict.fromkeys(l))
        except OSError:
            pass
        return MODULE_SOURCES

    def build(self, flags=(), tag='build', link=(), compiler='g++', extra_objs=(), only=None):
        """Compile the extension from the current working tree into scratch; returns a PYTHONPATH entry."""
        if tag == 'build':
            with self._lock:
                if not self._built:
                    self._built = self._build(flags, tag, link, compiler, extra_objs, only)
                return self._built
        return self._build(flags, tag, link, compiler, extra_objs, only)

    def prebuild(self):
        """Start building in the background."""
        def go():
            try:
                self.build()
            except Exception:
                pass                      # reported when the build is used
        threading.Thread(target=go, daemon=True).start()

    def _build(self, flags, tag, link, compiler, extra_objs, only):
        dest = self.path(tag)
        src = self.copy_tree(dest)
        inc = self.includes(src)
        objs = []

        def one(f):
            o = os.path.join(dest, os.path.basename(f)[:-4] + '.o')
            fl = list(flags) if only is None or os.path.basename(f) in only else []
            r = subprocess.run([compiler] + CXXFLAGS + inc + fl + ['-c', os.path.join(dest, f), '-o', o],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise CheckError('cannot compile %s:\n%s' % (f, r.stdout.decode(errors='replace')[-3000:]))
            return o
        srcs = sorted(self.module_sources(), key=lambda f: -os.path.getsize(os.path.join(dest, f)))
        with cf.ThreadPoolExecutor(max(2, NCPU)) as ex:
            objs = list(ex.map(one, srcs))
        so = os.path.join(src, 'pnumpy', '_pnumpy.abi3.so')
        r = subprocess.run(['g++', '-shared', '-pthread'] + objs + list(extra_objs) + list(link) + ['-lm', '-o', so],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise CheckError('cannot link:\n' + r.stdout.decode(errors='replace')[-3000:])
        self.log('built the extension from', REPO, 'as', tag)
        return src

    def includes(self, src):
        import sysconfig
        import numpy
        return ['-I' + src + '/pnumpy', '-I' + src + '/atop', '-I' + numpy.get_include(),
                '-I' + sysconfig.get_paths()['include']]

    # ------------------------------------------------------------------ TLC
    def tlc(self, spec, cfg=None, consts=None, extra=(), files=(), workers=None, heap='3g', timeout=600, count=True,
            invariants=(), spec_name='Spec', body='', simulate=None, deadlock=False, properties=(), init=None,
            env=None, dfid=None):
        """Run TLC on /verif/specs/<spec>.tla in a scratch directory.  cfg: config text (else assembled)."""
        d = tempfile.mkdtemp(dir=self.scratch, prefix='tlc-')
        for f in glob.glob(os.path.join(VERIF, 'specs', '*.tla')):
            shutil.copy(f, d)
        for name, text in dict(files).items():
            with open(os.path.join(d, name), 'w') as f:
                f.write(text)
        if cfg is None:
            cfg = ''
            if init:
                cfg += 'INIT %s\nNEXT %s\n' % init
            elif spec_name:
                cfg += 'SPECIFICATION %s\n' % spec_name
            for k, v in (consts or {}).items():
                cfg += 'CONSTANT %s = %s\n' % (k, v)
            for i in invariants:
                cfg += 'INVARIANT %s\n' % i
            for i in properties:
                cfg += 'PROPERTY %s\n' % i
            cfg += body
            if not deadlock:
                cfg += '\nCHECK_DEADLOCK FALSE\n'
        with open(os.path.join(d, spec + '.cfg'), 'w') as f:
            f.write(cfg)
        cmd = ['java', '-Xmx' + heap, '-XX:+UseParallelGC', '-Xss16m', '-cp',
               ':'.join([TLA_CP] + glob.glob('/opt/veriftools/tla/*ommunity*.jar')),
               'tlc2.TLC', '-metadir', os.path.join(d, 'meta'), '-workers', str(workers or NCPU), '-noGenerateSpecTE',
               '-config', spec + '.cfg']
        if simulate:
            cmd += ['-simulate', simulate, '-seed', str(self.seed)]
        cmd += list(extra) + [spec + '.tla']
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                               env=dict(os.environ, **(env or {})))
        except subprocess.TimeoutExpired:
            raise CheckError('TLC on %s exceeded %ds' % (spec, timeout))
        res = TLCResult(r.returncode, r.stdout.decode(errors='replace'), time.time() - t)
        res.dir = d
        if count:
            self.states += res.distinct
            self.transitions += res.generated
        return res

    def tlc_ok(self, *a, **k):
        r = self.tlc(*a, **k)
        if not r.ok:
            raise CheckError('TLC failed on %s (rc %d):\n%s' % (a[0], r.rc, r.error_text()))
        return r

    def tlc_json(self, spec, outfile='out.json', **k):
        r = self.tlc_ok(spec, **k)
        with open(os.path.join(r.dir, outfile)) as f:
            text = f.read()
        try:
            return r, json.loads(text)
        except ValueError:
            return r, [json.loads(l) for l in text.splitlines() if l.strip()]

    def tlc_lines(self, res, tag):
        """JSON values printed by PrintT(<<tag, ToJson(x)>>) during a TLC run."""
        out = []
        pat = re.compile(r'^<<\s*"%s",\s*"((?:[^"\\]|\\.)*)"\s*>>$' % re.escape(tag), re.M)
        for m in pat.finditer(res.out):
            out.append(json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')))
        return out

    # ------------------------------------------------------------------ drivers: python processes with the module
    def driver(self, script, arg, cpus=None, timeout=300, pypath=None, env=None, limit_core=True):
        """Run /verif/drivers/<script> with a JSON argument file; returns dict(rc, out, result)."""
        n = tempfile.mktemp(dir=self.scratch, prefix='drv-')
        with open(n + '.in', 'w') as f:
            json.dump(arg, f)
        e = dict(os.environ)
        e['PYTHONPATH'] = (pypath or self.build()) + ':' + VERIF
        e['OMP_NUM_THREADS'] = '1'
        e['OPENBLAS_NUM_THREADS'] = '1'
        e.update(env or {})
        cmd = [PY, '-X', 'faulthandler', os.path.join(VERIF, 'drivers', script), n + '.in', n + '.out']
        if cpus:
            cmd = ['taskset', '-c', ','.join(map(str, cpus))] + cmd
        with open(n + '.log', 'wb') as log:
            p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=e, cwd=self.scratch,
                                 start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                rc = 'timeout'
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        out = open(n + '.log', 'rb').read().decode(errors='replace')
        res = None
        if os.path.exists(n + '.out'):
            try:
                res = json.load(open(n + '.out'))
            except ValueError:
                res = None
        prog = None
        if os.path.exists(n + '.out.progress'):
            prog = open(n + '.out.progress').read()[-4000:]
        for x in ('.in', '.out', '.log', '.out.progress'):
            try:
                os.remove(n + x)
            except OSError:
                pass
        return {'rc': rc, 'out': out, 'result': res, 'progress': prog}

    def drivers(self, jobs, parallel=None):
        """jobs: list of dict(script, arg, ...) -> results in order."""
        self.build()
        with cf.ThreadPoolExecutor(parallel or max(1, NCPU)) as ex:
            futs = [ex.submit(self.driver, **j) for j in jobs]
            return [f.result() for f in futs]

    # ------------------------------------------------------------------ verdicts
    def violation(self, what, replay, key=None):
        """key: stable identification used to match the known findings file."""
        key = key or what
        for k, text in self.known:
            if k and k == key:
                if key not in self.known_hit:
                    self.known_hit.append(key)
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, text), flush=True)
                return
        self.violations.append({'what': what, 'replay': replay})

    def sample(self, s, n=6):
        if len(self.samples) < n:
            self.samples.append(s)

    def finish(self):
        signal.setitimer(signal.ITIMER_REAL, 0)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        for i, v in enumerate(self.violations[:5]):
            p = os.path.join(VERIF, 'evidence', '%s.replay%d.json' % (self.prop, i))
            with open(p, 'w') as f:
                json.dump(v, f, indent=1, default=str)
            print('  ', v['what'][:500])
            print('VIOLATION property=%s replay=%s' % (self.prop, p), flush=True)
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'samples': self.samples[:8] or ['none']}
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 2), 'assumptions': self.assumptions,
              'violations': [v['what'][:500] for v in self.violations]}
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        self.log('%s %s: %d states, %d transitions, %d implementation traces, %d violations' % (
            self.prop, self.tier, self.states, self.transitions, self.traces, len(self.violations)))
        return 1 if self.violations else 0


def kill_children():
    """Ends the processes started by this one."""
    kids, todo = [], [os.getpid()]
    par = {}
    for p in glob.glob('/proc/[0-9]*/stat'):
        try:
            f = open(p).read().rsplit(')', 1)[1].split()
            par.setdefault(int(f[1]), []).append(int(p.split('/')[2]))
        except (OSError, ValueError, IndexError):
            pass
    while todo:
        k = par.get(todo.pop(), [])
        kids += k
        todo += k
    for k in kids:
        try:
            os.kill(k, signal.SIGKILL)
        except OSError:
            pass


def load_known(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def tla(v):
    """Python value -> TLA+ literal."""
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v.replace('\\', '\\\\').replace('"', '\\"') + '"'
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(map(tla, v)) + '>>'
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(map(tla, sorted(v))) + '}'
    if isinstance(v, dict):
        return '[' + ', '.join('%s |-> %s' % (k, tla(x)) for k, x in v.items()) + ']'
    raise TypeError(v)
