#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run after adding a check)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
EL = 'TLA+ definition of the operation on byte sequences and on a lattice of floating point values (TLC checks laws and agreement with an independent 8 bit definition and writes the tables of results); TLA+ model of the execution on memory (TLC); the call shapes TLC enumerates are replayed into the real ufuncs and whole memory regions compared with the tables'
T = {
 'C01': ('model_checking', EL),
 'C02': ('model_checking', EL),
 'C03': ('model_checking', EL),
 'C04': ('model_checking', EL),
 'C05': ('model_checking', 'TLA+ interval semantics of the transcendental functions on a lattice of special points with their laws (TLC), TLA+ model of guarded vector groups (TLC); tables, group patterns and call shapes replayed into the real ufuncs'),
 'C06': ('model_checking', 'TLA+ model of a reduction as a fold cut into lanes, vector groups, thread chunks and buffer refills (TLC: equal to the plain fold, each element used once); recorded reductions of the real ufuncs validated by a trace specification, values from the TLA+ tables'),
 'C07': ('model_checking', 'TLA+ model of a call or accumulate on shared memory: overlap rule, vector groups, chunks over threads (TLC); TLC-enumerated overlap shapes replayed into the real ufuncs, recorded memory images validated by a trace specification'),
 'C08': ('model_checking', 'TLA+ step-level model of the worker pool (TLC) plus refinement of an abstract job specification; TLC-generated schedules replayed on the real CMathWorker under a deterministic scheduler, recorded pieces validated by a trace specification'),
 'C09': ('model_checking', 'TLA+ step-level model of publish/join/late wake-up (TLC); schedules replayed on the real code and the whole extension under a deterministic scheduler, traces validated'),
 'C10': ('model_checking', 'TLA+ step-level model with liveness under fairness (TLC); schedules replayed on the real code, deadlock and livelock detected; real threads under many CPU sets and settings'),
 'C11': ('model_checking', 'TLA+ model of the parallel merge tree on items with identities, every interleaving (TLC: sorted, stable, disjoint regions, returns); merge situations enumerated by TLC laid over the real eight pieces, sorts built from ranks, recorded sorts validated by a trace specification, operations under a deterministic scheduler'),
 'C12': ('model_checking', 'the same TLA+ merge tree; indirect sorts built from ranks over dtypes, kinds and layouts, TLC-enumerated merge situations, recorded permutations validated by a trace specification (permutation, order, stability)'),
 'C13': ('model_checking', 'TLA+ definition of the lexicographic stable order (with partitions and start orders) as a trace specification over recorded lexsorts; merge situations enumerated by TLC; 32 and 64 bit variants against the same answer'),
 'C14': ('model_checking', 'TLA+ model of the counting and copying passes over chunks in every interleaving (TLC); its masks scaled to the real chunks and words and replayed; recorded indexing validated by a trace specification; deterministic schedules'),
 'C15': ('model_checking', 'TLA+ model of the gather on bytes with strides and signs (TLC); tables of addressed rows for every 8 bit index replayed over all index dtypes; recorded indexing validated by a trace specification; deterministic schedules'),
 'C16': ('model_checking', 'TLA+ model of the blocked field copy over threads with byte addresses (TLC); its layouts and random record dtypes replayed; recorded conversions validated on bytes by a trace specification; deterministic schedules'),
 'C17': ('model_checking', 'TLA+ model of a fill over threads reading its first items from the array written, wrapping or rounded arithmetic (TLC); real fills against the formula, recorded fills validated by a trace specification; deterministic schedules'),
 'C18': ('model_checking', 'TLA+ state machine of the configuration API (TLC), TLC-generated histories replayed on the module, recorded answers validated by a trace specification'),
 'C19': ('model_checking', 'TLA+ state machine with computations as state-independent calls; TLC-generated histories replayed, answers validated by a trace specification'),
 'C20': ('model_checking', 'TLA+ model of recorded operations of several threads with switching meanwhile (TLC, every interleaving); histories enumerated by TLC played in the real module with one and two threads, what it writes validated by a trace specification'),
 'C21': ('model_checking', 'TLA+ models of the search for an extreme in lanes, of successive bisections through a sorter and of what an exported function asks of its argument (TLC); the argument shapes TLC enumerates and random calls replayed into the real functions against plain NumPy, recorded positions validated by a trace specification'),
}
NOTES = {}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in T:
        checks.append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': T[i][1], 'level': T[i][0],
                       'level_note': NOTES.get(i, 'exhaustive on the finite specification; the implementation is bound by the replayed and validated traces, see DESIGN.md')})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ specifications in specs/, checked with TLC; see DESIGN.md. No hooks were added to /repo: only fix: commits.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
