#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and sim/targets.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sim'))
import targets
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {
 'C32': 'decided by the compiler (static_assert); there is no execution to simulate (its run-time consequence between builds is claimed in C12)',
}
NOTE = {
 'seq': 'seeded sampling of call histories with injected allocation/element/iterator/stream/callable failures against a plain reference model, every failure minimised and replayed in a fresh process; AddressSanitizer plus an own allocation and element ledger. A clean batch is evidence, not proof.',
 'mod': 'seeded sampling of histories in which separately compiled shared objects (different compilers, options, heaps, pinned headers) act on the same objects. Only the installed compilers are used.',
 'thr': 'real threads under a scheduler that decides every switch at memory-access granularity; happens-before race detection plus comparison with each task running alone. Sampled schedules with few preemptions.',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in targets.KIND:
        k = targets.KIND[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                       'technique': {'seq': 'deterministic simulation with fault injection against a reference model', 'mod': 'deterministic simulation of several modules with separate heaps', 'thr': 'deterministic thread-schedule simulation with race detection'}[k],
                       'level': 'exploration', 'level_note': NOTE[k]})
    else: na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; print(sys.version)" && g++ --version && clang++ --version', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every seam (allocation, element types, iterators, streams, callables, thread scheduling by compiler instrumentation) is outside the library. Commits in /repo are fix: commits only; see KNOWN_FINDINGS.txt.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
