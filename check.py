#!/usr/bin/env python3
"""check.py <property>: builds the simulator for one property from /repo's working tree, runs the seeded search, writes evidence/<property>.json.

exit 0: the property held on everything explored; exit 1 + VIOLATION line: broken, with a minimised replay file; anything else: error of the check.
check.py --replay FILE re-executes a replay file against the current tree (exit 1 and 'reproduced yes' if it fails the same way)."""
import hashlib, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PTL_REPO', '/repo')
SIM = os.path.join(VERIF, 'sim')
BUILD = os.path.join(VERIF, 'build')
sys.path.insert(0, SIM)
import targets

def headers_digest():
    h = hashlib.sha256()
    for d in (os.path.join(REPO, 'inc', 'ptl'), SIM, os.path.join(SIM, 'frozen', 'ptl')):
        if not os.path.isdir(d): continue
        for f in sorted(os.listdir(d)):
            if f.endswith('.hpp') or f.endswith('.h'):
                h.update(f.encode()); h.update(open(os.path.join(d, f), 'rb').read())
    return h.digest()

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout

def known_findings(prop):
    """entries "known: property=<id> world=<world> class=<class> <what fails>" of the committed file"""
    r = []
    for l in open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')):
        w = l.split(None, 4)
        if len(w) == 5 and w[0] == 'known:' and w[1] == 'property=' + prop: r.append((w[2].split('=', 1)[1], w[3].split('=', 1)[1], w[4].strip()))
    return r

def undecided(why):
    print('check: no answer, ' + why); sys.stdout.flush()
    sys.exit(2)

def build(prop):
    """compile every translation unit the property needs (in parallel, cached by content) and link"""
    t = targets.target(prop, SIM, os.path.join(REPO, 'inc'))
    hd = headers_digest()
    objs = os.path.join(BUILD, 'obj'); os.makedirs(objs, exist_ok=True)
    jobs = {}
    def obj(cmd, src):
        k = hashlib.sha256(hd + repr(cmd).encode() + open(src, 'rb').read()).hexdigest()[:32]
        o = os.path.join(objs, k + '.o')
        jobs.setdefault(o, cmd + ['-c', src, '-o', o])
        return o
    links = [([(obj(cmd, src), src) for cmd, src in l['objects']], l) for l in t['links']]
    optional = t.get('optional', []); failed = set()
    def compile_one(o):
        if os.path.exists(o): return 0, ''
        tmp = o + '.%d.tmp' % os.getpid()
        rc, out = run(jobs[o][:-1] + [tmp])
        if rc == 0: os.replace(tmp, o)
        return rc, out
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        order = list(jobs)
        for o, (rc, out) in zip(order, ex.map(compile_one, order)):
            if rc != 0:
                sys.stderr.write(out[-3000:]); failed.add(o)
    srcs = {o: src for os_, _ in links for o, src in os_}
    if any(srcs[o] not in optional for o in failed) or (failed and {srcs[o] for o in failed} == set(optional)): undecided('build failed')
    t['not_built'] = sorted(os.path.basename(srcs[o]) for o in failed) # the other worlds still decide
    links = [([o for o, _ in os_ if o not in failed], l) for os_, l in links]
    out_dir = os.path.join(BUILD, 'bin-' + t['name']); os.makedirs(out_dir, exist_ok=True)
    first = None
    for os_, l in links:
        target = os.path.join(out_dir, l['out'])
        tmp = target + '.%d.tmp' % os.getpid()
        rc, out = run(l['cmd'] + os_ + l.get('tail', []) + ['-o', tmp])
        if rc != 0:
            sys.stderr.write(out[-6000:]); undecided('link failed')
        os.replace(tmp, target)
        first = first or target
    return first, t

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == '--replay':
        prop = [l.split()[1] for l in open(sys.argv[2]) if l.startswith('property ')][0]
        exe, _ = build(prop)
        os.environ['SIM_KNOWN'] = '\n'.join('%s=%s' % (w, c) for w, c, _ in known_findings(prop))
        sys.exit(subprocess.run([exe, '--replay', sys.argv[2]]).returncode)
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    exe, t = build(prop)
    t_build = time.time() - t0
    replays = os.path.join(VERIF, 'replays'); os.makedirs(replays, exist_ok=True)
    res = os.path.join(BUILD, 'result-%s-%d.json' % (prop, os.getpid()))
    budget = 700 if tier == 'thorough' else 90
    cmd = [exe, '--prop', prop, '--seed', str(seed), '--workers', str(min(16, os.cpu_count() or 4)), '--time', str(budget), '--out', res, '--replay-dir', replays]
    if tier == 'thorough': cmd.append('--thorough')
    if os.environ.get('VERIF_RUNS'): cmd += ['--runs', os.environ['VERIF_RUNS']]
    known = known_findings(prop)
    os.environ['SIM_KNOWN'] = '\n'.join('%s=%s' % (w, c) for w, c, _ in known)
    p = subprocess.run(cmd)
    if p.returncode not in (0, 1) or not os.path.exists(res):
        undecided('simulator ended with %d' % p.returncode)
    r = json.load(open(res)); os.unlink(res)
    wall = time.time() - t0
    hours = max(r['wall_s'], 1e-3) / 3600
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': r['runs'], 'distinct_nontrivial': r['distinct_nontrivial'],
            'rule': 'one case = one simulated run generated from (seed, run number): a world, a configuration, a sequence of API calls and the faults/preemptions placed in them; non-trivial = an injected fault fired, instrumented user code ran, a module acted on another module\'s object, or a context switch happened in it; distinct = different hash of the complete event log (calls, outcomes, observed contents, element events)',
            'samples': r['samples'],
            'simulated_calls': r['steps'], 'simulated_events': r['simulated_events'], 'calls_returned': r['calls_ok'], 'calls_that_threw': r['calls_failed'],
            'runs_per_hour': int(r['runs'] / hours), 'seeds_per_hour': int(r['runs'] / hours),
            'simulated_time': 'the library has no clock; progress is counted in simulated calls and events',
            'faults': r['faults'], 'distinct_abstract_transitions': r['abstract_transitions'],
            'rare_conditions_hit': {k: v for k, v in r['probes'].items() if v},
            'anomalies_outside_this_property': r['outside_property'], 'runs_abandoned': r['runs_abandoned'],
            'determinism_self_test': r['determinism'], 'worlds': r['worlds'],
            'real_components': t['real'], 'simulated_components': t['stub'],
            'known_findings_met': {'%s, %s' % (w, c): n for (w, c, _), n in zip(known, r['known'])},
            'worlds_not_built': t['not_built'], 'stopped_by_time_limit': bool(r['timed_out']),
        },
        'assumptions': t['assumptions'], 'wall_s': round(wall, 2), 'violations': 1 if p.returncode == 1 else 0,
    }
    if 'violation' in r: ev['coverage']['violation'] = r['violation']
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d runs, %d distinct non-trivial, %d calls, build %.1f s, search %.1f s' % (prop, r['runs'], r['distinct_nontrivial'], r['steps'], t_build, r['wall_s']))
    for w, c, text in known: print('KNOWN-FINDING: property=%s %s (%s in %s)' % (prop, text, c, w))
    if p.returncode == 1:
        v = r['violation']
        print('run %d, %s in %s of %s: %s' % (v['run'], v['class'], v['op'], v['world'], v['detail']))
        print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
        sys.exit(1)

if __name__ == '__main__': main()
