#!/usr/bin/env python3-vt
"""check.py <property>: decide one property of /repo's current tree.  Exit 0 held, 1 violated, 2 no answer."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

if os.environ.get('PYTHONHASHSEED') != '0':      # the same obligations in the same order on every run
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'govc'))
sys.setrecursionlimit(20000)
from vc import replay, suites                                   # noqa: E402
from vc.config import PROPS, TRUSTED, ASSUME, NOTE              # noqa: E402

VERIF = os.path.dirname(os.path.abspath(__file__))


def known_findings(prop):
    out = []
    for l in open(VERIF + '/known-findings.txt'):
        if l.startswith('known: property=%s ' % prop):
            out.append(l.split(' ', 2)[2].strip())
    return out


def dump_ssa(work):
    src = VERIF + '/govc/ssadump'
    b = work + '/ssadump'
    env = replay.goenv()
    p = subprocess.run(['go', 'build', '-o', b, '.'], cwd=src, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError('front end does not build: ' + p.stdout)
    p = subprocess.run([b, replay.REPO], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise RuntimeError('front end rejects /repo: ' + p.stderr[-2000:])
    return json.loads(p.stdout)


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = PROPS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='verif_%s_' % prop, dir='/tmp')
    try:
        return decide(prop, tier, seed, cfg, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, tier, seed, cfg, work, t0):
    thorough = tier == 'thorough'
    results = []
    if cfg['suites']:
        ssa = dump_ssa(work)
        for s in cfg['suites']:
            results.append(suites.SUITES[s](ssa, prop, 3.0 if thorough else 1.0))
    failed, other, undecided, vac = [], [], [], []
    nobl = ndis = 0
    by = {}
    solver = 0.0
    for r in results:
        solver += r.solver_s
        for row in r.rows:
            if prop not in row[1]:
                if row[2] != 'proved':
                    other.append(row)
                continue
            nobl += 1
            if row[2] == 'proved':
                ndis += 1
                by[row[3]] = by.get(row[3], 0) + 1
            else:
                failed.append(row)
        undecided += [(r.name, f, why) for f, why in r.undecided]
        vac += [(r.name, f) for f in r.vacuous]
    print('%s: %d obligations, %d discharged %s, %d failed, %d functions undecided (%.1fs)' % (
        prop, nobl, ndis, by, len(failed), len(undecided), time.time() - t0))
    for row in failed[:20]:
        print('  failed obligation: %s at %s' % (row[0], row[5]))
    for u in undecided[:20]:
        print('  undecided: %s %s: %s' % u)
    for x in vac:
        print('  contradictory precondition: %s %s' % x)

    # bounded engine: replays failed obligations on the real code, and stands in for what is not proved
    ms = cfg['ms']
    if failed or undecided:
        ms = max(ms, 40000)
    if thorough:
        ms = max(ms, 240000)
    runs = []
    errs = []
    for race in ([True] if cfg.get('race') else [False]):
        b, err = replay.build(work, race)
        if not b:
            errs.append(err)
            print('  replay engine does not build on this tree: ' + err[-600:])
            continue
        extra = {'VERIF_EXH': '7'} if thorough else {}
        runs.append(replay.run(b, work, prop, ms, seed, race=race, extra=extra))
    cases = sum(r.cases for r in runs)
    bad = [r.fail for r in runs if r.fail]
    notes = sum([r.notes for r in runs], [])
    print('%s: bounded engine ran %d cases, %d steps, %s' % (prop, cases, sum(r.steps for r in runs),
                                                             'FAILED: ' + bad[0][0] if bad else 'no failure'))
    for n in notes:
        print('  note: ' + n)

    os.makedirs(VERIF + '/evidence', exist_ok=True)
    for k in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    viol = 0
    rc = 0
    rp = 'evidence/%s.replay.json' % prop
    if os.path.exists(VERIF + '/' + rp):
        os.remove(VERIF + '/' + rp)
    if bad or failed:
        rc = 1
        viol = 1
        rep = dict(bad[0][1]) if bad else {'property': prop}
        rep['failed_obligations'] = [dict(name=x[0], at=x[5], path=x[6], verifier=x[7], status=x[2])
                                     for x in failed[:50]]
        rep['how_to_replay'] = 'VERIF_REPLAY=<this file> VERIF_PROP=%s with the engine built by check.py' % prop
        json.dump(rep, open(VERIF + '/' + rp, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if bad else ' no-failing-input-found'))
    elif not runs and (not nobl or undecided):
        rc = 2
        print('no answer: neither the verifier nor the replay engine could be applied to this tree')
    evidence(prop, tier, seed, cfg, results, runs, nobl, ndis, by, solver, failed, other, undecided, vac, viol,
             time.time() - t0)
    return rc


def evidence(prop, tier, seed, cfg, results, runs, nobl, ndis, by, solver, failed, other, undecided, vac, viol, wall):
    per = {}
    for r in results:
        for row in r.rows:
            if prop in row[1]:
                d = per.setdefault(row[8], [0, 0])
                d[0] += 1
                d[1] += row[2] == 'proved'
    cov = {
        'functions_under_contract': {k: '%d/%d' % (v[1], v[0]) for k, v in sorted(per.items())},
        'functions_inlined': sorted(set(sum([r.inlined for r in results], []))),
        'obligations': nobl, 'discharged': ndis, 'discharged_by': by,
        'solver_s': round(solver, 2),
        'failed': [x[0] for x in failed][:50],
        'failed_obligations_of_other_properties': sorted(set(x[0] for x in other))[:50],
        'outside_verifier': ['%s %s: %s' % u for u in undecided],
        'contradictory_preconditions': ['%s %s' % x for x in vac],
        'checker_cmd': 'python3-vt check.py %s (govc: go/ssa front end, contracts/*.spec, z3 4.8 API + z3 5 + cvc5)' % prop,
        'trusted_base': TRUSTED(prop, results),
        'evaluations': sum(r.cases for r in runs),
        'distinct_nontrivial': sum(r.distinct for r in runs),
        'rule': 'BOUNDED (never counted as proved): ' + cfg['rule'],
        'samples': [r.sample for r in runs if r.sample] or ['none'],
        'bounded_steps': sum(r.steps for r in runs),
        'bounded_operation_counts': runs[0].counts if runs else {},
        'bounded_max_height': max([r.maxh for r in runs] or [0]),
        'proved_part': NOTE[prop][0], 'bounded_part': NOTE[prop][1],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': cfg['level'], 'coverage': cov,
          'assumptions': ASSUME(prop), 'wall_s': round(wall, 2), 'violations': viol}
    json.dump(ev, open(VERIF + '/evidence/%s.json' % prop, 'w'), indent=1)


if __name__ == '__main__':
    sys.exit(main())
