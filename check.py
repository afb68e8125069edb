#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides a property of /repo's current
sources.  Exit 0: nothing violates it; exit 1: a violation, named on stdout."""
import json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa import build, runner, table
from sa.eng import Program

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))


def known(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                out.append(line.split(' ', 2)[2])
    return out


def closure(goals):
    ids = {g['id'] for g in goals}
    while True:
        more = [g for g in table.GOALS if g['id'] not in ids and any(g['id'] in h['needs'] for h in table.GOALS if h['id'] in ids)]
        if not more:
            return [g for g in table.GOALS if g['id'] in ids]
        ids |= {g['id'] for g in more}


WHAT = {'loop': ('%(fn)s: a loop repeats forever', 'every iteration of a loop makes progress'),
        'alloc': ('%(fn)s: memory for an unchecked number of elements (%(kind)s)', 'no memory is reserved for a count that the input does not back'),
        'panic': ('%(fn)s: %(kind)s can panic', 'no execution reaches a panic')}


def wide(prop, g):
    """properties decided on the call trees of all goals, or all loading goals"""
    return bool(g['panic']) and (prop == 'C04' or prop == 'C23' and 'C01' in g['panic'])


def settle(goals, res):
    """a difference only counts when everything it relies on agrees"""
    for g in goals:
        r = res[g['id']]
        if r['status'] == 'DIFFERENT':
            if g['soft']:
                r['status'] = 'UNKNOWN'
            elif any(res[n]['status'] not in ('EQUAL', 'EQUAL-BOUNDED', 'EQUAL-SHAPES') for n in g['needs'] if n in res):
                r['status'] = 'UNKNOWN'


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    limit = 780 if tier == 'quick' else 3000
    try:
        out, info = build.export(REPO)
    except build.BuildError as x:
        print('no answer: the sources do not build: %s' % str(x)[-2000:])
        return 2
    prog = Program(out)
    prog.cuts()
    want = [g for g in table.GOALS if prop in g['props'] or prop in g['panic'] or wide(prop, g)]
    goals = closure(want)
    rules = [r for r in table.RULES if prop in r['props']]
    okind = {'C04': 'loop', 'C23': 'alloc'}.get(prop, 'panic')
    compared = {g['id'] for g in closure([g for g in want if prop in g['props']])}
    jobs = [(g['id'], runner.goal_fn(g, g['id'] in compared, {okind} if g in want and (prop in g['panic'] or wide(prop, g)) else ())) for g in goals] + [(r['id'], r['fn']) for r in rules]
    res = runner.run(prog, jobs, par=8, mem=(6 << 30), timeout=300 if tier == 'quick' else 1500, deadline=t0 + limit)
    settle(goals, res)
    viol, undecided = [], []
    nob = {'DISCHARGED': 0, 'OPEN': 0, 'REFUTED': 0}
    equal, bounded, shaped = [], [], []
    loops = {}
    analysed = set()
    want_ids = {g['id'] for g in want if prop in g['props']}
    for g in goals:
        r = res[g['id']]
        analysed |= set(r.get('visited', ()))
        if g['id'] in want_ids and g['ref']:
            if r['status'] == 'EQUAL':
                equal.append(g['id'])
            elif r['status'] == 'EQUAL-BOUNDED':
                bounded.append(g['id'])
            elif r['status'] == 'EQUAL-SHAPES':
                shaped.append(g['id'])
            elif r['status'] == 'DIFFERENT':
                d = r['detail'][0] if r['detail'] else ('result', [], [])
                viol.append({'key': '%s: differs from its specification at %s' % (g['repo'], d[0]), 'goal': g['id'], 'function': g['repo'], 'where': d[0], 'when': d[1],
                             'rule': 'the function computes the same value as its reference for every input', 'details': r['detail']})
            else:
                undecided.append((g['id'], r['status'], str(r['detail'][0][0])[:200] if r['detail'] else ''))
        if prop in g['panic'] or wide(prop, g):
            for k, n in ((r.get('obl') or {}).get(okind) or {}).items():
                nob[k] = nob.get(k, 0) + n
            if r['status'] in ('UNKNOWN', 'ABSENT') and not r.get('obl') and not g['ref']:
                undecided.append((g['id'], r['status'], str(r['detail'][0][0])[:200] if r['detail'] else ''))
            for lp, how in r.get('loops', {}).items() if prop == 'C04' else ():
                loops.setdefault(lp[:2], set()).update(how)
            for o in r.get('obls', ()):
                k, kind, fn, span, callee, chain, cube = o
                if (kind if kind in ('loop', 'alloc') else 'panic') != okind:
                    continue
                if k == 'REFUTED':
                    viol.append({'key': WHAT[okind][0] % {'fn': fn, 'kind': kind + (' in %s' % (callee,) if callee and okind != 'loop' else '')}, 'goal': g['id'], 'function': fn, 'where': str(span), 'callee': callee, 'path': chain, 'when': cube,
                                 'rule': WHAT[okind][1]})
                else:
                    undecided.append((g['id'], 'OPEN ' + kind, '%s %s' % (fn, span)))
    nrule = 0
    for r in rules:
        x = res[r['id']]
        if 'rule' not in x:
            undecided.append((r['id'], x['status'], str(x.get('detail'))[:200]))
            continue
        nrule += x['sites']
        analysed |= set(x.get('visited', ()))
        for v in x['violations']:
            viol.append(dict(v, goal=r['id'], rule=x['rule']))
        for u in x.get('undecided', ()):
            undecided.append((r['id'], 'undecided', u))
    if prop == 'C04':
        # every loop of the crate: ended by a recognised measure, unrolled exactly, or not analysed
        from sa import rules as R
        mine = {k: v for k, v in loops.items() if '__sa' not in k[0]}
        nrule += len(mine)
        for k, how in sorted(mine.items()):
            if 'open' in how:
                undecided.append(('loop', 'no measure', '%s %s' % k))
        for k in prog.raw:
            if R.local(prog, k) and not prog.raw[k]['expn'] and R.loops_of(prog, k) and prog.raw[k]['path'] not in analysed:
                undecided.append(('loop', 'not analysed', prog.raw[k]['path']))
    kn = known(prop)
    new = []
    for v in viol:
        hit = [k for k in kn if k == v['key']]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, v['key']))
        else:
            new.append(v)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rp = os.path.join(HERE, 'evidence', prop + '.violations.json')
    if new:
        with open(rp, 'w') as f:
            json.dump(new, f, indent=1, default=str)
    elif os.path.exists(rp):
        os.remove(rp)
    cov = {
        'explanation': 'Source of /repo exported as MIR of a cargo check build and evaluated abstractly over all inputs; each comparison goal is a function of the crate against a reference function, '
                       'each obligation a panic site in the call tree of a goal, each rule site an instance examined by a structural rule.',
        'comparison_goals': len(want_ids), 'equal_for_all_inputs': sorted(equal), 'equal_with_loops_unrolled_twice': sorted(bounded), 'equal_on_fixed_shapes': sorted(shaped),
        'shapes': {g['id']: [x[0] for x in g['opts']['fix']] for g in want if g['id'] in want_ids and g['opts'].get('fix')},
        'panic_obligations': sum(nob.values()), 'panic_obligations_discharged': nob['DISCHARGED'],
        'rule_sites': nrule, 'rules': {r['id']: res[r['id']].get('rule', '') for r in rules},
        'rule_details': {r['id']: res[r['id']].get('info', {}) for r in rules},
        'loops': {'%s at %s' % k: sorted(v) for k, v in sorted(loops.items()) if '__sa' not in k[0]},
        'undecided': [list(u) for u in undecided[:60]],
        'functions_analysed': len(analysed), 'functions': sorted(x for x in analysed if not x.startswith(('std::', 'core::', 'nom::', 'alloc::', '<')))[:200],
        'obligations': len(want_ids) + sum(nob.values()) + nrule,
        'discharged': len(equal) + nob['DISCHARGED'] + nrule - len([v for v in viol if v['goal'] in {r['id'] for r in rules}]),
        'checker_cmd': 'python3 check.py %s %s' % (prop, tier),
        'reference_modules_not_compiling': info['dropped'],
        'trusted_base': table.TRUSTED,
    }
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': table.LEVEL.get(prop, 'other'),
          'coverage': cov, 'assumptions': table.ASSUME, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d goals (%d equal, %d equal up to 2 iterations), %d/%d panic obligations discharged, %d rule sites, %d undecided, %d functions, %.0f s' % (
        prop, len(want_ids), len(equal), len(bounded), nob['DISCHARGED'], sum(nob.values()), nrule, len(undecided), len(analysed), time.time() - t0))
    for u in undecided[:20]:
        print('undecided: %s %s %s' % u)
    for v in new:
        print('  %s [%s] at %s' % (v['key'], v['goal'], v.get('where')))
        print('    rule: %s' % v['rule'])
        if v.get('when'):
            print('    when: %s' % '; '.join(v['when'])[:600])
        if v.get('path'):
            print('    via: %s' % ' < '.join(v['path'])[:600])
    if new:
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        import traceback
        print('no answer: ' + traceback.format_exc())
        rc = 2
    sys.exit(rc)
