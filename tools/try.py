#!/usr/bin/env python3
"""try.py PATCH...: runs all goals and rules on scratch copies of /repo with each
patch applied and prints which goals disagree and which properties report it."""
import os, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)


def inner(repo, to):
    from sa import build, table, runner
    from sa.eng import Program
    import check
    try:
        out, info = build.export(repo)
    except Exception as e:
        print('BUILD', str(e)[-300:])
        return
    prog = Program(out)
    prog.cuts()
    t = time.time()
    jobs = [(g['id'], runner.goal_fn(g)) for g in table.GOALS] + [(r['id'], r['fn']) for r in table.RULES]
    res = runner.run(prog, jobs, timeout=to, par=8)
    check.settle(table.GOALS, res)
    o, props = [], set()
    for g in table.GOALS:
        r = res[g['id']]
        x = r['status']
        ref = [z for z in r.get('obls', ()) if z[0] == 'REFUTED']
        if g['ref'] and x not in ('EQUAL', 'EQUAL-BOUNDED', 'EQUAL-SHAPES') or ref:
            o.append('%s:%s%s' % (g['id'], x, '+' + '/'.join(sorted({{'loop': 'LOOP', 'alloc': 'ALLOC'}.get(z[1], 'PANIC') for z in ref})) if ref else ''))
        if x == 'DIFFERENT':
            props |= set(g['props'])
        if ref:
            props |= {{'loop': 'C04', 'alloc': 'C23'}.get(z[1], p) for z in ref for p in g['panic']}
    for r in table.RULES:
        x = res[r['id']]
        if x.get('violations'):
            o.append(r['id'] + ':VIOL')
            props |= set(r['props'])
        elif 'rule' not in x:
            o.append(r['id'] + ':' + x['status'])
    if info['dropped']:
        o.append('DROPPED %s' % list(info['dropped']))
    print('[%s] %s %.0fs' % (' '.join(sorted(props)), ' '.join(o) or 'nothing', time.time() - t))


if sys.argv[1] == '--inner':
    inner(sys.argv[2], int(sys.argv[3]))
    sys.exit()
W = tempfile.mkdtemp(prefix='try') + '/repo'
for p in sys.argv[1:]:
    p = os.path.abspath(p)
    if os.path.isdir(W):
        shutil.rmtree(W)
    shutil.copytree('/repo', W, ignore=shutil.ignore_patterns('target', '.git'))
    name = os.path.basename(os.path.dirname(p)) if p.endswith('patch.diff') else os.path.basename(p)
    r = subprocess.run(['git', 'apply', p], cwd=W, capture_output=True, text=True)
    if r.returncode:
        print(name, 'does not apply', r.stderr[:200])
        continue
    r = subprocess.run([sys.executable, __file__, '--inner', W, os.environ.get('TO', '60')], capture_output=True, text=True)
    print('%-24s %s' % (name, (r.stdout.strip() or r.stderr[-300:])[:int(os.environ.get('W', '500'))]), flush=True)
shutil.rmtree(os.path.dirname(W))
