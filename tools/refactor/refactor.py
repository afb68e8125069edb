#!/usr/bin/env python3
"""refactor.py [ids]: applies each behaviour-preserving edit of specs.py to a scratch
copy of /repo, runs the tests there, and prints what the goals and rules say."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import specs, specs2, specs3, specs4
import threading
TRY = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'try.py')


def bugs():
    base = dict(specs.SPECS)
    return [(i, tuple(base[b] if b else ()) + tuple(e)) for i, b, e in specs3.BUGS]


def run(x):
    id, edits = x
    d = tempfile.mkdtemp(prefix='refac')
    try:
        for n in ('src', 'tests', 'Cargo.toml', 'Cargo.lock', 'README.md'):
            subprocess.run(['cp', '-a', '/repo/' + n, d])
        for f, a, b in edits:
            p = d + '/src/' + f
            s = open(p).read()
            if s.count(a) != 1:
                return '%-24s TEXT %d of %s' % (id, s.count(a), f)
            open(p, 'w').write(s.replace(a, b))
        t = subprocess.run(['cargo', 'test', '--offline', '--lib'], cwd=d, capture_output=True, text=True, env=dict(os.environ, CARGO_TARGET_DIR='/tmp/rft/%s' % threading.current_thread().name.rsplit('_', 1)[1]))
        if t.returncode:
            e = [l for l in (t.stdout + t.stderr).split('\n') if l.startswith('error') or 'FAILED' in l or '-->' in l]
            return '%-24s TESTS %s' % (id, ' | '.join(e)[:300])
        q = subprocess.run([sys.executable, TRY, '--inner', d, os.environ.get('TO', '300')], capture_output=True, text=True)
        return '%-24s %s' % (id, (q.stdout.strip() or q.stderr[-300:])[:400])
    finally:
        shutil.rmtree(d, ignore_errors=True)


with ThreadPoolExecutor(int(os.environ.get('WK', '3'))) as ex:
    for o in ex.map(run, [x for x in (bugs() if os.environ.get('BUGS') else specs.SPECS) if not sys.argv[1:] or any(x[0].startswith(a) for a in sys.argv[1:])]):
        print(o, flush=True)
shutil.rmtree('/tmp/rft', ignore_errors=True)
