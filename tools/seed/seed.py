#!/usr/bin/env python3
"""seed.py [ids]: confirms the planted bugs of specs.py in a scratch copy of
/repo and writes /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import specs
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = '/verif/seeded'
BASE = '873f196'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def stable():
    return set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def make(sp, tmp):
    repo = os.path.join(tmp, 'repo')
    sh(['git', 'checkout', '-q', '--', '.'], repo)
    touched = set()
    for f, old, new in sp['edits']:
        p = os.path.join(repo, f)
        t = open(p).read()
        if t.count(old) != 1:
            return f'edit of {f}: {t.count(old)} matches of {old[:40]!r}'
        open(p, 'w').write(t.replace(old, new))
        touched.add(f)
    sh(['cargo', 'fmt'], repo) if sp.get('fmt') else None
    diff = sh(['git', 'diff'], repo).stdout
    # every removed line must come from the original repository
    for f in touched:
        bl = sh(['git', 'blame', '-s', '-l', 'HEAD', '--', f], repo).stdout.splitlines()
        cur = 0
        d = sh(['git', 'diff', '-U0', '--', f], repo).stdout.splitlines()
        base = sh(['git', 'rev-parse', BASE], repo).stdout.strip()
        import re
        for l in d:
            m = re.match(r'@@ -(\d+)(?:,(\d+))?', l)
            if m:
                a, n = int(m[1]), int(m[2] or 1)
                for k in range(a - 1, a - 1 + n):
                    if base not in bl[k].split(' ')[0].replace('^', '') and not base.startswith(bl[k].split(' ')[0].lstrip('^')):
                        print('   not original:', bl[k][41:100])
    d = os.path.join(OUT, sp['id'])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    shutil.copy(os.path.join(HERE, 'ase.rs'), d)
    open(os.path.join(d, 'main.rs'), 'w').write(sp['demo'])
    shutil.copy(os.path.join(HERE, 'demo.sh'), d)
    if 'c20-unsafe' in sp['id']:
        open(os.path.join(d, 'flags'), 'w').write('-F unsafe_code')
    json.dump({k: sp[k] for k in ('property', 'needs', 'what_it_breaks')},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    r = sh(['bash', '-c', 'timeout 400 cargo test --offline 2>&1'], repo, env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(tmp, 't')))
    ok = {l.split(' ')[1] for l in r.stdout.splitlines() if l.startswith('test ') and l.rstrip().endswith('ok')}
    missing = [s for s in stable() if s.split('src/lib.rs::')[-1] not in ok]
    if missing:
        return 'tests: ' + (','.join(missing)[:150] if ok else [l for l in r.stdout.splitlines() if l.startswith('error')][:2].__repr__())
    r = sh(['bash', os.path.join(d, 'demo.sh')], repo)
    if r.returncode == 0:
        return 'demo passes with the patch'
    if r.returncode == 3:
        if sp['property'] != 'C20':
            return 'demo does not build: ' + r.stderr[-600:]
    sh(['git', 'checkout', '-q', '--', '.'], repo)
    r = sh(['bash', os.path.join(d, 'demo.sh')], repo)
    if r.returncode != 0:
        return 'demo fails on the unchanged tree: ' + r.stderr[-600:]
    return ''


def main():
    want = sys.argv[1:]
    from concurrent.futures import ThreadPoolExecutor
    import queue
    q = queue.Queue()
    tmps = []
    for _ in range(6):
        t = tempfile.mkdtemp(prefix='seed')
        tmps.append(t)
        sh(['git', 'clone', '-q', '/repo', t + '/repo'], '/')
        shutil.copy('/repo/Cargo.lock', t + '/repo/')
        q.put(t)

    def one(sp):
        t = q.get()
        try:
            return sp['id'], make(sp, t)
        finally:
            q.put(t)
    bad = 0
    with ThreadPoolExecutor(6) as ex:
        for i, r in ex.map(one, [s for s in specs.S if not want or s['id'] in want]):
            if r:
                bad += 1
                shutil.rmtree(os.path.join(OUT, i), ignore_errors=True)
            print(i, 'OK' if not r else 'REJECTED ' + r, flush=True)
    for t in tmps:
        shutil.rmtree(t)


if __name__ == '__main__':
    main()
