"""Builds the analysed program: the MIR exporter, and the export of /repo's current
sources together with the reference modules of /verif/ref (a scratch copy is
compiled with `cargo check`; nothing of it is ever executed)."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache')
FLAGS = '-Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=on -Zalways-encode-mir --cap-lints allow'


class BuildError(Exception):
    pass


def _files(root, sub=''):
    out = []
    for d, ds, fs in os.walk(os.path.join(root, sub)):
        ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
        for f in sorted(fs):
            out.append(os.path.join(d, f))
    return out


def digest(paths, *extra):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    for e in extra:
        h.update(e.encode() + b'\0')
    return h.hexdigest()[:24]


def nightly_sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], check=True, capture_output=True, text=True).stdout.strip()


def driver():
    """path of the exporter binary, built when needed"""
    src = os.path.join(VERIF, 'driver', 'main.rs')
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, 'drv-' + digest([src]))
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid()
        r = subprocess.run(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', tmp], capture_output=True, text=True, cwd=CACHE)
        if r.returncode:
            raise BuildError('exporter does not build: ' + r.stderr[-2000:])
        os.replace(tmp, out)
    return out


def open_struct(src, name):
    """make the fields of a struct of the copied crate visible to the reference modules"""
    for d, _, fs in os.walk(src):
        if d.endswith('__sa'):
            continue
        for f in fs:
            if not f.endswith('.rs'):
                continue
            p = os.path.join(d, f)
            s = open(p).read()
            m = re.search(r'\bstruct\s+%s\b[^;{(]*\{' % re.escape(name), s)
            if not m:
                continue
            e = s.find('\n}', m.end())
            if e < 0:
                continue
            b = re.sub(r'(?m)^(\s+)(?!pub\b)(\w+)(\s*:)', r'\1pub \2\3', s[m.end():e])
            if b != s[m.end():e]:
                open(p, 'w').write(s[:m.end()] + b + s[e:])
                return True
    return False


def adapt(w, msg):
    """a struct with more fields than the reference modules know: they leave the new ones open"""
    m = re.match(r"cannot construct `(?:\w+::)*(\w+)(?:<.*>)?` with struct literal", msg['message'])
    if m:
        return open_struct(os.path.join(w, 'src'), m.group(1))
    m = re.match(r"missing fields? (.*) in initializer of", msg['message'])
    if not m:
        return False
    sp = next((x for x in msg['spans'] if x['is_primary']), None)
    names = re.findall(r'`(\w+)`', m.group(1))
    if sp is None or not names:
        return False
    p = os.path.join(w, sp['file_name'])
    b = open(p, 'rb').read()
    i = b.find(b'{', sp['byte_end'])
    if i < 0 or b[sp['byte_end']:i].strip():
        return False
    open(p, 'wb').write(b[:i + 1] + ''.join(' %s: crate::__sa::prim::any(),' % n for n in names).encode() + b[i + 1:])
    return True


def export(repo='/repo', with_ref=True, log=None):
    """(path of the exported program, info)"""
    drv = driver()
    refdir = os.path.join(VERIF, 'ref')
    mods = sorted(f[:-3] for f in os.listdir(refdir) if f.endswith('.rs')) if with_ref else []
    srcs = _files(repo, 'src') + [os.path.join(repo, 'Cargo.toml'), os.path.join(repo, 'README.md')]
    if os.path.exists(os.path.join(repo, 'Cargo.lock')):
        srcs.append(os.path.join(repo, 'Cargo.lock'))
    key = digest([s for s in srcs if os.path.exists(s)] + [os.path.join(refdir, m + '.rs') for m in mods], drv, repo, FLAGS)
    out = os.path.join(CACHE, 'x-' + key + '.json')
    info = out + '.info'
    if os.path.exists(out) and os.path.exists(info):
        return out, json.load(open(info))
    scratch = tempfile.mkdtemp(prefix='sa-build-')
    # one build at a time: cargo decides by modification times whether there is anything to do
    lock = open(os.path.join(CACHE, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(out) and os.path.exists(info):
            return out, json.load(open(info))
        w = os.path.join(scratch, 'w')
        os.mkdir(w)
        shutil.copytree(os.path.join(repo, 'src'), os.path.join(w, 'src'))
        for f in ('Cargo.toml', 'Cargo.lock', 'README.md'):
            if os.path.exists(os.path.join(repo, f)):
                shutil.copy(os.path.join(repo, f), os.path.join(w, f))
        if not os.path.exists(os.path.join(w, 'Cargo.lock')):
            shutil.copy(os.path.join(VERIF, 'sa', 'Cargo.lock.ref'), os.path.join(w, 'Cargo.lock'))
        lib = os.path.join(w, 'src', 'lib.rs')
        orig = open(lib).read()
        extra = next((x for x in (os.path.join(w, 'src', 'loader', 'mod.rs'), os.path.join(w, 'src', 'loader.rs')) if os.path.exists(x)), None)
        eorig = open(extra).read() if extra else ''
        tgt = os.path.join(CACHE, 'target')
        env = dict(os.environ, LD_LIBRARY_PATH=nightly_sysroot() + '/lib', RUSTC_WORKSPACE_WRAPPER=drv, CARGO_TARGET_DIR=tgt, RUSTFLAGS=FLAGS, CARGO_TERM_COLOR='never', SA_OUT=os.path.join(scratch, 'o.json'))
        dropped = {}
        d = os.path.join(w, 'src', '__sa')
        os.mkdir(d)
        live = list(mods)
        for m in mods:
            shutil.copy(os.path.join(refdir, m + '.rs'), os.path.join(d, m + '.rs'))
        adapted = []
        for rnd in range(len(mods) + 26):
            with open(lib, 'w') as f:
                f.write(orig + ('\n#[doc(hidden)]\n#[allow(warnings)]\npub mod __sa {\n' + ''.join('    pub mod %s;\n' % m for m in live) + '}\n' if live else ''))
            if extra and (rnd == 0 or not live):
                # names the private items of the blend module inside the crate
                with open(extra, 'w') as f:
                    f.write(eorig + ('\n#[doc(hidden)]\n#[allow(warnings)]\npub(crate) mod __sa_items {\n    pub(crate) use super::blend::*;\n}\n' if live and 'mod blend;' in eorig else ''))
            r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--lib', '--message-format=json'], cwd=w, env=env, capture_output=True, text=True)
            if r.returncode == 0:
                break
            bad, errs, kept, edited = set(), [], set(), {}
            for line in r.stdout.splitlines():
                try:
                    m = json.loads(line)
                except ValueError:
                    continue
                if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error':
                    continue
                errs.append(m['message'].get('rendered') or m['message']['message'])
                prim = [s['file_name'] for s in m['message']['spans'] if s['is_primary']]
                if len(adapted) < 24 and prim and prim[0].startswith('src/__sa/'):
                    # byte offsets hold for one edit per file and round
                    if prim[0] in edited or adapt(w, m['message']):
                        if prim[0] not in edited:
                            adapted.append(m['message']['message'][:160])
                        edited[prim[0]] = 1
                        kept.add(prim[0][9:-3])
                        continue
                for s in m['message']['spans']:
                    x = re.match(r'src/__sa/(\w+)\.rs$', s['file_name'])
                    if x:
                        bad.add(x.group(1))
                        dropped.setdefault(x.group(1), errs[-1][:800])
            if log:
                log('round %d: dropping %s\n%s' % (rnd, sorted(bad), '\n'.join(errs)[:6000]))
            bad &= set(live)
            if kept and not bad:
                continue
            if not bad:
                if live and not errs:
                    raise BuildError(r.stderr[-3000:])
                if live:
                    # errors outside the reference modules: try without them
                    for m in live:
                        dropped.setdefault(m, 'crate does not compile with the reference modules')
                    live = []
                    continue
                raise BuildError('the crate does not compile: ' + ('\n'.join(errs) or r.stderr)[-3000:])
            live = [m for m in live if m not in bad]
        else:
            raise BuildError('no compiling subset of the reference modules')
        o = env['SA_OUT']
        if not os.path.exists(o):
            raise BuildError('exporter wrote nothing: ' + r.stderr[-2000:])
        inf = {'dropped': {m: e for m, e in dropped.items() if m not in live}, 'adapted': adapted, 'modules': live, 'sha': key}
        shutil.move(o, out + '.tmp%d' % os.getpid())
        with open(info + '.tmp%d' % os.getpid(), 'w') as f:
            json.dump(inf, f)
        os.replace(info + '.tmp%d' % os.getpid(), info)
        os.replace(out + '.tmp%d' % os.getpid(), out)
        # keep the cache small
        xs = sorted((os.path.join(CACHE, f) for f in os.listdir(CACHE) if f.startswith('x-') and f.endswith('.json')), key=os.path.getmtime)
        for x in xs[:-6]:
            for y in (x, x + '.info'):
                if os.path.exists(y):
                    os.remove(y)
        return out, inf
    finally:
        lock.close()
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    print(export(sys.argv[1] if len(sys.argv) > 1 else '/repo', log=lambda s: print(s, file=sys.stderr)))
