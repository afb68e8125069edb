"""Structural rules: recursion depth, loops, effects, unsafe code, auto traits.
Each rule reads the exported program and names the construct that breaks it."""
import re
from .eng import *
from . import goals as G
from . import lp
from .dd import P as P_
from .facts import strengthen

SA = '__sa'


def is_ref(path):
    return '__sa' in path


def local(prog, k):
    r = prog.raw[k]
    return r['span'] is not None and str(r['span']).startswith('src/') and not is_ref(r['path']) and '/__sa/' not in str(r['span'])


def name(prog, k):
    return prog.raw[k]['path']


def roots(prog):
    """functions of the crate that are not methods of derived or formatting traits"""
    return [k for k in prog.raw if local(prog, k) and prog.raw[k]['trait'] is None and not prog.raw[k]['expn']]


def reach(prog, ks):
    g = prog.callgraph()
    seen, todo = set(ks), list(ks)
    while todo:
        for c in g.get(todo.pop(), ()):
            if c not in seen and c in prog.raw:
                seen.add(c)
                todo.append(c)
    return seen


# ---- recursion -----------------------------------------------------------------

def flat_ints(e, v, ty, pos=(), out=None):
    """integer leaves of an argument: position -> diagram"""
    out = {} if out is None else out
    t = e.T[ty]
    if isinstance(v, Lazy) and t['k'] in ('adt', 'tuple') and len(pos) < 3:
        v = e.expand(v)
    if isdd(v) and e.int_range(t) and t['k'] != 'bool':
        out[pos] = v
    elif isinstance(v, Agg):
        fts = None
        if t['k'] == 'tuple':
            fts = t['ts']
        elif t['k'] == 'adt' and t.get('v') and len(t['v']) == 1:
            fts = [f[1] for f in t['v'][0]['f']]
        for i, x in enumerate(v.f):
            if fts and i < len(fts):
                flat_ints(e, x, fts[i], pos + (i,), out)
    return out


class RecObl:
    def __init__(self, key, args):
        self.key, self.args = key, args


def carries(prog, ty, seen=None):
    """may hold a depth that is not an integer argument"""
    t = prog.types[ty]
    if t['k'] == 'ref':
        i = prog.types[t['t']]
        if i['k'] in ('slice', 'str'):
            return False
        if i['k'] in ('int', 'uint') or i['s'] in ('usize', 'u8', 'u16', 'u32', 'u64', 'i32', 'i64', 'isize'):
            return True
        if i['k'] == 'adt':
            if i['path'] in ('std::vec::Vec', 'alloc::vec::Vec'):
                return False
            return 'aseprite' in i.get('path', '') or i.get('local', False) or '::' in i['path'] and not i['path'].startswith(('std::', 'core::', 'alloc::', 'nom::'))
        return i['k'] in ('tuple', 'dyn', 'param', 'other')
    if t['k'] in ('closure', 'dyn', 'fnptr', 'other'):
        return True
    return False


def recursion(prog):
    res = {'rule': 'every cycle of the call graph reachable while loading or rendering carries an integer that strictly grows under a constant bound '
                   '(or shrinks from a constant), so that the depth does not depend on the input',
           'sites': 0, 'violations': [], 'undecided': [], 'visited': [], 'info': {}}
    rs = reach(prog, roots(prog))
    res['visited'] = sorted({name(prog, k) for k in rs})
    cyc = [c for c in prog.recursive_sccs() if any(local(prog, k) for k in c) and any(k in rs for k in c)]
    res['info'] = {'functions_in_call_graph': len(rs), 'cycles': len(cyc)}
    res['sites'] = 1 + len(cyc)
    for c in cyc:
        named = [k for k in c if local(prog, k) and '{closure' not in name(prog, k)]
        label = ' / '.join(sorted({name(prog, k) for k in named})) or name(prog, c[0])
        left = prog.sccs(frozenset(set(prog.raw) - set(c) | set(named)))
        left = [x for x in left if len(x) > 1]      # (a closure mentions its own type)
        if not named or left:
            res['undecided'].append('recursion through library code or closures: ' + label)
            continue
        verdict, why = rank(prog, c, named)
        res['info'][label] = why
        if verdict == 'ok':
            continue
        if verdict == 'bad':
            res['violations'].append({'key': 'recursion without a constant bound: ' + label, 'function': label, 'where': str(prog.raw[named[0]]['span']), 'detail': why})
        else:
            res['undecided'].append('recursion %s: %s' % (label, why))
    return res


def rank(prog, comp, named):
    calls = []          # (F, G, guard, {pos: value}, engine)
    args0 = {}
    unknown = carrier = False
    for F in named:
        ev = G.Ev(prog, ())
        e = ev.e
        e.cut = dict(prog.cuts()[0], **{k: None for k in named})
        e.recobl = True
        try:
            a, mem = ev.args(F)
            st = St(TRUE, dict(mem))
            e.obl = []
            e.eval_fn(F, a, st)
        except (Unsupported, RecursionError) as x:
            return 'unknown', 'analysis gave up: %s' % x
        tys = prog.raw[F]['locals'][1:]
        p = {}
        for i, v in enumerate(a):
            flat_ints(e, v, tys[i], (i,), p)
        args0[F] = p
        for o in e.obl:
            if o.kind != 'rec' or o.callee.key not in named:
                continue
            r = o.callee
            g, xs = r.key, r.args
            q = {}
            gt = prog.raw[g]['locals'][1:]
            for i, v in enumerate(xs):
                flat_ints(e, v, gt[i], (i,), q)
            calls.append((F, g, o.fail, q, e))
            for i, v in enumerate(xs):
                # what is passed on unchanged cannot count the depth
                if not any(v is w for w in a) and carries(prog, gt[i]):
                    carrier = True
    if not calls:
        return 'unknown', 'no recursive call found in the bodies'
    # candidate positions per function
    cand = {F: list(args0[F]) for F in named}
    best = None
    from itertools import product
    if all(cand.values()) and len(named) <= 6:
        combos = list(product(*[cand[F] for F in named]))[:64]
        for combo in combos:
            pos = dict(zip(named, combo))
            for up in (True, False):
                why = check(prog, comp, named, calls, args0, pos, up)
                if why is not None:
                    return 'ok', why
    # refutation: nothing else could hold a depth
    if carrier:
        return 'unknown', 'an argument may carry the depth'
    for F, g, fail, q, e in calls:
        for v in q.values():
            for x in leaves(v):
                if G.interpretable(G.cube_atoms([(type('L', (), {'poly': x})(), None, None)])) and any(by_id(i).kind == 'unk' for m, _ in x.terms for i in m):
                    unknown = True
    if unknown:
        return 'unknown', 'recursive arguments are not understood'
    return 'bad', 'no argument bounds the depth: ' + '; '.join(sorted({'%s calls %s' % (name(prog, F), name(prog, g)) for F, g, *_ in calls}))


def check(prog, comp, named, calls, args0, pos, up):
    strict = {}
    bounds = set()
    for F, g, fail, q, e in calls:
        p, v = args0[F][pos[F]], q.get(pos[g])
        if v is None:
            return None
        lo = dsub(v, p) if up else dsub(p, v)
        if infeasible(and_(fail, not_(dge(lo, k_(1)))), e):
            strict.setdefault((F, g), True)
        elif infeasible(and_(fail, not_(dge(lo, ZERO))), e):
            strict[(F, g)] = False
        else:
            return None
        if up:
            if strict[(F, g)]:
                K = upper(fail, p, e)
                if K is None:
                    return None
                bounds.add(K)
    # no cycle of calls that keep the value
    adj = {}
    for (F, g), s in strict.items():
        if not s:
            adj.setdefault(F, set()).add(g)
    for F in named:
        seen, todo = set(), list(adj.get(F, ()))
        while todo:
            x = todo.pop()
            if x == F:
                return None
            if x not in seen:
                seen.add(x)
                todo += adj.get(x, ())
    # the value at the outermost call
    init = outer(prog, comp, named, pos)
    if not up or any(signed(args0[F][pos[F]]) for F in named):
        if init is None:
            return None
    return 'argument %s of %s %s, bound %s, outermost value %s' % (
        pos[named[0]], name(prog, named[0]), 'grows' if up else 'shrinks', sorted(bounds) or 'from a constant', init)


def signed(d):
    return any((x.iv[0] is None or x.iv[0] < 0) for x in leaves(d))


def infeasible(g, e):
    return g is FALSE or lp.feasible(g, e, 1500, 10.0)[0] is False


def upper(fail, p, e):
    """a constant K with fail implying p <= K"""
    from .loops import thresholds
    cand = set()
    for L in lins_in(fail):
        cand |= thresholds(fail, L)
    cand = sorted({c + j for x in cand for c in (x, -x) for j in (0, 1, -1) if 0 <= c + j < 1 << 20})
    for K in cand[:200]:
        if infeasible(and_(fail, not_(dge(k_(K), p))), e):
            return K
    return None


def outer(prog, comp, named, pos):
    """constants passed by the callers outside the cycle, or None"""
    cg = prog.callgraph()
    vals = set()
    inside = set(comp)
    callers = [k for k in prog.raw if k not in inside and local(prog, k) and any(x in named for x in cg.get(k, ()))]
    for k in callers:
        ev = G.Ev(prog, ())
        e = ev.e
        e.cut = dict(prog.cuts()[0], **{k: None for k in named})
        e.recobl = True
        try:
            a, mem = ev.args(k)
            e.obl = []
            e.eval_fn(k, a, St(TRUE, dict(mem)))
        except (Unsupported, RecursionError):
            return None
        for o in e.obl:
            if o.kind == 'rec' and o.callee.key in named:
                r = o.callee
                q = {}
                gt = prog.raw[r.key]['locals'][1:]
                for i, v in enumerate(r.args):
                    flat_ints(e, v, gt[i], (i,), q)
                v = q.get(pos[r.key])
                if not (isinstance(v, Leaf) and v.v.is_const()):
                    return None
                vals.add(v.v.cval())
    return sorted(vals) if vals else None


# ---- loops ---------------------------------------------------------------------

def loops_of(prog, k):
    """headers of the natural loops of a body"""
    try:
        return list(prog.inst(k).loops)
    except Exception:
        return []


# ---- effects -------------------------------------------------------------------

DENY = [
    (r'^std::env::', 'the process environment'),
    (r'^std::fs::|^<?std::fs::|^std::path::Path::(exists|try_exists|metadata|symlink_metadata|read_dir|read_link|canonicalize|is_file|is_dir|is_symlink)|^std::os::', 'the file system or the operating system'),
    (r'^std::net::|^<?std::net::', 'the network'),
    (r'^std::process::', 'processes'),
    (r'^std::time::(Instant|SystemTime)|^<std::time::(Instant|SystemTime)', 'a clock'),
    (r'^std::thread::|^<?std::thread::', 'threads'),
    (r'^std::io::(stdin|stdout|stderr|_print|_eprint|read_to_string)|^std::io::stdio|^std::io::(Stdin|Stdout|Stderr)', 'the standard streams'),
    (r'RandomState::new|^<std::(collections::hash_map|hash)::RandomState as std::default::Default>', 'a random source'),
    (r'^std::panic::(set_hook|take_hook|catch_unwind)|^std::backtrace::Backtrace', 'process-wide panic state'),
]
DENY = [(re.compile(a), b) for a, b in DENY]
ITER = re.compile(r'HashMap::<.*>::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|extract_if)$|HashSet::<.*>::(iter|drain|retain|union|difference|intersection)$'
                  r'|^<&?(mut )?(\'\w+ )?(mut )?std::collections::Hash(Map|Set)<.*> as std::iter::IntoIterator>::into_iter$')
ORDERED = re.compile(r'sort|BTree|::min|::max|::sum|::count|::all|::any|::fold|BinaryHeap')
CELLS = re.compile(r'^(std|core|alloc)::(cell::|sync::(Mutex|RwLock|OnceLock|LazyLock|Once|Condvar|Barrier|mpsc|atomic|nonpoison|poison|ReentrantLock))')


def calls_of(prog, k):
    """(path, resolved path, crate, span, type) of the functions a body mentions"""
    raw = prog.raw[k]
    for b in raw['blocks']:
        t = b['t']
        if t[0] == 'call' and isinstance(t[2], int):
            f = prog.types[t[2]]
            if f['k'] == 'fndef':
                yield f, b['sp']
        for st in b['s']:
            if st[0] == '=':
                for o in walk_ops(st[2]):
                    if o.get('o') == 'const' and isinstance(o.get('t'), int):
                        f = prog.types[o['t']]
                        if f['k'] == 'fndef':
                            yield f, st[3] if len(st) > 3 else b['sp']
        if t[0] == 'call':
            for o in t[3] if isinstance(t[3], list) else ():
                if isinstance(o, dict) and o.get('o') == 'const' and isinstance(o.get('t'), int):
                    f = prog.types[o['t']]
                    if f['k'] == 'fndef':
                        yield f, b['sp']


def own(prog, k):
    """bodies whose calls are examined: the crate and the libraries it is built from"""
    if is_ref(prog.raw[k]['path']) or '/__sa/' in str(prog.raw[k]['span']):
        return False
    s = str(prog.raw[k]['span'])
    return s.startswith('src/') or '/registry/' in s


def effects(prog):
    res = {'rule': 'nothing reachable while loading or rendering calls into the environment, files, network, clock, threads, standard streams or random '
                   'sources, the crate has no mutable or interior mutable static, its types hide no interior mutability, and no hash map is iterated',
           'sites': 0, 'violations': [], 'undecided': [], 'visited': [], 'info': {}}
    rs = reach(prog, [k for k in prog.raw if local(prog, k)])
    seen, outside = set(), {}
    for k in sorted(rs):
        if not own(prog, k):
            continue
        res['visited'].append(name(prog, k))
        paths = []
        for f, sp in calls_of(prog, k):
            res['sites'] += 1
            p = [x for x in (f.get('rpath'), f.get('path')) if x]
            paths += p
            cr = f.get('crate')
            if cr and not f.get('local') and not f.get('inst'):
                outside.setdefault(cr, set()).add(p[0])
            for rx, what in DENY:
                if any(rx.search(x) for x in p):
                    key = '%s consults %s (%s)' % (name(prog, k), what, p[0])
                    if key not in seen:
                        seen.add(key)
                        res['violations'].append({'key': key, 'function': name(prog, k), 'where': str(sp), 'callee': p[0]})
                    break
            if any(ITER.search(x) for x in p):
                key = '%s iterates over a hash map in its random order (%s)' % (name(prog, k), p[0])
                if key not in seen:
                    seen.add(key)
                    paths.append('\0' + key)
        for x in paths:
            if x.startswith('\0'):
                if any(ORDERED.search(y) for y in paths if not y.startswith('\0')):
                    res['undecided'].append(x[1:])
                else:
                    res['violations'].append({'key': x[1:], 'function': name(prog, k), 'where': str(prog.raw[k]['span'])})
    for s in prog.d['statics']:
        path, mut, freeze, ty, sp = s
        if is_ref(path):
            continue
        res['sites'] += 1
        if not mut and freeze:
            continue
        if not mut and re.match(r'(std|core)::sync::LazyLock<', ty):
            res['undecided'].append('lazily initialised static ' + path)
            continue
        res['violations'].append({'key': 'static %s of type %s is mutable state shared between calls' % (path, ty), 'function': path, 'where': str(sp)})
    for a in prog.d['adts']:
        if is_ref(a[0]) or not a[3]:
            continue
        res['sites'] += 1
        c = cells(prog, a[1])
        if c:
            res['violations'].append({'key': '%s hides mutable state (%s)' % (a[0], c), 'function': a[0], 'where': str(a[4])})
    res['info'] = {'library_functions_called': {k: len(v) for k, v in sorted(outside.items())},
                   'outside_the_analysed_libraries': sorted(x for k, v in outside.items() if k not in ('core', 'alloc', 'std', 'nom', 'bitflags', 'itertools') for x in v)}
    return res


def cells(prog, ty, seen=None):
    seen = set() if seen is None else seen
    if ty in seen:
        return None
    seen.add(ty)
    t = prog.types[ty]
    if t['k'] == 'adt' and CELLS.search(t.get('path', '')):
        return t['s']
    subs = []
    for f in ('args', 'ts'):
        if isinstance(t.get(f), list):
            subs += [x for x in t[f] if isinstance(x, int)]
    if isinstance(t.get('t'), int):
        subs.append(t['t'])
    if isinstance(t.get('v'), list) and not t.get('path', '').startswith(('std::', 'core::', 'alloc::')):
        for v in t['v']:
            subs += [f[1] for f in v['f']]
    for x in subs:
        c = cells(prog, x, seen)
        if c:
            return c
    return None


# ---- unsafe code and auto traits ----------------------------------------------------

FILETYPES = ('AsepriteFile', 'RawFile', 'File')


def within(prog, ty, seen):
    if ty in seen:
        return
    seen.add(ty)
    t = prog.types[ty]
    for f in ('args', 'ts'):
        if isinstance(t.get(f), list):
            for x in t[f]:
                if isinstance(x, int):
                    within(prog, x, seen)
    if isinstance(t.get('t'), int):
        within(prog, t['t'], seen)
    if isinstance(t.get('v'), list):
        for v in t['v']:
            for f in v['f']:
                within(prog, f[1], seen)


def safety(prog):
    res = {'rule': 'the crate contains no unsafe block, function, implementation or foreign block of its own, and every type a loaded file consists of is Send and Sync',
           'sites': 0, 'violations': [], 'undecided': [], 'visited': [], 'info': {}}
    n = 0
    for u in prog.d['unsafe']:
        if '__sa' in u:
            continue
        m = re.match(r'unsafe block at (.*)', u)
        if m and not m.group(1).startswith('src/'):
            n += 1      # expansion of a standard macro
            continue
        res['violations'].append({'key': re.sub(r':\d+:\d+: \d+:\d+.*', '', u), 'function': u, 'where': m.group(1) if m else u})
    bodies = [k for k in prog.raw if local(prog, k)]
    res['visited'] = sorted({name(prog, k) for k in bodies})
    res['sites'] = len(bodies)
    parts = set()
    for a in prog.d['adts']:
        if not is_ref(a[0]) and a[0].split('::')[-1] in FILETYPES:
            within(prog, a[1], parts)
    chk = 0
    for a in prog.d['adts']:
        if is_ref(a[0]) or a[0].split('::')[-1].startswith('Internal') or not a[3]:
            continue
        send, sync = a[5], a[6]
        if send is None or sync is None:
            res['undecided'].append('auto traits of ' + a[0])
            continue
        chk += 2
        for ok, tr in ((send, 'Send'), (sync, 'Sync')):
            if ok:
                continue
            if a[1] in parts:
                res['violations'].append({'key': '%s is not %s' % (a[0], tr), 'function': a[0], 'where': str(a[4])})
            else:
                res['undecided'].append('%s is not %s, but is no part of a loaded file' % (a[0], tr))
    res['sites'] += chk
    res['info'] = {'bodies': len(bodies), 'auto_trait_facts': chk, 'types_in_a_loaded_file': len(parts), 'unsafe_blocks_of_standard_macros': n}
    if not parts:
        res['undecided'].append('no type named ' + ' or '.join(FILETYPES))
    return res


RULES = [
    {'id': 'recursion', 'props': ['C03'], 'fn': recursion},
    {'id': 'effects', 'props': ['C19'], 'fn': effects},
    {'id': 'safety', 'props': ['C20'], 'fn': safety},
]
