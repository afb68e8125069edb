"""Deciding a goal: a function of the crate agrees with its reference, and the
panic obligations of its whole call tree are infeasible."""
import signal, sys, time
from .eng import *
from . import eng as E
from . import val as V
from .dd import P as P_
from .compare import Cmp, Enough
from .subst import collect_atoms
from . import lp, witness
from . import subst as S

FREE = {'inp', 'rd', 'rdb', 'slen', 'lz', 'disc', 'fl', 'el', 'recok', 'recadv', 'recval', 'recerr', 'fd', 'bits', 'trem', 'tdiv',
        'and', 'or', 'xor', 'callfp', 'call', 'callout', 'utf8', 'utf8ok', 'adv', 'val', 'lpq', 'shl', 'shr', 'deflate', 'arg', 'mapped', 'qidx'}
MUTROOT = 'argmem'
KNOWN = {}          # facts about fields, see Engine.known
MEM = None          # limit on the address space
SOFT = [None]       # limit of the present stage, watched by the runner


class Verdict:
    def __init__(self):
        self.status = None          # EQUAL / EQUAL-BOUNDED / DIFFERENT / UNKNOWN / ABSENT / ERROR
        self.detail = []
        self.obl = []               # (verdict, obligation, cube)
        self.visited = set()
        self.unknown = {}
        self.loops = {}
        self.t = 0
        self.stats = {}
        self.more = None            # what is left to the finite analyses


def show_cube(c):
    r = []
    for L, lo, hi in c or ():
        if lo is not None and lo == hi:
            s = '%s = %d' % (short(L.poly), lo)
        elif lo is None:
            s = '%s <= %s' % (short(L.poly), hi)
        elif hi is None:
            s = '%s >= %s' % (short(L.poly), lo)
        else:
            s = '%s <= %s <= %s' % (lo, short(L.poly), hi)
        r.append(s)
    return r


def short(p, n=160):
    s = repr_lim(p)
    return s if len(s) <= n else s[:n] + '...'


def repr_lim(p, depth=0):
    s = []
    for m, c in p.terms[:8]:
        t = '*'.join(atom_str(by_id(i), depth) for i in m)
        s.append(str(c) if m == () else (t if c == 1 else '-' + t if c == -1 else '%d*%s' % (c, t)))
    if len(p.terms) > 8:
        s.append('...')
    return '+'.join(s).replace('+-', '-') or '0'


def atom_str(a, depth=0):
    if depth > 3:
        return a.kind + '..'
    k = a.kind
    if k == 'rd':
        return 'u%d@[%s]' % (8 * a.args[2], repr_lim(a.args[1], depth + 1))
    out = []
    for x in a.args[:5]:
        if isinstance(x, Atom):
            out.append(atom_str(x, depth + 1))
        elif isinstance(x, Poly):
            out.append(repr_lim(x, depth + 1))
        elif isinstance(x, (int, str)):
            out.append(str(x))
        else:
            out.append('_')
    return '%s(%s)' % (k, ','.join(out)) if out else k


def interpretable(atoms):
    """every atom is a free input or an operation with a meaning known to the solver"""
    # what one decompression reports is free; what two different ones report is related
    free = FREE | {'inflate', 'inflout'} if sum(a.kind == 'inflate' for a in atoms) == 1 else FREE
    return [a for a in atoms if a.kind not in free and not (a.kind.startswith('arg') or a.kind == 'inp')]


def mentions_q(a):
    acc = set()
    for x in a.args:
        collect_atoms(x, acc)
    return any(b.kind == 'qidx' for b in acc)


def cube_atoms(c):
    acc = set()
    for L, lo, hi in c or ():
        collect_atoms(L.poly, acc)
    return acc


def symbolic(c):
    """mentions an element at an index that is not a constant: what a
    precondition says of all elements is known at constant indices only"""
    return any(a.kind == 'el' and isinstance(a.args[1], Poly) and not a.args[1].is_const() for a in cube_atoms(c))


class Ev:
    def __init__(self, prog, opaque=(), fpopaque=False, bound=None):
        self.e = Engine(prog, opaque)
        self.e.fpopaque = fpopaque
        self.e.bound = bound
        self.e.known = KNOWN
        self.P = prog

    def args(self, key, given=None):
        raw = self.P.raw[key]
        e = self.e
        out, mem = [], {}
        for i in range(raw['argc']):
            ty = raw['locals'][i + 1]
            if given and i in given:
                v = given[i](self, ty)
                out.append(v)
                continue
            t = e.T[ty]
            r = e.int_range(t)
            if r and t['k'] != 'bool':
                out.append(leaf(P_(atom('arg%d' % i, (), *r))))
                continue
            nm = atom('inp' if i == 0 else 'arg%d' % i, ())
            if t['k'] == 'ref' and t.get('mut'):
                it = e.T[t['t']]
                root = (MUTROOT, i)
                if it['k'] == 'slice':
                    n = leaf(P_(atom('slen', (nm,), 0, SLEN)))
                    mem[root] = seq(('opq', nm, it['t'], n))
                    out.append(sl(('pl', root, ()), ZERO, n))
                else:
                    mem[root] = e.mk_lazy(nm, t['t'])
                    out.append(ref(root))
                continue
            if t['s'] == '&[u8]':
                out.append(sl(('in', nm), ZERO, leaf(P_(atom('slen', (nm,), 0, SLEN)))))
                continue
            out.append(e.mk_lazy(nm, ty))
        return out, mem

    def run(self, key, given=None):
        a, mem = self.args(key, given)
        st = St(TRUE, dict(mem))
        self.e.obl = []
        v = self.e.eval_fn(key, a, st)
        obs, self.e.obl = self.e.obl, []
        return v, st, obs


def care_of(obs, *more):
    c = TRUE
    for o in obs:
        if o.kind == 'cut':
            c = and_(c, not_(o.fail))
    for g in more:
        c = and_(c, g)
    return c


def panicfree(obs):
    """guard under which no obligation fails"""
    c = TRUE
    for o in obs:
        if o.kind not in ('cut', 'loop', 'alloc'):
            c = and_(c, not_(o.fail))
    return c


def okguard(ev, v, ty):
    t = ev.e.T[ty]
    if t.get('path') == 'std::result::Result':
        if isinstance(v, Lazy):
            v = ev.e.expand(v)
        if isinstance(v, En):
            return next((g for i, g, _ in v.alts if i == 0), FALSE)
    return TRUE


def precondition(ev, kp, given, obs):
    """restrict the obligations to the arguments the caller may pass"""
    if kp is None:
        return TRUE
    v, _, _ = ev.run(kp, given)
    for o in obs:
        o.fail = and_(v, o.fail)
    return v


def evaluate(ev, ka, kb, given, kp=None):
    while True:
        ev.e.opqcalled = set()
        va, sa, oa = ev.run(ka, given)
        ca, ev.e.opqcalled = ev.e.opqcalled, set()
        if ev.e.opaque:
            ev.e.memo.clear()
        vb, sb, ob = ev.run(kb, given)
        one = ca ^ ev.e.opqcalled
        if not one:
            break
        # a function kept opaque has to be called on both sides; otherwise its body is analysed
        ev.e.opaque -= one
        ev.e.memo.clear()
    rt = ev.P.raw[ka]['locals'][0]
    cut = any(o.kind == 'cut' for o in oa + ob)
    pre = precondition(ev, kp, given, [o for o in oa + ob if o.kind != 'cut'])
    care = care_of(oa + ob, pre)
    return va, sa, oa, vb, sb, ob, cut, care, rt, pre


def compare_once(ev, pair, errs, maxel):
    va, sa, oa, vb, sb, ob, cut, care, rt, pre = pair
    c = Cmp(ev.e, sa, sb, errs, maxel)

    def probe(c):
        if has_loops(ev) and ev.e.bound is None:
            # differences found with summarised loops are not final: any of them ends this mode
            return any(lp.feasible(g, ev.e, 400, 3.0)[0] is not False for g, s, w in c.out[:40])
        return bool(judge(ev, c, 400, 3.0)[0])
    c.probe = probe
    try:
        compare_all(c, va, vb, sa, sb, care, rt, ev)
    except Enough:
        pass
    return c


def compare_all(c, va, vb, sa, sb, care, rt, ev):
    # panicking executions are judged by the obligations, not by the comparison
    care2 = care
    c(va, vb, and_(care2, and_(sa.g, sb.g)) if sa.g is not FALSE and sb.g is not FALSE else care2, rt, 'result')
    # what a failing call leaves behind in its arguments is not specified
    care3 = and_(care2, and_(okguard(ev, va, rt), okguard(ev, vb, rt)))
    for r in sorted((r for r in sa.mem if r[0] == MUTROOT), key=repr):
        x, y = sa.mem.get(r), sb.mem.get(r)
        if x is not None and y is not None:
            c(x, y, care3, None, 'argument %d' % r[1])


CALLS = {'call', 'callfp', 'callout'}


def heads(a):
    """atoms with equal heads are results of the same opaque function"""
    if a.kind == 'callfp':
        return a.kind, len(a.args)
    return (a.kind,) + a.args[:2 if a.kind == 'callout' else 1] + (len(a.args),)


def callpairs(atoms):
    groups = {}
    for a in sorted((a for a in atoms if a.kind in CALLS), key=lambda a: a.id):
        groups.setdefault(heads(a), []).append(a)
    return sorted(((a, b) for x in groups.values() for i, a in enumerate(x) for b in x[:i]), key=lambda p: p[0].id)


READS = {'el', 'rd'}


def elpairs(atoms):
    """reads of the same memory at places that may coincide"""
    groups, seen, todo = {}, set(), list(atoms)
    while todo:
        a = todo.pop()
        if a.id in seen or a.kind in CALLS:
            continue
        seen.add(a.id)
        if a.kind == 'el' and len(a.args) == 2 or a.kind == 'rd':
            groups.setdefault((a.kind, id(a.args[0])) + a.args[2:], []).append(a)
        todo += [x for x in a.args if isinstance(x, Atom)]
    out = []
    for x in groups.values():
        x.sort(key=lambda a: a.id)
        for i, a in enumerate(x):
            for b in x[:i]:
                if isinstance(a.args[1], Poly) and isinstance(b.args[1], Poly) and not psub(a.args[1], b.args[1]).is_const():
                    out.append((a, b))
    return sorted(out, key=lambda p: p[0].id)[:200]


def sameargs(ev, c, A, B, g, depth=0):
    """do the arguments agree whenever g holds?"""
    if A.kind in READS:
        d = psub(A.args[1], B.args[1])
        h = and_(g, not_(deq(leaf(d), k_(0))))
        return h is FALSE or lp.feasible(h, ev.e, 400, 3.0)[0] is False
    sub = Cmp(ev.e, c.sta, c.stb, True, c.maxel)
    for x, y in zip(A.args, B.args):
        if x is y or isinstance(x, (str, int)) or x is None:
            continue
        sub(x, y, g, None, '')
        for h, s, w in sub.out:
            h = and_(g, h)
            if h is FALSE:
                continue
            r, cube = lp.feasible(h, ev.e, 400, 3.0)
            if depth < 2:
                r, cube = uncongruent(ev, c, h, r, cube, 400, 3.0, depth + 1)
            if r is not False:
                return False
        sub.out = []
    return True


def unify(ev, g, A, B):
    if A.kind == 'rd':
        return S.subst(g, {A: leaf(P_(B))}, full=True)
    ty = ev.e.obj_ty.get(A)
    return S.subst(g, {A: Lazy(B, ty) if ty is not None else lazy(B, None)}, full=True)


def congruent(ev, c, g):
    """g with the results of opaque calls identified whose arguments are the same"""
    no = set()
    for _ in range(12):
        for A, B in callpairs(collect_atoms(g)):
            if (A, B) not in no:
                if sameargs(ev, c, A, B, g):
                    g = unify(ev, g, A, B)
                    break
                no.add((A, B))
        else:
            break
    return g


def cubeguard(cube):
    g = TRUE
    for L, lo, hi in cube:
        x = leaf(L.poly)
        if lo is not None:
            g = and_(g, dge(x, k_(lo)))
        if hi is not None:
            g = and_(g, dge(k_(hi), x))
    return g


def uncongruent(ev, c, g, r, cube, budget, limit, depth=0):
    """a cube of g in which calls with the same arguments do not differ: (feasible, cube)"""
    for _ in range(16):
        if not r or cube is None:
            return r, cube
        k = cubeguard(cube)
        if k is FALSE:
            return r, cube
        for A, B in elpairs(cube_atoms(cube)) + callpairs(collect_atoms(k)):
            if sameargs(ev, c, A, B, k, depth):
                if A.kind in READS:
                    k = deq(leaf(psub(A.args[1], B.args[1])), k_(0))
                    g = or_(and_(g, not_(k)), unify(ev, and_(g, k), A, B))
                else:
                    g = or_(and_(g, not_(k)), and_(g, unify(ev, k, A, B)))
                r, cube = lp.feasible(g, ev.e, budget, limit)
                break
        else:
            return r, cube
    return None, cube


def judge(ev, c, budget=4000, limit=25.0):
    """-> (hard [(where, cube)], soft [where])"""
    hard, soft = [], []
    seen = {}
    more = 40
    for g, s, w in c.out:
        if hard:
            more -= 1
            if more < 0:
                break
        k = (g.id, s)
        if k in seen:
            continue
        seen[k] = 1
        if not s:
            g = congruent(ev, c, g)
        nl = not s and witness.nonlinear(g)
        if nl:
            x = witness.search(g, limit=min(limit, 8.0))
            if x is not None:
                hard.append((w, witness.cube(x)))
                continue
        r, cube = lp.feasible(g, ev.e, budget, limit)
        if not s:
            r, cube = uncongruent(ev, c, g, r, cube, budget, limit)
        if r is False:
            continue
        if not s and not nl and (r is None or interpretable(cube_atoms(cube))):
            x = witness.search(g, limit=min(limit, 8.0))
            if x is not None:
                hard.append((w, witness.cube(x)))
                continue
        s = s or r is None
        bad = interpretable(cube_atoms(cube)) if cube is not None else []
        bad += [a for a in (cube_atoms(cube) if cube is not None else ()) if a.kind != 'qidx' and mentions_q(a)]
        if not s and bad and all(a.kind in witness.STRINGS for a in bad):
            x = witness.search(g, limit=min(limit, 8.0))
            if x is not None:
                hard.append((w, witness.cube(x)))
                continue
        if s or bad:
            soft.append((w, cube, sorted({a.kind for a in bad})))
        else:
            hard.append((w, cube))
    return hard, soft


PARTIAL = None
DEADLINE = None


def decide(prog, repo_fn, ref_fn, opaque=(), fpopaque=False, given=None, errs=False, bound=2, maxel=4, obligations=True, pre=None, fix=(), allocs=True, known=None):
    global PARTIAL, KNOWN
    v = PARTIAL = Verdict()
    KNOWN = known or {}
    t0 = time.time()
    v.status = 'UNKNOWN'
    try:
        decide_(v, prog, repo_fn, ref_fn, opaque, fpopaque, given, errs, bound, maxel, obligations, pre, fix, allocs)
    finally:
        v.t = time.time() - t0
    return v


def passed(prog, key):
    """the integer constants with which the crate calls a function, per call"""
    out = []
    for raw in prog.raw.values():
        for b in raw['blocks']:
            t = b['t']
            if t[0] == 'call' and isinstance(t[2], int) and prog.types[t[2]].get('inst') == key and not raw['path'].startswith('__sa::'):
                c = {}
                for i, o in enumerate(t[3]):
                    v = o['k'].get('v') if o.get('o') == 'const' and isinstance(o.get('k'), dict) else None
                    if v and v[0] == 'i':
                        c[i] = int(v[1])
                out.append(c)
    return out


def reached(prog, key, e, fail, cube, cut):
    """the cube, if a call is known that leads to it: what the callers of a
    function at which recursion is cut pass on is known only as far as they
    pass constants; None otherwise"""
    args = {a.kind: a for a in cube_atoms(cube) if a.kind.startswith('arg')}
    if not cut or not args:
        return cube
    for c in passed(prog, key):
        if all(a[3:].isdigit() and int(a[3:]) in c for a in args):
            f = fail
            for a, x in args.items():
                f = and_(f, deq(leaf(P_(x)), k_(c[int(a[3:])])))
            r, cube2 = lp.feasible(f, e)
            if r and not interpretable(cube_atoms(cube2)):
                return cube2
    return None


def decide_(v, prog, repo_fn, ref_fn, opaque, fpopaque, given, errs, bound, maxel, obligations, pre, fix, allocs):
    ka, kb = locate(prog, repo_fn), locate(prog, ref_fn) if ref_fn else None
    if ka is None:
        v.status = 'ABSENT'
        v.detail = [('no function ' + repo_fn,)]
        return
    nokb = ref_fn and kb is None
    kp = locate(prog, pre) if pre else None
    if pre and kp is None:
        v.status = 'ABSENT'
        v.detail = [('no precondition ' + pre,)]
        return
    ev = Ev(prog, opaque, fpopaque)
    pair = None
    obs = []
    v.more = {'equal': kb is not None, 'openloops': set(), 'open': []}
    try:
        if kb is not None:
            pair = evaluate(ev, ka, kb, given, kp)
            obs = pair[2]
        else:
            _, _, obs = ev.run(ka, given)
            precondition(ev, kp, given, [o for o in obs if o.kind != 'cut'])
            v.status = 'ABSENT' if nokb else 'EQUAL'
            if nokb:
                v.detail = [('no reference ' + ref_fn,)]
        v.unknown = dict(ev.e.unknown)
        v.visited = set(ev.e.visited)
    except (Unsupported, RecursionError) as x:
        v.status = 'UNKNOWN'
        v.detail = [('analysis gave up: %s' % x, None, [])]
    open_ = []
    if not allocs:
        obs = [o for o in obs if o.kind != 'alloc']
    loops = has_loops(ev)
    v.stats['loops'] = loops
    v.loops = {k: sorted(x) for k, x in ev.e.looplog.items()}
    if obligations:
        for o in obs:
            r, cube = lp.feasible(o.fail, ev.e)
            if r is False:
                v.obl.append(('DISCHARGED', o, None))
            elif not loops or o.kind == 'loop' and not interpretable(cube_atoms(cube)):
                # (a 'loop' obligation states a certain repetition)
                known = r and not interpretable(cube_atoms(cube)) and reached(prog, ka, ev.e, o.fail, cube, repo_fn.startswith('cut:'))
                v.obl.append(('REFUTED' if known else 'OPEN', o, known or cube))
            else:
                v.obl.append(['OPEN', o, cube])
                open_.append(v.obl[-1])
    if pair is not None:
        try:
            if DEADLINE and loops:
                # leave time for the bounded analysis
                signal.alarm(max(1, int((DEADLINE - time.time()) * .8)))
            c = compare_once(ev, pair, errs, maxel)
            hard, soft = judge(ev, c)
            v.stats['S'] = (c.n, len(c.out), len(hard), len(soft))
            if not hard and not soft:
                v.status = 'EQUAL'
            elif hard and not loops:
                v.status = 'DIFFERENT'
                v.detail = hard
            else:
                v.detail = hard + soft
        except (Unsupported, RecursionError) as x:
            v.detail = [('analysis gave up: %s' % x, None, [])]
        except TimeoutError:
            v.detail = [('comparison took too long', None, [])]
        finally:
            if DEADLINE:
                signal.alarm(max(1, int(DEADLINE - time.time())))
    openloops = {(k[0], k[2]) for k, x in ev.e.looplog.items() if 'open' in x}
    v.more = {'equal': v.status == 'UNKNOWN' and kb is not None, 'openloops': openloops,
              'open': sorted({okey(x[1]) for x in open_ if x[0] == 'OPEN'}, key=repr)}


def okey(o):
    return o.kind, o.fn, o.span, o.callee


def decide_stage(prog, repo_fn, ref_fn, which, more, opaque=(), fpopaque=False, given=None, errs=False, bound=2, maxel=4, obligations=True, pre=None, fix=(), allocs=True, known=None):
    """one of the finite analyses of a goal that was left open (`more`, of decide):
    inputs of shape number `which`, or (which = None) all inputs, loops run a few times"""
    global PARTIAL, KNOWN
    v = PARTIAL = Verdict()
    KNOWN = known or {}
    t0 = time.time()
    v.status = 'UNKNOWN'
    ka, kb = locate(prog, repo_fn), locate(prog, ref_fn) if ref_fn else None
    kp = locate(prog, pre) if pre else None
    name, b, lens = (None, bound, None) if which is None else fix[which]
    v.refuted = {}
    try:
        if not more['equal']:
            v.status = 'EQUAL'
        if stage(v, prog, ka, kb, kp, given, opaque, fpopaque, errs, maxel, more['open'], more['openloops'], b, lens, repo_fn.startswith('cut:')) and v.status == 'UNKNOWN':
            v.status = 'EQUAL'
    except (Unsupported, RecursionError) as x:
        v.detail = list(v.detail) + [('%s analysis gave up: %s' % (name or 'bounded', x), None, [])]
    v.t = time.time() - t0
    return v


def stage(v, prog, ka, kb, kp, given, opaque, fpopaque, errs, maxel, open_, openloops, bound, lens, cut=False):
    """the goal with loops unrolled, over inputs of the given shape (if any);
    true when nothing differs there"""
    evu = Ev(prog, opaque, fpopaque, bound)
    evu.e.fixlen = lens
    evu.e.openloops = openloops
    if kb is not None:
        pair = evaluate(evu, ka, kb, given, kp)
        oa, care = pair[2], pair[7]
        both, pre0 = pair[2] + pair[5], pair[9]
    else:
        _, _, oa = evu.run(ka, given)
        both, pre0 = oa, precondition(evu, kp, given, [o for o in oa if o.kind != 'cut'])
        care = care_of(oa, pre0)
    if open_:
        # a precondition that was run out exactly speaks of every element
        inexact = kp and (lens is None or interpretable(collect_atoms(pre0)))
        bysite = {}
        for o in oa or ():
            if o.kind != 'cut':
                bysite.setdefault(okey(o), []).append(o)
        for key in open_:
            for q in bysite.get(key, ()):
                cq = care
                if q.kind == 'loop':
                    # the loop in question may be left open
                    cq = care_of([z for z in both if (z.fn, z.callee) != (q.fn, q.callee)], pre0)
                r2, cube2 = lp.feasible(and_(cq, q.fail), evu.e)
                if r2 and not interpretable(cube_atoms(cube2)) and not (inexact and symbolic(cube2)):
                    cube2 = reached(prog, ka, evu.e, and_(cq, q.fail), cube2, cut)
                    if cube2 is None:
                        continue
                    v.refuted[key] = q, cube2
                    break
    if kb is None or v.status != 'UNKNOWN':
        return True
    c = compare_once(evu, pair, errs, maxel)
    hard, soft = judge(evu, c)
    v.stats['U'] = (c.n, len(c.out), len(hard), len(soft))
    if hard:
        v.status = 'DIFFERENT'
        v.detail = hard
    elif soft:
        v.detail = v.detail + soft
    return not hard and not soft


def locate(prog, spec):
    """an instance by path; 'cut:X' is the function of the crate at which the
    recursion producing X is summarised"""
    if not spec.startswith('cut:'):
        return prog.find(spec)
    cut, _, _ = prog.cuts()
    ks = [k for k, (label, a) in cut.items() if label.split('::')[-1] == spec[4:] and not prog.raw[k]['path'].startswith('__sa::')]
    return ks[0] if len(ks) == 1 else None


def has_loops(ev):
    return getattr(ev.e, 'loopcount', 0) > 0


def report(v, lim=3):
    out = ['%s %.2fs %s' % (v.status, v.t, v.stats)]
    for d in v.detail[:lim]:
        out.append('   %s' % (d[0],))
        if len(d) > 1 and isinstance(d[1], list):
            out.append('      when ' + '; '.join(show_cube(d[1]))[:600])
        if len(d) > 2 and d[2]:
            out.append('      atoms %s' % d[2])
    n = {}
    for k, o, c in v.obl:
        n[k] = n.get(k, 0) + 1
    out.append('   obligations %s' % n)
    for k, o, c in v.obl:
        if k != 'DISCHARGED':
            out.append('      %s %s %s %s %s' % (k, o.kind, o.fn, o.span, o.callee))
            out.append('        when ' + '; '.join(show_cube(c))[:400])
    if v.unknown:
        out.append('   unknown %s' % {str(k)[:60]: n for k, n in list(v.unknown.items())[:5]})
    return '\n'.join(out)


if __name__ == '__main__':
    from . import build
    out, info = build.export('/repo')
    prog = Program(out)
    for a in sys.argv[1:]:
        x = a.split(',')
        f = {}
        if len(x) > 2:
            f['opaque'] = [y for y in x[2].split('+') if y]
        print(a)
        try:
            print(report(decide(prog, x[0], x[1] or None, **f)))
        except Exception:
            import traceback
            traceback.print_exc()
        sys.stdout.flush()
