"""Comparison of two values of the value-flow domain: collects guards under which
they differ.  Three kinds of entry: a definite difference of interpreted terms,
or an entry marked `soft` (representation could not be compared)."""
from .val import *
from . import val as V
from . import lp
from .ints import FT
from .subst import collect_atoms
from . import loops as LO

NOREF = object()


class Enough(Exception):
    """a definite difference is known: the rest need not be compared"""


def hashed(d):
    """the values hashed, when d is a hash"""
    if isinstance(d, Leaf) and len(d.v.terms) == 1:
        m, c = d.v.terms[0]
        if c == 1 and len(m) == 1:
            a = by_id(m[0])
            if a.kind == 'hash' and isinstance(a.args[0], Seq):
                return a.args[0]
    return None


def hashparts(effs):
    """the effects on a hash without their order within a step"""
    out = []
    for x in effs:
        if x[1] == 'loop':
            L = x[2]
            out.append((id(x[0]), 'loop', id(L.n), id(getattr(L, 'x', None))) + tuple(hashparts(L.effs)))
        else:
            out.append((id(x[0]), x[1]) + tuple(map(id, x[2:])))
    return sorted(out, key=repr)


class Cmp:
    def __init__(self, eng, sta=None, stb=None, errs=False, maxel=4, root=None):
        self.root = root or self
        self.total, self.next, self.probe = 0, 400, None
        self.e = eng
        self.T = eng.T
        self.sta, self.stb = sta, stb
        self.errs = errs
        self.maxel = maxel
        self.out = []       # (guard, soft, where)
        self.done = set()
        self.n = 0

    def diff(self, g, where, soft=False):
        if g is not FALSE:
            self.out.append((g, soft, where))

    def ex(self, v):
        return self.e.expand(v) if isinstance(v, Lazy) else v

    def tfields(self, ty, vi):
        if ty is None:
            return None, None
        t = self.T[ty]
        if t['k'] == 'adt' and t.get('v') and vi < len(t['v']):
            return [f[1] for f in t['v'][vi]['f']], [f[0] for f in t['v'][vi]['f']]
        if t['k'] == 'tuple':
            return t['ts'], None
        if t['k'] == 'closure':
            return t['ups'], None
        return None, None

    def __call__(self, a, b, care, ty=None, where=''):
        if a is b or care is FALSE:
            return
        k = (a, b, care)
        if k in self.done:
            return
        self.done.add(k)
        self.n += 1
        r = self.root
        r.total += 1
        if r.total >= r.next:
            r.next *= 2
            if r.out and r.probe is not None and r.probe(r):
                raise Enough()
        if where.count('<') > 12:
            return self.diff(care, where + ' (depth)', True)
        if a is UNDEF or b is UNDEF:
            return self.diff(care, where + ' (undefined)', True)
        if isinstance(a, Lazy) and isinstance(b, Lazy):
            x, y = self.ex(a), self.ex(b)
            if isinstance(x, Lazy) or isinstance(y, Lazy):
                return self.diff(care, where + ' (opaque)', True)
            return self(x, y, care, ty, where)
        a, b = self.ex(a), self.ex(b)
        if a is b:
            return
        if isdd(a) and isdd(b):
            return self.scalar(a, b, care, where)
        if type(a) is not type(b):
            return self.diff(care, where + ' (%s/%s)' % (type(a).__name__, type(b).__name__), True)
        if isinstance(a, Agg):
            if len(a.f) != len(b.f):
                return self.diff(care, where, True)
            ts, ns = self.tfields(ty, 0)
            for i, (x, y) in enumerate(zip(a.f, b.f)):
                self(x, y, care, ts[i] if ts and i < len(ts) else None, where + '.' + (ns[i] if ns and i < len(ns) else str(i)))
            return
        if isinstance(a, En):
            A = {v: (g, f) for v, g, f in a.alts}
            B = {v: (g, f) for v, g, f in b.alts}
            t = self.T[ty] if ty is not None else None
            isres = t is not None and t.get('path') == 'std::result::Result'
            for v in sorted(set(A) | set(B)):
                ga = A[v][0] if v in A else FALSE
                gb = B[v][0] if v in B else FALSE
                nm = t['v'][v]['n'] if t is not None and t.get('v') and v < len(t['v']) else '#%d' % v
                self.diff(and_(care, xor_(ga, gb)), where + '<' + nm + '>')
                if v in A and v in B and not (isres and v == 1 and not self.errs):
                    ts, ns = self.tfields(ty, v)
                    if isres:
                        ts = [t['args'][v]]
                    both = and_(care, and_(ga, gb))
                    fa, fb = A[v][1], B[v][1]
                    if len(fa) != len(fb):
                        self.diff(both, where + '<' + nm + '>', True)
                        continue
                    for i, (x, y) in enumerate(zip(fa, fb)):
                        self(x, y, both, ts[i] if ts and i < len(ts) else None, where + '<' + nm + '>.' + (ns[i] if ns and i < len(ns) else str(i)))
            return
        if isinstance(a, Sl):
            return self.slices(a, b, care, ty, where)
        if isinstance(a, Ref):
            for g, r, p in a.alts:
                for h, r2, p2 in b.alts:
                    c = and_(care, and_(g, h))
                    if c is FALSE or (r == r2 and p == p2 and self.sta is self.stb):
                        continue
                    try:
                        x = self.e.read(self.sta, r, p)
                        y = self.e.read(self.stb, r2, p2)
                    except Exception:
                        self.diff(c, where + ' (reference)', True)
                        continue
                    t = self.T[ty] if ty is not None else None
                    self(x, y, c, t['t'] if t and t['k'] in ('ref', 'ptr') else None, where + '.*')
            return
        if isinstance(a, Fn):
            for g, x in a.alts:
                for h, y in b.alts:
                    if x != y:
                        self.diff(and_(care, and_(g, h)), where + ' (function)', True)
            return
        if isinstance(a, Seq):
            return self.seqs(a, b, care, ty, where)
        self.diff(care, where + ' (%s)' % type(a).__name__, True)

    def scalar(self, a, b, care, where):
        ka, kb = kind(a), kind(b)
        if ka != kb:
            return self.diff(care, where + ' (kind)', True)
        if ka == 'b':
            return self.diff(and_(care, xor_(a, b)), where)
        if ka == 'f':
            g = apply_dd('cmpf', lambda x, y: FALSE if x is y else TRUE, a, b)
            g = and_(care, g)
            if g is FALSE:
                return
            from . import fterm
            h = apply_dd('cmpf2', fterm.differ, a, b)
            h = and_(care, h)
            if h is not FALSE:
                self.diff(h, where + ' (float)')
            return
        if ka == 'i':
            x, y = hashed(a), hashed(b)
            if x is not None and y is not None:
                # equal when the same values are hashed, whatever their order
                if x.base == y.base and hashparts(x.effs) == hashparts(y.effs):
                    return
                return self.seqs(x, y, care, None, where + ' (hashed)')
            return self.diff(and_(care, not_(deq(a, b))), where)
        g = apply_dd('cmpo', lambda x, y: FALSE if x is y else TRUE, a, b)
        self.diff(and_(care, g), where, True)

    def slices(self, a, b, care, ty, where):
        t = self.T[ty] if ty is not None else None
        el = None
        if t is not None and t['k'] in ('ref', 'ptr'):
            el = self.e.seq_elem(self.T[t['t']])
        for g, m, o, n in a.alts:
            for h, m2, o2, n2 in b.alts:
                c = and_(care, and_(g, h))
                if c is FALSE:
                    continue
                if m == m2 and (m[0] != 'pl' or self.sta is self.stb):
                    la, lb = dsub(n, o), dsub(n2, o2)
                    if isdd(o) and isdd(o2) and o is not o2:
                        # same memory: the same position, unless empty
                        self.diff(and_(c, and_(not_(deq(o, o2)), not_(and_(deq(la, ZERO), deq(lb, ZERO))))), where + ' (start)')
                    self.diff(and_(c, not_(deq(n, n2))) if n is not n2 and o is o2 else and_(c, not_(deq(la, lb))), where + ' (length)')
                    continue
                if m[0] == 'str' and m2[0] == 'str' and all(isinstance(x, Leaf) and x.v.is_const() for x in (o, n, o2, n2)):
                    x = m[1].encode()[o.v.cval():n.v.cval()]
                    y = m2[1].encode()[o2.v.cval():n2.v.cval()]
                    if x != y:
                        self.diff(c, where)
                    continue
                x = self.subseq(self.sta, m, o, n)
                y = self.subseq(self.stb, m2, o2, n2)
                if x is None or y is None:
                    self.diff(c, where + ' (memory)', True)
                    continue
                self.elements(x, y, dsub(n, o), dsub(n2, o2), o, o2, c, el, where)

    def subseq(self, st, m, o, n):
        if m[0] == 'pl':
            v = self.ex(self.e.read(st, m[1], m[2]))
            return ('s', v, st) if isinstance(v, Seq) else None
        if m[0] in ('sq', 'in', 'ob', 'str'):
            return ('m', m, st)
        return None

    def at(self, s, i):
        if s[0] == 's':
            return self.e.select(s[1], i, s[2])
        return self.e.mem_read(s[2], s[1], i)

    def elements(self, x, y, la, lb, o, o2, care, el, where, maxel=None):
        maxel = maxel or self.maxel
        d = and_(care, not_(deq(la, lb)))
        self.diff(d, where + '.len')
        c = and_(care, deq(la, lb))
        if x[0] == 's' and y[0] == 's' and o is ZERO and o2 is ZERO:
            if x[1] is y[1]:
                return
        for i in range(maxel):
            ci = and_(c, dge(la, k_(i + 1)))
            if ci is FALSE:
                return
            self(self.at(x, dadd(o, k_(i))), self.at(y, dadd(o2, k_(i))), ci, el, where + '[%d]' % i)
        for i in written(x, y, maxel):
            # positions that one of them writes to
            ci = and_(c, dge(la, k_(i + 1)))
            if ci is not FALSE:
                self(self.at(x, dadd(o, k_(i))), self.at(y, dadd(o2, k_(i))), ci, el, where + '[%d]' % i)
        ci = and_(c, dge(la, k_(maxel + 1)))
        if ci is not FALSE:
            # a further element: its position is a variable of the comparison
            q = leaf(P(atom('qidx', (), maxel, SLEN)))
            ci = and_(ci, dge(dsub(la, k_(1)), q))
            if ci is not FALSE:
                self(self.at(x, dadd(o, q)), self.at(y, dadd(o2, q)), ci, el, where + '[..]')

    def seqs(self, a, b, care, ty, where):
        e = self.e
        t = self.T[ty] if ty is not None else None
        if a.base[0] == 'ite' and not a.effs or b.base[0] == 'ite' and not b.effs:
            for ga, x in ites(a):
                for gb, y in ites(b):
                    c = and_(care, and_(ga, gb))
                    if x is not y and c is not FALSE and (c, x, y) not in self.done:
                        self.done.add((c, x, y))
                        if lp.feasible(c, e, 400)[0] is not False:
                            self.seqs(x, y, c, ty, where)
            return
        if a.effs != b.effs:
            a, b = self.live(a, care), self.live(b, care)
            if a is b:
                return
            a, b = self.fuse(a), self.fuse(b)
            b = self.align(a, b, care)
        if a.base == b.base and len(a.effs) == len(b.effs):
            # effect by effect
            sub = Cmp(e, self.sta, self.stb, self.errs, self.maxel)
            sub.probe = lambda c: any(lp.feasible(g, e, 400, 3.0)[0] is not False for g, s, w in c.out[:60])
            try:
                sub.effs(a.effs, b.effs, care, where, e.elem_ty_of(a))
            except Enough:
                pass
            if not sub.out:
                return
            plain = e.bound is not None and all(x[1] in ('store', 'over', 'push', 'ext') for x in a.effs + b.effs)
            if not plain and (any(x[1] == 'loop' for x in a.effs + b.effs) or any(x[1] in ('ins',) for x in a.effs + b.effs) or not all(x[1] == 'push' for x in a.effs + b.effs)):
                if all(x[1] in ('ins', 'store', 'over', 'push', 'ext') for x in a.effs + b.effs) and not any(s for _, s, _ in sub.out):
                    if all(x[1] == y[1] == 'store' for x, y in zip(a.effs, b.effs)):
                        return self.out.extend(sub.out)
                return self.out.extend((g, True, w) for g, s, w in sub.out)
        if t is not None and t.get('path') in ('std::collections::HashMap', 'std::collections::BTreeMap'):
            return self.diff(care, where + ' (map)', True)
        if any(x[1] == 'loop' for x in a.effs + b.effs):
            return self.diff(care, where + ' (loop)', True)
        el = e.seq_elem(t) if t is not None and t['k'] in ('adt', 'array') else (e.elem_ty_of(a) or e.elem_ty_of(b))
        more = 0
        if e.bound is not None:
            # every position that is written on its own
            for x in a.effs + b.effs:
                for i in {'store': x[2:3], 'over': x[2:4]}.get(x[1], ()):
                    if isinstance(i, Leaf) and i.v.is_const():
                        more = max(more, i.v.cval() + 1)
        self.elements(('s', a, self.sta), ('s', b, self.stb), e.seqlen(a), e.seqlen(b), ZERO, ZERO, care, el, where, max(self.maxel, min(more, 48)))

    def live(self, s, care):
        """s without the effects that cannot happen under care"""
        out = []
        for x in s.effs:
            g = restrict(x[0], care)
            if g is FALSE or and_(care, g) is FALSE or lp.feasible(and_(care, g), self.e, 400)[0] is False:
                continue
            if g is not x[0] and (g is TRUE or and_(care, not_(g)) is FALSE):
                g = TRUE
                x = (TRUE,) + x[1:]
            out.append(x)
        if len(out) == len(s.effs) and all(x is y for x, y in zip(out, s.effs)):
            return s
        r = seq(s.base, tuple(out))
        if s in self.e.seqty:
            self.e.seqty[r] = self.e.seqty[s]
        return r

    def remake(self, s, effs):
        r = seq(s.base, tuple(effs))
        if s in self.e.seqty:
            self.e.seqty[r] = self.e.seqty[s]
        return r

    def disjoint(self, g, h):
        x = and_(g, h)
        return x is FALSE or lp.feasible(x, self.e, 200)[0] is False

    def fuse(self, s):
        """the same effect under two exclusive conditions is one effect"""
        out = []
        for y in s.effs:
            for i in range(len(out) - 1, -1, -1):
                x = out[i]
                if x[1:] == y[1:] and self.disjoint(x[0], y[0]):
                    out[i] = (or_(x[0], y[0]),) + x[1:]
                    break
                if not self.disjoint(x[0], y[0]):
                    i = -1
                    break
            else:
                i = -1
            if i < 0:
                out.append(y)
        return s if len(out) == len(s.effs) else self.remake(s, out)

    def align(self, a, b, care):
        """b with exclusive effects reordered to match the order of a"""
        if len(a.effs) != len(b.effs) or len(a.effs) > 24:
            return b
        left, out = list(b.effs), []
        for x in a.effs:
            for j, y in enumerate(left):
                if x[1] == y[1] and (x[0] is y[0] or and_(care, xor_(x[0], y[0])) is FALSE or not self.disjoint(x[0], y[0])) and all(self.disjoint(y[0], z[0]) for z in left[:j]):
                    out.append(left.pop(j))
                    break
            else:
                return b
        return b if all(x is y for x, y in zip(out, b.effs)) else self.remake(b, out)

    def effs(self, A, B, care, where, el):
        for i, (x, y) in enumerate(zip(A, B)):
            if x == y:
                continue
            w = where + '{%d}' % i
            if x[1] != y[1]:
                self.diff(care, w, True)
                continue
            self.diff(and_(care, xor_(x[0], y[0])), w + ' (condition)')
            c = and_(care, and_(x[0], y[0]))
            if c is FALSE:
                continue
            if x[1] == 'push':
                self(x[2], y[2], c, el, w)
            elif x[1] == 'store' and x[3] == y[3]:
                if isdd(x[2]) and isdd(y[2]):
                    self.diff(and_(c, not_(deq(x[2], y[2]))), w + ' (index)')
                    c = and_(c, deq(x[2], y[2]))
                self(x[4], y[4], c, None, w)
            elif x[1] == 'loop':
                self.loop(x[2], y[2], c, w, el)
            else:
                for u, v in zip(x[2:], y[2:]):
                    if u is v or u == v:
                        continue
                    if isinstance(u, (Val, Leaf, Node)) and isinstance(v, (Val, Leaf, Node)):
                        self(u, v, c, None, w)
                    else:
                        self.diff(c, w, True)

    def loop(self, L, M, care, where, el):
        if L is M:
            return
        if L.d != M.d or len(L.effs) != len(M.effs) or len(L.mus) != len(M.mus):
            return self.diff(care, where + ' (loop shape)', True)
        if (L.n is None) != (M.n is None):
            return self.diff(care, where + ' (loop shape)', True)
        if L.n is not None:
            self.scalar(L.n, M.n, care, where + ' (iterations)')
        elif L.x is not M.x:
            self.diff(xor_(L.x, M.x), where + ' (loop exit)', True)
        for x, y in zip(L.mus, M.mus):
            if x != y:
                if x[0] is not y[0]:
                    return self.diff(care, where + ' (loop state)', True)
                n = len(self.out)
                self(x[2], y[2], TRUE, None, where + ' (next)')
                self.out[n:] = [(g, True, w) for g, s, w in self.out[n:]]
        n = len(self.out)
        self.effs(L.effs, M.effs, TRUE, where + '*', el)
        self.out[n:] = [(g, True, w) for g, s, w in self.out[n:]]


def ites(s, g=TRUE):
    if s.base[0] == 'ite' and not s.effs:
        _, h, x, y = s.base
        return ites(x, and_(g, h)) + ites(y, and_(g, not_(h)))
    return [(g, s)]


def kind(d):
    while isinstance(d, Node):
        d = d.parts[0][1]
    if d is TRUE or d is FALSE:
        return 'b'
    if isinstance(d.v, Poly):
        return 'i'
    if isinstance(d.v, FT):
        return 'f'
    return 'o'


def written(x, y, least, most=8):
    """constant positions from `least` on at which the two sequences are written to"""
    s = set()
    for z in (x, y):
        if z[0] == 's':
            for e in z[1].effs:
                if e[1] == 'store' and isinstance(e[2], Leaf) and e[2].v.is_const() and e[2].v.cval() >= least:
                    s.add(e[2].v.cval())
    s = sorted(s)
    return s[:most // 2] + s[-most // 2:] if len(s) > most else s
