"""Substitution of atoms (loop binders, opaque objects) in values."""
from .val import *
from . import val as V

EMPTY = frozenset()
_fb = {}


def binders(x):
    """free binder atoms ('k'/'mu') of a value"""
    if x is None or isinstance(x, (str, int, bool, float)):
        return EMPTY
    if isinstance(x, tuple):
        r = EMPTY
        for y in x:
            b = binders(y)
            if b:
                r = r | b
        return r
    r = _fb.get(x)
    if r is None:
        r = _fb[x] = _binders(x)
    return r


def _binders(x):
    if isinstance(x, Atom):
        if x.kind == 'out':
            # the slot is bound by the loop it is the result of
            mu, L = x.args
            return binders(L) | frozenset(a for a in binders(mu) if a.args[0] != L.d)
        r = binders(x.args)
        if x.kind in ('k', 'mu'):
            r = r | {x}
        return r
    if isinstance(x, Poly):
        r = EMPTY
        for m, _ in x.terms:
            for i in m:
                r = r | binders(by_id(i))
        return r
    if isinstance(x, Leaf):
        return binders(x.v) if isinstance(x.v, (Poly, FT, Val)) else EMPTY
    if isinstance(x, Node):
        r = binders(x.L.poly)
        for _, c in x.parts:
            r = r | binders(c)
        return r
    if isinstance(x, FT):
        return binders(x.args) if x.op != 'c' else EMPTY
    if isinstance(x, Agg):
        return binders(x.f)
    if isinstance(x, (En, Ref, Sl, Fn)):
        return binders(x.alts)
    if isinstance(x, Seq):
        return binders(x.base) | binders(x.effs)
    if isinstance(x, Lazy):
        return binders(x.atom)
    if isinstance(x, Loop):
        r = binders(x.effs) | binders(x.mus) | binders(x.x)
        r = frozenset(a for a in r if a.args[0] != x.d)
        # initial values are evaluated outside the loop
        for m in x.mus:
            r = r | binders(m[1])
        if x.n is not None:
            r = r | binders(x.n)
        return r
    return EMPTY


def collect_atoms(x, acc=None, seen=None, into_loops=True):
    """all atoms occurring anywhere in x"""
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [x]
    while st:
        x = st.pop()
        if x is None or isinstance(x, (str, int, bool, float)):
            continue
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if x in seen:
            continue
        seen.add(x)
        if isinstance(x, Atom):
            acc.add(x)
            st.append(x.args)
        elif isinstance(x, Poly):
            for m, _ in x.terms:
                st.extend(by_id(i) for i in m)
        elif isinstance(x, Leaf):
            if isinstance(x.v, (Poly, FT, Val)):
                st.append(x.v)
        elif isinstance(x, Node):
            st.append(x.L.poly)
            st.extend(c for _, c in x.parts)
        elif isinstance(x, FT):
            if x.op != 'c':
                st.append(x.args)
        elif isinstance(x, Agg):
            st.append(x.f)
        elif isinstance(x, (En, Ref, Sl, Fn)):
            st.append(x.alts)
        elif isinstance(x, Seq):
            st.append(x.base)
            st.append(x.effs)
        elif isinstance(x, Lazy):
            st.append(x.atom)
        elif isinstance(x, Loop):
            st.extend((x.effs, x.mus, x.x, x.n))
    return acc


class Subst:
    """m: atom -> Poly | diagram | Val.  level: do not enter loops binding this level"""

    def __init__(self, m, level=None, full=False):
        self.m = {a: (leaf(v) if isinstance(v, (Poly, FT)) else v) for a, v in m.items()}
        self.level = level
        self.full = full
        self.keys = frozenset(m)
        self.memo = {}

    def hit(self, x):
        return self.full or bool(binders(x) & self.keys)

    def __call__(self, x):
        if x is None or isinstance(x, (str, int, bool, float)):
            return x
        if isinstance(x, tuple):
            return tuple(self(y) for y in x)
        if not self.hit(x):
            return x
        r = self.memo.get(x)
        if r is None:
            r = self.memo[x] = self.go(x)
        return r

    # -- scalars
    def poly(self, p):
        """Poly -> diagram"""
        if not self.hit(p):
            return leaf(p)
        k = ('p', p)
        r = self.memo.get(k)
        if r is not None:
            return r
        r = None
        changed = False
        for mo, c in p.terms:
            t = k_(c)
            for i in mo:
                a = by_id(i)
                v = self.scalar(a)
                t = dmul(t, v)
            r = t if r is None else dadd(r, t)
        r = r if r is not None else ZERO
        self.memo[k] = r
        return r

    def scalar(self, a):
        """integer atom -> diagram"""
        if a in self.m:
            return self.m[a]
        if not self.hit(a):
            return leaf(P(a))
        k = ('s', a)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self._scalar(a)
        return r

    def _scalar(self, a):
        eng = V.Ctx.eng
        if a.kind == 'rd':
            base, off, w = a.args
            o = self.poly(off)
            b = self.obj(base) if isinstance(base, Atom) else base
            if isinstance(b, Val):
                # memory replaced by a slice value: little-endian recombination
                res = ZERO
                for i in range(w):
                    x = slice_read(eng, b, dadd(o, k_(i)))
                    res = dadd(res, dmul(x, k_(1 << (8 * i))))
                return res
            return apply(('rdw', b, w), lambda p: P(rd(b, p, w)), o)
        if a.kind in ('lz', 'disc', 'slen') and len(a.args) == 1 and isinstance(a.args[0], Atom):
            b = self.obj(a.args[0])
            if isinstance(b, Atom):
                return leaf(P(atom(a.kind, (b,), a.lo, a.hi)))
            if a.kind == 'lz':
                if isdd(b):
                    return b if not is_guard(b) else b2i(b)
                return leaf(P(atom('unk', ('substlz', b))))
            b = eng.expand(b)
            if a.kind == 'disc' and isinstance(b, En):
                r = k_(b.alts[-1][0])
                for vi, g, _ in reversed(b.alts[:-1]):
                    r = ite(g, k_(vi), r)
                return r
            if a.kind == 'slen':
                if isinstance(b, Sl):
                    return eng.sllen(b)
                if isinstance(b, Seq):
                    return eng.seqlen(b)
            return leaf(P(atom('unk', ('substobj', a.kind, b))))
        f = REBUILD.get(a.kind)
        if f is not None:
            return self.lift(a.args, lambda *xs: f(tuple(xs)))
        if a.kind in ('flt', 'feq'):
            args = [self.ft(x) for x in a.args]
            return b2i(apply_dd(a.kind, flt if a.kind == 'flt' else feq, *args))
        if a.kind in ('loopn',):
            return eng.efflen((TRUE, 'loop', self(a.args[0])))
        args = self(a.args)
        return leaf(P(atom(a.kind, args, a.lo, a.hi)))

    def lift(self, args, f):
        ds = []
        for x in args:
            if isinstance(x, Poly):
                ds.append(self.poly(x))
            elif isinstance(x, FT):
                ds.append(self.ft(x))
            else:
                ds.append(leaf(x) if not isinstance(x, (tuple,)) else leaf(x))
        r = None
        # sequential gated application
        def rec(i, acc):
            if i == len(ds):
                return leaf(f(*acc))
            gs = guards(ds[i])
            r = rec(i + 1, acc + [gs[-1][1]])
            for g, v in reversed(gs[:-1]):
                r = ite(g, rec(i + 1, acc + [v]), r)
            return r
        return rec(0, [])

    def ft(self, t):
        """FT -> diagram"""
        if t.op == 'c' or not self.hit(t):
            return leaf(t)
        k = ('f', t)
        r = self.memo.get(k)
        if r is not None:
            return r
        if t.op == 'lz':
            b = self.obj(t.args[0])
            r = leaf(ft('lz', (b,))) if isinstance(b, Atom) else b
        elif t.op == 'i2f':
            r = apply('i2f', i2f, self.poly(t.args[0]))
        elif t.op in ('add', 'sub', 'mul', 'div', 'rem'):
            op = t.op
            r = apply(('f', op), lambda x, y: fbin(op, x, y), self.ft(t.args[0]), self.ft(t.args[1]))
        elif t.op == 'mu' and t.args and t.args[0] in self.m:
            r = self.m[t.args[0]]
        else:
            r = self.lift(t.args, lambda *xs: ft(t.op, tuple(xs)))
        self.memo[k] = r
        return r

    # -- objects
    def obj(self, a):
        """object atom -> Atom or Val"""
        if a in self.m:
            v = self.m[a]
            if isinstance(v, Lazy):
                return v.atom
            return v
        if not self.hit(a):
            return a
        k = ('o', a)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self._obj(a)
        return r

    def _obj(self, a):
        eng = V.Ctx.eng
        if a.kind == 'fl':
            b = self.obj(a.args[0])
            if isinstance(b, Atom):
                return atom('fl', (b,) + a.args[1:])
            b = eng.expand(b)
            if isinstance(b, Agg):
                v = b.f[a.args[2]]
            elif isinstance(b, En):
                v = eng.proj(None, b, ('v', a.args[1], a.args[2]))
            else:
                v = lazy(atom('unk', ('substfl', b)), None)
            return v.atom if isinstance(v, Lazy) else v
        if a.kind == 'el':
            b = self.obj(a.args[0])
            i = self.poly(a.args[1])
            if isinstance(b, Atom):
                if isinstance(i, Leaf):
                    return atom('el', (b, i.v))
                ty = eng.obj_ty.get(a)
                gs = guards(i)
                r = lazy(atom('el', (b, gs[-1][1])), ty)
                for g, p in reversed(gs[:-1]):
                    r = vite(g, lazy(atom('el', (b, p)), ty), r)
                return r.atom if isinstance(r, Lazy) else r
            if isinstance(b, Sl):
                v = slice_read(eng, b, i)
            else:
                v = eng.select(b, i) if isinstance(b, Seq) else lazy(atom('unk', ('substel', b)), None)
            return v.atom if isinstance(v, Lazy) else v
        if a.kind == 'sel':
            s = self(a.args[0])
            i = self.poly(a.args[1])
            if isinstance(s, Seq) and (s is not a.args[0] or not (isinstance(i, Leaf) and i.v is a.args[1])):
                v = eng.select(s, i)
                return v.atom if isinstance(v, Lazy) else v
            return a
        return atom(a.kind, self(a.args), a.lo, a.hi)

    def go(self, x):
        eng = V.Ctx.eng
        if isinstance(x, Leaf):
            if isinstance(x.v, Poly):
                return self.poly(x.v)
            if isinstance(x.v, FT):
                return self.ft(x.v)
            if isinstance(x.v, Val):
                return leaf(self(x.v))
            return x
        if isinstance(x, Node):
            p = self.poly(x.L.poly)
            parts = [(h, self(c)) for h, c in x.parts]
            r = parts[-1][1]
            if isinstance(p, Leaf):
                for h, c in reversed(parts[:-1]):
                    r = ite(ge0(psub(K(h), p.v)), c, r)
            else:
                for h, c in reversed(parts[:-1]):
                    r = ite(dge(k_(h), p), c, r)
            return r
        if isinstance(x, Poly):
            r = self.poly(x)
            if isinstance(r, Leaf):
                return r.v
            eng.unknown['subst-gated-poly'] = 1
            return P(atom('unk', ('gated', r)))
        if isinstance(x, FT):
            r = self.ft(x)
            if isinstance(r, Leaf):
                return r.v
            eng.unknown['subst-gated-ft'] = 1
            return ft('unk', (r,))
        if isinstance(x, Atom):
            r = self.obj(x)
            if isinstance(r, Atom):
                return r
            if isdd(r) and isinstance(r, Leaf) and isinstance(r.v, Poly) and len(r.v.terms) == 1 and len(r.v.terms[0][0]) == 1 and r.v.terms[0][1] == 1:
                return by_id(r.v.terms[0][0][0])
            return atom('objval', (r,))
        if isinstance(x, Agg):
            return agg(*[self(y) for y in x.f])
        if isinstance(x, En):
            return en([(v, self(g), self(f)) for v, g, f in x.alts])
        if isinstance(x, Ref):
            return refs(norm_alts([(self(g), self(r), self(p)) for g, r, p in x.alts]))
        if isinstance(x, Sl):
            out = []
            for g, m, a, b in x.alts:
                g, a, b = self(g), self(a), self(b)
                if m[0] in ('in', 'ob'):
                    o = self.obj(m[1])
                    if isinstance(o, Sl):
                        for h, m2, a2, b2 in o.alts:
                            out.append((and_(g, h), m2, dadd(a2, a), dadd(a2, b)))
                        continue
                    if isinstance(o, Seq):
                        out.append((g, ('sq', o), a, b))
                        continue
                    out.append((g, (m[0], o) + m[2:], a, b))
                else:
                    out.append((g, self(m), a, b))
            return sls(norm_alts(out))
        if isinstance(x, Fn):
            return V._mk(Fn, tuple((self(g), t) for g, t in x.alts))
        if isinstance(x, Lazy):
            r = self.obj(x.atom)
            return lazy(r, x.ty) if isinstance(r, Atom) else r
        if isinstance(x, Seq):
            b = x.base
            pre = ()
            if b[0] == 'mu' and b[1] in self.m:
                s = self.m[b[1]]
                s = eng.expand(s) if isinstance(s, Lazy) else s
                b, pre = s.base, s.effs
            elif b[0] == 'opq':
                o = self.obj(b[1])
                if isinstance(o, Val):
                    o = eng.expand(o)
                if isinstance(o, Seq):
                    b, pre = o.base, o.effs
                else:
                    b = ('opq', o, b[2], self(b[3]))
            else:
                b = self(b)
            return seq(b, push_effs(pre, self(x.effs)))
        if isinstance(x, Loop):
            if x.d == self.level:
                # only initial values and trip count are outside the binder
                return loopv(x.d, self(x.n), x.x, x.effs, tuple((m[0], self(m[1]), m[2]) for m in x.mus))
            return loopv(x.d, self(x.n), self(x.x), self(x.effs), self(x.mus))
        raise TypeError(type(x))


def is_guard(d):
    while isinstance(d, Node):
        d = d.parts[0][1]
    return d is TRUE or d is FALSE


def norm_alts(alts):
    alts = [a for a in alts if a[0] is not FALSE]
    if len(alts) == 1:
        return [(TRUE,) + tuple(alts[0][1:])]
    return alts


def slice_read(eng, s, idx):
    r = None
    for g, m, a, b in reversed(s.alts):
        v = eng.mem_read(None, m, dadd(a, idx))
        r = v if r is None else vite(g, v, r)
    return r


def subst(v, m, level=None, full=False):
    if not m:
        return v
    return Subst(m, level, full)(v)
