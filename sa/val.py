"""Structured values of the value-flow domain.  All interned."""
from .dd import *
from .ints import *
from . import dd as D

_tab = {}


def _mk(cls, *a):
    k = (cls,) + a
    x = _tab.get(k)
    if x is None:
        x = object.__new__(cls)
        for n, v in zip(cls.__slots__, a):
            object.__setattr__(x, n, v)
        x.id = len(_tab)
        _tab[k] = x
    return x


class Val:
    __slots__ = ()


class Agg(Val):
    __slots__ = ('f', 'id')

    def __repr__(self):
        return '{' + ', '.join(map(repr, self.f)) + '}'


class En(Val):
    """alts: ((variant index, guard, fields), ...) sorted by variant"""
    __slots__ = ('alts', 'id')

    def __repr__(self):
        return '<' + ' | '.join('#%d if %r %r' % a if a[1] is not TRUE else '#%d %r' % (a[0], a[2]) for a in self.alts) + '>'


class Ref(Val):
    """alts: ((guard, root, path), ...)"""
    __slots__ = ('alts', 'id')

    def __repr__(self):
        return '&' + '|'.join('%s%r.%r' % ('' if g is TRUE else '(%r)' % g, r, p) for g, r, p in self.alts)


class Sl(Val):
    """slice/str reference. alts: ((guard, mem, off, end), ...); off/end diagrams"""
    __slots__ = ('alts', 'id')

    def __repr__(self):
        return '&[' + '|'.join('%s%s %r..%r' % ('' if g is TRUE else '(%r)' % g, show_any(m), a, b) for g, m, a, b in self.alts) + ']'


class Fn(Val):
    """function value. alts: ((guard, type id), ...)"""
    __slots__ = ('alts', 'id')

    def __repr__(self):
        return 'fn' + '|'.join('%s%s' % ('' if g is TRUE else '(%r)' % g, t) for g, t in self.alts)


class Seq(Val):
    """growable sequence: base + ordered effects"""
    __slots__ = ('base', 'effs', 'id')

    def __repr__(self):
        return 'Seq(%s%s)' % (show_any(self.base), ''.join('; ' + show_any(e) for e in self.effs))


class Lazy(Val):
    """opaque value of a type, expanded on demand"""
    __slots__ = ('atom', 'ty', 'id')

    def __repr__(self):
        return 'Lazy(%r)' % (self.atom,)


class Undef(Val):
    __slots__ = ('id',)

    def __repr__(self):
        return 'UNDEF'


class Loop(Val):
    """closed loop summary used by loop effects and loop-out atoms.
    d: binder level; n: trip count diagram or None; x: exit guard (over binder);
    effs: per-iteration effects; mus: ((mu atom, init, next), ...)"""
    __slots__ = ('d', 'n', 'x', 'effs', 'mus', 'id')

    def __repr__(self):
        return 'Loop%d(n=%r, x=%s, effs=%s, mus=%s)' % (self.d, self.n, '..' if self.n is not None else repr(self.x), show_any(self.effs), show_any(self.mus))


UNDEF = _mk(Undef)


def agg(*f):
    return _mk(Agg, tuple(f))


def en(alts):
    alts = [a for a in alts if a[1] is not FALSE]
    if not alts:
        return UNDEF
    if len(alts) == 1:
        alts = [(alts[0][0], TRUE, alts[0][2])]
    alts.sort(key=lambda a: a[0])
    return _mk(En, tuple(alts))


def ref(root, path=()):
    return _mk(Ref, ((TRUE, root, path),))


def refs(alts):
    return _mk(Ref, tuple(alts)) if alts else UNDEF


def sl(mem, off, end):
    return _mk(Sl, ((TRUE, mem, off, end),))


def sls(alts):
    return _mk(Sl, tuple(alts)) if alts else UNDEF


def fnv(ty):
    return _mk(Fn, ((TRUE, ty),))


def seq(base, effs=()):
    return _mk(Seq, base, tuple(effs))


def lazy(a, ty):
    return _mk(Lazy, a, ty)


def loopv(d, n, x, effs, mus):
    return _mk(Loop, d, n, x, tuple(effs), tuple(mus))


def k_(n):
    return leaf(K(n))


def pl_(p):
    return leaf(p)


UNIT = agg()
ZERO = k_(0)
isdd = lambda v: isinstance(v, (Leaf, Node))


# ---- scalar helpers -------------------------------------------------------

def dadd(a, b):
    if isinstance(a, Leaf) and isinstance(b, Leaf):
        return leaf(padd(a.v, b.v))
    return apply('add', padd, a, b)


def dsub(a, b):
    if isinstance(a, Leaf) and isinstance(b, Leaf):
        return leaf(psub(a.v, b.v))
    return apply('sub', psub, a, b)


def dmul(a, b):
    return apply('mul', pmul, a, b)


def dge(a, b):
    """guard a >= b"""
    return apply_dd('ge', lambda x, y: ge0(psub(x, y)), a, b)


def dlt(a, b):
    return not_(dge(a, b))


def deq(a, b):
    if a is b:
        return TRUE
    return apply_dd('eq', lambda x, y: eq0(psub(x, y)) if isinstance(x, Poly) else (feq(x, y) if isinstance(x, FT) else (TRUE if x is y else FALSE)), a, b)


def dmin(a, b):
    return ite(dge(b, a), a, b)


def dmax(a, b):
    return ite(dge(a, b), a, b)


def b2i(g):
    return ite(g, k_(1), k_(0))


# ---- gated merge ----------------------------------------------------------

class Ctx:
    eng = None
    """needs the type table to expand Lazy values"""
    expand = None


def vite(g, a, b):
    """g ? a : b"""
    if a is b or g is TRUE:
        return a
    if g is FALSE:
        return b
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    da, db = isdd(a), isdd(b)
    if da and db:
        return ite(g, a, b)
    if isinstance(a, Lazy) and not isinstance(b, Lazy):
        a = Ctx.expand(a)
        return vite(g, a, b) if not isinstance(a, Lazy) else _unk(g, a, b)
    if isinstance(b, Lazy) and not isinstance(a, Lazy):
        b = Ctx.expand(b)
        return vite(g, a, b) if not isinstance(b, Lazy) else _unk(g, a, b)
    if isinstance(a, Lazy):
        x, y = Ctx.expand(a), Ctx.expand(b)
        if isinstance(x, Lazy) or isinstance(y, Lazy):
            return _unk(g, a, b)
        return vite(g, x, y)
    if type(a) is not type(b):
        return _unk(g, a, b)
    k = (g, a, b)
    r = _vite_memo.get(k)
    if r is None:
        r = _vite_memo[k] = _vite(g, a, b)
    return r


_vite_memo = {}
_unk_n = [0]


def _unk(g, a, b):
    _unk_n[0] += 1
    return lazy(atom('unk', ('merge', g, a, b)), None)


def _vite(g, a, b):
    if isinstance(a, Agg):
        if len(a.f) != len(b.f):
            return _unk(g, a, b)
        return agg(*[vite(g, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, En):
        A = {v: (h, f) for v, h, f in a.alts}
        B = {v: (h, f) for v, h, f in b.alts}
        out = []
        for v in sorted(set(A) | set(B)):
            ha = A[v][0] if v in A else FALSE
            hb = B[v][0] if v in B else FALSE
            h = ite(g, ha, hb)
            if v not in B:
                f = A[v][1]
            elif v not in A:
                f = B[v][1]
            elif A[v][1] is B[v][1] or not A[v][1]:
                f = A[v][1]
            else:
                gg = restrict(g, h)
                f = tuple(vite(gg, x, y) for x, y in zip(A[v][1], B[v][1]))
            out.append((v, h, f))
        return en(out)
    if isinstance(a, Ref):
        return refs(_malts(g, a.alts, b.alts, 2))
    if isinstance(a, Sl):
        return sls(_malts(g, a.alts, b.alts, 1))
    if isinstance(a, Fn):
        return _mk(Fn, tuple(_malts(g, a.alts, b.alts, 1)))
    if isinstance(a, Seq):
        return seq_ite(g, a, b)
    return _unk(g, a, b)


def _malts(g, A, B, nk):
    """alts: (guard, key..., payload...)"""
    da, db, keys = {}, {}, []
    for s, d in ((A, da), (B, db)):
        for alt in s:
            k = alt[1:1 + nk]
            if k not in da and k not in db:
                keys.append(k)
            d[k] = (alt[0], alt[1 + nk:])
    out = []
    for k in keys:
        ha = da[k][0] if k in da else FALSE
        hb = db[k][0] if k in db else FALSE
        h = ite(g, ha, hb)
        if h is FALSE:
            continue
        if k not in db:
            p = da[k][1]
        elif k not in da:
            p = db[k][1]
        else:
            gg = restrict(g, h)
            p = tuple(vite(gg, x, y) for x, y in zip(da[k][1], db[k][1]))
        out.append((h,) + k + p)
    if len(out) == 1:
        out = [(TRUE,) + out[0][1:]]
    return out


def eff_guard(g, e):
    return (and_(g, e[0]),) + e[1:]


def push_effs(effs, new):
    """append effects, merging adjacent disjoint pushes"""
    effs = list(effs)
    for e in new:
        if e[0] is FALSE:
            continue
        if e[1] == 'push' and effs and effs[-1][1] == 'push' and and_(effs[-1][0], e[0]) is FALSE:
            p = effs[-1]
            h = or_(p[0], e[0])
            effs[-1] = (h, 'push', vite(restrict(p[0], h), p[2], e[2]))
        else:
            effs.append(e)
    return tuple(effs)


def seq_ite(g, a, b):
    if a.base is not b.base and a.base != b.base:
        # a truncated/empty versus a filled one
        return seq(('ite', g, a, b))
    n = 0
    while n < len(a.effs) and n < len(b.effs) and a.effs[n] == b.effs[n]:
        n += 1
    ng = not_(g)
    # a longer common-prefix with a merged last push is handled by push_effs
    effs = push_effs(a.effs[:n], [eff_guard(g, e) for e in a.effs[n:]])
    effs = push_effs(effs, [eff_guard(ng, e) for e in b.effs[n:]])
    return seq(a.base, effs)
