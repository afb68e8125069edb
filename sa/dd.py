"""Term domain: atoms, polynomials over atoms, and interval decision diagrams.

Everything is interned, so structural equality is pointer equality.
"""
import sys

SLEN = 1 << 48      # no object is larger (assumption: 64-bit address space)
from math import gcd
sys.setrecursionlimit(200000)

INF = None  # open bound

# --------------------------------------------------------------------------
# atoms

class Atom:
    __slots__ = ('id', 'kind', 'args', 'lo', 'hi', 'bl')

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, o):
        return self.id < o.id


_atoms = {}
_atom_list = []


def atom(kind, args, lo=None, hi=None, bl=0):
    k = (kind, args)
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.id = len(_atom_list)
        a.kind = kind
        a.args = args
        a.lo = lo
        a.hi = hi
        a.bl = bl
        _atoms[k] = a
        _atom_list.append(a)
    return a


def by_id(i):
    return _atom_list[i]


# --------------------------------------------------------------------------
# polynomials

class Poly:
    __slots__ = ('id', 'terms', 'iv', 'deg', '_lin')

    def __repr__(self):
        return show_poly(self)

    def is_const(self):
        return not self.terms or (len(self.terms) == 1 and self.terms[0][0] == ())

    def const(self):
        """constant term"""
        if self.terms and self.terms[0][0] == ():
            return self.terms[0][1]
        return 0

    def cval(self):
        return self.terms[0][1] if self.terms else 0


_polys = {}
tighten = None      # hook: interval of a polynomial from facts about interpolating terms


def _mono_iv(m):
    lo, hi = 1, 1
    n = len(m)
    i = 0
    while i < n:
        j = i
        while j < n and m[j] == m[i]:
            j += 1
        a = _atom_list[m[i]]
        p = j - i
        alo, ahi = a.lo, a.hi
        if p > 1:
            if p % 2 == 0:
                if alo is not None and alo >= 0:
                    blo, bhi = alo ** p, (None if ahi is None else ahi ** p)
                elif alo is not None and ahi is not None:
                    blo, bhi = 0, max(alo ** p, ahi ** p)
                else:
                    blo, bhi = 0, None
            else:
                blo = None if alo is None else alo ** p
                bhi = None if ahi is None else ahi ** p
        else:
            blo, bhi = alo, ahi
        lo, hi = iv_mul((lo, hi), (blo, bhi))
        i = j
    return lo, hi


def iv_mul(a, b):
    if a == (0, 0) or b == (0, 0):
        return 0, 0
    if None not in a and None not in b:
        xs = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
        return min(xs), max(xs)
    # semi-bounded cases that matter: non-negative operands
    if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 0:
        lo = a[0] * b[0]
        hi = None if a[1] is None or b[1] is None else a[1] * b[1]
        return lo, hi
    return None, None


def iv_add(a, b):
    return (None if a[0] is None or b[0] is None else a[0] + b[0],
            None if a[1] is None or b[1] is None else a[1] + b[1])


def iv_scale(a, c):
    if c == 0:
        return 0, 0
    if c > 0:
        return (None if a[0] is None else a[0] * c, None if a[1] is None else a[1] * c)
    return (None if a[1] is None else a[1] * c, None if a[0] is None else a[0] * c)


def poly(terms):
    """terms: dict mono->coef or sorted tuple"""
    if isinstance(terms, dict):
        terms = tuple(sorted((m, c) for m, c in terms.items() if c))
    p = _polys.get(terms)
    if p is None:
        p = Poly()
        p.id = len(_polys)
        p.terms = terms
        p.deg = max((len(m) for m, _ in terms), default=0)
        p._lin = None
        lo, hi = 0, 0
        for m, c in terms:
            if m == ():
                lo, hi = iv_add((lo, hi), (c, c))
            else:
                lo, hi = iv_add((lo, hi), iv_scale(_mono_iv(m), c))
        p.iv = (lo, hi)
        _polys[terms] = p
        if tighten is not None and len(terms) > 1:
            p.iv = tighten(p)
        q = _merge_reads(p)
        if q is not p:
            _polys[terms] = q
            p = q
    return p


def _merge_reads(p):
    """b0 + 256*b1 + ... of adjacent little-endian byte reads is one wider read"""
    if len(p.terms) < 2:
        return p
    reads = []
    for m, c in p.terms:
        if len(m) == 1 and _atom_list[m[0]].kind == 'rd' and c > 0:
            reads.append((m, c))
    if len(reads) < 2:
        return p
    for m, c in reads:
        a = _atom_list[m[0]]
        base, off, w = a.args
        need = c << (8 * w)
        for m2, c2 in reads:
            if c2 == need:
                b = _atom_list[m2[0]]
                if b.args[0] is base and b.args[1] is padd(off, K(w)):
                    d = dict(p.terms)
                    del d[m], d[m2]
                    n = rd(base, off, w + b.args[2])
                    d[(n.id,)] = d.get((n.id,), 0) + c
                    return poly(d)
    return p


def rd(base, off, w):
    """unsigned little-endian read of w bytes of immutable memory `base`"""
    return atom('rd', (base, off, w), 0, (1 << (8 * w)) - 1)


_K = {}


def K(c):
    p = _K.get(c)
    if p is None:
        p = _K[c] = poly({(): c} if c else {})
    return p


def P(a):
    return poly((((a.id,), 1),))


def padd(a, b):
    if not a.terms:
        return b
    if not b.terms:
        return a
    d = dict(a.terms)
    for m, c in b.terms:
        x = d.get(m, 0) + c
        if x:
            d[m] = x
        else:
            d.pop(m, None)
    return poly(d)


def pscale(a, c):
    if c == 1:
        return a
    if c == 0:
        return K(0)
    return poly(tuple((m, x * c) for m, x in a.terms))


def psub(a, b):
    if a is b:
        return K(0)
    return padd(a, pscale(b, -1))


def pmul(a, b):
    if a.is_const():
        return pscale(b, a.cval())
    if b.is_const():
        return pscale(a, b.cval())
    d = {}
    for m, c in a.terms:
        for n, e in b.terms:
            k = tuple(sorted(m + n))
            x = d.get(k, 0) + c * e
            if x:
                d[k] = x
            else:
                d.pop(k, None)
    return poly(d)


# --------------------------------------------------------------------------
# linear forms used as decision variables

class Lin:
    __slots__ = ('id', 'poly', 'lo', 'hi')

    def __repr__(self):
        return 'L%d<%r>' % (self.id, self.poly)


_lins = {}


def lin_of(p):
    """p = scale*L + const with L primitive, leading coefficient positive"""
    if p._lin is not None:
        return p._lin
    c0 = 0
    ts = p.terms
    if ts and ts[0][0] == ():
        c0 = ts[0][1]
        ts = ts[1:]
    g = 0
    for _, c in ts:
        g = gcd(g, abs(c))
    if ts[0][1] < 0:
        g = -g
    key = poly(tuple((m, c // g) for m, c in ts))
    L = _lins.get(key)
    if L is None:
        L = Lin()
        L.id = len(_lins)
        L.poly = key
        L.lo, L.hi = key.iv
        _lins[key] = L
    p._lin = (L, g, c0)
    return p._lin


# --------------------------------------------------------------------------
# diagrams

class Leaf:
    __slots__ = ('id', 'v')

    def __repr__(self):
        return repr(self.v)


class Node:
    __slots__ = ('id', 'L', 'parts')  # parts: ((hi, child), ...), last hi None

    def __repr__(self):
        return show_dd(self)


_leaves = {}
_nodes = {}
_nid = [0]


def leaf(v):
    l = _leaves.get(v)
    if l is None:
        l = Leaf()
        l.v = v
        l.id = _nid[0]
        _nid[0] += 1
        _leaves[v] = l
    return l


class _B:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


TRUE = leaf(_B('T'))
FALSE = leaf(_B('F'))


_meets = {}


def _meet(p, q, L, h):
    """p and q are equal (as polynomials) where L = h"""
    k = (p, q, L, h)
    r = _meets.get(k)
    if r is None:
        e = dict(p.terms)
        for m, c in q.terms:
            e[m] = e.get(m, 0) - c
        c0 = e.pop((), 0)
        ts = sorted((m, c) for m, c in e.items() if c)
        ls = L.poly.terms
        r = len(ts) == len(ls) and all(m == m2 for (m, _), (m2, _) in zip(ts, ls))
        if r:
            k0, m0 = divmod(ts[0][1], ls[0][1])
            r = m0 == 0 and all(c == k0 * c2 for (_, c), (_, c2) in zip(ts, ls)) and c0 == -k0 * h
        _meets[k] = r
    return r


def node(L, parts):
    """parts: list of (hi, child) increasing; merge equal neighbours, clip"""
    lo, hi = L.lo, L.hi
    out = []
    n = len(parts)
    for i, (h, c) in enumerate(parts):
        if lo is not None and h is not None and h < lo:
            continue
        if hi is not None and h is not None and h >= hi:
            h = None
        if out and out[-1][1] is c:
            out[-1] = (h, c)
        else:
            out.append((h, c))
        if h is None:
            break
    if len(out) == 1:
        return out[0][1]
    # neighbours that agree at the boundary: the point goes to the upper one
    i = len(out) - 2
    while i >= 0:
        h, c = out[i]
        d = out[i + 1][1]
        if isinstance(c, Leaf) and isinstance(c.v, Poly) and isinstance(d, Leaf) and isinstance(d.v, Poly) and _meet(c.v, d.v, L, h):
            if (i > 0 and out[i - 1][0] == h - 1) or (i == 0 and lo is not None and lo == h):
                del out[i]
                if i > 0 and out[i - 1][1] is d:
                    del out[i - 1]
                    i -= 1
            else:
                out[i] = (h - 1, c)
        i -= 1
    if len(out) == 1:
        return out[0][1]
    k = (L, tuple(out))
    x = _nodes.get(k)
    if x is None:
        x = Node()
        x.id = _nid[0]
        _nid[0] += 1
        x.L = L
        x.parts = k[1]
        _nodes[k] = x
    return x


def ge0(p):
    """guard p >= 0"""
    lo, hi = p.iv
    if lo is not None and lo >= 0:
        return TRUE
    if hi is not None and hi < 0:
        return FALSE
    if p.is_const():
        return TRUE if p.cval() >= 0 else FALSE
    L, g, c = lin_of(p)
    if g > 0:  # L >= ceil(-c/g)
        t = -(c // g)
        return node(L, [(t - 1, FALSE), (None, TRUE)])
    t = c // (-g)  # L <= floor(c/|g|)
    return node(L, [(t, TRUE), (None, FALSE)])


def eq0(p):
    if p.is_const():
        return TRUE if p.cval() == 0 else FALSE
    lo, hi = p.iv
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    L, g, c = lin_of(p)
    if c % g:
        return FALSE
    t = -c // g
    return node(L, [(t - 1, FALSE), (t, TRUE), (None, FALSE)])


def boolatom(a):
    """guard: 0/1 atom is 1"""
    return eq0(padd(P(a), K(-1)))


def _split(xs, L):
    """common refinement of several diagrams on variable L: [(hi, [children])]"""
    res = []
    idx = [0] * len(xs)
    ps = [x.parts if isinstance(x, Node) and x.L is L else None for x in xs]
    while True:
        h = None
        for p, i in zip(ps, idx):
            if p is not None:
                ph = p[i][0]
                if ph is not None and (h is None or ph < h):
                    h = ph
        res.append((h, [x if p is None else p[i][1] for x, p, i in zip(xs, ps, idx)]))
        if h is None:
            return res
        for j, p in enumerate(ps):
            if p is not None and p[idx[j]][0] is not None and p[idx[j]][0] <= h:
                idx[j] += 1


def _top(xs):
    t = None
    for x in xs:
        if isinstance(x, Node) and (t is None or x.L.id < t.id):
            t = x.L
    return t


_apply_memo = {}


def apply(key, f, *xs):
    """lift leaf function f over diagrams; f takes leaf values, returns a leaf value"""
    memo = _apply_memo.setdefault(key, {})
    return _apply(memo, f, xs, False)


def apply_dd(key, f, *xs):
    """as apply but f returns a diagram"""
    memo = _apply_memo.setdefault(key, {})
    return _apply(memo, f, xs, True)


def _apply(memo, f, xs, isdd):
    k = tuple(x.id for x in xs)
    r = memo.get(k)
    if r is not None:
        return r
    L = _top(xs)
    if L is None:
        v = f(*[x.v for x in xs])
        r = v if isdd else leaf(v)
    else:
        parts = [(h, _apply(memo, f, cs, isdd)) for h, cs in _split(xs, L)]
        if isdd:
            r = _rebuild(L, parts)
        else:
            r = node(L, parts)
    memo[k] = r
    return r


def _rebuild(L, parts):
    """node on L whose children may have smaller top variables"""
    ok = all(not isinstance(c, Node) or c.L.id > L.id for _, c in parts)
    if ok:
        return node(L, parts)
    r = parts[-1][1]
    lo = None
    for h, c in reversed(parts[:-1]):
        r = ite(node(L, [(h, TRUE), (None, FALSE)]), c, r)
    return r


_ite_memo = {}


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a is TRUE and b is FALSE:
        return c
    k = (c.id, a.id, b.id)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    L = _top((c, a, b))
    if L is None:
        raise AssertionError('ite on non-boolean leaf')
    r = node(L, [(h, ite(*cs)) for h, cs in _split((c, a, b), L)])
    _ite_memo[k] = r
    return r


def and_(a, b):
    return ite(a, b, FALSE)


def or_(a, b):
    return ite(a, TRUE, b)


def not_(a):
    return ite(a, FALSE, TRUE)


def xor_(a, b):
    return ite(a, not_(b), b)


def implies_(a, b):
    return ite(a, b, TRUE)


_restrict_memo = {}


def restrict(f, c):
    """simplify f using care set c (f and result agree wherever c holds)"""
    if c is TRUE or isinstance(f, Leaf) or c is FALSE:
        return f
    k = (f.id, c.id)
    r = _restrict_memo.get(k)
    if r is not None:
        return r
    if c.L.id < f.L.id:
        d = FALSE
        for _, x in c.parts:
            d = or_(d, x)
        r = restrict(f, d)
    elif f.L.id < c.L.id:
        r = node(f.L, [(h, restrict(x, c)) for h, x in f.parts])
    else:
        out = []
        for h, (x, cc) in _split((f, c), f.L):
            out.append((h, None if cc is FALSE else restrict(x, cc)))
        # don't-care parts take a neighbour
        last = None
        for i, (h, x) in enumerate(out):
            if x is None and last is not None:
                out[i] = (h, last)
            elif x is not None:
                last = x
        nxt = None
        for i in range(len(out) - 1, -1, -1):
            h, x = out[i]
            if x is None:
                out[i] = (h, nxt)
            else:
                nxt = x
        r = node(f.L, out)
    _restrict_memo[k] = r
    return r


def leaves(d, memo=None):
    """set of leaf values"""
    out = []
    seen = set()
    st = [d]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if isinstance(x, Leaf):
            out.append(x.v)
        else:
            st.extend(c for _, c in x.parts)
    return out


def guards(d):
    """[(guard, leaf value)] partition"""
    out = []
    for v in sorted(leaves(d), key=lambda v: leaf(v).id):
        t = leaf(v)
        out.append((_is(d, t, {}), v))
    return out


def _is(d, t, memo):
    if d is t:
        return TRUE
    if isinstance(d, Leaf):
        return FALSE
    r = memo.get(d.id)
    if r is None:
        r = node(d.L, [(h, _is(c, t, memo)) for h, c in d.parts])
        memo[d.id] = r
    return r


_hull_memo = {}


def hull(d):
    """facts implied by guard d: dict Lin -> (lo, hi)"""
    r = _hull_memo.get(d.id)
    if r is not None:
        return r
    if isinstance(d, Leaf):
        return {} if d is TRUE else None
    acc = None
    prev = None
    for h, c in d.parts:
        lo = None if prev is None else prev + 1
        prev = h
        if c is FALSE:
            continue
        s = hull(c)
        if s is None:
            continue
        s = dict(s)
        o = s.get(d.L)
        s[d.L] = (lo, h)
        if acc is None:
            acc = s
        else:
            n = {}
            for L, (a, b) in acc.items():
                if L in s:
                    x, y = s[L]
                    lo2 = None if a is None or x is None else min(a, x)
                    hi2 = None if b is None or y is None else max(b, y)
                    if lo2 is not None or hi2 is not None:
                        n[L] = (lo2, hi2)
            acc = n
    _hull_memo[d.id] = acc
    return acc


def cubes(d, limit=256):
    """conjunctions [(Lin, lo, hi)] whose union is guard d, or None if too many"""
    out = []

    def go(x, acc):
        if x is FALSE:
            return True
        if x is TRUE:
            out.append(list(acc))
            return len(out) <= limit
        prev = None
        for h, c in x.parts:
            lo = None if prev is None else prev + 1
            prev = h
            if c is FALSE:
                continue
            acc.append((x.L, lo, h))
            ok = go(c, acc)
            acc.pop()
            if not ok:
                return False
        return True
    if not go(d, []):
        return None
    return out


def dd_size(d):
    seen = set()
    st = [d]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if isinstance(x, Node):
            st.extend(c for _, c in x.parts)
    return len(seen)


def lins_in(d, acc=None):
    acc = set() if acc is None else acc
    seen = set()
    st = [d]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if isinstance(x, Node):
            acc.add(x.L)
            st.extend(c for _, c in x.parts)
    return acc


# --------------------------------------------------------------------------
# printing

def show_atom(a):
    k = a.kind
    if k == 'rd':
        return 'u%d@%s+%r' % (8 * a.args[2], a.args[0], a.args[1])
    if k in ('o', 'len'):
        return '%s(%s)' % (k, show_any(a.args))
    return '%s(%s)' % (k, show_any(a.args))


def show_any(x):
    if isinstance(x, tuple):
        return ','.join(('(' + show_any(y) + ')') if isinstance(y, tuple) else show_any(y) for y in x)
    return repr(x) if not isinstance(x, str) else x


def show_poly(p):
    if not p.terms:
        return '0'
    s = []
    for m, c in p.terms:
        if m == ():
            s.append('%d' % c)
        else:
            t = '*'.join(show_atom(_atom_list[i]) for i in m)
            s.append(t if c == 1 else '-' + t if c == -1 else '%d*%s' % (c, t))
    return '+'.join(s).replace('+-', '-')


def show_dd(d, depth=0):
    if isinstance(d, Leaf):
        return repr(d.v)
    if depth > 6:
        return '..'
    s = []
    prev = None
    for h, c in d.parts:
        lo = None if prev is None else prev + 1
        prev = h
        rng = '%s..%s' % ('' if lo is None else lo, '' if h is None else h)
        if lo is not None and lo == h:
            rng = '==%d' % lo
        s.append('%s: %s' % (rng, show_dd(c, depth + 1)))
    return '[%r %s]' % (d.L.poly, '; '.join(s))
