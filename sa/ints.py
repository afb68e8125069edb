"""Integer operations on diagrams of polynomials (mathematical integers with
explicit wrap-around atoms), and on float terms."""
from .dd import *
from . import dd as D

REBUILD = {}


def nonneg(p):
    return p.iv[0] is not None and p.iv[0] >= 0


def in_range(p, lo, hi):
    a, b = p.iv
    return a is not None and b is not None and a >= lo and b <= hi


def trange(bits, signed):
    if signed:
        return -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    return 0, (1 << bits) - 1


# ---- floor division by a positive constant, and bit fields ---------------

def fd(p, d):
    """floor(p / d), d a positive constant; returns Poly"""
    if d == 1:
        return p
    if p.is_const():
        return K(p.cval() // d)
    q, r = {}, {}
    for m, c in p.terms:
        k = c // d
        rem = c - k * d
        if m == ():
            # keep constant remainder in [0,d)
            q[m] = k
            if rem:
                r[m] = rem
        elif rem == 0:
            q[m] = k
        else:
            # move whole multiples out only when that leaves a bounded remainder
            if c > 0 and k > 0:
                q[m] = k
                r[m] = rem
            else:
                r[m] = c
    q, r = poly({m: c for m, c in q.items() if c}), poly(r)
    lo, hi = r.iv
    if lo is not None and hi is not None and lo // d == hi // d:
        return padd(q, K(lo // d))
    # bounded disjoint split: r = d*A + B already removed; try dropping small terms
    if lo is not None and lo >= 0:
        # terms whose sum stays below the granularity of the rest
        g = 0
        big, small = {}, {}
        for m, c in r.terms:
            pass
    if r.is_const():
        return padd(q, K(r.cval() // d))
    if len(r.terms) == 1 and r.terms[0][1] == 1 and len(r.terms[0][0]) == 1:
        a = by_id(r.terms[0][0][0])
        if a.kind == 'fd':
            return padd(q, fd(a.args[0], a.args[1] * d))
        if a.kind == 'rd' and d in (256, 65536, 1 << 24, 1 << 32):
            k = (d.bit_length() - 1) // 8
            b, off, w = a.args
            if w > k:
                return padd(q, P(rd(b, padd(off, K(k)), w - k)))
        if a.kind == 'bits' and d & (d - 1) == 0:
            k = d.bit_length() - 1
            x, s, w = a.args
            return padd(q, bits(x, s + k, w - k)) if w > k else q
    a = atom('fd', (r, d), None if lo is None else lo // d, None if hi is None else hi // d)
    return padd(q, P(a))


def bits(p, s, w):
    """floor(p / 2^s) mod 2^w"""
    if w <= 0:
        return K(0)
    if p.is_const():
        return K((p.cval() >> s) & ((1 << w) - 1))
    M = 1 << (s + w)
    # reduce coefficients modulo 2^(s+w)
    t = {}
    for m, c in p.terms:
        c %= M
        if c:
            if c > M // 2 and m != ():
                # prefer small signed representative when p was signed
                pass
            t[m] = c
    q = poly(t)
    if in_range(p, 0, M - 1):
        return fd(p, 1 << s)
    if in_range(q, 0, M - 1):
        return fd(q, 1 << s)
    # single-atom shortcuts
    if len(q.terms) == 1 and len(q.terms[0][0]) == 1:
        m, c = q.terms[0]
        a = by_id(m[0])
        if c == 1 and a.kind == 'fd' and (a.args[1] & (a.args[1] - 1)) == 0:
            return bits(a.args[0], s + a.args[1].bit_length() - 1, w)
        if c == 1 and a.kind == 'bits':
            x, s2, w2 = a.args
            return bits(x, s2 + s, min(w, w2 - s))
        if c == 1 and a.kind == 'rd' and s % 8 == 0 and w % 8 == 0:
            b, off, n = a.args
            k = s // 8
            if k + w // 8 <= n:
                return P(rd(b, padd(off, K(k)), w // 8))
        if c & (c - 1) == 0 and c > 1:
            k = c.bit_length() - 1
            x = poly({m: 1})
            if s >= k:
                return bits(x, s - k, w)
            return pscale(bits(x, 0, w - (k - s)), 1 << (k - s))
    # disjoint bit-range sum: each term 2^k * x with x in [0, 2^n)
    parts = []
    okk = True
    for m, c in q.terms:
        x = poly({m: 1}) if m != () else None
        if m == ():
            for b in range(c.bit_length()):
                if c >> b & 1:
                    parts.append((b, 1, K(1)))
            continue
        if c & (c - 1):
            okk = False
            break
        lo, hi = x.iv
        if lo is None or lo < 0 or hi is None:
            okk = False
            break
        parts.append((c.bit_length() - 1, hi.bit_length(), x))
    if okk and len(parts) > 1:
        parts.sort(key=lambda t: t[0])
        if all(parts[i][0] + parts[i][1] <= parts[i + 1][0] for i in range(len(parts) - 1)):
            r = K(0)
            for k, n, x in parts:
                lo, hi = max(s, k), min(s + w, k + n)
                if lo < hi:
                    r = padd(r, pscale(bits(x, lo - k, hi - lo), 1 << (lo - s)))
            return r
    if s == 0:
        # x - 2^w*floor: keep canonical polynomial in the reduced form
        p0 = q
    else:
        p0 = q
    a = atom('bits', (p0, s, w), 0, (1 << w) - 1)
    return P(a)


REBUILD['fd'] = lambda a: fd(*a)
REBUILD['bits'] = lambda a: bits(*a)
REBUILD['rd'] = lambda a: P(rd(*a))


def wrap(p, nbits, signed):
    lo, hi = trange(nbits, signed)
    if in_range(p, lo, hi):
        return p
    if signed:
        h = 1 << (nbits - 1)
        return padd(bits(padd(p, K(h)), 0, nbits), K(-h))
    return bits(p, 0, nbits)


def pand(a, b, nbits):
    """bitwise and of non-negative representatives; b constant if possible"""
    if a.is_const():
        a, b = b, a
    if a.is_const():
        return K(a.cval() & b.cval())
    if b.is_const():
        m = b.cval() & ((1 << nbits) - 1)
        r = K(0)
        i = 0
        while m >> i:
            if m >> i & 1:
                j = i
                while m >> j & 1:
                    j += 1
                r = padd(r, pscale(bits(a, i, j - i), 1 << i))
                i = j
            else:
                i += 1
        return r
    if a is b:
        return a
    x, y = sorted((a, b), key=lambda p: p.id)
    his = [p.iv[1] for p in (a, b) if nonneg(p) and p.iv[1] is not None]
    return P(atom('and', (x, y), 0 if (nonneg(a) or nonneg(b)) else None,
                  min(his) if his and nonneg(a) and nonneg(b) else None))


def bitparts(p):
    """set of bit positions p (non-negative) may have, or None"""
    if p.is_const():
        return p.cval() if p.cval() >= 0 else None
    m = 0
    tot = 0
    for mo, c in p.terms:
        if c < 0:
            return None
        if mo == ():
            x = c
        else:
            lo, hi = poly({mo: 1}).iv
            if lo is None or lo < 0 or hi is None or c & (c - 1):
                return None
            x = ((1 << hi.bit_length()) - 1) * c
        if m & x:
            return None
        m |= x
    return m


def por(a, b):
    if a.is_const() and b.is_const():
        return K(a.cval() | b.cval())
    if a is b:
        return a
    x, y = bitparts(a), bitparts(b)
    if x is not None and y is not None and x & y == 0:
        return padd(a, b)
    if b.is_const() and b.cval() >= 0 and nonneg(a) and a.iv[1] is not None:
        # a | c = c + (a & ~c)
        n = max(a.iv[1].bit_length(), b.cval().bit_length())
        return padd(b, pand(a, K(((1 << n) - 1) & ~b.cval()), n))
    if a.is_const():
        return por(b, a)
    u, v = sorted((a, b), key=lambda p: p.id)
    hi = None
    if nonneg(a) and nonneg(b) and a.iv[1] is not None and b.iv[1] is not None:
        hi = (1 << max(a.iv[1].bit_length(), b.iv[1].bit_length())) - 1
    return P(atom('or', (u, v), 0 if nonneg(a) and nonneg(b) else None, hi))


def pxor(a, b):
    if a.is_const() and b.is_const():
        return K(a.cval() ^ b.cval())
    if a is b:
        return K(0)
    if b.is_const() and b.cval() >= 0 and nonneg(a) and a.iv[1] is not None:
        n = max(a.iv[1].bit_length(), b.cval().bit_length())
        keep = pand(a, K(((1 << n) - 1) & ~b.cval()), n)
        flip = psub(b, pand(a, b, n))
        return padd(keep, flip)
    if a.is_const():
        return pxor(b, a)
    u, v = sorted((a, b), key=lambda p: p.id)
    hi = None
    if nonneg(a) and nonneg(b) and a.iv[1] is not None and b.iv[1] is not None:
        hi = (1 << max(a.iv[1].bit_length(), b.iv[1].bit_length())) - 1
    return P(atom('xor', (u, v), 0 if nonneg(a) and nonneg(b) else None, hi))


REBUILD['and'] = lambda a: pand(a[0], a[1], 128)
REBUILD['or'] = lambda a: por(*a)
REBUILD['xor'] = lambda a: pxor(*a)


def tdiv(a, b):
    """truncated division (b != 0)"""
    if b.is_const():
        d = b.cval()
        if d == 0:
            return P(atom('tdiv', (a, b)))
        if d < 0:
            return pscale(tdiv(a, K(-d)), -1)
        if nonneg(a):
            return fd(a, d)
        if all(c % d == 0 for _, c in a.terms):
            return fd(a, d)
        if a.is_const():
            x = a.cval()
            return K(-((-x) // d) if x < 0 else x // d)
        if a.iv[1] is not None and a.iv[1] <= 0:
            return pscale(fd(pscale(a, -1), d), -1)
    if a is b:
        return K(1)
    if not a.terms:
        return a
    lo, hi = None, None
    (al, ah), (bl, bh) = a.iv, b.iv
    if bl is not None and bl >= 1:
        if al is not None:
            lo = 0 if al >= 0 else -((-al) // bl)
        if ah is not None:
            hi = ah // bl if ah >= 0 else 0
        if al is not None and al >= 0 and bh is not None:
            lo = al // bh
    elif bl is not None and bl >= 0:
        if al is not None:
            lo = min(al, 0)
        if ah is not None:
            hi = max(ah, 0)
    elif al is not None and ah is not None:
        m = max(abs(al), abs(ah))
        lo, hi = -m, m
    return P(atom('tdiv', (a, b), lo, hi))


def trem(a, b):
    if b.is_const() and b.cval() != 0:
        d = abs(b.cval())
        if nonneg(a):
            if d & (d - 1) == 0:
                return bits(a, 0, d.bit_length() - 1)
            if a.iv[1] is not None and a.iv[1] < d:
                return a
            q = {}
            for m, c in a.terms:
                c %= d
                if c:
                    q[m] = c
            a = poly(q)
            if a.is_const():
                return K(a.cval() % d)
            if a.iv[1] is not None and a.iv[1] < d:
                return a
            return P(atom('trem', (a, b), 0, d - 1))
        if a.is_const():
            x = a.cval()
            return K(-((-x) % d) if x < 0 else x % d)
        return P(atom('trem', (a, b), -d + 1, d - 1))
    lo, hi = None, None
    if nonneg(a):
        lo, hi = 0, a.iv[1]
        if nonneg(b) and b.iv[1] is not None:
            hi = b.iv[1] - 1 if hi is None else min(hi, max(0, b.iv[1] - 1))
    return P(atom('trem', (a, b), lo, hi))


REBUILD['tdiv'] = lambda a: tdiv(*a)


# ---- interpolation: x*f/d lies between 0 and x when 0 <= f <= d ------------
_between = {}


def factor(p, i):
    """p / atom i when every monomial has it exactly once"""
    out = {}
    for m, c in p.terms:
        if m.count(i) != 1:
            return None
        k = list(m)
        k.remove(i)
        out[tuple(k)] = c
    return poly(out)


def below(f, d):
    """0 <= f <= d whatever the inputs"""
    if f.iv[0] is None or f.iv[0] < 0:
        return False
    e = psub(d, f)
    if e.iv[0] is not None and e.iv[0] >= 0:
        return True
    from . import lp
    return lp.below0(psub(K(-1), e))


def between(a):
    """polynomial x such that the atom lies between 0 and x, or None"""
    if a in _between:
        return _between[a]
    _between[a] = None
    r = None
    if a.kind == 'tdiv' and not a.args[1].is_const():
        # (a zero divisor panics; the term's value is immaterial then)
        n, d = a.args
        for i in (n.terms[0][0] if n.terms else ()):
            x = factor(n, i)
            if x is not None and below(P(by_id(i)), d):
                r = x
                break
    elif a.kind == 'fd' and a.args[1] == 256:
        # (t + t/256)/256 with t = x*f + 128, 0 <= f <= 255: f = 0 gives 0, f = 255
        # gives x (for |x| < 2^15), and it is monotonic in f
        e = a.args[0]
        for m, c in e.terms:
            if c == 1 and len(m) == 1 and by_id(m[0]).kind == 'fd':
                t, d = by_id(m[0]).args
                if d != 256 or padd(t, P(by_id(m[0]))) is not e or t.const() != 128:
                    continue
                xf = psub(t, K(128))
                # the factor is the shared atom with the smallest range
                fs = [i for i in (xf.terms[0][0] if xf.terms else ()) if by_id(i).lo is not None and by_id(i).lo >= 0 and by_id(i).hi is not None and by_id(i).hi <= 255]
                for i in fs:
                    x = factor(xf, i)
                    if x is not None and x.iv[0] is not None and x.iv[1] is not None and -32768 < x.iv[0] and x.iv[1] < 32768:
                        r = x
                        break
    _between[a] = r
    return r


def _tighten(p):
    lo, hi = p.iv
    if p.terms[0][0] == ():
        c = p.terms[0][1]
        if len(p.terms) == 2:
            return lo, hi
        l, h = psub(p, K(c)).iv
        return None if l is None else l + c, None if h is None else h + c
    any_ = False
    for m, c in p.terms:
        if len(m) == 1:
            a = by_id(m[0])
            if a.kind in ('tdiv', 'fd'):
                x = between(a)
                if x is None:
                    continue
                any_ = True
                rest = psub(p, pscale(P(a), c))
                u, v = rest.iv, padd(rest, pscale(x, c)).iv
                l = None if u[0] is None or v[0] is None else min(u[0], v[0])
                h = None if u[1] is None or v[1] is None else max(u[1], v[1])
                if l is not None and (lo is None or l > lo):
                    lo = l
                if h is not None and (hi is None or h < hi):
                    hi = h
    # an 8 bit value, as far as linear reasoning about the products tells
    if any_ and 2 < len(p.terms) <= 4 and lo is not None and hi is not None and (lo, hi) != (0, 255) and -512 <= lo <= 0 and 255 <= hi <= 512 and all(abs(c) == 1 for _, c in p.terms):
        from . import lp
        p.iv = lo, hi
        if hi > 255 and lp.below0(padd(p, K(-256))):
            hi = 255
        if lo < 0 and lp.below0(psub(K(-1), p)):
            lo = 0
        # forget the literals built with the wider interval
        if p._lin is not None:
            L = p._lin[0]
            if L.poly is p:
                L.lo, L.hi = lo, hi
    return lo, hi


D.tighten = _tighten
REBUILD['trem'] = lambda a: trem(*a)


def pshl(a, b, nbits, signed):
    if b.is_const():
        return wrap(pscale(a, 1 << (b.cval() % nbits)), nbits, signed)
    lo, hi = trange(nbits, signed)
    return P(atom('shl', (a, b, nbits, signed), lo, hi))


def pshr(a, b, nbits, signed):
    if b.is_const():
        return fd(a, 1 << (b.cval() % nbits))
    lo, hi = a.iv
    if lo is not None:
        lo = min(lo, 0)
    if hi is not None:
        hi = max(hi, 0)
    return P(atom('shr', (a, b, nbits, signed), lo, hi))


REBUILD['shl'] = lambda a: pshl(*a)
REBUILD['shr'] = lambda a: pshr(*a)


# ---- float terms ----------------------------------------------------------

class FT:
    __slots__ = ('id', 'op', 'args')

    def __repr__(self):
        if self.op == 'c':
            return repr(self.args[0])
        return '%s(%s)' % (self.op, ', '.join(repr(x) for x in self.args))


_fts = {}


def ft(op, args):
    if op in ('add', 'mul'):
        args = tuple(sorted(args, key=lambda t: t.id))
    k = (op, args)
    t = _fts.get(k)
    if t is None:
        t = FT()
        t.id = len(_fts)
        t.op = op
        t.args = args
        _fts[k] = t
    return t


def fc(v):
    return ft('c', (float(v),))


def fbin(op, a, b):
    if a.op == 'c' and b.op == 'c':
        x, y = a.args[0], b.args[0]
        try:
            if op == 'add':
                return fc(x + y)
            if op == 'sub':
                return fc(x - y)
            if op == 'mul':
                return fc(x * y)
            if op == 'div':
                return fc(x / y)
        except ZeroDivisionError:
            pass
    return ft(op, (a, b))


def i2f(p):
    if p.is_const():
        return fc(p.cval())
    return ft('i2f', (p,))


def flt(a, b):
    """guard a < b (ordered, non-NaN values assumed)"""
    if a.op == 'c' and b.op == 'c':
        return TRUE if a.args[0] < b.args[0] else FALSE
    if a is b:
        return FALSE
    return boolatom(atom('flt', (a, b), 0, 1))


def feq(a, b):
    if a.op == 'c' and b.op == 'c':
        return TRUE if a.args[0] == b.args[0] else FALSE
    if a is b:
        return TRUE
    x, y = sorted((a, b), key=lambda t: t.id)
    return boolatom(atom('feq', (x, y), 0, 1))


def f2i(t, nbits, signed):
    lo, hi = trange(nbits, signed)
    if t.op == 'c':
        v = t.args[0]
        if v != v:
            return K(0)
        return K(int(max(lo, min(hi, v))))
    if t.op == 'i2f' and in_range(t.args[0], max(lo, -(1 << 53)), min(hi, 1 << 53)):
        return t.args[0]
    # p / c * c of a small integer p is p again: folded value by value in the same arithmetic
    if t.op == 'mul' and len(t.args) == 2:
        for c, q in (t.args, t.args[::-1]):
            if c.op == 'c' and q.op == 'div' and q.args[1] is c and q.args[0].op == 'i2f':
                p = q.args[0].args[0]
                v = c.args[0]
                if in_range(p, max(lo, -512), min(hi, 512)) and v and all(int((float(x) / v) * v) == x for x in range(p.iv[0], p.iv[1] + 1)):
                    return p
    return P(atom('f2i', (t, nbits, signed), lo, hi))


REBUILD['f2i'] = lambda a: f2i(*a)
