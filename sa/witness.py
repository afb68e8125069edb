"""Looks for input values at which a guard diagram holds, by evaluating the
diagram (not the program) at candidate points: border values, values next to
the constants the diagram compares with, values shared between inputs, and a
fixed pseudo-random sequence.  A guard over float terms has to hold both with
IEEE doubles and with real numbers, so that formulas that differ by rounding
only are not told apart."""
import math, random, time
from fractions import Fraction as Fr
from .dd import *
from .ints import FT
from .subst import collect_atoms

FREEK = {'inp', 'lz', 'fl', 'el', 'disc', 'slen', 'lpq'}
# atoms that name an object of the input or the result of something compared elsewhere
NAMES = FREEK | {'rd', 'rdb', 'recok', 'recadv', 'recval', 'recerr', 'fd', 'bits', 'trem', 'tdiv', 'and', 'or', 'xor', 'callfp', 'call', 'callout',
                 'utf8', 'utf8ok', 'adv', 'val', 'shl', 'shr', 'deflate', 'mapped', 'qidx'}


class Opaque(Exception):
    """the guard depends on a term without a meaning here"""


def free(a):
    return a.kind in FREEK or a.kind.startswith('arg')


class Val:
    __slots__ = ('c', 'exact', 'memo', 'fm', 'keys')

    def __init__(self, choose, exact):
        self.c = choose
        self.exact = exact
        self.memo = {}
        self.fm = {}
        self.keys = {}

    def poly(self, p):
        s = 0
        for m, c in p.terms:
            for i in m:
                c *= self.atom(by_id(i))
            s += c
        return s

    def key(self, x):
        if isinstance(x, Atom):
            if x not in self.keys:
                if x.kind not in NAMES and not free(x):
                    raise Opaque(x.kind)
                self.keys[x] = (x.kind,) + tuple(self.key(y) for y in x.args)
            return self.keys[x]
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, Leaf):
            return self.key(x.v)
        if isinstance(x, Node):
            return self.key(self.dd(x))
        if isinstance(x, tuple):
            return tuple(self.key(y) for y in x)
        if isinstance(x, (int, str)) or x is None:
            return x
        if any(a.kind == 'unk' for a in collect_atoms(x)):
            raise Opaque('unk')
        return id(x)

    def atom(self, a):
        v = self.memo.get(a)
        if v is None:
            v = self.memo[a] = self._atom(a)
        return v

    def _atom(self, a):
        k, args = a.kind, a.args
        if k == 'rd':
            base, off, w = args
            o, b = self.poly(off), self.key(base)
            return sum(self.c(('byte', b, o + i), 0, 255, a) << (8 * i) for i in range(w))
        if k == 'fd':
            return self.poly(args[0]) // args[1]
        if k == 'bits':
            return (self.poly(args[0]) >> args[1]) & ((1 << args[2]) - 1)
        if k in ('tdiv', 'trem'):
            x, y = self.poly(args[0]), self.poly(args[1])
            if y == 0:
                raise Opaque('division by zero')
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return q if k == 'tdiv' else x - q * y
        if k == 'and':
            return self.poly(args[0]) & self.poly(args[1])
        if k == 'or':
            return self.poly(args[0]) | self.poly(args[1])
        if k == 'xor':
            return self.poly(args[0]) ^ self.poly(args[1])
        if k in ('shl', 'shr'):
            x, y, n, s = self.poly(args[0]), self.poly(args[1]), args[2], args[3]
            if not 0 <= y < n:
                raise Opaque('shift')
            if k == 'shr':
                return x >> y
            x = (x << y) & ((1 << n) - 1)
            return x - (1 << n) if s and x >> (n - 1) else x
        if k == 'flt':
            return int(self.ft(args[0]) < self.ft(args[1]))
        if k == 'feq':
            return int(self.ft(args[0]) == self.ft(args[1]))
        if k == 'f2i':
            x = self.ft(args[0])
            n, s = args[1], args[2]
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if s else (0, (1 << n) - 1)
            if isinstance(x, float):
                if x != x:
                    return 0
                if math.isinf(x):
                    return hi if x > 0 else lo
            return max(lo, min(hi, int(x)))
        if k == 'slci':
            x, y = self.slice(args[0]), self.slice(args[1])
            return int(x[2] == y[2] and all(lower(self.byte(x, i)) == lower(self.byte(y, i)) for i in range(x[2])))
        if k in ('tstart', 'tend'):
            x = self.slice(args[0])
            b = [self.byte(x, i) for i in range(x[2])]
            i, j = 0, len(b)
            while i < len(b) and b[i] == 32:
                i += 1
            if k == 'tend' and args[1]:
                i = 0
            while j > i and b[j - 1] == 32:
                j -= 1
            return i if k == 'tstart' else j
        if k == 'sleq':
            x, y = self.slice(args[0]), self.slice(args[1])
            if x[2] != y[2]:
                return 0
            return int(all(self.byte(x, i) == self.byte(y, i) for i in range(x[2])))
        if free(a):
            if a.lo is None or a.hi is None:
                raise Opaque(k)
            return self.c(self.key(a), a.lo, a.hi, a)
        raise Opaque(k)

    def slice(self, s):
        """(memory, offset, length) of a string"""
        for g, m, a, b in s.alts:
            if self.dd(g) is TRUE:
                a, b = self.dd(a), self.dd(b)
                if not isinstance(a, Leaf) or not isinstance(b, Leaf):
                    raise Opaque('slice')
                a, b = self.poly(a.v), self.poly(b.v)
                if m[0] == 'in':
                    base = m[1]
                elif m[0] == 'ob':
                    base = m[1]
                elif m[0] == 'sq' and not m[1].effs and m[1].base[0] == 'opq':
                    base = m[1].base[1]
                else:
                    raise Opaque('slice memory ' + str(m[0]))
                if not 0 <= a <= b or b - a > 64:
                    raise Opaque('slice bounds')
                return base, a, b - a
        raise Opaque('slice')

    def byte(self, s, i):
        return self.c(('byte', self.key(s[0]), s[1] + i), 0, 255, None)

    def ft(self, t):
        v = self.fm.get(t)
        if v is None:
            v = self.fm[t] = self._ft(t)
        return v

    def _ft(self, t):
        op, args = t.op, t.args
        if op == 'c':
            v = args[0]
            if self.exact:
                if v != v or math.isinf(v):
                    raise Opaque('constant')
                return Fr(repr(v))
            return float(v)
        if op == 'i2f':
            v = self.poly(args[0])
            return Fr(v) if self.exact else float(v)
        xs = [self.ft(x) for x in args if isinstance(x, FT)]
        if len(xs) != len(args):
            raise Opaque(op)
        if op == 'add':
            return xs[0] + xs[1]
        if op == 'sub':
            return xs[0] - xs[1]
        if op == 'mul':
            return xs[0] * xs[1]
        if op == 'div':
            if xs[1] == 0:
                raise Opaque('division by zero')
            return xs[0] / xs[1]
        if op == 'neg':
            return -xs[0]
        if op == 'abs':
            return abs(xs[0])
        if op == 'min':
            return min(xs)
        if op == 'max':
            return max(xs)
        if op == 'sqrt':
            if xs[0] < 0:
                raise Opaque('sqrt')
            if self.exact:
                n = xs[0].numerator * xs[0].denominator
                return Fr(math.isqrt(n << 200), xs[0].denominator << 100)
            return math.sqrt(xs[0])
        if op in ('floor', 'ceil', 'trunc'):
            v = getattr(math, op)(xs[0])
            return Fr(v) if self.exact else float(v)
        raise Opaque(op)

    def dd(self, d):
        while isinstance(d, Node):
            v = self.poly(d.L.poly)
            for hi, ch in d.parts:
                if hi is None or v <= hi:
                    d = ch
                    break
        return d


def thresholds(g, acc):
    """constants the diagram compares with"""
    out, seen, st = set(), set(), [g]
    while st:
        d = st.pop()
        if d in seen or not isinstance(d, Node) or len(seen) > 4000:
            continue
        seen.add(d)
        for hi, ch in d.parts:
            if hi is not None:
                out.add(hi)
            st.append(ch)
    return out


def lower(b):
    return b + 32 if 65 <= b <= 90 else b


STRINGS = ('sleq', 'slci', 'tstart', 'tend')


def search(g, tries=4000, limit=8.0):
    """[(atom, value)] making g true, or None"""
    atoms = collect_atoms(g)
    for a in atoms:
        if not free(a) and a.kind not in ('rd', 'fd', 'bits', 'tdiv', 'trem', 'and', 'or', 'xor', 'shl', 'shr', 'flt', 'feq', 'f2i') + STRINGS:
            # it may be the mere name of an object: only evaluation tells
            if a.lo is not None and a.hi is not None:
                return None
    floats = any(a.kind in ('flt', 'feq', 'f2i') for a in atoms)
    strings = any(a.kind in STRINGS for a in atoms)
    alphabet = (97, 97, 98) + ((65, 66) if any(a.kind == 'slci' for a in atoms) else ()) + ((32, 32) if any(a.kind in ('tstart', 'tend') for a in atoms) else ())
    th = sorted(thresholds(g, None))
    th = [x for x in th if -70000 < x < 1 << 33][:400]
    near = sorted({y for x in th for y in (x, x + 1)})
    rng = random.Random(20240501)
    t0 = time.time()
    opaque = 0
    for n in range(tries):
        if n % 16 == 0 and time.time() - t0 > limit:
            return None
        chosen = {}
        mode = n % 4
        vals = []

        def choose(key, lo, hi, a):
            if key in chosen:
                return chosen[key]
            r = rng.random()
            if strings and key[0] in ('slen', 'byte'):
                v = chosen[key] = rng.randint(0, 3) if key[0] == 'slen' else rng.choice(alphabet)
                return v
            if mode == 0 or r < 0.2:
                v = rng.randint(lo, hi) if hi - lo < 1 << 20 else lo + int((hi - lo) ** rng.random())
            elif mode == 1 or r < 0.45:
                v = rng.choice((lo, hi, lo, hi, lo + 1, hi - 1, 2, 127, 128, 129, 64, 192))
            elif vals and (mode == 2 and r < 0.75):
                v = rng.choice(vals) + rng.choice((0, 0, 1, -1))
            elif near:
                v = rng.choice(near)
            else:
                v = rng.randint(lo, min(hi, lo + 600))
            v = max(lo, min(hi, v))
            chosen[key] = v
            vals.append(v)
            return v
        try:
            x = Val(choose, False)
            if x.dd(g) is not TRUE:
                continue
            if floats and Val(choose, True).dd(g) is not TRUE:
                continue
        except Opaque:
            opaque += 1
            if opaque > 60 and opaque > n * 0.9:
                return None
            continue
        except OverflowError:
            continue
        used = [a for a in x.memo if free(a) or a.kind == 'rd']
        return [(a, x.memo[a]) for a in used]
    return None


def nonlinear(g):
    """the guard has products, divisions or float terms"""
    return any(a.kind in ('fd', 'bits', 'tdiv', 'trem', 'and', 'or', 'xor', 'shl', 'shr', 'flt', 'feq', 'f2i') for a in collect_atoms(g)) or has_products(g)


def has_products(g):
    seen, st = set(), [g]
    while st:
        d = st.pop()
        if d in seen or not isinstance(d, Node):
            continue
        seen.add(d)
        if d.L.poly.deg > 1:
            return True
        st.extend(c for _, c in d.parts)
    return False


def cube(w):
    return [(lin_of(P(a))[0], v, v) for a, v in w]
