"""Exact linear feasibility (rational simplex with bounds) used to decide whether
a guard diagram, together with the facts known about its atoms, is empty."""
from fractions import Fraction as Fr
from math import gcd
import time
from .dd import *
from . import dd as D


class Simplex:
    """bounded-variable feasibility in the style of Dutertre & de Moura"""

    def __init__(self):
        self.lo, self.hi, self.val = [], [], []
        self.rows = {}      # basic var -> {nonbasic: coef}
        self.cols = {}      # nonbasic -> set of basics
        self.trail = []
        self.pivots = 0
        self.until = float('inf')

    def newvar(self, lo=None, hi=None):
        i = len(self.val)
        self.lo.append(None)
        self.hi.append(None)
        self.val.append(Fr(0))
        self.cols[i] = set()
        return i

    def define(self, terms):
        """new variable equal to sum c*x (x any existing variable)"""
        row = {}
        for x, c in terms:
            if x in self.rows:
                for y, d in self.rows[x].items():
                    v = row.get(y, 0) + c * d
                    if v:
                        row[y] = v
                    else:
                        row.pop(y, None)
            else:
                v = row.get(x, 0) + c
                if v:
                    row[x] = v
                else:
                    row.pop(x, None)
        s = self.newvar()
        del self.cols[s]
        self.rows[s] = row
        for y in row:
            self.cols[y].add(s)
        self.val[s] = sum((c * self.val[y] for y, c in row.items()), Fr(0))
        return s

    def push(self):
        self.trail.append([])

    def pop(self):
        for x, lo, hi in reversed(self.trail.pop()):
            self.lo[x], self.hi[x] = lo, hi

    def bound(self, x, lo=None, hi=None):
        """tighten; False when immediately contradictory"""
        if lo is not None and (self.lo[x] is None or lo > self.lo[x]):
            if self.trail:
                self.trail[-1].append((x, self.lo[x], self.hi[x]))
            self.lo[x] = lo
        if hi is not None and (self.hi[x] is None or hi < self.hi[x]):
            if self.trail:
                self.trail[-1].append((x, self.lo[x], self.hi[x]))
            self.hi[x] = hi
        if self.lo[x] is not None and self.hi[x] is not None and self.lo[x] > self.hi[x]:
            return False
        if x not in self.rows:
            v = self.val[x]
            if self.lo[x] is not None and v < self.lo[x]:
                self._upd(x, Fr(self.lo[x]))
            elif self.hi[x] is not None and v > self.hi[x]:
                self._upd(x, Fr(self.hi[x]))
        return True

    def _upd(self, x, v):
        d = v - self.val[x]
        self.val[x] = v
        for b in self.cols[x]:
            self.val[b] += self.rows[b][x] * d

    def _fixnb(self):
        for x in self.cols:
            v = self.val[x]
            if self.lo[x] is not None and v < self.lo[x]:
                self._upd(x, Fr(self.lo[x]))
            elif self.hi[x] is not None and v > self.hi[x]:
                self._upd(x, Fr(self.hi[x]))

    def check(self, limit=4000):
        """True feasible, False infeasible, None out of budget"""
        self._fixnb()
        n = 0
        while True:
            b = None
            for x in sorted(self.rows):
                v = self.val[x]
                if self.lo[x] is not None and v < self.lo[x]:
                    b, up = x, True
                    break
                if self.hi[x] is not None and v > self.hi[x]:
                    b, up = x, False
                    break
            if b is None:
                return True
            row = self.rows[b]
            tgt = Fr(self.lo[b] if up else self.hi[b])
            nb = None
            for y in sorted(row):
                c = row[y]
                inc = (c > 0) == up
                if inc:
                    if self.hi[y] is None or self.val[y] < self.hi[y]:
                        nb = y
                        break
                else:
                    if self.lo[y] is None or self.val[y] > self.lo[y]:
                        nb = y
                        break
            if nb is None:
                return False
            n += 1
            if n > limit or time.time() > self.until:
                return None
            self._pivot(b, nb, tgt)

    def _pivot(self, b, x, tgt):
        self.pivots += 1
        row = self.rows.pop(b)
        a = row[x]
        theta = (tgt - self.val[b]) / a
        # new row for x
        nr = {b: Fr(1) / a}
        for y, c in row.items():
            self.cols[y].discard(b)
            if y != x:
                nr[y] = -c / a
        users = list(self.cols.pop(x))
        self.val[b] = tgt
        self.val[x] += theta
        self.cols[b] = set()
        for u in users:
            ru = self.rows[u]
            k = ru.pop(x)
            self.val[u] += k * theta
            for y, c in nr.items():
                v = ru.get(y, 0) + k * c
                if v:
                    if y not in ru:
                        self.cols[y].add(u)
                    ru[y] = v
                else:
                    if y in ru:
                        del ru[y]
                        self.cols[y].discard(u)
        self.rows[x] = nr
        for y in nr:
            self.cols[y].add(x)


class Feas:
    """feasibility of guard diagrams over atoms"""

    def __init__(self, facts=None, budget=3000):
        self.s = Simplex()
        self.mv = {}        # monomial -> var
        self.lv = {}        # Lin -> var
        self.pend = []
        self.facts = facts
        self.atoms = set()
        self.budget = budget
        self.steps = 0
        self.until = float('inf')
        self.reads = []
        self.fields = []
        self.bad = False

    # -- variables
    def mono(self, m):
        v = self.mv.get(m)
        if v is None:
            v = self.mv[m] = self.s.newvar()
            lo, hi = D._mono_iv(m)
            self._b0(v, lo, hi)
            for i in m:
                self.add_atom(by_id(i))
            if len(m) == 2:
                self.pend.append(('prod', m))
        return v

    def _b0(self, v, lo, hi):
        if not self.s.bound(v, lo, hi):
            self.bad = True

    def lin(self, L):
        v = self.lv.get(L)
        if v is None:
            v = self.lv[L] = self.polyvar(L.poly)
        return v

    def polyvar(self, p):
        """variable for the non-constant part of p"""
        ts = [(self.mono(m), c) for m, c in p.terms if m != ()]
        if len(ts) == 1 and ts[0][1] == 1:
            return ts[0][0]
        return self.s.define([(x, Fr(c)) for x, c in ts])

    def constr(self, p, lo, hi):
        """lo <= p <= hi"""
        if p.is_const():
            c = p.cval()
            if (lo is not None and c < lo) or (hi is not None and c > hi):
                self.bad = True
            return
        c = p.const()
        self._b0(self.polyvar(p), None if lo is None else lo - c, None if hi is None else hi - c)

    def add_atom(self, a):
        if a in self.atoms:
            return
        self.atoms.add(a)
        k = a.kind
        if k == 'fd':
            p, d = a.args
            self.constr(psub(p, pscale(P(a), d)), 0, d - 1)
        elif k == 'bits':
            p, s, w = a.args
            lo, hi = p.iv
            self.linkbits(a)
            t = atom('lpq', (a,), None if lo is None else lo >> (s + w), None if hi is None else hi >> (s + w))
            self.constr(psub(psub(p, pscale(P(a), 1 << s)), pscale(P(t), 1 << (s + w))), 0, (1 << s) - 1)
        elif k == 'trem':
            p, b = a.args
            if b.is_const() and nonneg_(p):
                d = abs(b.cval())
                t = atom('lpq', (a,), 0, None)
                self.constr(psub(psub(p, P(a)), pscale(P(t), d)), 0, 0)
            elif nonneg_(p) and nonneg_(b):
                self.constr(psub(p, P(a)), 0, None)
                self.constr(psub(b, P(a)), 1, None)
                t = atom('lpq', (a,), 0, None)
                self.constr(psub(psub(p, P(a)), pmul(P(t), b)), 0, 0)
        elif k == 'tdiv':
            p, b = a.args
            if nonneg_(p) and nonneg_(b):
                e = psub(p, pmul(P(a), b))
                self.constr(e, 0, None)
                self.constr(psub(e, b), None, -1)
        elif k in ('and',):
            for p in a.args:
                if nonneg_(p):
                    self.constr(psub(p, P(a)), 0, None)
        elif k in ('or',):
            for p in a.args:
                if nonneg_(p):
                    self.constr(psub(P(a), p), 0, None)
        elif k == 'rd':
            self.link(a)

    def linkbits(self, a):
        """overlapping bit fields of one term agree bit by bit"""
        p, s, w = a.args
        for b in self.fields:
            q, s2, w2 = b.args
            if q is p and b is not a and max(s, s2) < min(s + w, s2 + w2):
                self.splitbits(a)
                self.splitbits(b)
        self.fields.append(a)

    def splitbits(self, a):
        p, s, w = a.args
        key = ('split', a)
        if key in self.mv or w > 64:
            return
        self.mv[key] = True
        e = P(a)
        for i in range(w):
            e = psub(e, pscale(P(atom('lpbit', (p, s + i), 0, 1)), 1 << i))
        self.constr(e, 0, 0)

    def link(self, a):
        base, off, w = a.args
        for b in self.reads:
            if b.args[0] is not base:
                continue
            d = psub(b.args[1], off)
            if not d.is_const():
                continue
            d = d.cval()
            x, y = (a, b) if d >= 0 else (b, a)     # x starts first
            d = abs(d)
            if d >= x.args[2] or x is y:
                continue
            self.split(a)
            self.split(b)
        self.reads.append(a)

    def split(self, a):
        base, off, w = a.args
        key = ('split', a)
        if key in self.mv:
            return
        self.mv[key] = True
        e = P(a)
        for i in range(w):
            e = psub(e, pscale(P(atom('rdb', (base, padd(off, K(i))), 0, 255)), 1 << (8 * i)))
        self.constr(e, 0, 0)

    def lemmas(self):
        """bounds of products from the bounds of their factors"""
        pend, self.pend = self.pend, []
        for _, m in pend:
            x, y = (P(by_id(i)) for i in m)
            xy = pmul(x, y)
            (a, b), (c, d) = x.iv, y.iv
            # (x-a)(y-c) >= 0 ...
            for u, su in ((a, 1), (b, -1)):
                for v, sv in ((c, 1), (d, -1)):
                    if u is None or v is None:
                        continue
                    e = padd(psub(psub(xy, pscale(y, u)), pscale(x, v)), K(u * v))
                    self.constr(pscale(e, su * sv), 0, None)

    # -- diagrams
    def feasible(self, g, want=None):
        """True / False / None for guard g; a feasible cube is left in self.cube"""
        from . import facts
        g = facts.strengthen(g, self.facts)
        if g is FALSE:
            return False
        for L in lins_in(g):
            self.lin(L)
        self.lemmas()
        self.lemmas()
        if self.bad:
            return False
        r = self.s.check()
        if r is False:
            return False
        self.cube = []
        self.unsure = False
        self.maybe = None
        self.bb = 0
        r = self._walk(g, [])
        if r:
            return True
        if self.unsure:
            self.cube = self.maybe or []
        return None if self.unsure else False

    def products(self, acc):
        """the constraints of a cube multiplied by the bounds of the factors of
        the products in play, where this names no further product"""
        if not parity([(L.poly, lo) for L, lo, hi in acc if lo is not None and lo == hi]):
            return False
        have = {m for m in self.mv if m and m[0] != 'split' and len(m) > 1}
        if not have:
            return True
        vs = sorted({i for m in have for i in m})
        cs = []
        for L, lo, hi in acc:
            if not any(i in vs for m, _ in L.poly.terms for i in m):
                continue
            if lo is not None:
                cs.append(psub(L.poly, K(lo)))
            if hi is not None:
                cs.append(psub(K(hi), L.poly))
        n = 0
        for c in cs:
            for i in vs:
                v = P(by_id(i))
                a, b = v.iv
                q = pmul(v, c)
                if any(len(m) > 1 and m not in have for m, _ in q.terms):
                    continue
                for f in ((psub(v, K(a)) if a is not None else None), (psub(K(b), v) if b is not None else None)):
                    if f is None:
                        continue
                    e = pmul(f, c)
                    if e.is_const():
                        continue
                    n += 1
                    if n > 200 or not self.s.bound(self.polyvar(e), -e.const()):
                        return n > 200
        return True

    # -- integer points
    def integral(self, depth):
        """an integer point of the current relaxation that respects the meaning
        of every derived atom: True / False (none) / None (not found)"""
        r = self.s.check()
        if r is False:
            return False
        if r is None:
            return None
        self.bb += 1
        if self.bb > 400:
            return None
        s = self.s
        x = None
        for m, v in self.mv.items():
            if m and m[0] == 'split':
                continue
            if s.val[v].denominator != 1:
                x = v
                break
        if x is None:
            bad = self.consistent()
            if bad is None:
                return True
            if depth > 40:
                return None
            # tie the inconsistent atom to the value of its arguments
            return self.repair(bad, depth)
        if depth > 40:
            return None
        f = s.val[x].numerator // s.val[x].denominator
        res = False
        for lo, hi in ((None, f), (f + 1, None)):
            s.push()
            if s.bound(x, lo, hi):
                r = self.integral(depth + 1)
                if r:
                    return True          # bounds stay pushed; the caller pops
                if r is None:
                    res = None
            s.pop()
        return res

    def pval(self, p):
        """value of a polynomial at the current point"""
        t = Fr(0)
        for m, c in p.terms:
            x = Fr(c)
            for i in m:
                v = self.mv.get((i,))
                if v is None:
                    return None
                x *= self.s.val[v]
            t += x
        return t

    def consistent(self):
        """None, or a monomial whose value contradicts its definition together
        with the value it should have"""
        s = self.s
        for m, v in list(self.mv.items()):
            if not m or m[0] == 'split':
                continue
            if len(m) > 1:
                x = Fr(1)
                for i in m:
                    w = self.mv.get((i,))
                    if w is None:
                        return (v, None, m)
                    x *= s.val[w]
                if x != s.val[v]:
                    return (v, x, m)
                continue
            a = by_id(m[0])
            want = None
            k = a.kind
            if k in ('fd', 'bits', 'trem', 'tdiv', 'and', 'or', 'xor', 'shl', 'shr'):
                xs = [self.pval(y) if isinstance(y, Poly) else y for y in a.args]
                if any(y is None for y in xs):
                    return (v, None, m)
                xs = [int(y) for y in xs]
                if k == 'fd':
                    want = xs[0] // xs[1]
                elif k == 'bits':
                    want = (xs[0] >> xs[1]) & ((1 << xs[2]) - 1)
                elif k == 'and':
                    want = xs[0] & xs[1]
                elif k == 'or':
                    want = xs[0] | xs[1]
                elif k == 'xor':
                    want = xs[0] ^ xs[1]
                elif k in ('tdiv', 'trem'):
                    if xs[1] == 0:
                        continue
                    q = abs(xs[0]) // abs(xs[1])
                    if (xs[0] < 0) != (xs[1] < 0):
                        q = -q
                    want = q if k == 'tdiv' else xs[0] - q * xs[1]
                else:
                    b = xs[1] % xs[2]
                    want = xs[0] >> b if k == 'shr' else (xs[0] << b) & ((1 << xs[2]) - 1)
                    if k == 'shl' and xs[3] and want >> (xs[2] - 1):
                        want -= 1 << xs[2]
                if want != s.val[v]:
                    return (v, Fr(want), m)
        return None

    def repair(self, bad, depth):
        """fix the arguments of an inconsistent product or operation at their
        current values, forcing the result"""
        v, want, m = bad
        if want is None:
            return None
        s = self.s
        args = []
        if len(m) > 1:
            args = [self.mv[(i,)] for i in set(m)]
        else:
            for y in by_id(m[0]).args:
                if isinstance(y, Poly):
                    args += [self.mv[(i,)] for mo, _ in y.terms for i in mo]
        s.push()
        ok = True
        for x in args:
            ok = ok and s.bound(x, s.val[x], s.val[x])
        ok = ok and s.bound(v, want, want)
        if ok:
            r = self.integral(depth + 1)
            if r:
                return True
        s.pop()
        return None

    def _walk(self, g, acc):
        if g is FALSE:
            return False
        if g is TRUE:
            self.s.push()
            r = self.integral(0) if self.products(acc) else False
            if r:
                self.cube = list(acc)
                return True
            self.s.pop()
            if r is None:
                self.unsure = True
                self.maybe = list(acc)
            return False
        self.steps += 1
        if self.steps > self.budget or time.time() > self.until:
            self.unsure = True
            return False
        x = self.lv[g.L]
        prev = None
        parts = []
        for h, c in g.parts:
            lo = None if prev is None else prev + 1
            prev = h
            if c is not FALSE:
                parts.append((lo, h, c))
        parts.sort(key=lambda t: 0 if t[2] is TRUE else 1)
        for lo, h, c in parts:
            self.s.push()
            ok = self.s.bound(x, lo, h)
            if ok:
                r = self.s.check()
                if r is None:
                    self.unsure = True
                if r is not False:
                    acc.append((g.L, lo, h))
                    if self._walk(c, acc):
                        return True     # a model was found: the tableau is kept
                    acc.pop()
            self.s.pop()
        return False

    def model(self):
        """values of the input atoms in the point found"""
        out = {}
        for m, v in self.mv.items():
            if len(m) == 1 and isinstance(m[0], int):
                out[by_id(m[0])] = self.s.val[v]
        return out


def parity(eqs):
    """False when the equations p = c have no integer solution (elimination of
    variables with coefficient 1, then divisibility)"""
    if len(eqs) > 40:
        return True
    rows = [{**{m: c for m, c in p.terms if m != ()}, (): p.const() - k} for p, k in eqs]
    while rows:
        r = rows.pop()
        cs = [c for m, c in r.items() if m != () and c]
        k = r.get((), 0)
        if not cs:
            if k:
                return False
            continue
        g = 0
        for c in cs:
            g = gcd(g, c)
        if k % g:
            return False
        x = next((m for m, c in r.items() if m != () and abs(c) == g), None)
        if x is None:
            continue
        s = r[x] // g
        r = {m: c // g * s for m, c in r.items()}
        for q in rows:
            f = q.pop(x, 0)
            if f:
                for m, c in r.items():
                    if m != x:
                        q[m] = q.get(m, 0) - f * c
    return True


def nonneg_(p):
    return p.iv[0] is not None and p.iv[0] >= 0


def below0(p):
    """p < 0 whatever the inputs, by linear relaxation of the products"""
    f = Feas()
    f.constr(p, 0, None)
    f.lemmas()
    f.lemmas()
    return f.bad or f.s.check() is False


def feasible(g, facts=None, budget=3000, limit=25.0):
    """(verdict, cube)"""
    if g is FALSE:
        return False, None
    if g is TRUE:
        return True, []
    f = Feas(facts, budget)
    f.until = f.s.until = time.time() + limit
    r = f.feasible(g)
    return r, (f.cube if r is not False else None)
