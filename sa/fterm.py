"""Equality of float terms as rational functions over the reals."""
from fractions import Fraction as Fr
from .dd import *
from .ints import FT, i2f

_memo = {}
_ok = {}


def norm(t):
    """(numerator, denominator) as dict monomial -> coefficient"""
    r = _memo.get(t)
    if r is None:
        r = _memo[t] = _norm(t)
    return r


def _p(c):
    return {(): Fr(c)} if c else {}


def padd_(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul_(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def _norm(t):
    if t.op == 'c':
        v = t.args[0]
        if v != v or v in (float('inf'), float('-inf')):
            return {((t.id),): Fr(1)}, {(): Fr(1)}
        # decimal constants such as 0.3 are meant as decimals
        return _p(Fr(repr(v))), _p(1)
    if t.op == 'i2f':
        num = {}
        for m, c in t.args[0].terms:
            num[tuple(('a', i) for i in m)] = Fr(c)
        return num, _p(1)
    if t.op in ('add', 'sub', 'mul', 'div') and len(t.args) == 2:
        (a, b), (c, d) = norm(t.args[0]), norm(t.args[1])
        if t.op == 'mul':
            return pmul_(a, c), pmul_(b, d)
        if t.op == 'div':
            return pmul_(a, d), pmul_(b, c)
        if b == d:
            return padd_(a, c, 1 if t.op == 'add' else -1), b
        return padd_(pmul_(a, d), pmul_(c, b), 1 if t.op == 'add' else -1), pmul_(b, d)
    if t.op == 'neg':
        a, b = norm(t.args[0])
        return {m: -c for m, c in a.items()}, b
    return {(('t', t.id),): Fr(1)}, _p(1)


def same(x, y):
    if x is y:
        return True
    k = (x, y)
    r = _ok.get(k)
    if r is None:
        (a, b), (c, d) = norm(x), norm(y)
        r = _ok[k] = not padd_(pmul_(a, d), pmul_(c, b), -1)
    return r


def differ(x, y):
    return FALSE if same(x, y) else TRUE
