"""Models of standard-library and dependency functions whose bodies are not
interpreted: containers, slices, iterators, numbers, zlib."""
import re
from .val import *
from . import val as V
from .loops import St, SynthLoop, loop_core
from .subst import slice_read

NONE = lambda: (0, TRUE, ())


def option(g, v):
    """Some(v) when g else None"""
    return en([(0, not_(g), ()), (1, g, (v,))])


def some(v):
    return en([(1, TRUE, (v,))])


NONEV = en([(0, TRUE, ())])


def result(g, ok, err):
    return en([(0, g, (ok,)), (1, not_(g), (err,))])


INTS = {'u8': (8, False), 'u16': (16, False), 'u32': (32, False), 'u64': (64, False), 'u128': (128, False),
        'usize': (64, False), 'i8': (8, True), 'i16': (16, True), 'i32': (32, True), 'i64': (64, True),
        'i128': (128, True), 'isize': (64, True)}

NUM = re.compile(r'^nom::number::(complete|streaming)::(le|be)?_?([uif])(8|16|24|32|64|128)$')
ITERCONS = {'for_each', 'fold', 'try_fold', 'try_for_each', 'any', 'all', 'find', 'position', 'count', 'last', 'sum',
            'collect', 'find_map', 'nth', 'max', 'min'}


LENGTHS = {'slen', 'T', 'mlen', 'loopn', 'efflen'}
MANY = 1 << 20


class Models:
    def __init__(self, eng):
        self.e = eng
        self.T = eng.T
        self.n = 0
        self.exact = {k[2:].replace('__', '::'): getattr(self, k) for k in dir(self) if k.startswith('m_')}

    # ------------------------------------------------------------------
    def tname(self, ty):
        return self.T[ty]['s']

    def strip(self, ty):
        t = self.T[ty]
        while t['k'] in ('ref', 'ptr'):
            ty = t['t']
            t = self.T[ty]
        return ty

    def call(self, fr, st, t, args, argtys, destty, diverges):
        e = self.e
        path = t.get('path') or ''
        rp = t.get('rpath') or path
        name = t.get('name') or path.rsplit('::', 1)[-1]
        if t.get('k') != 'fndef':
            return NotImplemented
        if rp in e.opaque or path in e.opaque:
            return self.opaque_call(rp if rp in e.opaque else path, args, destty, st, argtys)
        tr = t.get('trait')
        if tr in ('std::ops::FnOnce', 'std::ops::FnMut', 'std::ops::Fn') and len(args) == 2:
            fty = t['args'][0]
            tup = args[1]
            if isinstance(tup, Lazy):
                tup = e.expand(tup)
            a = list(tup.f) if isinstance(tup, Agg) else []
            return e.call_callable(fr, st, args[0], fty, a, destty)
        if tr == 'std::iter::Iterator':
            r = self.iterator(fr, st, t, name, args, destty)
            if r is not NotImplemented:
                return r
        if tr == 'std::iter::IntoIterator' and name == 'into_iter':
            r = self.into_iter(st, t, args)
            if r is not NotImplemented:
                return r
        if tr == 'std::iter::FromIterator' and name == 'from_iter':
            return self.from_iter(fr, st, t, args, destty)
        if tr == 'std::iter::Extend' and name == 'extend':
            return self.extend(fr, st, t, args)
        if tr in ('std::ops::Index', 'std::ops::IndexMut'):
            r = self.index(fr, st, t, args)
            if r is not NotImplemented:
                return r
        if tr == 'std::clone::Clone' and name == 'clone':
            it = self.T[t['args'][0]]
            if e.is_seq(it) or it['k'] in ('ref', 'slice', 'array', 'tuple', 'closure', 'fndef', 'fnptr') or e.bits_of(it) or it['k'] == 'float' or t.get('inst') is None:
                return e.read_alts(st, args[0].alts) if isinstance(args[0], Ref) else args[0]
        if tr in ('std::cmp::PartialEq',) and name in ('eq', 'ne'):
            if not (t.get('inst') and self.T[self.strip(t['args'][0])]['k'] == 'adt' and not e.is_seq(self.T[self.strip(t['args'][0])])):
                r = self.eqval(st, args[0], args[1])
                if r is not None:
                    return r if name == 'eq' else not_(r)
        if tr in ('std::ops::Deref', 'std::ops::DerefMut', 'std::convert::AsRef', 'std::convert::AsMut', 'std::borrow::Borrow', 'std::borrow::BorrowMut'):
            it = self.T[t['args'][0]]
            if e.is_seq(it):
                return self.as_slice(st, args[0])
            if it['k'] in ('slice', 'str'):
                return args[0]
            if it['k'] == 'adt' and it['path'] == 'std::boxed::Box':
                return args[0]
        if tr == 'std::string::ToString' and name == 'to_string':
            return self.to_string(st, t, args)
        if tr == 'std::borrow::ToOwned' and name == 'to_owned':
            if isinstance(args[0], Sl):
                return self.seq_of(args[0])
        if tr == 'std::default::Default' and name == 'default':
            d = self.default(t['args'][0])
            if d is not None:
                return d
        if tr in ('std::convert::From', 'std::convert::Into'):
            r = self.convert(st, t, args, tr)
            if r is not NotImplemented:
                return r
        if tr == 'std::hash::Hash' or tr == 'std::hash::Hasher':
            return self.hash(st, t, name, args, destty)
        if tr == 'nom::Compare' and name in ('compare', 'compare_no_case'):
            r = self.nom_compare(st, t, args, name)
            if r is not NotImplemented:
                return r
        m = NUM.match(rp)
        if m:
            return self.nom_number(st, t, args, destty, m)
        f = self.exact.get(rp.replace('<', '').replace('>', '')) if False else None
        f = TABLE.get(rp) or TABLE.get(path)
        if f is not None:
            r = f(self, fr, st, t, args, destty)
            if r is not NotImplemented:
                return r
        r = self.inherent(fr, st, t, rp, path, name, args, destty)
        return r

    # ---- opaque functions ---------------------------------------------------
    def opaque_call(self, name, args, destty, st, argtys=None):
        e = self.e
        e.opqcalled.add(name)
        t = self.T[destty]
        if t['k'] == 'adt' and t['path'] == 'std::result::Result' and args and isinstance(args[0], Sl):
            okt = self.T[t['args'][0]]
            if okt['k'] == 'tuple' and len(okt['ts']) == 2 and self.T[okt['ts'][0]]['s'] == '&[u8]':
                s = args[0]
                label = (name,) + tuple(self.snapshot(st, a) for a in args[1:])
                out = None
                for g, m, a, b in reversed(s.alts):
                    r = self._rec(label, okt, t, m, a, b)
                    out = r if out is None else vite(g, r, out)
                return out
        ks = tuple(self.snapshot(st, a) for a in args)
        e.havoc(st, args, argtys, lambda i: atom('callout', (name, i) + ks))
        return e.mk_lazy(atom('call', (name,) + ks), destty)

    def snapshot(self, st, a):
        e = self.e
        if isinstance(a, Ref):
            return e.read_alts(st, a.alts)
        if isinstance(a, Sl):
            return self.freeze(st, a)
        return a

    def recursive_call(self, key, args, st):
        e = self.e
        inst = e.P.inst(key)
        rt = inst.locals[0]
        t = self.T[rt]
        if e.recobl:
            from .rules import RecObl
            o = e.mkobl(st.g, 'rec', inst.path)
            o.callee = RecObl(key, tuple(args))
            e.obl.append(o)
        e.recursive.setdefault(key, 0)
        e.recursive[key] += 1
        sin = [a for a in args if isinstance(a, Sl)]
        if t['k'] == 'adt' and t['path'] == 'std::result::Result' and sin:
            s = sin[0]
            okt = self.T[t['args'][0]]
            label = (okt['s'],) + tuple(self.snapshot(st, a) for a in args if a is not s)
            if okt['k'] == 'tuple' and len(okt['ts']) == 2 and e.is_sl(self.T[okt['ts'][0]]):
                out = None
                for g, m, a, b in reversed(s.alts):
                    r = self._rec(label, okt, t, m, a, b)
                    out = r if out is None else vite(g, r, out)
                return out
        return e.unk('recursion ' + inst.path, rt)

    def _rec(self, label, okt, t, m, a, b):
        e = self.e

        def one(pa, pb):
            key = (label, m, pa, pb)
            ok = boolatom(atom('recok', key, 0, 1))
            adv = P(atom('recadv', key, 0, 1 << 62))
            e.recfacts.add((atom('recadv', key, 0, 1 << 62), pa, pb))
            val = e.mk_lazy(atom('recval', key), okt['ts'][1])
            err = e.mk_lazy(atom('recerr', key), t['args'][1])
            return result(ok, agg(sl(m, leaf(padd(pa, adv)), leaf(pb)), val), err)
        return e.over(a, lambda pa: e.over(b, lambda pb: one(pa, pb)))

    # ---- helpers ----------------------------------------------------------
    def seq_of(self, s):
        """owned copy of slice contents"""
        out = None
        for g, m, a, b in reversed(s.alts):
            if m[0] == 'sq' and a is ZERO and b is self.e.seqlen(m[1]):
                q = m[1]
            elif m[0] == 'pl':
                q = None
                if self.cur_st is not None:
                    v = self.e.expand(self.e.read(self.cur_st, m[1], m[2]))
                    if isinstance(v, Seq) and a is ZERO and b is self.e.seqlen(v):
                        q = v
                    elif isinstance(v, Seq):
                        q = seq(('sl', ('sq', v), a, b))
                if q is None:
                    q = seq(('sl', m, a, b))
            else:
                q = seq(('sl', m, a, b))
            out = q if out is None else vite(g, q, out)
        return out
    cur_st = None

    def as_slice(self, st, r):
        """&Vec / &String / &[T;N] -> slice"""
        e = self.e
        if isinstance(r, Sl):
            return r
        if isinstance(r, Lazy):
            r = e.expand(r)
        if isinstance(r, Ref):
            out = []
            for g, root, path in r.alts:
                v = e.read(st, root, path)
                if isinstance(v, Lazy):
                    v = e.expand(v)
                if isinstance(v, Ref):      # && Vec
                    x = self.as_slice(st, v)
                    out.extend((and_(g, h), m, a, b) for h, m, a, b in x.alts)
                    continue
                if isinstance(v, Sl):
                    out.extend((and_(g, h), m, a, b) for h, m, a, b in v.alts)
                    continue
                n = e.seqlen(v) if isinstance(v, Seq) else UNDEF
                if root[0] == 'mem' or root[0] == 'k':
                    out.append((g, ('sq', v), ZERO, n))
                else:
                    out.append((g, ('pl', root, path), ZERO, n))
            return sls(out) if out else UNDEF
        if isinstance(r, Seq):
            return sl(('sq', r), ZERO, e.seqlen(r))
        return e.unk('as_slice of %s' % type(r).__name__)

    def elem_ref(self, s, idx):
        """reference to element idx (relative) of slice value"""
        e = self.e
        out = []
        for g, m, a, b in s.alts:
            out.append((g,) + e.elem_loc(m, dadd(a, idx)))
        return refs(out)

    def elem_val(self, st, s, idx):
        e = self.e
        r = None
        for g, m, a, b in reversed(s.alts):
            v = e.mem_read(st, m, dadd(a, idx))
            r = v if r is None else vite(g, v, r)
        return r

    def oblige(self, fr, st, bad, kind, callee):
        f = and_(st.g, bad)
        if f is not FALSE:
            self.e.oblige(f, kind, fr if fr is not None else self.e.cur, callee)

    def reserved(self, fr, st, n, name):
        """memory asked for ahead of its contents: more elements than MANY that no existing sequence accounts for"""
        if not isdd(n):
            return
        def extra(p):
            return poly({m: c for m, c in p.terms if not m or any(by_id(i).kind not in LENGTHS for i in m)})
        self.oblige(fr, st, dlt(k_(MANY), apply('unbacked', extra, n)), 'alloc', name)

    def guarded(self, st, g, f):
        """run f(state) only under g, merging state effects; returns f's value"""
        if g is FALSE:
            return UNDEF
        if g is TRUE:
            return f(st)
        e = self.e
        base = dict(st.mem)
        n0 = len(e.obl)
        s = St(TRUE, dict(base))
        v = f(s)
        e.obl[n0:] = [x for x in (o.under(g, None) for o in e.obl[n0:]) if x.fail is not FALSE]
        mem = {}
        for r, x in s.mem.items():
            y = base.get(r)
            if y is None:
                y = e.root_default(r) if r[0] in ('lz', 'k') else None
            mem[r] = x if (y is None or x is y) else vite(g, x, y)
        for r in base:
            if r not in mem:
                mem[r] = base[r]
        st.mem = mem
        return v

    def dval(self, st, v):
        """dereference one level if Ref"""
        return self.e.read_alts(st, v.alts) if isinstance(v, Ref) else v

    # ---- equality -----------------------------------------------------------
    def eqval(self, st, a, b):
        e = self.e
        if a is b:
            return TRUE
        if isinstance(a, Lazy):
            a = e.expand(a)
        if isinstance(b, Lazy):
            b = e.expand(b)
        if isinstance(a, Ref) and st is not None:
            a = e.read_alts(st, a.alts)
            return self.eqval(st, a, b)
        if isinstance(b, Ref) and st is not None:
            b = e.read_alts(st, b.alts)
            return self.eqval(st, a, b)
        if isdd(a) and isdd(b):
            from .loops import is_g
            if is_g(a):
                return not_(xor_(a, b))
            return deq(a, b)
        if isinstance(a, Agg) and isinstance(b, Agg):
            r = TRUE
            for x, y in zip(a.f, b.f):
                z = self.eqval(st, x, y)
                if z is None:
                    return None
                r = and_(r, z)
            return r
        if isinstance(a, En) and isinstance(b, En):
            r = FALSE
            B = {v: (g, f) for v, g, f in b.alts}
            for v, g, f in a.alts:
                if v in B:
                    h = and_(g, B[v][0])
                    for x, y in zip(f, B[v][1]):
                        z = self.eqval(st, x, y)
                        if z is None:
                            return None
                        h = and_(h, z)
                    r = or_(r, h)
            return r
        sa, sb = isinstance(a, (Sl, Seq)), isinstance(b, (Sl, Seq))
        if sa and sb:
            A = self.as_slice(st, a) if isinstance(a, Seq) else a
            B = self.as_slice(st, b) if isinstance(b, Seq) else b
            A, B = self.freeze(st, A), self.freeze(st, B)
            if A is B:
                return TRUE
            # constant on one side: element-wise
            for x, y in ((A, B), (B, A)):
                n = e.sllen(x)
                if isinstance(n, Leaf) and n.v.is_const() and n.v.cval() <= 64 and all(m[0] in ('str', 'sq') for _, m, _, _ in x.alts):
                    r = deq(e.sllen(y), n)
                    for i in range(n.v.cval()):
                        z = self.eqval(st, self.elem_val(st, x, k_(i)), self.elem_val(st, y, k_(i)))
                        if z is None:
                            return None
                        r = and_(r, z)
                    return r
            x, y = sorted((A, B), key=lambda v: v.id)
            return boolatom(atom('sleq', (x, y), 0, 1))
        return None

    def freeze(self, st, s):
        """slice value with place memories replaced by their contents"""
        if st is None or not any(m[0] == 'pl' for _, m, _, _ in s.alts):
            return s
        return sls([(g, ('sq', self.e.expand(self.e.read(st, m[1], m[2]))) if m[0] == 'pl' else m, a, b) for g, m, a, b in s.alts])

    # ---- conversions ----------------------------------------------------------
    def convert(self, st, t, args, tr):
        e = self.e
        if tr == 'std::convert::From':
            to, frm = t['args'][0], t['args'][1] if len(t['args']) > 1 else None
        else:
            frm, to = t['args'][0], t['args'][1] if len(t['args']) > 1 else None
        if to is None or frm is None:
            return NotImplemented
        a, b = self.T[frm], self.T[to]
        if to == frm:
            return args[0]
        if isinstance(args[0], Lazy):
            args = [e.expand(args[0])] + list(args[1:])
            if isinstance(args[0], Lazy) and (e.bits_of(a) or a['k'] == 'float'):
                return e.unk('convert', to)
        if b['k'] == 'adt' and b['path'] in ('std::string::String', 'std::vec::Vec') and isinstance(args[0], Sl):
            self.cur_st = st
            return self.seq_of(args[0])
        if b['k'] == 'adt' and b['path'] == 'std::vec::Vec' and isinstance(args[0], Seq):
            return args[0]
        if e.bits_of(b) and a['k'] == 'bool':
            return b2i(args[0])
        if e.bits_of(b) and e.bits_of(a) and isdd(args[0]):
            return args[0]
        if b['k'] == 'float' and e.bits_of(a):
            return apply('i2f', i2f, args[0])
        if b['k'] == 'float' and a['k'] == 'float':
            return args[0]
        return NotImplemented

    def default(self, ty):
        e = self.e
        t = self.T[ty]
        if e.bits_of(t):
            return FALSE if t['k'] == 'bool' else ZERO
        if t['k'] == 'float':
            return leaf(fc(0.0))
        if e.is_seq(t) and t['k'] == 'adt':
            return seq(('e', e.seq_elem(t)))
        if t['k'] == 'adt' and t['path'] == 'std::option::Option':
            return NONEV
        if t['k'] == 'array':
            d = self.default(t['t'])
            return None if d is None else seq(('fill', d, k_(t['len'])))
        if t['k'] == 'tuple':
            ds = [self.default(x) for x in t['ts']]
            return None if None in ds else agg(*ds)
        return None

    def to_string(self, st, t, args):
        e = self.e
        v = args[0]
        for _ in range(3):
            if isinstance(v, Ref):
                v = e.read_alts(st, v.alts)
        if isinstance(v, Lazy):
            v = e.expand(v)
        if isinstance(v, Sl):
            self.cur_st = st
            return self.seq_of(v)
        if isinstance(v, Seq):
            return v
        return self.fmtstr()

    def fmtstr(self):
        return seq(('opq', atom('fmt', ()), self.e.tyid('u8'), leaf(P(atom('fmtlen', (), 0, 1 << 40)))))

    def hash(self, st, t, name, args, destty):
        e = self.e
        if name == 'finish':
            h = self.dval(st, args[0])
            return leaf(P(atom('hash', (h,), 0, (1 << 64) - 1)))
        # state <- combine(state, value)
        if name == 'hash':
            v, hr = args[0], args[1]
            v = self.deep(st, v)
        else:
            hr, v = args[0], (args[1] if len(args) > 1 else UNIT)
        if isinstance(hr, Ref):
            old = e.expand(e.read_alts(st, hr.alts))
            if isinstance(old, Seq):
                # what is hashed, in order
                e.write(st, hr.alts, seq(old.base, old.effs + tuple((TRUE, 'push', x) for x in self.flat(v))))
            else:
                e.write(st, hr.alts, seq(('hash', old, v)))
        return UNIT

    def flat(self, v):
        v = self.e.expand(v) if isinstance(v, Lazy) else v
        if isinstance(v, Agg):
            return [y for x in v.f for y in self.flat(x)]
        return [v]

    def deep(self, st, v):
        e = self.e
        for _ in range(4):
            if isinstance(v, Ref):
                v = e.read_alts(st, v.alts)
        if isinstance(v, Agg):
            return agg(*[self.deep(st, x) for x in v.f])
        return v

    # ---- indexing -----------------------------------------------------------
    def range_of(self, st, idx, ity, n):
        """(lo, hi, bad) for an index value of range type over length n"""
        t = self.T[ity]
        p = t.get('path', '')
        e = self.e
        if isinstance(idx, Lazy):
            idx = e.expand(idx)
        if p == 'std::ops::Range':
            a, b = idx.f[0], idx.f[1]
            return a, b, or_(dlt(b, a), dlt(n, b))
        if p == 'std::ops::RangeTo':
            return ZERO, idx.f[0], dlt(n, idx.f[0])
        if p == 'std::ops::RangeFrom':
            return idx.f[0], n, dlt(n, idx.f[0])
        if p == 'std::ops::RangeFull':
            return ZERO, n, FALSE
        if p == 'std::ops::RangeInclusive':
            a, b = idx.f[0], dadd(idx.f[1], k_(1))
            return a, b, or_(dlt(b, a), dlt(n, b))
        if p == 'std::ops::RangeToInclusive':
            b = dadd(idx.f[0], k_(1))
            return ZERO, b, dlt(n, b)
        return None

    def subslice(self, s, lo, hi):
        return sls([(g, m, dadd(a, lo), dadd(a, hi)) for g, m, a, b in s.alts])

    def index(self, fr, st, t, args):
        e = self.e
        base = self.T[t['args'][0]]
        ity = t['args'][1]
        if base['k'] == 'adt' and base['path'] in ('std::collections::HashMap', 'std::collections::BTreeMap'):
            m = e.expand(e.read_alts(st, args[0].alts))
            g, v = self.map_get(st, m, args[1], base)
            self.oblige(fr, st, not_(g), 'map-index', 'HashMap::index')
            return v
        if not (e.is_seq(base) or base['k'] in ('slice', 'str')):
            return NotImplemented
        s = self.as_slice(st, args[0])
        if not isinstance(s, Sl):
            return e.unk('index base')
        n = e.sllen(s)
        if e.bits_of(self.T[ity]):
            self.oblige(fr, st, dge(args[1], n), 'bounds', 'index')
            return self.elem_ref(s, args[1])
        r = self.range_of(st, args[1], ity, n)
        if r is None:
            return NotImplemented
        lo, hi, bad = r
        self.oblige(fr, st, bad, 'slice-range', 'index')
        if base['k'] == 'str' or base.get('path') == 'std::string::String':
            c = boolatom(atom('charboundary', (s, lo, hi), 0, 1))
            self.oblige(fr, st, not_(c), 'char-boundary', 'index')
        return self.subslice(s, lo, hi)

    # ---- maps ---------------------------------------------------------------
    def map_get(self, st, m, key, mt):
        e = self.e
        k = self.deep(st, key)
        g, v = self.map_lookup(m, k, mt['args'][1])
        return g, ref(('k', v))

    def keyeq(self, a, b):
        if a is b:
            return TRUE
        if isdd(a) and isdd(b):
            if a in (TRUE, FALSE) or b in (TRUE, FALSE):
                return None
            return deq(a, b)
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
            r = TRUE
            for x, y in zip(a.f, b.f):
                q = self.keyeq(x, y)
                if q is None:
                    return None
                r = and_(r, q)
            return r
        return None

    def map_lookup(self, m, k, vt):
        e = self.e
        if isinstance(m, Seq) and m.base[0] == 'e' and all(x[1] == 'ins' for x in m.effs):
            eqs = [self.keyeq(x[2], k) for x in m.effs]
            if all(q is not None for q in eqs):
                has, v = FALSE, None
                for x, q in zip(m.effs, eqs):
                    g = and_(x[0], q)
                    if g is FALSE:
                        continue
                    has = or_(has, g)
                    v = x[3] if v is None else vite(g, x[3], v)
                if v is None:
                    v = e.mk_lazy(atom('mget', (m, k)), vt)
                return has, v
        g = boolatom(atom('mhas', (m, k), 0, 1))
        return g, e.mk_lazy(atom('mget', (m, k)), vt)

    # ---- iterators ------------------------------------------------------------
    def fidx(self, ty, name):
        t = self.T[ty]
        for i, f in enumerate(t['v'][0]['f']):
            if f[0] == name:
                return i
        return None

    def into_iter(self, st, t, args):
        e = self.e
        it = self.T[t['args'][0]]
        v = args[0]
        if it['k'] == 'ref':
            inner = self.T[it['t']]
            if e.is_seq(inner) or inner['k'] == 'slice':
                if inner.get('path') in ('std::collections::HashMap',):
                    return e.unk('iterate HashMap')
                return self.as_slice(st, v)
            return NotImplemented
        if e.is_seq(it):
            if it.get('path') == 'std::collections::HashMap':
                return e.unk('iterate HashMap')
            v = e.expand(v)
            return sl(('sq', v), ZERO, e.seqlen(v)) if isinstance(v, Seq) else UNDEF
        if it['k'] == 'adt' and it['path'] == 'std::option::Option':
            return NotImplemented
        return NotImplemented

    SLITER = {'std::slice::Iter': 'ref', 'std::slice::IterMut': 'ref', 'std::vec::IntoIter': 'val', 'std::array::IntoIter': 'val'}

    BACK = {'std::iter::Map', 'std::iter::Inspect', 'std::iter::Filter', 'std::iter::FilterMap', 'std::iter::Copied', 'std::iter::Cloned', 'std::iter::Rev', 'std::iter::Skip', 'std::iter::Enumerate'}

    def step(self, fr, st, it, ty, back=False):
        """advance iterator stored at reference `it` (Ref) of type ty.
        -> (guard some, value, guard skip) or None; updates st"""
        e = self.e
        t = self.T[ty]
        if t['k'] == 'ref':
            inner = e.read_alts(st, it.alts)
            return self.step(fr, st, inner, t['t'], back)
        p = t.get('path', '')
        if back and p not in self.BACK:
            return self.step_back(fr, st, it, ty)

        def fld(name):
            i = self.fidx(ty, name)
            return i, refs([(g, r, q + (('f', i),)) for g, r, q in it.alts])
        if p in self.SLITER:
            s = e.read_alts(st, it.alts)
            if isinstance(s, Lazy):
                s = e.expand(s)
            if not isinstance(s, Sl):
                return None
            n = e.sllen(s)
            g = dge(n, k_(1))
            v = self.elem_ref(s, ZERO) if self.SLITER[p] == 'ref' else self.elem_val(st, s, ZERO)
            s2 = sls([(h, m, vite(g, dadd(a, k_(1)), a), b) for h, m, a, b in s.alts])
            e.write(st, it.alts, s2)
            return g, v, FALSE
        if p == 'std::ops::Range':
            r = e.read_alts(st, it.alts)
            r = e.expand(r)
            a, b = r.f[0], r.f[1]
            g = dlt(a, b)
            e.write(st, it.alts, agg(ite(g, dadd(a, k_(1)), a), b))
            return g, a, FALSE
        if p == 'std::ops::RangeFrom':
            r = e.expand(e.read_alts(st, it.alts))
            e.write(st, it.alts, agg(dadd(r.f[0], k_(1))))
            return TRUE, r.f[0], FALSE
        if p == 'std::ops::RangeInclusive':
            r = e.expand(e.read_alts(st, it.alts))
            a, b = r.f[0], r.f[1]
            x = r.f[2] if len(r.f) > 2 else FALSE
            g = and_(not_(x), dge(b, a))
            e.write(st, it.alts, agg(ite(g, dadd(a, k_(1)), a), b, x))
            return g, a, FALSE
        if p in ('std::iter::Map', 'std::iter::Inspect'):
            i, ir = fld('iter')
            j, fre = fld('f')
            r = self.step(fr, st, ir, t['args'][0], back)
            if r is None:
                return None
            g, v, sk = r
            w = self.guarded(st, g, lambda s: e.call_callable(fr, s, fre, t['args'][1], [v]))
            return g, w, sk
        if p == 'std::iter::Filter':
            i, ir = fld('iter')
            j, fre = fld('predicate')
            r = self.step(fr, st, ir, t['args'][0], back)
            if r is None:
                return None
            g, v, sk = r
            if g is FALSE:
                return FALSE, UNDEF, sk
            root = ('tmp', e.depth, e.fresh())

            def f(s):
                s.mem[root] = v
                x = e.call_callable(fr, s, fre, t['args'][1], [ref(root)])
                s.mem.pop(root, None)
                return x
            q = self.guarded(st, g, f)
            st.mem.pop(root, None)
            if not isdd(q):
                return None
            return and_(g, q), v, or_(sk, and_(g, not_(q)))
        if p == 'std::iter::FilterMap':
            i, ir = fld('iter')
            j, fre = fld('f')
            r = self.step(fr, st, ir, t['args'][0], back)
            if r is None:
                return None
            g, v, sk = r
            if g is FALSE:
                return FALSE, UNDEF, sk
            w = self.guarded(st, g, lambda s: e.call_callable(fr, s, fre, t['args'][1], [v]))
            w = e.expand(w) if isinstance(w, Lazy) else w
            if not isinstance(w, En):
                return None
            hs, x = self.some_of(w)
            return and_(g, hs), x, or_(sk, and_(g, not_(hs)))
        if p == 'std::iter::Enumerate':
            i, ir = fld('iter')
            j, cr = fld('count')
            r = self.step(fr, st, ir, t['args'][0], back)
            if r is None:
                return None
            g, v, sk = r
            c = e.read_alts(st, cr.alts)
            if back:
                n = self.left(st, ir, t['args'][0])
                return None if n is None else (g, agg(dadd(c, n), v), sk)
            e.write(st, cr.alts, ite(g, dadd(c, k_(1)), c))
            return g, agg(c, v), sk
        if p == 'std::iter::Zip':
            _, ar = fld('a')
            _, br = fld('b')
            r = self.step(fr, st, ar, t['args'][0])
            if r is None or r[2] is not FALSE:
                return None
            g, v, _ = r
            box = []

            def f(s):
                q = self.step(fr, s, br, t['args'][1])
                box.append(q)
                return UNIT
            self.guarded(st, g, f)
            if not box:
                return FALSE, UNDEF, FALSE
            q = box[0]
            if q is None or q[2] is not FALSE:
                return None
            return and_(g, q[0]), agg(v, q[1]), FALSE
        if p in ('std::iter::Copied', 'std::iter::Cloned'):
            i, ir = fld('it')
            r = self.step(fr, st, ir, t['args'][0], back)
            if r is None:
                return None
            g, v, sk = r
            return g, self.dval(st, v), sk
        if p == 'std::iter::Take':
            _, ir = fld('iter')
            _, nr = fld('n')
            n = e.read_alts(st, nr.alts)
            g0 = dge(n, k_(1))
            box = []

            def f(s):
                box.append(self.step(fr, s, ir, t['args'][0]))
                return UNIT
            self.guarded(st, g0, f)
            if not box:
                return FALSE, UNDEF, FALSE
            if box[0] is None:
                return None
            g, v, sk = box[0]
            dec = and_(g0, not_(sk))
            e.write(st, nr.alts, ite(dec, dsub(n, k_(1)), n))
            return and_(g0, g), v, and_(g0, sk)
        if p == 'std::iter::Peekable':
            if self.transparent(t['args'][0]):
                _, ir = fld('iter')
                return self.step(fr, st, ir, t['args'][0], back)
            return NotImplemented
        if p in ('std::slice::Chunks', 'std::slice::ChunksExact', 'std::slice::ChunksMut', 'std::slice::ChunksExactMut'):
            v = e.expand(e.read_alts(st, it.alts))
            s, c = v.f[0], v.f[1]
            n = e.sllen(s)
            exact = 'Exact' in p
            g = dge(n, c) if exact else dge(n, k_(1))
            take = c if exact else dmin(n, c)
            w = self.subslice(s, ZERO, take)
            s2 = vite(g, self.subslice(s, take, n), s)
            e.write(st, it.alts, agg(s2, c))
            return g, w, FALSE
        if p == 'std::iter::Rev':
            _, ir = fld('iter')
            return self.step(fr, st, ir, t['args'][0], not back)
        if p == 'std::iter::Skip':
            # (the elements to leave out are left out when it is made)
            _, ir = fld('iter')
            _, nr = fld('n')
            if e.read_alts(st, nr.alts) is ZERO:
                return self.step(fr, st, ir, t['args'][0], back)
            return NotImplemented
        return NotImplemented

    def left(self, st, it, ty):
        """number of elements a slice iterator or range still has"""
        e = self.e
        t = self.T[ty]
        p = t.get('path', '')
        if p in self.SLITER:
            s = e.read_alts(st, it.alts)
            s = e.expand(s) if isinstance(s, Lazy) else s
            return e.sllen(s) if isinstance(s, Sl) else None
        if p == 'std::ops::Range':
            r = e.expand(e.read_alts(st, it.alts))
            return ite(dlt(r.f[0], r.f[1]), dsub(r.f[1], r.f[0]), ZERO)
        if p == 'std::ops::RangeInclusive':
            r = e.expand(e.read_alts(st, it.alts))
            x = r.f[2] if len(r.f) > 2 else FALSE
            return ite(and_(not_(x), dge(r.f[1], r.f[0])), dadd(dsub(r.f[1], r.f[0]), k_(1)), ZERO)
        if p == 'std::iter::Zip':
            n = [self.left(st, refs([(g, r, q + (('f', self.fidx(ty, x)),)) for g, r, q in it.alts]), t['args'][i]) for i, x in enumerate('ab')]
            return None if None in n else dmin(*n)
        if p in ('std::iter::Copied', 'std::iter::Cloned', 'std::iter::Enumerate', 'std::iter::Skip', 'std::iter::Map', 'std::iter::Rev'):
            i = self.fidx(ty, 'iter' if p not in ('std::iter::Copied', 'std::iter::Cloned') else 'it')
            return self.left(st, refs([(g, r, q + (('f', i),)) for g, r, q in it.alts]), t['args'][0])
        return None

    def advanced(self, v, ty, n):
        """the iterator value without its first n elements, or None"""
        e = self.e
        t = self.T[ty]
        p = t.get('path', '')
        v = e.expand(v) if isinstance(v, Lazy) else v
        if p in self.SLITER and isinstance(v, Sl):
            k = dmin(n, e.sllen(v))
            return sls([(h, m, dadd(a, k), b) for h, m, a, b in v.alts])
        if p == 'std::ops::Range' and isinstance(v, Agg):
            a, b = v.f
            return agg(ite(dle(dadd(a, n), b), dadd(a, n), ite(dlt(a, b), b, a)), b)
        if p in ('std::iter::Copied', 'std::iter::Cloned', 'std::iter::Enumerate', 'std::iter::Skip') and isinstance(v, Agg):
            i = self.fidx(ty, 'iter' if p not in ('std::iter::Copied', 'std::iter::Cloned') else 'it')
            f = list(v.f)
            if p == 'std::iter::Skip' and f[self.fidx(ty, 'n')] is not ZERO:
                return None
            if p == 'std::iter::Enumerate':
                root = ('tmp', e.depth, e.fresh())
                l = self.left(St(TRUE, {root: v}), ref(root, (('f', i),)), t['args'][0])
                if l is None:
                    return None
                j = self.fidx(ty, 'count')
                f[j] = dadd(f[j], dmin(n, l))
            f[i] = self.advanced(f[i], t['args'][0], n)
            return None if f[i] is None else agg(*f)
        return None

    def step_back(self, fr, st, it, ty):
        e = self.e
        t = self.T[ty]
        p = t.get('path', '')
        if p in self.SLITER:
            s = e.read_alts(st, it.alts)
            if not isinstance(s, Sl):
                return None
            n = e.sllen(s)
            g = dge(n, k_(1))
            last = dsub(n, k_(1))
            v = self.elem_ref(s, last) if self.SLITER[p] == 'ref' else self.elem_val(st, s, last)
            e.write(st, it.alts, sls([(h, m, a, vite(g, dsub(b, k_(1)), b)) for h, m, a, b in s.alts]))
            return g, v, FALSE
        if p == 'std::ops::Range':
            r = e.expand(e.read_alts(st, it.alts))
            a, b = r.f[0], r.f[1]
            g = dlt(a, b)
            nb = dsub(b, k_(1))
            e.write(st, it.alts, agg(a, ite(g, nb, b)))
            return g, nb, FALSE
        if p == 'std::ops::RangeInclusive':
            r = e.expand(e.read_alts(st, it.alts))
            a, b = r.f[0], r.f[1]
            x = r.f[2] if len(r.f) > 2 else FALSE
            g = and_(not_(x), dge(b, a))
            last = and_(g, deq(a, b))
            e.write(st, it.alts, agg(a, ite(and_(g, not_(last)), dsub(b, k_(1)), b), or_(x, last)))
            return g, b, FALSE
        return NotImplemented

    def some_of(self, w):
        hs, x = FALSE, UNDEF
        for vi, g, f in w.alts:
            if vi == 1:
                hs, x = g, f[0]
        return hs, x

    def transparent(self, ty):
        t = self.T[ty]
        p = t.get('path', '')
        if p in self.SLITER or p == 'std::ops::Range':
            return True
        if p in ('std::iter::Copied', 'std::iter::Cloned', 'std::iter::Enumerate'):
            return self.transparent(t['args'][0])
        return False

    def iterator(self, fr, st, t, name, args, destty):
        e = self.e
        ity = t['args'][0]
        it = self.T[ity]
        if name == 'next':
            if not isinstance(args[0], Ref):
                return e.unk('next on %s' % type(args[0]).__name__, destty)
            r = self.step(fr, st, args[0], ity)
            if r is NotImplemented:
                return r
            if r is None:
                return e.unk('next of ' + it['s'][:60], destty)
            g, v, sk = r
            if sk is not FALSE:
                e.sideskip = (sk, dict(st.mem))
            return option(g, v)
        if name == 'zip':
            f = self.T[destty] if destty is not None else None
            if f is None:
                return NotImplemented
            other = self.as_iter(st, t['args'][1], args[1])
            if other is NotImplemented:
                return other
            vals = []
            for n, ty, _ in f['v'][0]['f']:
                vals.append(args[0] if n == 'a' else other if n == 'b' else ZERO)
            return agg(*vals)
        if name in ('size_hint',):
            n = self.left(st, args[0], ity) if isinstance(args[0], Ref) else None
            if n is not None:
                return agg(n, some(n))
            return e.unk('size_hint', destty)
        if name == 'skip' and destty is not None and self.T[destty].get('path') == 'std::iter::Skip':
            w = self.advanced(args[0], ity, args[1])
            if w is not None:
                return agg(*[w if n == 'iter' else ZERO for n, ty, _ in self.T[destty]['v'][0]['f']])
        if name in ITERCONS:
            return self.consume(fr, st, t, name, args, destty)
        if name in ('copied', 'cloned', 'map', 'filter', 'filter_map', 'enumerate', 'peekable', 'take', 'rev', 'by_ref', 'inspect', 'skip', 'chain', 'take_while', 'step_by'):
            return NotImplemented
        return NotImplemented

    def as_iter(self, st, ty, v):
        e = self.e
        t = self.T[ty]
        if t['k'] == 'ref' or e.is_seq(t):
            r = self.into_iter(st, {'args': [ty]}, [v])
            return r
        return v

    def iter_type_of(self, ty):
        """type id of IntoIter for a type (only the cases we need)"""
        t = self.T[ty]
        e = self.e
        if t['k'] == 'ref':
            inner = self.T[t['t']]
            if inner['k'] in ('slice', 'array') or e.is_seq(inner):
                el = e.seq_elem(inner)
                for i, x in enumerate(self.T):
                    if x.get('path') == ('std::slice::IterMut' if t['mut'] else 'std::slice::Iter') and x.get('args') and x['args'][0] == el:
                        return i
                return ('slit', 'ref')
            return ty
        if e.is_seq(t):
            el = e.seq_elem(t)
            for i, x in enumerate(self.T):
                if x.get('path') == 'std::vec::IntoIter' and x.get('args') and x['args'][0] == el:
                    return i
            return None
        return ty

    def run_synth(self, st, itval, ity, body, accs, name, fr):
        """for x in itval: body(st, x) -> list of (tag, state); returns exits [(tag, state)]
        accs: {root: (value, type)} loop-carried accumulators"""
        e = self.e
        fl = self.unflatten(st, itval, ity)
        if fl is not None:
            itval, ity, ety, ity2 = fl
            ibody = body

            def body(s, v):
                if ety is None:
                    inner = v
                else:
                    inner = self.as_iter(s, ety, v)
                if inner is NotImplemented:
                    e.unk('flatten item')
                    return [('back', s)]
                g0 = s.g
                s.g = TRUE
                res = self.run_synth(s, inner, ity2, ibody, {}, name, fr)
                if res is None:
                    e.unk('flatten inner ' + self.tname(ity2)[:60])
                    return [('back', s)]
                out = []
                for tag, x in res:
                    x.g = and_(g0, x.g)
                    out.append(('back' if tag == 'none' else tag, x))
                return out
        iroot = ('it', e.depth, len(e.stack), e.ldepth, name)
        n = 0
        while iroot + (n,) in st.mem:
            n += 1
        iroot = iroot + (n,)
        types = {iroot: ity}
        st.mem[iroot] = itval
        for r, (v, ty) in accs.items():
            st.mem[r] = v
            types[r] = ty
        bad = []

        def step(s):
            r = self.step(fr, s, ref(iroot), ity)
            if r is NotImplemented or r is None:
                bad.append(1)
                return [('none', s)]
            g, v, sk = r
            outs = []
            none = and_(not_(g), not_(sk))
            outs.append(('none', s.copy(and_(s.g, none))))
            if sk is not FALSE:
                outs.append(('back', s.copy(and_(s.g, sk))))
            ss = s.copy(TRUE)
            n0 = len(e.obl)
            g0 = and_(s.g, g)
            for tag, x in body(ss, v):
                x.g = and_(g0, x.g)
                outs.append((tag, x))
            if g0 is not TRUE:
                e.obl[n0:] = [x for x in (o.under(g0, None) for o in e.obl[n0:]) if x.fail is not FALSE]
            return outs
        g0 = st.g
        s0 = St(TRUE, dict(st.mem))
        res = loop_core(e, SynthLoop(e, step, types, name), s0)
        if bad:
            return None
        bytag = {}
        for tag, x in res:
            x.mem.pop(iroot, None)
            bytag[tag] = x if tag not in bytag else e.merge(bytag[tag], x, None, None)
        return list(bytag.items())

    def unflatten(self, st, v, ty):
        """(outer iterator value, its type, item type, inner iterator type) of
        a fresh FlatMap/Flatten"""
        e = self.e
        t = self.T[ty]
        p = t.get('path', '')
        if p not in ('std::iter::FlatMap', 'std::iter::Flatten'):
            return None
        v = e.expand(v) if isinstance(v, Lazy) else v
        i = self.fidx(ty, 'inner')
        if i is None or not isinstance(v, Agg):
            return None
        cty = t['v'][0]['f'][i][1]
        c, v = self.T[cty], v.f[i]
        for nm in ('frontiter', 'backiter'):
            j = self.fidx(cty, nm)
            if j is None or v.f[j] is not NONEV:
                return None
        j = self.fidx(cty, 'iter')
        ity2 = None
        fty = c['v'][0]['f'][self.fidx(cty, 'frontiter')][1]
        ity2 = self.T[fty]['args'][0]
        v, fty = v.f[j], c['v'][0]['f'][j][1]
        while self.T[fty].get('path', '') in ('std::iter::Fuse', 'core::iter::adapters::fuse::Fuse'):
            j = self.fidx(fty, 'iter')
            v, oty = v.f[j], self.T[fty]['v'][0]['f'][j][1]
            if not isinstance(v, En) or len(v.alts) != 1 or v.alts[0][0] != 1:
                return None
            v, fty = v.alts[0][2][0], self.T[oty]['args'][0]
        ety = None
        ft = self.T[fty]
        if p == 'std::iter::FlatMap':
            ety = t['args'][1]
        elif self.T[ity2]['k'] == 'adt' and self.T[ity2].get('path') in self.SLITER:
            # items are references to sequences or sequences
            ety = self.item_type(fty)
            if ety is None:
                return None
        else:
            return None
        return v, fty, ety, ity2

    def item_type(self, ty):
        t = self.T[ty]
        p = t.get('path', '')
        if p == 'std::slice::Iter':
            el = t['args'][0]
            for i, x in enumerate(self.T):
                if x['k'] == 'ref' and x['t'] == el and not x.get('mut'):
                    return i
        if p == 'std::vec::IntoIter':
            return t['args'][0]
        return None

    def consume(self, fr, st, t, name, args, destty):
        e = self.e
        ity = t['args'][0]
        itv = args[0]
        byref = name in ('any', 'all', 'find', 'position', 'find_map', 'try_fold', 'try_for_each', 'nth')
        if name == 'collect':
            return self.collect(fr, st, ity, itv, t['args'][1] if len(t['args']) > 1 else destty, destty)
        if byref:
            if not isinstance(itv, Ref):
                return e.unk('iter ' + name, destty)
            itref = itv
            cur = e.read_alts(st, itref.alts)
        else:
            cur = itv
        accr = ('acc', e.depth, e.ldepth, name)
        if name == 'for_each':
            f, fty = args[1], t['args'][1]
            root = ('tmp', e.depth, e.fresh())
            st.mem[root] = f

            def body(s, v):
                e.call_callable(fr, s, ref(root), fty, [v])
                return [('back', s)]
            res = self.run_synth(st, cur, ity, body, {}, name, fr)
            if res is None:
                return e.unk('for_each', destty)
            st.mem = res[0][1].mem
            st.mem.pop(root, None)
            return UNIT
        if name == 'fold':
            f, fty = args[2], t['args'][2]
            accty = t['args'][1]
            root = ('tmp', e.depth, e.fresh())
            st.mem[root] = f

            def body(s, v):
                a = s.mem[accr]
                s.mem[accr] = e.call_callable(fr, s, ref(root), fty, [a, v])
                return [('back', s)]
            res = self.run_synth(st, cur, ity, body, {accr: (args[1], accty)}, name, fr)
            if res is None:
                return e.unk('fold', destty)
            st.mem = res[0][1].mem
            st.mem.pop(root, None)
            return st.mem.pop(accr)
        if name in ('count', 'sum'):
            def body(s, v):
                s.mem[accr] = dadd(s.mem[accr], k_(1) if name == 'count' else v)
                return [('back', s)]
            if name == 'sum' and not (destty is not None and e.bits_of(self.T[destty])):
                return e.unk('sum', destty)
            res = self.run_synth(st, cur, ity, body, {accr: (ZERO, destty)}, name, fr)
            if res is None:
                return e.unk(name, destty)
            st.mem = res[0][1].mem
            r = st.mem.pop(accr)
            if name == 'sum':
                n, sg = e.bits_of(self.T[destty])
                lo, hi = trange(n, sg)
                self.oblige(fr, st, or_(dlt(r, k_(lo)), dlt(k_(hi), r)), 'overflow', 'sum')
            return r
        if name in ('any', 'all', 'find', 'position', 'find_map'):
            f, fty = args[1], t['args'][1]
            root = ('tmp', e.depth, e.fresh())
            st.mem[root] = f
            pos = ('acc', e.depth, e.ldepth, 'pos')
            accs = {pos: (ZERO, e.tyid('usize'))} if name == 'position' else {}
            tmp = ('tmp', e.depth, e.fresh())

            def body(s, v):
                if name == 'find':
                    s.mem[tmp] = v
                    q = e.call_callable(fr, s, ref(root), fty, [ref(tmp)])
                    s.mem.pop(tmp, None)
                else:
                    q = e.call_callable(fr, s, ref(root), fty, [v])
                if name == 'find_map':
                    q = e.expand(q) if isinstance(q, Lazy) else q
                    if not isinstance(q, En):
                        q = e.unk('find_map')
                        return [('back', s)]
                    hs, x = self.some_of(q)
                    found, val = hs, x
                else:
                    if not isdd(q):
                        e.unk('pred')
                        return [('back', s)]
                    found, val = (q, v) if name != 'all' else (not_(q), v)
                a, b = s.copy(found), s.copy(not_(found))
                a.mem[accr] = val if name != 'position' else s.mem[pos]
                if name == 'position':
                    b.mem[pos] = dadd(s.mem[pos], k_(1))
                return [('found', a), ('back', b)]
            res = self.run_synth(st, cur, ity, body, accs, name, fr)
            if res is None:
                return e.unk(name, destty)
            fs = [x for x in res if x[0] == 'found']
            ns = [x for x in res if x[0] == 'none']
            fg = fs[0][1].g if fs else FALSE
            val = fs[0][1].mem.get(accr, UNDEF) if fs else UNDEF
            m = None
            for _, x in fs + ns:
                x.mem.pop(accr, None)
                x.mem.pop(pos, None)
                m = x if m is None else e.merge(m, x)
            st.mem = m.mem
            st.mem.pop(root, None)
            e.write(st, itref.alts, e.unk('iter-after-' + name) if False else cur)
            if name == 'any':
                return fg
            if name == 'all':
                return not_(fg)
            return option(fg, val)
        if name == 'last':
            return e.unk('last', destty)
        return NotImplemented

    def collect(self, fr, st, ity, itv, target, destty):
        e = self.e
        ct = self.T[target]
        accr = ('acc', e.depth, e.ldepth, 'collect')
        if e.is_seq(ct) and ct.get('path') in ('std::vec::Vec', 'std::string::String'):
            def body(s, v):
                a = s.mem[accr]
                s.mem[accr] = seq(a.base, push_effs(a.effs, [(TRUE, 'push', v)]))
                return [('back', s)]
            res = self.run_synth(st, itv, ity, body, {accr: (seq(('e', e.seq_elem(ct))), target)}, 'collect', fr)
            if res is None or ct.get('path') != 'std::vec::Vec':
                return e.unk('collect ' + self.tname(ity)[:60], destty)
            st.mem = res[0][1].mem
            return st.mem.pop(accr)
        if ct.get('path') in ('std::result::Result', 'std::option::Option'):
            inner = ct['args'][0]
            it = self.T[inner]
            if not (e.is_seq(it) and it.get('path') == 'std::vec::Vec'):
                return e.unk('collect ' + ct['s'][:60], destty)
            isres = ct['path'].endswith('Result')
            errr = ('acc', e.depth, e.ldepth, 'err')

            def body(s, v):
                v = e.expand(v) if isinstance(v, Lazy) else v
                if not isinstance(v, En):
                    e.unk('collect item')
                    return [('back', s)]
                okv = 0 if isres else 1
                okg, ok, er = FALSE, UNDEF, UNDEF
                for vi, g, f in v.alts:
                    if vi == okv:
                        okg, ok = g, f[0]
                    elif isres:
                        er = f[0]
                a, b = s.copy(okg), s.copy(not_(okg))
                x = a.mem[accr]
                a.mem[accr] = seq(x.base, push_effs(x.effs, [(TRUE, 'push', ok)]))
                b.mem[errr] = er
                return [('back', a), ('err', b)]
            res = self.run_synth(st, itv, ity, body, {accr: (seq(('e', e.seq_elem(it))), inner)}, 'collect', fr)
            if res is None:
                return e.unk('collect', destty)
            val = None
            m = None
            for tag, x in res:
                if tag == 'none':
                    w = x.mem.get(accr, UNDEF)
                    w = en([(0, TRUE, (w,))]) if isres else some(w)
                else:
                    w = en([(1, TRUE, (x.mem.get(errr, UNDEF),))]) if isres else NONEV
                x.mem.pop(accr, None)
                x.mem.pop(errr, None)
                if val is None:
                    val, m = w, x
                else:
                    n = or_(m.g, x.g)
                    val = vite(restrict(m.g, n), val, w)
                    m = e.merge(m, x)
            st.mem = m.mem
            return val
        return e.unk('collect ' + ct['s'][:60], destty)

    def from_iter(self, fr, st, t, args, destty):
        e = self.e
        sty = t['args'][0]
        ity = t['args'][2] if len(t['args']) > 2 else t['args'][-1]
        v = self.as_iter(st, ity, args[0])
        it2 = self.iter_type_of(ity)
        if v is NotImplemented or not isinstance(it2, int):
            return e.unk('from_iter', destty)
        return self.collect(fr, st, it2, v, sty, destty)

    def extend(self, fr, st, t, args):
        e = self.e
        r = args[0]
        ity = t['args'][-1]
        v = self.as_iter(st, ity, args[1])
        tgt = e.read_alts(st, r.alts)
        tgt = e.expand(tgt) if isinstance(tgt, Lazy) else tgt
        # whole sequences are appended as one effect
        it = self.T[ity]
        if isinstance(v, Sl) and len(v.alts) == 1 and (it['k'] == 'adt' and it.get('path') in ('std::vec::Vec', 'std::vec::IntoIter')):
            self.cur_st = st
            s = self.seq_of(v)
            e.write(st, r.alts, seq(tgt.base, tgt.effs + ((TRUE, 'ext', s),)))
            return UNIT
        it2 = self.iter_type_of(ity)
        if v is NotImplemented or not isinstance(it2, int) or len(r.alts) != 1:
            e.write(st, r.alts, seq(tgt.base, tgt.effs + ((TRUE, 'unk', e.unk('extend')),)))
            return UNIT
        deref = it['k'] == 'ref'

        def body(s, x):
            if deref:
                x = self.dval(s, x)
            a = e.read_alts(s, r.alts)
            e.write(s, r.alts, seq(a.base, push_effs(a.effs, [(TRUE, 'push', x)])))
            return [('back', s)]
        res = self.run_synth(st, v, it2, body, {}, 'extend', fr)
        if res is None:
            e.write(st, r.alts, seq(tgt.base, tgt.effs + ((TRUE, 'unk', e.unk('extend')),)))
            return UNIT
        st.mem = res[0][1].mem
        return UNIT

    # ---- nom ------------------------------------------------------------------
    def nom_number(self, st, t, args, destty, m):
        e = self.e
        stream, endian, kind, bits_ = m.group(1), m.group(2), m.group(3), int(m.group(4))
        n = bits_ // 8
        s = args[0]
        if isinstance(s, Lazy):
            s = e.expand(s)
        if not isinstance(s, Sl) or (n > 1 and endian is None):
            return e.unk('number parser input', destty)
        val = None
        for g, mm, a, b in reversed(s.alts):
            x = ZERO
            for i in range(n):
                byte = e.mem_read(st, mm, dadd(a, k_(i)))
                sh = i if endian != 'be' else n - 1 - i
                x = dadd(x, dmul(byte, k_(1 << (8 * sh))))
            val = x if val is None else ite(g, x, val)
        if kind == 'i':
            nb = bits_ if bits_ != 24 else 32
            if bits_ == 24:
                val = ite(dge(val, k_(1 << 23)), dsub(val, k_(1 << 24)), val)
            else:
                val = apply(('wrap', nb, True), lambda p: wrap(p, nb, True), val)
        elif kind == 'f':
            val = apply(('fb', kind + str(bits_)), lambda p: ft('frombits', (p, 'f%d' % bits_)), val)
        ln = e.sllen(s)
        ok = dge(ln, k_(n))
        rest = sls([(g, mm, dadd(a, k_(n)), b) for g, mm, a, b in s.alts])
        et = self.T[destty]['args'][1] if destty is not None else None
        err = self.nom_err(et, 'Incomplete' if stream == 'streaming' else 'Error', s)
        return result(ok, agg(rest, val), err)

    def nom_err(self, et, variant, s):
        if et is None:
            return UNDEF
        t = self.T[et]
        for i, v in enumerate(t['v']):
            if v['n'] == variant:
                return en([(i, TRUE, tuple(self.e.mk_lazy(atom('nomerr', (variant, j)), f[1]) for j, f in enumerate(v['f'])))])
        return UNDEF

    def nom_compare(self, st, t, args, name):
        e = self.e
        a, b = args[0], args[1]
        for _ in range(2):
            if isinstance(a, Ref):
                a = e.read_alts(st, a.alts)
            if isinstance(b, Ref):
                b = e.read_alts(st, b.alts)
        if isinstance(b, Seq):
            b = self.as_slice(st, b)
        if not isinstance(a, Sl) or not isinstance(b, Sl) or name != 'compare':
            return NotImplemented
        n = e.sllen(b)
        if not (isinstance(n, Leaf) and n.v.is_const()):
            return NotImplemented
        n = n.v.cval()
        la = e.sllen(a)
        # position of first mismatch within min(len)
        mism = FALSE
        for i in range(n):
            ne = not_(deq(self.elem_val(st, a, k_(i)), self.elem_val(st, b, k_(i))))
            mism = or_(mism, and_(dge(la, k_(i + 1)), ne))
        full = dge(la, k_(n))
        # CompareResult: Ok, Incomplete, Error
        return en([(0, and_(not_(mism), full), ()), (1, and_(not_(mism), not_(full)), ()), (2, mism, ())])

    # ---- inherent methods -------------------------------------------------------
    def inherent(self, fr, st, t, rp, path, name, args, destty):
        e = self.e
        m = re.match(r'^(core|std)::(num|intrinsics|f64|f32)\b', rp)
        if rp.startswith(('core::num::', 'std::intrinsics::', 'core::intrinsics::', 'std::num::')) or (rp.startswith('core::f') or rp.startswith('std::f64') or rp.startswith('std::f32') or rp.startswith('core::num')):
            r = self.num(fr, st, t, name, args, destty)
            if r is not NotImplemented:
                return r
        if t.get('trait') == 'std::cmp::Ord' and name in ('min', 'max', 'clamp') and isdd(args[0]):
            if name == 'min':
                return dmin(args[0], args[1])
            if name == 'max':
                return dmax(args[1], args[0])
            self.oblige(fr, st, dlt(args[2], args[1]), 'clamp', 'clamp')
            return dmin(dmax(args[0], args[1]), args[2])
        if 'slice::<impl [T]>' in rp or 'core::str::<impl str>' in rp or 'str::<impl str>' in rp or 'array::<impl [T; N]>' in rp:
            return self.slice_method(fr, st, t, name, args, destty)
        if rp.startswith('std::vec::Vec::') or rp.startswith('std::string::String::'):
            return self.vec_method(fr, st, t, name, args, destty)
        if rp.startswith('std::collections::HashMap::') or rp.startswith('std::collections::BTreeMap::'):
            return self.map_method(fr, st, t, name, args, destty)
        if rp.startswith(('std::collections::hash_map::Entry::', 'std::collections::btree_map::Entry::')):
            return self.entry_method(fr, st, t, name, args, destty)
        if rp.startswith('std::iter::Peekable::'):
            return self.peek_method(fr, st, t, name, args, destty)
        if rp in ('std::hash::DefaultHasher::new', 'std::collections::hash_map::DefaultHasher::new'):
            return seq(('e', None))
        if rp.startswith('flate2::'):
            return self.flate(fr, st, t, rp, name, args, destty)
        return NotImplemented

    def num(self, fr, st, t, name, args, destty):
        e = self.e
        dt = self.T[destty] if destty is not None else None
        a = args[0] if args else None
        if args and not isdd(a):
            if name == 'discriminant_value':
                v = e.read_alts(st, a.alts) if isinstance(a, Ref) else a
                return e.discr(v, t['args'][0])
            if name == 'from_le_bytes' or name == 'from_be_bytes' or name == 'from_ne_bytes':
                if isinstance(a, Seq):
                    n = dt['bits'] // 8
                    x = ZERO
                    for i in range(n):
                        sh = i if name != 'from_be_bytes' else n - 1 - i
                        x = dadd(x, dmul(e.select(a, k_(i)), k_(1 << (8 * sh))))
                    if dt['k'] == 'int':
                        x = apply(('wrap', dt['bits'], True), lambda p: wrap(p, dt['bits'], True), x)
                    return x
            return NotImplemented
        if name in ('size_of', 'min_align_of', 'align_of'):
            b = e.bits_of(self.T[t['args'][0]])
            if b and name == 'size_of':
                return k_(max(1, b[0] // 8))
            return e.unk(name, destty)
        if name in ('likely', 'unlikely', 'black_box'):
            return a
        if name in ('cold_path', 'assume', 'assert_unchecked'):
            return UNIT
        if name in ('integer_min',):
            return dmin(args[0], args[1])
        if name in ('integer_max',):
            return dmax(args[0], args[1])
        if dt is not None and dt['k'] == 'float' or (args and isinstance(_anyleaf(a), FT)):
            return self.fnum(name, args, destty)
        # integer methods; operand type from the first argument's declared type
        it = None
        m = re.search(r'<impl ([ui](?:8|16|32|64|128|size))>', t.get('rpath') or t['path'])
        if m:
            it = INTS[m.group(1)]
        elif t['args'] and e.bits_of(self.T[t['args'][0]]):
            it = e.bits_of(self.T[t['args'][0]])
        if it is None:
            return NotImplemented
        n, sg = it
        lo, hi = trange(n, sg)
        W = lambda d: apply(('wrap', n, sg), lambda p: wrap(p, n, sg), d)
        inr = lambda d: and_(dge(d, k_(lo)), dge(k_(hi), d))
        clamp = lambda d: dmin(dmax(d, k_(lo)), k_(hi))
        ops = {'add': dadd, 'sub': dsub, 'mul': dmul}
        b = args[1] if len(args) > 1 else None
        mm = re.match(r'^(checked|wrapping|saturating|overflowing|unchecked|strict)_(add|sub|mul)(_signed|_unsigned)?$', name)
        if mm:
            r = ops[mm.group(2)](a, b)
            k = mm.group(1)
            if k == 'checked':
                return option(inr(r), r)
            if k == 'wrapping':
                return W(r)
            if k == 'saturating':
                return clamp(r)
            if k == 'overflowing':
                return agg(W(r), not_(inr(r)))
            return r
        mm = re.match(r'^(add|sub|mul)_with_overflow$', name)
        if mm:
            r = ops[mm.group(1)](a, b)
            return agg(W(r), not_(inr(r)))
        if name in ('unchecked_div', 'exact_div', 'wrapping_div', 'div_euclid') and not sg:
            if name in ('wrapping_div', 'div_euclid'):
                self.oblige(fr, st, deq(b, ZERO), 'div0', name)
            return apply(('div', n, sg), tdiv, a, b)
        if name in ('unchecked_rem', 'wrapping_rem', 'rem_euclid') and not sg:
            if name in ('wrapping_rem', 'rem_euclid'):
                self.oblige(fr, st, deq(b, ZERO), 'div0', name)
            return apply('rem', trem, a, b)
        if name in ('checked_div', 'checked_rem') and not sg:
            nz = not_(deq(b, ZERO))
            r = apply(('div', n, sg), tdiv, a, b) if name == 'checked_div' else apply('rem', trem, a, b)
            return option(nz, r)
        if name == 'div_ceil' and not sg:
            self.oblige(fr, st, deq(b, ZERO), 'div0', name)
            return apply(('div', n, sg), tdiv, dadd(a, dsub(b, k_(1))), b)
        if name in ('unchecked_shl', 'wrapping_shl'):
            return apply(('shl', n, sg), lambda x, y: pshl(x, y, n, sg), a, b)
        if name in ('unchecked_shr', 'wrapping_shr'):
            return apply(('shr', n, sg), lambda x, y: pshr(x, y, n, sg), a, b)
        if name in ('checked_shl', 'checked_shr'):
            f = pshl if name.endswith('l') else pshr
            return option(and_(dge(b, ZERO), dlt(b, k_(n))), apply((name, n, sg), lambda x, y: f(x, y, n, sg), a, b))
        if name in ('abs', 'wrapping_abs', 'unsigned_abs'):
            r = ite(dge(a, ZERO), a, dsub(ZERO, a))
            if name == 'abs':
                self.oblige(fr, st, not_(inr(r)), 'overflow', 'abs')
            return r
        if name == 'abs_diff':
            return ite(dge(a, b), dsub(a, b), dsub(b, a))
        if name in ('min', 'max'):
            return dmin(a, b) if name == 'min' else dmax(a, b)
        if name == 'three_way_compare':
            lt, eq = dlt(a, b), deq(a, b)
            return en([(0, lt, ()), (1, and_(not_(lt), eq), ()), (2, and_(not_(lt), not_(eq)), ())])
        if name in ('pow', 'wrapping_pow', 'checked_pow', 'saturating_pow') and isinstance(b, Leaf) and b.v.is_const() and b.v.cval() < 16:
            r = k_(1)
            for _ in range(b.v.cval()):
                r = dmul(r, a)
            if name == 'pow':
                self.oblige(fr, st, not_(inr(r)), 'overflow', 'pow')
                return r
            if name == 'checked_pow':
                return option(inr(r), r)
            return W(r) if name == 'wrapping_pow' else clamp(r)
        if name in ('is_power_of_two', 'count_ones', 'leading_zeros', 'trailing_zeros', 'swap_bytes', 'rotate_left', 'rotate_right', 'isqrt', 'ilog2', 'reverse_bits'):
            if name in ('ilog2',):
                self.oblige(fr, st, deq(a, ZERO), 'log0', name)
            key = (name, a) + tuple(args[1:])
            if self.T[destty]['k'] == 'bool':
                return boolatom(atom('num', key, 0, 1))
            lo2, hi2 = e.int_range(self.T[destty])
            return leaf(P(atom('num', key, lo2, hi2)))
        if name in ('to_le_bytes', 'to_ne_bytes'):
            x = a if not sg else apply(('wrap', n, False), lambda p: wrap(p, n, False), a)
            return seq(('lit', tuple(apply(('byte', i), lambda p, i=i: bits(p, 8 * i, 8), x) for i in range(n // 8))))
        if name in ('from_le', 'to_le'):
            return a
        if name == 'signum':
            return ite(dge(a, k_(1)), k_(1), ite(deq(a, ZERO), ZERO, k_(-1)))
        if name == 'midpoint' and not sg:
            return apply('half', lambda p: fd(p, 2), dadd(a, b))
        return NotImplemented

    def fnum(self, name, args, destty):
        e = self.e
        f1 = {'sqrtf64': 'sqrt', 'sqrt': 'sqrt', 'floor': 'floor', 'ceil': 'ceil', 'round': 'round', 'trunc': 'trunc', 'abs': 'abs', 'fabs': 'abs',
              'floorf64': 'floor', 'ceilf64': 'ceil', 'roundf64': 'round', 'fabsf64': 'abs', 'truncf64': 'trunc'}
        if name in f1:
            o = f1[name]
            return apply(('fu', o), lambda x: ft(o, (x,)), args[0])
        mn = {'min': 'min', 'max': 'max', 'minimum_number_nsz_f64': 'min', 'maximum_number_nsz_f64': 'max', 'minnumf64': 'min', 'maxnumf64': 'max'}
        if name in mn:
            o = mn[name]

            def f(x, y):
                if x is y:
                    return x
                if x.op == 'c' and y.op == 'c':
                    return fc((min if o == 'min' else max)(x.args[0], y.args[0]))
                x, y = sorted((x, y), key=lambda t: t.id)
                return ft(o, (x, y))
            return apply(('fm', o), f, args[0], args[1])
        if name == 'clamp':
            lo = self.fnum('max', [args[0], args[1]], destty)
            return self.fnum('min', [lo, args[2]], destty)
        if name == 'from_bits':
            ty = self.T[destty]['s']
            return apply(('fb', ty), lambda p: ft('frombits', (p, ty)), args[0])
        if name == 'mul_add':
            return apply('fma', lambda a, b, c: ft('fma', (a, b, c)), *args)
        if name in ('is_nan', 'is_finite', 'is_infinite'):
            return apply_dd(('fp', name), lambda x: boolatom(atom('fpred', (name, x), 0, 1)), args[0])
        return NotImplemented

    # ---- slices ---------------------------------------------------------------
    def slice_method(self, fr, st, t, name, args, destty):
        e = self.e
        s = args[0]
        if isinstance(s, Lazy):
            s = e.expand(s)
        if isinstance(s, Ref):
            s = self.as_slice(st, s)
        if not isinstance(s, Sl):
            return UNDEF if s is UNDEF else e.unk('slice ' + name, destty)
        n = e.sllen(s)
        if name == 'len':
            return n
        if name == 'is_empty':
            return deq(n, ZERO)
        if name in ('as_bytes', 'as_mut_slice', 'as_slice', 'as_ref', 'as_mut', 'as_str', 'iter', 'iter_mut'):
            return s
        if name in ('get', 'get_mut'):
            ity = t['args'][1] if len(t['args']) > 1 else None
            idx = args[1]
            if isdd(idx):
                return option(dlt(idx, n), self.elem_ref(s, idx))
            r = self.range_of(st, idx, ity, n)
            if r is None:
                return e.unk('get', destty)
            lo, hi, bad = r
            return option(not_(bad), self.subslice(s, lo, hi))
        if name in ('split_at', 'split_at_mut', 'split_at_unchecked', 'split_at_mut_unchecked'):
            k = args[1]
            if 'unchecked' not in name:
                self.oblige(fr, st, dlt(n, k), 'slice-range', name)
            return agg(self.subslice(s, ZERO, k), self.subslice(s, k, n))
        if name in ('split_at_checked', 'split_at_mut_checked'):
            k = args[1]
            return option(dge(n, k), agg(self.subslice(s, ZERO, k), self.subslice(s, k, n)))
        if name in ('first', 'first_mut'):
            return option(dge(n, k_(1)), self.elem_ref(s, ZERO))
        if name in ('last', 'last_mut'):
            return option(dge(n, k_(1)), self.elem_ref(s, dsub(n, k_(1))))
        if name in ('split_first', 'split_first_mut'):
            return option(dge(n, k_(1)), agg(self.elem_ref(s, ZERO), self.subslice(s, k_(1), n)))
        if name in ('split_last',):
            l = dsub(n, k_(1))
            return option(dge(n, k_(1)), agg(self.elem_ref(s, l), self.subslice(s, ZERO, l)))
        if name in ('first_chunk', 'split_first_chunk'):
            return e.unk('slice ' + name, destty)
        if name in ('chunks', 'chunks_mut', 'chunks_exact', 'chunks_exact_mut'):
            self.oblige(fr, st, deq(args[1], ZERO), 'chunk0', name)
            return agg(s, args[1])
        if name in ('copy_from_slice', 'clone_from_slice'):
            src = args[1]
            if isinstance(src, (Ref, Seq)):
                src = self.as_slice(st, src)
            if not isinstance(src, Sl):
                return e.unk(name)
            m = e.sllen(src)
            self.oblige(fr, st, not_(deq(n, m)), 'len-mismatch', name)
            self.overwrite(st, s, self.freeze(st, src))
            return UNIT
        if name == 'fill':
            v = args[1]
            self.overwrite(st, s, sl(('sq', seq(('fill', v, n))), ZERO, n))
            return UNIT
        if name in ('to_vec', 'to_owned', 'to_string', 'into_vec'):
            self.cur_st = st
            return self.seq_of(s)
        if name == 'contains':
            if isinstance(n, Leaf) and n.v.is_const() and n.v.cval() <= 8:
                x, r = self.deep(st, args[1]), FALSE
                for i in range(n.v.cval()):
                    z = self.eqval(st, self.deep(st, self.elem_val(st, s, k_(i))), x)
                    if z is None:
                        break
                    r = or_(r, z)
                else:
                    return r
            return boolatom(atom('contains', (self.freeze(st, s), self.deep(st, args[1])), 0, 1))
        if name == 'eq_ignore_ascii_case':
            y = self.as_slice(st, args[1]) if isinstance(args[1], Ref) else args[1]
            if isinstance(y, Sl):
                x, y = sorted((self.freeze(st, s), self.freeze(st, y)), key=lambda v: v.id)
                return TRUE if x is y else boolatom(atom('slci', (x, y), 0, 1))
        if name in ('trim', 'trim_start', 'trim_end', 'trim_ascii', 'trim_ascii_start', 'trim_ascii_end'):
            x = self.freeze(st, s)
            a = leaf(P(atom('tstart', (x,), 0, SLEN))) if not name.endswith('_end') else ZERO
            b = leaf(P(atom('tend', (x, name.endswith('_end')), 0, SLEN))) if not name.endswith('_start') else n
            return self.subslice(s, a, b)
        if name in ('starts_with', 'ends_with'):
            p = args[1]
            if isinstance(p, Ref):
                p = self.as_slice(st, p)
            if isinstance(p, Sl):
                k = e.sllen(p)
                sub = self.subslice(s, ZERO, k) if name == 'starts_with' else self.subslice(s, dsub(n, k), n)
                q = self.eqval(st, sub, p)
                if q is not None:
                    return and_(dge(n, k), q)
            return e.unk(name, destty)
        if name == 'swap':
            i, j = args[1], args[2]
            self.oblige(fr, st, or_(dge(i, n), dge(j, n)), 'bounds', 'swap')
            a, b = self.elem_val(st, s, i), self.elem_val(st, s, j)
            e.write(st, self.elem_ref(s, i).alts, b)
            e.write(st, self.elem_ref(s, j).alts, a)
            return UNIT
        if name == 'get_unchecked' or name == 'get_unchecked_mut':
            if isdd(args[1]):
                return self.elem_ref(s, args[1])
        if name in ('as_ptr', 'as_mut_ptr'):
            return s
        if name == 'chars' or name == 'bytes':
            return e.unk('str ' + name, destty)
        if name in ('trim', 'trim_end', 'trim_start'):
            return e.unk('str ' + name, destty)
        self.forget(st, s)
        return e.unk('slice ' + name, destty)

    def forget(self, st, s):
        pass

    def overwrite(self, st, s, src):
        """contents of slice s := contents of slice value src"""
        e = self.e
        for g, m, a, b in s.alts:
            if m[0] != 'pl':
                continue
            old = e.expand(e.read(st, m[1], m[2]))
            if not isinstance(old, Seq):
                continue
            nv = seq(old.base, old.effs + ((TRUE, 'over', a, b, src),))
            if a is ZERO and b is e.seqlen(old) and len(src.alts) == 1:
                _, m2, a2, b2 = src.alts[0]
                nv = seq(('sl', m2, a2, dadd(a2, b)))
            e.write(st, ((g, m[1], m[2]),), nv)

    # ---- vectors ----------------------------------------------------------------
    def vec_method(self, fr, st, t, name, args, destty):
        e = self.e
        if name in ('new', 'with_capacity'):
            if name == 'with_capacity' and args:
                self.reserved(fr, st, args[0], name)
            dt = self.T[destty] if destty is not None else None
            return seq(('e', e.seq_elem(dt) if dt else None))
        if name in ('as_str', 'as_slice', 'as_mut_slice', 'as_mut_str', 'as_bytes', 'iter', 'iter_mut', 'into_boxed_slice', 'leak'):
            return self.as_slice(st, args[0])
        r = args[0] if args else None
        if isinstance(r, Seq):
            if name in ('into_bytes', 'into_boxed_str'):
                return r
            return e.unk('Vec ' + name, destty)
        if name == 'from_utf8':
            return NotImplemented
        if not isinstance(r, Ref):
            return e.unk('Vec ' + name, destty)
        v = e.read_alts(st, r.alts)
        if isinstance(v, Lazy):
            v = e.expand(v)
        if not isinstance(v, Seq):
            return UNDEF if v is UNDEF else e.unk('Vec ' + name, destty)
        if name == 'len':
            return e.seqlen(v)
        if name == 'is_empty':
            return deq(e.seqlen(v), ZERO)
        if name == 'capacity':
            return e.unk('capacity', destty)
        if name in ('reserve', 'reserve_exact', 'shrink_to_fit'):
            if name != 'shrink_to_fit':
                self.reserved(fr, st, args[1], name)
            return UNIT
        if name == 'push':
            for g, root, path in r.alts:
                old = e.expand(e.read(st, root, path))
                e.write(st, ((TRUE, root, path),), seq(old.base, push_effs(old.effs, [(g, 'push', args[1])])))
            return UNIT
        if name == 'extend_from_slice':
            src = args[1]
            if isinstance(src, Ref):
                src = self.as_slice(st, src)
            self.cur_st = st
            q = self.seq_of(src)
            for g, root, path in r.alts:
                old = e.expand(e.read(st, root, path))
                e.write(st, ((TRUE, root, path),), seq(old.base, old.effs + ((g, 'ext', q),)))
            return UNIT
        if name == 'append':
            o = e.expand(e.read_alts(st, args[1].alts))
            e.write(st, r.alts, seq(v.base, v.effs + ((TRUE, 'ext', o),)))
            e.write(st, args[1].alts, seq(('e', e.elem_ty_of(o))))
            return UNIT
        if name == 'clear':
            e.write(st, r.alts, seq(('e', e.elem_ty_of(v))))
            return UNIT
        if name in ('resize',):
            n0 = e.seqlen(v)
            n = args[1]
            self.reserved(fr, st, n, name)
            if v.base[0] == 'e' and not v.effs:
                e.write(st, r.alts, seq(('fill', args[2], n)))
                return UNIT
            e.write(st, r.alts, seq(('resz', v, n, args[2])))
            return UNIT
        if name == 'resize_with':
            s2 = st.copy()
            root = ('tmp', e.depth, e.fresh())
            s2.mem[root] = args[2]
            x = e.call_callable(fr, s2, ref(root), t['args'][-1], [])
            if s2.mem.get(root) is args[2] and all(s2.mem.get(k) is y for k, y in st.mem.items()):
                self.reserved(fr, st, args[1], name)
                if v.base[0] == 'e' and not v.effs:
                    e.write(st, r.alts, seq(('fill', x, args[1])))
                else:
                    e.write(st, r.alts, seq(('resz', v, args[1], x)))
                return UNIT
        if name == 'insert':
            n = e.seqlen(v)
            self.oblige(fr, st, dlt(n, args[1]), 'bounds', 'insert')
            e.write(st, r.alts, seq(('sl', ('sq', v), ZERO, args[1]), ((TRUE, 'push', args[2]), (TRUE, 'ext', seq(('sl', ('sq', v), args[1], n))))))
            return UNIT
        if name in ('remove', 'swap_remove'):
            n = e.seqlen(v)
            self.oblige(fr, st, dge(args[1], n), 'bounds', name)
            if name == 'remove':
                x = e.select(v, args[1])
                e.write(st, r.alts, seq(('sl', ('sq', v), ZERO, args[1]), ((TRUE, 'ext', seq(('sl', ('sq', v), dadd(args[1], k_(1)), n))),)))
                return x
        if name == 'pop':
            n = e.seqlen(v)
            g = dge(n, k_(1))
            l = dsub(n, k_(1))
            x = e.select(v, l)
            if v.effs and v.effs[-1][0] is TRUE and v.effs[-1][1] == 'push':
                nv = seq(v.base, v.effs[:-1])
            else:
                nv = vite(g, seq(('sl', ('sq', v), ZERO, l)), v)
            e.write(st, r.alts, nv)
            return option(g, x)
        if name == 'truncate':
            n = dmin(args[1], e.seqlen(v))
            e.write(st, r.alts, seq(('sl', ('sq', v), ZERO, n)))
            return UNIT
        nv = seq(('opq', atom('unk', ('vec-' + name, v) + tuple(a for a in args[1:])), e.elem_ty_of(v), leaf(P(atom('slen', (atom('unk', ('vec-' + name, v)),), 0, SLEN)))))
        e.write(st, r.alts, nv)
        return e.unk('Vec ' + name, destty)

    # ---- maps -------------------------------------------------------------------
    def map_method(self, fr, st, t, name, args, destty):
        e = self.e
        if name in ('new', 'with_capacity', 'default', 'with_hasher'):
            if name == 'with_capacity' and args:
                self.reserved(fr, st, args[0], name)
            return seq(('e', None))
        r = args[0]
        if not isinstance(r, Ref):
            return e.unk('map ' + name, destty)
        v = e.expand(e.read_alts(st, r.alts))
        mt = self.T[self.strip_path(t)]
        if name == 'insert' and isinstance(v, Seq):
            k = self.deep(st, args[1])
            e.write(st, r.alts, seq(v.base, v.effs + ((TRUE, 'ins', k, args[2]),)))
            return e.mk_lazy(atom('mold', (v, k)), destty)
        if name in ('get', 'contains_key', 'get_mut') and isinstance(v, Seq):
            k = self.deep(st, args[1])
            if name == 'contains_key':
                return self.map_lookup(v, k, t['args'][1])[0]
            dt = self.T[destty]
            vt = self.T[dt['args'][0]]['t'] if destty is not None else None
            g, x = self.map_lookup(v, k, vt)
            if name == 'get_mut':
                return option(g, refs([(h, root, p + (('m', k, vt),)) for h, root, p in r.alts]))
            return option(g, ref(('k', x)))
        if name == 'entry' and isinstance(v, Seq):
            return agg(r, self.deep(st, args[1]))
        if name in ('len',):
            return leaf(P(atom('mlen', (v,), 0, SLEN)))
        if name == 'is_empty':
            return deq(leaf(P(atom('mlen', (v,), 0, 1 << 62))), ZERO)
        e.write(st, r.alts, seq(v.base, v.effs + ((TRUE, 'unk', e.unk('map ' + name)),)))
        return e.unk('map ' + name, destty)

    def entry_method(self, fr, st, t, name, args, destty):
        e = self.e
        x = args[0]
        if not (isinstance(x, Agg) and len(x.f) == 2 and isinstance(x.f[0], Ref)) or name not in ('or_insert', 'or_insert_with', 'or_default', 'and_modify', 'or_insert_with_key'):
            return e.unk('map entry ' + name, destty)
        r, k = x.f
        if name == 'and_modify':
            vt = t['args'][1]
        else:
            dt = self.T[destty]
            vt = dt['t']
        at = refs([(h, root, p + (('m', k, vt),)) for h, root, p in r.alts])
        v = e.expand(e.read_alts(st, r.alts))
        if not isinstance(v, Seq):
            return e.unk('map entry', destty)
        has = self.map_lookup(v, k, vt)[0]
        if name == 'and_modify':
            self.guarded(st, has, lambda s: (e.call_callable(fr, s, args[1], self.closure_ty(t, args[1]), [at]), UNIT)[1])
            return x
        if name == 'or_insert':
            new = args[1]
        elif name == 'or_insert_with':
            new = self.guarded(st, not_(has), lambda s: e.call_callable(fr, s, args[1], self.closure_ty(t, args[1]), []))
        elif name == 'or_default' and e.int_range(self.T[vt]):
            new = ZERO
        else:
            return e.unk('map entry ' + name, destty)
        v = e.expand(e.read_alts(st, r.alts))
        e.write(st, r.alts, seq(v.base, v.effs + ((not_(has), 'ins', k, new),)))
        return at

    def strip_path(self, t):
        return t['args'][0]

    # ---- peekable ----------------------------------------------------------------
    def peek_method(self, fr, st, t, name, args, destty):
        e = self.e
        r = args[0]
        if not isinstance(r, Ref) or not self.transparent(t['args'][0]):
            return NotImplemented
        pty = None
        for i, x in enumerate(self.T):
            if x.get('path') == 'std::iter::Peekable' and x['args'][0] == t['args'][0]:
                pty = i
        if pty is None:
            return NotImplemented
        j = self.fidx(pty, 'iter')
        ir = refs([(g, root, p + (('f', j),)) for g, root, p in r.alts])
        probe = St(TRUE, dict(st.mem))
        q = self.step(fr, probe, ir, t['args'][0])
        if q is None or q is NotImplemented or q[2] is not FALSE:
            return NotImplemented
        g, v, _ = q
        if name == 'peek' or name == 'peek_mut':
            return option(g, self.ref_to(st, ir, t['args'][0], v))
        if name in ('next_if', 'next_if_eq'):
            rv = self.ref_to(st, ir, t['args'][0], v)
            if name == 'next_if':
                p = self.guarded(st, g, lambda s: e.call_callable(fr, s, args[1], self.closure_ty(t, args[1]), [rv]))
            else:
                p = self.eqval(st, rv, args[1])
            if p is None or not isdd(p):
                if p is UNDEF:
                    p = FALSE
                else:
                    return e.unk(name, destty)
            h = and_(g, p)
            self.guarded(st, h, lambda s: (self.step(fr, s, ir, t['args'][0]), UNIT)[1])
            return option(h, v)
        return NotImplemented

    def closure_ty(self, t, v):
        return t['args'][-1]

    def ref_to(self, st, ir, ity, v):
        """reference to the current element of a transparent iterator"""
        e = self.e
        t = self.T[ity]
        if t.get('path') in self.SLITER and self.SLITER[t['path']] == 'val':
            s = e.read_alts(st, ir.alts)
            return self.elem_ref(s, ZERO)
        return ref(('k', v))

    # ---- zlib ------------------------------------------------------------------
    def flate(self, fr, st, t, rp, name, args, destty):
        e = self.e
        if rp == 'flate2::Decompress::new':
            return agg(seq(('e', None)), args[0])
        if rp.startswith('flate2::Decompress::'):
            if name == 'decompress':
                d = e.read_alts(st, args[0].alts)
                src, dst, fl = args[1], args[2], args[3]
                src = self.freeze(st, src)
                n = e.sllen(dst)
                key = (d, src, n, fl)
                a = atom('inflate', key)
                e.write(st, args[0].alts, agg(seq(('infst', a)), d.f[1] if isinstance(d, Agg) and len(d.f) > 1 else TRUE))
                self.overwrite(st, dst, sl(('in', a), ZERO, n))
                e.facts.setdefault(atom('inflout', (a,), 0, 1 << 62), []).append(('le', n))
                return e.mk_lazy(a, destty)
            if name in ('total_out', 'total_in'):
                d = e.read_alts(st, args[0].alts)
                if isinstance(d, Agg) and isinstance(d.f[0], Seq) and d.f[0].base[0] == 'infst':
                    a = d.f[0].base[1]
                    return leaf(P(atom('inflout' if name == 'total_out' else 'inflin', (a,), 0, 1 << 62)))
                return ZERO
        e.unk('flate ' + name)
        return e.unk('flate ' + name, destty)


def _anyleaf(d):
    while isinstance(d, Node):
        d = d.parts[0][1]
    return d.v if isinstance(d, Leaf) else None


# ---- exact-name table ---------------------------------------------------------
TABLE = {}


def model(*names):
    def dec(f):
        for n in names:
            TABLE[n] = f
        return f
    return dec


@model('__sa::prim::any')
def _any(m, fr, st, t, args, destty):
    return m.e.unk('field the reference does not know', destty)


@model('std::mem::replace', 'std::mem::take')
def _replace(m, fr, st, t, args, destty):
    e = m.e
    r = args[0]
    if not isinstance(r, Ref):
        return NotImplemented
    old = e.read_alts(st, r.alts)
    new = args[1] if len(args) > 1 else m.default(t['args'][0])
    if new is None:
        return NotImplemented
    e.write(st, r.alts, new)
    return old


@model('std::mem::swap')
def _swap(m, fr, st, t, args, destty):
    e = m.e
    a, b = e.read_alts(st, args[0].alts), e.read_alts(st, args[1].alts)
    e.write(st, args[0].alts, b)
    e.write(st, args[1].alts, a)
    return UNIT


@model('std::ptr::read')
def _pread(m, fr, st, t, args, destty):
    return m.e.read_alts(st, args[0].alts) if isinstance(args[0], Ref) else NotImplemented


@model('std::ptr::write')
def _pwrite(m, fr, st, t, args, destty):
    if not isinstance(args[0], Ref):
        return NotImplemented
    m.e.write(st, args[0].alts, args[1])
    return UNIT


@model('std::mem::size_of', 'std::intrinsics::size_of', 'core::intrinsics::size_of')
def _sizeof(m, fr, st, t, args, destty):
    b = m.e.bits_of(m.T[t['args'][0]])
    if b:
        return k_(max(1, b[0] // 8))
    return leaf(P(atom('size_of', (t['args'][0],), 0, 1 << 20)))


@model('std::mem::drop', 'std::mem::forget', 'std::mem::ManuallyDrop::new')
def _drop(m, fr, st, t, args, destty):
    return UNIT


@model('std::mem::discriminant')
def _discr(m, fr, st, t, args, destty):
    return agg(m.e.discr(m.dval(st, args[0]), t['args'][0]))


@model('std::intrinsics::discriminant_value', 'core::intrinsics::discriminant_value')
def _discv(m, fr, st, t, args, destty):
    return m.e.discr(m.dval(st, args[0]), t['args'][0])


@model('std::vec::from_elem')
def _fromelem(m, fr, st, t, args, destty):
    m.reserved(fr, st, args[1], 'vec!')
    r = seq(('fill', args[0], args[1]))
    if t.get('args'):
        m.e.seqty[r.base] = t['args'][0]
    return r


@model('std::str::from_utf8', 'core::str::from_utf8', 'core::str::converts::from_utf8', 'std::str::<impl str>::from_utf8', 'core::str::<impl str>::from_utf8')
def _utf8(m, fr, st, t, args, destty):
    e = m.e
    s = args[0]
    if not isinstance(s, Sl):
        return e.unk('from_utf8', destty)
    s2 = m.freeze(st, s)
    g = None
    for h, mm, a, b in reversed(s2.alts):
        x = apply_dd(('utf8', mm), lambda p, q: TRUE if p is q else boolatom(atom('utf8', (mm, p, q), 0, 1)), a, b)
        g = x if g is None else ite(h, x, g)
    dt = m.T[destty]
    return result(g, s, e.mk_lazy(atom('utf8err', ()), dt['args'][1]))


@model('std::string::String::from_utf8')
def _sutf8(m, fr, st, t, args, destty):
    return NotImplemented


@model('std::fmt::format', 'alloc::fmt::format', 'std::fmt::Arguments::<\'a>::new_const')
def _fmt(m, fr, st, t, args, destty):
    return m.fmtstr()


@model('std::hint::unreachable_unchecked')
def _unreach(m, fr, st, t, args, destty):
    st.g = FALSE
    return UNDEF


@model('std::slice::from_raw_parts')
def _frp(m, fr, st, t, args, destty):
    return NotImplemented


@model('std::slice::from_ref')
def _fromref(m, fr, st, t, args, destty):
    v = m.dval(st, args[0])
    return sl(('sq', seq(('lit', (v,)))), ZERO, k_(1))


@model('itertools::Itertools::try_collect')
def _trycollect(m, fr, st, t, args, destty):
    return m.collect(fr, st, t['args'][0], args[0], destty, destty)


@model('itertools::Itertools::collect_vec')
def _collectvec(m, fr, st, t, args, destty):
    return m.collect(fr, st, t['args'][0], args[0], destty, destty)
