"""Loop summarisation: generalise the entry state by anti-unification, recognise
affine recurrences, derive the trip count, and close effects over the binder."""
from .val import *
from . import val as V
from . import lp as lpm
from .dd import lins_in, by_id
from .subst import subst, binders, collect_atoms


class St:
    __slots__ = ('g', 'mem')

    def __init__(self, g, mem):
        self.g = g
        self.mem = mem

    def copy(self, g=None):
        return St(self.g if g is None else g, dict(self.mem))


class Slot:
    __slots__ = ('pos', 'mu', 'init', 'kind', 'ty', 'closed', 'next', 'vars', 'noaff', 'elty', 'lenp', 'slc')

    def value(self, eng):
        k = self.kind
        if k == 'seq':
            n = self.lenp if self.lenp is not None else leaf(P(atom('slen', (self.mu,), 0, SLEN)))
            return seq(('mu', self.mu, n, self.elty))
        if k == 'obj':
            return eng.lazy_or_unk(self.mu, self.ty)
        if self.closed is not None:
            return self.closed
        if k == 'bool':
            return boolatom(self.mu)
        if k == 'float':
            return leaf(ft('mu', (self.mu,)))
        return leaf(P(self.mu))


class CfgLoop:
    """a natural loop of a MIR body"""

    def __init__(self, eng, fr, header):
        self.eng, self.fr, self.header = eng, fr, header
        self.inst = fr.inst
        self.region = fr.inst.loops[header]
        self.live = fr.inst.livein[header]
        self.name = fr.inst.path

    def keep(self, r):
        fr = self.fr
        return not (r[0] == fr.d and len(r) == 2 and isinstance(r[1], int) and r[1] not in self.live and r[1] not in self.inst.addr)

    def keep_at(self, t, r):
        fr = self.fr
        return not (r[0] == fr.d and len(r) == 2 and isinstance(t, int) and r[1] not in self.inst.livein[t] and r[1] not in self.inst.addr)

    def tyof(self, root):
        if root[0] == self.fr.d and len(root) == 2 and isinstance(root[1], int):
            return self.inst.locals[root[1]]
        return root_ty(self.eng, root)

    def run(self, st):
        return self.eng.run(self.fr, self.region, self.header, st, header=self.header)

    def merge(self, a, b):
        return self.eng.merge(a, b, self.live, self.fr.d, self.inst.addr)


def root_ty(eng, root):
    if root[0] == 'lz':
        return root[2]
    if len(root) == 2 and isinstance(root[0], int) and isinstance(root[1], int) and 0 < root[0] <= eng.depth and root[0] in eng.frames:
        return eng.frames[root[0]].locals[root[1]]
    return None


class SynthLoop:
    """a loop expressed by a step function (internal iteration)"""

    def __init__(self, eng, step, types, name):
        self.eng, self.step, self.types, self.name = eng, step, types, name

    def keep(self, r):
        return True

    def keep_at(self, t, r):
        return True

    def tyof(self, root):
        if root in self.types:
            return self.types[root]
        return root_ty(self.eng, root)

    def run(self, st):
        out = {'ret': [], 'back': [], 'exit': []}
        for t, s in self.step(st):
            if s.g is FALSE:
                continue
            if t == 'back':
                out['back'].append(s)
            else:
                out['exit'].append((t, s))
        return out

    def merge(self, a, b):
        return self.eng.merge(a, b, None, None)


def loop(self, fr, header, st0):
    return loop_core(self, CfgLoop(self, fr, header), st0)


def unroll(self, lp, st0, limit=80):
    """exact execution of a loop whose trip count is a constant, or None"""
    cur = {r: v for r, v in st0.mem.items() if lp.keep(r)}
    saved = self.obl
    obs = []
    try:
        for it in range(limit):
            self.obl = []
            out = lp.run(St(TRUE, dict(cur)))
            obs += self.obl
            exits = [x for x in out['exit'] if x[1].g is not FALSE] + [('ret', x) for x in out['ret'] if x.g is not FALSE]
            back = [x for x in out['back'] if x.g is not FALSE]
            if back and exits:
                return None
            if not back:
                if it == 0:
                    return None     # handled (identically) by the general case
                for o in obs:
                    o2 = o.under(st0.g, None) if st0.g is not TRUE else o
                    if o2.fail is not FALSE:
                        saved.append(o2)
                return [(t, St(and_(st0.g, x.g), x.mem)) for t, x in exits]
            m = back[0]
            for x in back[1:]:
                m = lp.merge(m, x)
            if m.g is not TRUE:
                return None
            cur = dict(m.mem)
        return None
    finally:
        self.obl = saved


def unroll_bounded(self, lp, st0, bound):
    """the first `bound` iterations of a loop; entries into a further iteration
    become an obligation of kind 'cut'"""
    cur = {r: v for r, v in st0.mem.items() if lp.keep(r)}
    saved = self.obl
    g = st0.g
    res = []
    for it in range(bound + 1):
        self.obl = []
        try:
            out = lp.run(St(TRUE, dict(cur)))
        finally:
            obs, self.obl = self.obl, saved
        for o in obs:
            o2 = o.under(g, None) if g is not TRUE else o
            if o2.fail is not FALSE:
                saved.append(o2)
        for t, x in out['exit'] + [('ret', x) for x in out['ret']]:
            gg = and_(g, x.g)
            if gg is not FALSE:
                res.append((t, St(gg, {r: v for r, v in x.mem.items() if lp.keep_at(t, r)})))
        back = [x for x in out['back'] if x.g is not FALSE]
        if not back:
            break
        m = back[0]
        for x in back[1:]:
            m = lp.merge(m, x)
        g = and_(g, m.g)
        if g is FALSE:
            break
        if it == bound:
            saved.append(lobl(self, g, 'cut', lp))
            break
        cur = dict(m.mem)
    return res


def loop_core(self, lp, st0):
    r = unroll(self, lp, st0)
    if r is not None:
        return r
    if self.bound is not None:
        if (lp.name, getattr(lp, 'header', None)) in self.openloops:
            # a loop without an argument for its end: look for a certain repetition
            saved, b = self.obl, self.bound
            self.obl, self.bound = [], None
            try:
                loop_core(self, lp, st0)
            finally:
                found = [o for o in self.obl if o.kind == 'loop']
                self.obl, self.bound = saved, b
            self.obl += found
        return unroll_bounded(self, lp, st0, self.bound)
    d = self.ldepth
    entry_g = st0.g
    tyof = lp.tyof
    init = {r: v for r, v in st0.mem.items() if lp.keep(r)}
    cur = dict(init)
    slots = {}
    kat = atom_k(d)
    kp = P(kat)
    used = {}
    self.ldepth += 1
    saved_obl = self.obl
    lenadj = {}

    def mkslot(pos, ini, kind, ty, lo=None, hi=None):
        s = Slot()
        s.pos, s.init, s.kind, s.ty = pos, ini, kind, ty
        s.closed = s.next = s.vars = s.elty = s.lenp = s.slc = None
        s.noaff = False
        nm = (ini, self.T[ty]['s'] if ty is not None else None, kind)
        j = used.get(nm, 0)
        used[nm] = j + 1
        s.mu = atom('mu', (d, kind, ini, ty, j), lo, hi)
        slots[pos] = s
        return s

    def fields_ty(ty, vi):
        if ty is None:
            return None
        t = self.T[ty]
        if t['k'] == 'adt' and t.get('v'):
            if vi < len(t['v']):
                return [f[1] for f in t['v'][vi]['f']]
        if t['k'] == 'tuple':
            return t['ts']
        if t['k'] == 'closure':
            return t['ups']
        return None

    def gen(pos, ini, new, ty, flag):
        """generalisation of ini and new at pos; sets flag[0] when a slot was added"""
        s = slots.get(pos)
        if s is not None:
            s.next = new
            return s.value(self)
        if ini is new or new is UNDEF:
            return ini
        if isinstance(new, Lazy) and not isinstance(ini, Lazy) and ini is not UNDEF:
            new = self.expand(new)
        if isinstance(ini, Lazy) and not isinstance(new, Lazy):
            ini = self.expand(ini)
        if ini is new:
            return ini
        if isdd(new):
            if isdd(ini) or ini is UNDEF:
                flag[0] = True
                if is_g(new) and (ini is UNDEF or is_g(ini)):
                    s = mkslot(pos, ini, 'bool', ty, 0, 1)
                elif is_f(new):
                    s = mkslot(pos, ini, 'float', ty)
                else:
                    r = self.int_range(self.T[ty]) if ty is not None else None
                    s = mkslot(pos, ini, 'int', ty, *(r or (None, None)))
                s.next = new
                return s.value(self)
        if isinstance(new, Agg) and (ini is UNDEF or (isinstance(ini, Agg) and len(ini.f) == len(new.f))):
            fts = fields_ty(ty, 0)
            out = []
            for i, y in enumerate(new.f):
                x = UNDEF if ini is UNDEF else ini.f[i]
                out.append(gen(pos + (i,), x, y, fts[i] if fts and i < len(fts) else None, flag))
            return agg(*out)
        if isinstance(new, En) and (ini is UNDEF or isinstance(ini, En)):
            A = {} if ini is UNDEF else {v: (g, f) for v, g, f in ini.alts}
            B = {v: (g, f) for v, g, f in new.alts}
            same = set(A) == set(B) and all(A[v][0] is B[v][0] for v in A)
            dpos = pos + ('d',)
            s = slots.get(dpos)
            if same and s is None:
                alts = []
                for v in A:
                    fts = fields_ty(ty, v)
                    alts.append((v, A[v][0], tuple(gen(pos + (v, i), x, y, fts[i] if fts and i < len(fts) else None, flag) for i, (x, y) in enumerate(zip(A[v][1], B[v][1])))))
                return en(alts)
            if s is None:
                flag[0] = True
                s = mkslot(dpos, disc_dd(ini) if ini is not UNDEF else UNDEF, 'disc', ty, 0, max(set(A) | set(B)))
                s.vars = {}
            s.next = disc_dd(new)
            n = 0
            for v in set(A) | set(B):
                if v not in s.vars:
                    s.vars[v] = True
                    flag[0] = True
            alts = []
            for v in s.vars:
                fts = fields_ty(ty, v)
                fa = A[v][1] if v in A else None
                fb = B[v][1] if v in B else None
                nf = len(fa if fa is not None else fb)
                fs = []
                for i in range(nf):
                    x = fa[i] if fa is not None else UNDEF
                    y = fb[i] if fb is not None else UNDEF
                    fs.append(gen(pos + (v, i), x, y, fts[i] if fts and i < len(fts) else None, flag))
                alts.append((v, eq0(padd(P(s.mu), K(-v))), tuple(fs)))
            return en(alts)
        if isinstance(new, Sl) and (ini is UNDEF or isinstance(ini, Sl)):
            ini2 = ini
            if ini is UNDEF and not any(a.args[0] == d for a in binders(tuple(x[1] for x in new.alts))):
                ini2 = sls([(g, m, UNDEF, UNDEF) for g, m, a, b in new.alts])
            if isinstance(ini2, Sl) and [x[:2] for x in ini2.alts] == [x[:2] for x in new.alts]:
                uz = self.tyid('usize')
                out = []
                for i, (x, y) in enumerate(zip(ini2.alts, new.alts)):
                    o = gen(pos + (i, 'o'), x[2], y[2], uz, flag)
                    e = gen(pos + (i, 'e'), x[3], y[3], uz, flag)
                    s = slots.get(pos + (i, 'o'))
                    if s is not None:
                        s.slc = e
                    out.append((x[0], x[1], o, e))
                return sls(out)
        if isinstance(new, Seq) and isinstance(ini, Seq):
            flag[0] = True
            s = mkslot(pos, ini, 'seq', ty)
            s.elty = self.seq_elem(self.T[ty]) if ty is not None and self.T[ty]['k'] in ('adt', 'array') else (self.elem_ty_of(ini) or self.elem_ty_of(new))
            s.next = new
            return s.value(self)
        if isinstance(new, (Ref, Fn)) and isinstance(ini, (Ref, Fn)):
            pass
        flag[0] = True
        s = mkslot(pos, ini, 'obj', ty)
        s.next = new
        return s.value(self)

    out = None
    try:
        for it in range(40):
            self.obl = []
            out = lp.run(St(TRUE, dict(cur)))
            if not out['back']:
                break
            back = out['back'][0]
            for x in out['back'][1:]:
                back = lp.merge(back, x)
            flag = [False]
            ncur = {}
            for r in cur:
                v = back.mem.get(r)
                if v is None:
                    if r[0] in ('lz', 'k'):
                        v = self.root_default(r)
                    else:
                        flag[0] = flag[0] or True
                        continue
                ncur[r] = gen((r,), init[r], v, tyof(r), flag)
            for r in back.mem:
                if r not in cur and r[0] in ('lz',):
                    init[r] = self.root_default(r)
                    ncur[r] = gen((r,), init[r], back.mem[r], tyof(r), flag)
                    flag[0] = True
            cur = ncur
            if flag[0]:
                continue
            # stable: look for closed forms
            ch = False
            C = back.g
            for s in slots.values():
                if s.next is UNDEF or s.next is None:
                    continue
                if s.kind == 'int' and not s.noaff:
                    nx = restrict(s.next, C)
                    if s.closed is None:
                        if isinstance(nx, Leaf) and isinstance(nx.v, Poly) and s.init is not UNDEF:
                            c = psub(nx.v, P(s.mu))
                            if not any(a.args[0] == d for a in binders(c)):
                                s.closed = dadd(s.init, leaf(pmul(c, kp)))
                                ch = True
                        elif isinstance(nx, Node) and s.init is not UNDEF:
                            c = saturating(nx, s, d, C)
                            if c is not None:
                                s.closed = dmin(dadd(s.init, leaf(pscale(kp, c[0]))), c[1])
                                ch = True
                    else:
                        want = subst(s.closed, {kat: padd(kp, K(1))}, d)
                        if not same_under(nx, want, C) and (not isinstance(s.closed, Node) or and_(C, not_(deq(nx, want))) is not FALSE):
                            s.closed = None
                            s.noaff = True
                            ch = True
                elif s.kind == 'seq' and not s.noaff:
                    if isinstance(s.next, Seq) and s.next.base == s.value(self).base:
                        per = ZERO
                        for e in s.next.effs:
                            per = dadd(per, self.efflen(e))
                        per = restrict(per, C)
                        if isinstance(per, Leaf) and per.v.is_const():
                            n = dadd(self.seqlen(s.init), leaf(pscale(kp, per.v.cval())))
                            if s.lenp is not n:
                                s.lenp = n
                                ch = True
                        elif s.lenp is not None:
                            s.lenp = None
                            s.noaff = True
                            ch = True
                    elif s.lenp is not None:
                        s.lenp = None
                        s.noaff = True
                        ch = True
            if not ch:
                break
            # rebuild the generalised state
            ncur = {}
            for r in cur:
                v = back.mem.get(r, self.root_default(r) if r[0] in ('lz', 'k') else None)
                ncur[r] = gen((r,), init[r], v, tyof(r), [False])
            cur = ncur
        else:
            self.unknown['loop-diverge ' + lp.name] = 1
    finally:
        self.ldepth -= 1
        obs = self.obl
        self.obl = saved_obl
    self.loopcount = getattr(self, 'loopcount', 0) + 1
    exits = out['exit'] + [('ret', s) for s in out['ret']]
    if not out['back']:
        self.obl.extend(obs)
        return [(t, St(and_(entry_g, s.g), s.mem)) for t, s in exits]
    return close(self, lp, entry_g, slots, exits, back, obs, d, kat)


def saturating(nx, s, d, C):
    """(c, B) when the next value is min(slot + c, B) with c > 0 and B fixed"""
    c = B = None
    for v in leaves(nx):
        e = psub(v, P(s.mu))
        if e.is_const() and e.cval() > 0:
            if c is not None and c != e.cval():
                return None
            c = e.cval()
        elif not any(a.args[0] == d for a in binders(v)):
            if B is not None and B is not v:
                return None
            B = v
        else:
            return None
    if c is None or B is None:
        return None
    b = leaf(B)
    if and_(C, not_(deq(nx, dmin(leaf(padd(P(s.mu), K(c))), b)))) is not FALSE or and_(TRUE, not_(dge(b, s.init))) is not FALSE:
        return None
    return c, b


def is_g(x):
    if x is UNDEF:
        return False
    while isinstance(x, Node):
        x = x.parts[0][1]
    return x is TRUE or x is FALSE


def is_f(x):
    if x is UNDEF:
        return False
    while isinstance(x, Node):
        x = x.parts[0][1]
    return isinstance(x.v, FT)


def same_under(a, b, g):
    if a is b:
        return True
    if not isdd(a) or not isdd(b):
        return False
    return differ(a, b, g) is FALSE


def differ(a, b, g):
    """guard under which the scalar diagrams a and b differ, within g"""
    x = apply_dd('differ', lambda p, q: FALSE if p is q else TRUE, a, b)
    return and_(g, x)


def disc_dd(e):
    r = k_(e.alts[-1][0])
    for vi, g, _ in reversed(e.alts[:-1]):
        r = ite(g, k_(vi), r)
    return r


def trip(g, kat, d):
    """N such that guard g == (k >= N), or None"""
    if isinstance(g, Leaf):
        return None
    ck = None
    rest = {}
    for m, c in g.L.poly.terms:
        if kat.id in m:
            if m != (kat.id,):
                return None
            ck = c
        else:
            rest[m] = c
    if ck is None:
        if any(a.args[0] == d for a in binders(g.L.poly)):
            return None
        parts = []
        for h, c in g.parts:
            n = trip(c, kat, d)
            if n is None:
                return None
            parts.append((h, n))
        r = parts[-1][1]
        for h, n in reversed(parts[:-1]):
            r = ite(ge0(psub(K(h), g.L.poly)), n, r)
        return r
    rest = poly(rest)
    if any(a.args[0] == d for a in binders(rest)):
        return None
    if len(g.parts) != 2:
        return None
    (h, a), (_, b) = g.parts
    if ck > 0 and a is FALSE and b is TRUE:     # ck*k + rest >= h+1
        n = psub(K(h + 1), rest)
        return leaf(fd(padd(n, K(ck - 1)), ck))
    if ck < 0 and a is TRUE and b is FALSE:     # ck*k + rest <= h
        n = psub(rest, K(h))
        return leaf(fd(padd(n, K(-ck - 1)), -ck))
    return None


def close(self, lp, entry_g, slots, exits, back, obs, d, kat):
    C = back.g
    X = FALSE
    for _, s in exits:
        X = or_(X, s.g)
    mus = {}
    for s in slots.values():
        if s.closed is None and s.kind != 'seq' or s.kind == 'seq':
            mus[s.mu] = s

    def deps(*roots):
        todo = set()
        for r in roots:
            todo |= {a for a in binders(r) if a.kind == 'mu' and a.args[0] == d}
        out = {}
        while todo:
            a = todo.pop()
            if a in out:
                continue
            s = mus.get(a)
            if s is None:
                out[a] = (a, UNDEF, UNDEF)
                continue
            nx = s.next
            if isdd(nx):
                nx = restrict(nx, C)
            out[a] = (a, s.init, nx)
            todo |= {b for b in binders(nx) if b.kind == 'mu' and b.args[0] == d} - set(out)
        return tuple(sorted(out.values(), key=lambda t: t[0].id))

    # trip count from a counting exit
    N = None
    cexit = None
    trips = []
    for i, (t, s) in enumerate(exits):
        n = trip(s.g, kat, d)
        if n is not None:
            trips.append((i, n))
    if len(trips) >= 1:
        cexit, N = trips[0]
        if any(self_lo(N)):
            N = dmax(N, ZERO)
    early = [i for i in range(len(exits)) if i != cexit]
    if cexit is not None and not early:
        Tdd = N
        closure_n, closure_x = N, None
    else:
        key = loopv(d, None, X, (), deps(X))
        hi = None
        if N is not None and isinstance(N, Leaf):
            hi = N.v.iv[1]
        T = atom('T', (key,), 0, hi)
        if N is not None:
            self.facts.setdefault(T, []).append(('le', N))
        Tdd = leaf(P(T))
        closure_n, closure_x = Tdd, None
    outs = {}

    def outval(s):
        dp = deps(s.next) if s.kind != 'seq' else None
        if s.kind == 'seq':
            nx = s.next
            if isinstance(nx, Seq) and nx.base[0] == 'mu' and nx.base[1] is s.mu:
                if not nx.effs:
                    return s.init
                L = loopv(d, closure_n, None, nx.effs, deps(nx.effs))
                r = seq(s.init.base, s.init.effs + ((TRUE, 'loop', L),))
                if s.elty is not None:
                    self.seqty[r] = s.elty
                    self.seqty.setdefault(r.base, s.elty)
                return r
            L = loopv(d, closure_n, None, (), deps(s.mu))
            o = atom('out', (s.mu, L))
            return seq(('opq', o, s.elty, leaf(P(atom('slen', (o,), 0, SLEN)))))
        L = loopv(d, closure_n, None, (), deps(s.mu))
        o = atom('out', (s.mu, L), s.mu.lo, s.mu.hi)
        if s.kind == 'float':
            return leaf(ft('lz', (o,)))
        if s.kind == 'obj':
            return self.lazy_or_unk(o, s.ty)
        return leaf(P(o))

    m = {}
    for s in slots.values():
        if s.closed is None:
            m[s.mu] = outval(s)
    # invariants about generalised slots, attached to obligations and outputs
    inv, invout = loop_invariants(self, slots, C, m, obs)
    lo_g = and_(inv, TRUE)
    progress(self, lp, slots, C, X, cexit is not None, inv, entry_g, d, kat, obs)
    for o in obs:
        if lo_g is not TRUE:
            o = o.under(lo_g, None)
        if o.fail is not FALSE:
            self.obl.append(o.under(entry_g, None) if entry_g is not TRUE else o)
            if o.kind == 'loop' and any(a.args[0] == d for a in binders(o.fail)):
                # the same in the first iteration of this loop
                f = subst(o.fail, first(slots, kat), d)
                if f is not FALSE and not any(a.args[0] == d for a in binders(f)):
                    self.obl.append(Obl_(and_(entry_g, f), o))
    res = []
    mT = dict(m)
    mT[kat] = Tdd
    XT = None
    if early:
        XT = subst(X, mT, d)
    gA = None
    if cexit is not None and early:
        gA = dge(Tdd, N)
    rest = TRUE
    order = ([cexit] if cexit is not None else []) + early
    for n, i in enumerate(order):
        t, s = exits[i]
        if i == cexit:
            mm = dict(m)
            mm[kat] = N
            g = TRUE if not early else gA
        else:
            mm = mT
            if n == len(order) - 1:
                g = rest
            else:
                g = and_(rest, restrict(subst(s.g, mT, d), XT))
        rest = and_(rest, not_(g))
        mem = {}
        S = _subst_memo(self, mm, d)
        for r, v in s.mem.items():
            if not lp.keep_at(t, r):
                continue
            mem[r] = S(v)
        res.append((t, St(and_(entry_g, g), mem)))
    return res


def lobl(self, g, kind, lp):
    o = self.mkobl(g, kind, lp.name)
    o.callee = getattr(lp, 'header', None)
    return o


def Obl_(f, o):
    return type(o)(f, o.kind, o.fn, o.span, o.callee, o.chain)


def first(slots, kat):
    """the substitution that selects the first iteration, or None"""
    m = {kat: ZERO}
    for s in slots.values():
        if s.closed is not None:
            continue
        if s.kind in ('int', 'disc'):
            if s.init is UNDEF or not isdd(s.init) or is_f(s.init):
                continue
            m[s.mu] = s.init
        elif s.kind == 'bool':
            if isdd(s.init) and is_g(s.init):
                m[s.mu] = ite(s.init, k_(1), ZERO)
        elif s.kind == 'seq' and s.init is not UNDEF:
            m[s.mu] = s.init
    return m


def progress(self, lp, slots, C, X, counted, inv, entry_g, d, kat, obs):
    """why the loop ends: a counting exit, or a variable that strictly grows or
    shrinks on every way around the loop.  Without either, an obligation of kind
    'loop' states when an iteration certainly repeats forever."""
    where = (lp.name, str(self.cur.span) if self.cur else None, getattr(lp, 'header', None))
    log = self.looplog
    if counted:
        log.setdefault(where, set()).add('counted')
        return
    if C is FALSE:
        log.setdefault(where, set()).add('once')
        return
    for s in slots.values():
        if s.kind == 'int' and s.closed is not None:
            c = psub(s.closed.v, s.init.v) if isinstance(s.closed, Leaf) and isinstance(s.init, Leaf) else None
            if c is not None and (c.iv[0] or 0) >= 0 and all(kat.id in m for m, _ in c.terms) and c.terms and \
                    all(k > 0 and all(i == kat.id or (by_id(i).lo or 0) > 0 for i in m) for m, k in c.terms):
                log.setdefault(where, set()).add('variant')
                return
        if s.kind == 'int' and s.closed is None and s.next is not None and isdd(s.next) and not is_g(s.next) and not is_f(s.next):
            p = leaf(P(s.mu))
            for up in (1, -1):
                ok = dge(dadd(s.next, k_(-1)), p) if up > 0 else dge(dadd(p, k_(-1)), s.next)
                bad = and_(and_(inv, C), not_(ok))
                if bad is FALSE or lpm.feasible(bad, self, 600, 5.0)[0] is False:
                    log.setdefault(where, set()).add('variant')
                    return
    log.setdefault(where, set()).add('open')
    # the state the exits depend on
    by = {s.mu: s for s in slots.values() if s.closed is None}
    need, todo, ok = set(), [X, C], True
    usesk = False
    while todo:
        for a in binders(todo.pop()):
            if a.args[0] != d:
                continue
            if a.kind == 'k':
                usesk = True
            elif a.kind == 'mu' and a not in need:
                s = by.get(a)
                if s is None or s.next is None or s.next is UNDEF:
                    ok = False
                    continue
                need.add(a)
                todo.append(restrict(s.next, C) if isdd(s.next) else s.next)
    if not ok or any(isinstance(by[a].init, type(UNDEF)) for a in need):
        return
    f1 = first(slots, kat)
    # 1. the first iteration leaves that state unchanged
    g = subst(C, f1, d)
    if usesk:
        for s in slots.values():
            if s.closed is not None and isdd(s.next):
                # closed forms advance by their step
                st = dsub(subst(s.closed, {kat: k_(1)}, d), s.init)
                g = and_(g, deq(subst(st, f1, d), ZERO))
    for a in need:
        s = by[a]
        if g is FALSE:
            break
        if isdd(s.next):
            if a not in f1:
                g = FALSE
                break
            nx = subst(restrict(s.next, C), f1, d)
            if s.kind == 'bool' or is_g(nx):
                g = and_(g, not_(xor_(nx, s.init)))
            elif is_f(nx):
                g = FALSE
            else:
                g = and_(g, deq(nx, s.init))
        elif s.next is not s.value(self):
            g = FALSE
    g = and_(and_(g, entry_g), TRUE)
    if g is not FALSE and not any(a.args[0] == d for a in binders(g)):
        obs.append(lobl(self, subst(g, f1, d), 'loop', lp))
    # 2. a variable whose whole range stays inside the loop
    if len(need) == 1 and not usesk:
        a = next(iter(need))
        s = by[a]
        if s.kind == 'int' and s.mu.lo is not None and s.mu.hi is not None:
            q = atom('muv', (d, s.mu.lo, s.mu.hi), s.mu.lo, s.mu.hi)
            C = subst(C, {a: P(q)}, d)
            env = sorted((x for x in collect_atoms(C) if x is not q and x.lo is not None and x.hi is not None and x.hi - x.lo < 1 << 16
                          and not any(b.args[0] == d for b in binders(P(x))) and x.kind not in ('bits', 'fd', 'trem')), key=lambda x: x.id)
            groups = {}
            for x in env:
                y = x.args[0] if x.args and hasattr(x.args[0], 'args') else x
                groups.setdefault((x.kind, y.kind, tuple(z for z in y.args[1:] if isinstance(z, int))), []).append(x)
            groups = list(groups.values())[:3]
            from itertools import product
            for vals in product(*[(None, True, False) for x in groups]):
                m = {x: k_(x.hi if v else x.lo) for xs, v in zip(groups, vals) if v is not None for x in xs}
                C2, given = C, entry_g
                for x, v in m.items():
                    given = and_(given, deq(leaf(P(x)), v))
                if m:
                    C2 = subst(C, m, None, True)
                    if C2 is FALSE:
                        continue
                g = and_(subst(C2, {q: k_(s.mu.hi)}, None, True), subst(C2, {q: k_(s.mu.lo)}, None, True))
                if g is FALSE or and_(g, given) is FALSE:
                    continue
                if lpm.feasible(and_(g, not_(C2)), self, 600, 5.0)[0] is False:
                    g = and_(g, given)
                    if g is not FALSE and lpm.feasible(g, self, 600, 5.0)[0]:
                        obs.append(lobl(self, g, 'loop', lp))
                        return


def loop_invariants(self, slots, C, m, obs):
    """upper bounds of integer slots without a closed form: a constant B of the
    loop's own conditions such that init <= B, and slot <= B implies next <= B"""
    inv = TRUE
    used = None
    for s in slots.values():
        if s.kind != 'int' or s.closed is not None or not isdd(s.init) or s.next is None or not isdd(s.next) or is_g(s.next) or is_f(s.next):
            continue
        if used is None:
            used = set()
            for o in obs:
                used |= {a for a in binders(o.fail) if a.kind == 'mu'}
        if s.mu not in used:
            continue
        cand = set()
        for L in lins_in(C) | lins_in(s.next):
            if any(s.mu.id in mm for mm, _ in L.poly.terms):
                cand |= thresholds(C, L) | thresholds(s.next, L)
        cand = sorted({c + j for x in cand for c in (x, -x) for j in (0, 1, -1) if 0 <= c + j < 1 << 40})
        p = leaf(P(s.mu))
        n = 0
        for B in cand:
            if and_(TRUE, not_(dge(k_(B), s.init))) is not FALSE:
                continue
            n += 1
            if n > 12:
                break
            h = and_(C, dge(k_(B), p))
            g = and_(h, not_(dge(k_(B), s.next)))
            if g is FALSE or lpm.feasible(g, self, 600)[0] is False:
                inv = and_(inv, dge(k_(B), p))
                o = m.get(s.mu)
                if o is not None and isinstance(o, Leaf):
                    for mm, c in o.v.terms:
                        if len(mm) == 1 and c == 1:
                            self.atomfacts.setdefault(by_id(mm[0]), []).append(dge(k_(B), o))
                break
    return inv, None


def thresholds(d, L):
    out, seen, st = set(), set(), [d]
    while st:
        x = st.pop()
        if x.id in seen or not isinstance(x, Node):
            continue
        seen.add(x.id)
        if x.L is L:
            out |= {h for h, _ in x.parts if h is not None}
        st.extend(c for _, c in x.parts)
    return out


def _subst_memo(self, m, d):
    from .subst import Subst
    return Subst(m, d)


def self_lo(N):
    for v in leaves(N):
        yield v.iv[0] is None or v.iv[0] < 0


def atom_k(d):
    return atom('k', (d,), 0, 1 << 62)
