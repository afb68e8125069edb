"""Gated value-flow evaluation of monomorphic MIR (abstract interpretation over
decision-diagram valued states; joins are merged, loops are summarised)."""
import json, re, heapq, sys
from .val import *
from . import val as V
from .loops import St


class Unsupported(Exception):
    pass


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.types = d['types']
        self.insts = {}
        self.raw = d['insts']
        self.bypath = {}
        self.bys = {}
        for i, t in enumerate(self.types):
            self.bys.setdefault(t['s'], i)
        for k, i in self.raw.items():
            self.bypath.setdefault(i['path'], []).append(k)

    def inst(self, key):
        x = self.insts.get(key)
        if x is None:
            x = self.insts[key] = Inst(self, key, self.raw[key])
        return x

    def find(self, path):
        ks = self.bypath.get(path, [])
        return ks[0] if ks else None

    # ---- call graph ------------------------------------------------------
    def tinsts(self, ty, memo={}):
        """instances of callables occurring in a type (closures, fn items)"""
        k = (id(self), ty)
        r = memo.get(k)
        if r is not None:
            return r
        memo[k] = r = set()
        t = self.types[ty]
        if t['k'] in ('fndef', 'closure') and t.get('inst'):
            r.add(t['inst'])
        subs = []
        for f in ('args', 'ts', 'ups'):
            v = t.get(f)
            if isinstance(v, list):
                subs += [x for x in v if isinstance(x, int)]
        if isinstance(t.get('t'), int):
            subs.append(t['t'])
        for x in subs:
            if t['k'] != 'adt' or True:
                r |= self.tinsts(x)
        return r

    def callees(self, key):
        out = set()
        raw = self.raw[key]
        for ty in raw['locals']:
            out |= self.tinsts(ty)
        for b in raw['blocks']:
            t = b['t']
            if t[0] == 'call' and isinstance(t[2], int):
                out |= self.tinsts(t[2])
            for st in b['s']:
                if st[0] == '=':
                    for o in walk_ops(st[2]):
                        if o.get('o') == 'const' and isinstance(o.get('t'), int):
                            out |= self.tinsts(o['t'])
            if t[0] == 'call':
                for o in [t[1]] + t[3]:
                    if o.get('o') == 'const' and isinstance(o.get('t'), int):
                        out |= self.tinsts(o['t'])
        return {k for k in out if k in self.raw}

    def callgraph(self):
        if not hasattr(self, '_cg'):
            self._cg = {k: self.callees(k) for k in self.raw}
        return self._cg

    def sccs(self, removed=frozenset()):
        """non-trivial strongly connected components of the call graph"""
        g = self.callgraph()
        idx, low, on, stack, out = {}, {}, set(), [], []
        n = [0]
        for r in g:
            if r in idx or r in removed:
                continue
            work = [(r, iter(g[r]))]
            idx[r] = low[r] = n[0]; n[0] += 1
            stack.append(r); on.add(r)
            while work:
                v, it = work[-1]
                for w in it:
                    if w in removed:
                        continue
                    if w not in idx:
                        idx[w] = low[w] = n[0]; n[0] += 1
                        stack.append(w); on.add(w)
                        work.append((w, iter(g[w])))
                        break
                    elif w in on:
                        low[v] = min(low[v], idx[w])
                else:
                    work.pop()
                    if work:
                        u = work[-1][0]
                        low[u] = min(low[u], low[v])
                    if low[v] == idx[v]:
                        c = []
                        while True:
                            x = stack.pop(); on.discard(x); c.append(x)
                            if x == v:
                                break
                        if len(c) > 1 or v in g[v]:
                            out.append(c)
        return out

    def recursive_sccs(self):
        g = self.callgraph()
        out = []
        for c in self.sccs():
            if len(c) == 1:
                k = c[0]
                if not any(b['t'][0] == 'call' and isinstance(b['t'][2], int) and self.types[b['t'][2]].get('inst') == k
                           for b in self.raw[k]['blocks']):
                    continue
            out.append(c)
        return out

    def cuts(self):
        """functions at which recursion is summarised: parsers of a recursive
        component whose removal makes the call graph acyclic"""
        if hasattr(self, '_cuts'):
            return self._cuts
        cut, uncut = {}, []
        sccs = self.recursive_sccs()
        for c in sccs:
            cand = {}
            for k in c:
                sh = self.parser_shape(k)
                if sh and not self.raw[k]['path'].startswith(('nom::', '<')):
                    cand.setdefault(sh[0], []).append(k)
            if not cand:
                uncut.append(c)
                continue
            order = sorted(cand, key=lambda l: (not l.endswith(("::Value<'_>", "::Vector<'_>")), l))
            chosen = set()
            for l in order:
                chosen |= set(cand[l])
                if not any(len(x) > 1 and set(x) & set(c) for x in self.sccs(frozenset(chosen))):
                    break
            else:
                uncut.append(c)
            for k in chosen:
                cut[k] = self.parser_shape(k)
        self._cuts = (cut, sccs, uncut)
        return self._cuts

    def parser_shape(self, key):
        """(label, arg types) when the instance maps a byte slice to
        Result<(rest, T), E>"""
        raw = self.raw[key]
        t = self.types[raw['locals'][0]]
        if t['k'] != 'adt' or t['path'] != 'std::result::Result':
            return None
        okt = self.types[t['args'][0]]
        if okt['k'] != 'tuple' or len(okt['ts']) != 2 or self.types[okt['ts'][0]]['s'] not in ('&[u8]',):
            return None
        a = [self.types[raw['locals'][i + 1]]['s'] for i in range(raw['argc'])]
        if not a or a[0] != '&[u8]':
            return None
        return self.types[okt['ts'][1]]['s'], tuple(a)


def walk_ops(r):
    for x in r[1:]:
        if isinstance(x, dict) and 'o' in x:
            yield x
        elif isinstance(x, list):
            for y in x:
                if isinstance(y, dict) and 'o' in y:
                    yield y


SKIPPY = re.compile(r'\b(Filter|FilterMap|FlatMap|Flatten|Skip|SkipWhile|Chain|StepBy)<')


class Inst:
    def __init__(self, prog, key, raw):
        self.key = key
        self.raw = raw
        self.path = raw['path']
        self.locals = raw['locals']
        self.argc = raw['argc']
        self.blocks = raw['blocks']
        self.span = raw['span']
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]
        self.selfedge = set()
        for b in range(n):
            if self.blocks[b]['c']:
                continue
            t = self.blocks[b]['t']
            k = t[0]
            if k == 'goto':
                s = [t[1]]
            elif k == 'switch':
                s = [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
            elif k == 'drop':
                s = [t[2]]
            elif k == 'call':
                s = [t[7]] if t[7] is not None else []
                ft = prog.types[t[2]] if isinstance(t[2], int) else None
                if ft and ft.get('k') == 'fndef' and ft.get('path') == 'std::iter::Iterator::next':
                    it = prog.types[ft['args'][0]]['s']
                    if SKIPPY.search(it):
                        s = s + [b]
                        self.selfedge.add(b)
            elif k == 'assert':
                s = [t[4]]
            else:
                s = []
            self.succ[b] = [x for x in dict.fromkeys(s) if not self.blocks[x]['c']]
        self.rpo = []
        seen = set()

        def dfs(r):
            st = [(r, iter(self.succ[r]))]
            seen.add(r)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.succ[s])))
                        break
                else:
                    self.rpo.append(b)
                    st.pop()
        dfs(0)
        self.rpo.reverse()
        self.ord = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        self._dom()
        self._loops()
        self._live()

    def _dom(self):
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        new = p if new is None else self._isect(idom, new, p)
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom

    def _isect(self, idom, a, b):
        o = self.ord
        while a != b:
            while o[a] > o[b]:
                a = idom[a]
            while o[b] > o[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]

    def _loops(self):
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.ord[s] <= self.ord[b]:
                    if not self.dominates(s, b):
                        raise Unsupported('irreducible ' + self.path)
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(self.pred[x])

    def _live(self):
        """locals live at block entry; address-taken locals always live"""
        self.addr = set()
        use, kill = {}, {}

        def plocals(p):
            yield p[0]
            for e in p[1]:
                if e[0] == 'i':
                    yield e[1]

        def ops(o):
            if o['o'] in ('copy', 'move'):
                yield from plocals(o['p'])

        for b in self.rpo:
            u, k = set(), set()

            def U(l):
                if l not in k:
                    u.add(l)

            def asg(p):
                if p[1]:
                    for l in plocals(p):
                        U(l)
                else:
                    k.add(p[0])
            blk = self.blocks[b]
            for s in blk['s']:
                if s[0] == '=':
                    r = s[2]
                    if r[0] in ('ref', 'addr'):
                        p = r[2] if r[0] == 'ref' else r[1]
                        for l in plocals(p):
                            U(l)
                        if not any(e[0] == 'deref' for e in p[1]):
                            self.addr.add(p[0])
                    elif r[0] == 'discr':
                        for l in plocals(r[1]):
                            U(l)
                    else:
                        for x in r[1:]:
                            if isinstance(x, dict) and 'o' in x:
                                for l in ops(x):
                                    U(l)
                            elif isinstance(x, list):
                                for y in x:
                                    if isinstance(y, dict) and 'o' in y:
                                        for l in ops(y):
                                            U(l)
                    asg(s[1])
                elif s[0] == 'setd':
                    for l in plocals(s[1]):
                        U(l)
            t = blk['t']
            if t[0] == 'switch':
                for l in ops(t[1]):
                    U(l)
            elif t[0] == 'assert':
                for l in ops(t[1]):
                    U(l)
            elif t[0] == 'call':
                for x in [t[1]] + t[3]:
                    if x['o'] in ('copy', 'move'):
                        for l in ops(x):
                            U(l)
                asg(t[5])
            elif t[0] == 'return':
                U(0)
            use[b], kill[b] = u, k
        self.livein = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                out = set()
                for s in self.succ[b]:
                    out |= self.livein[s]
                n = use[b] | (out - kill[b])
                if n != self.livein[b]:
                    self.livein[b] = n
                    ch = True
        # address-taken locals: live where possibly initialised; approximated as always


class Frame:
    __slots__ = ('inst', 'd', 'span')

    def __init__(self, inst, d):
        self.inst = inst
        self.d = d
        self.span = None


class Obl:
    """panic obligation: the guard `fail` must be infeasible"""
    __slots__ = ('fail', 'kind', 'fn', 'span', 'chain', 'callee')

    def __init__(self, fail, kind, fn, span, callee=None, chain=()):
        self.fail = fail
        self.kind = kind
        self.fn = fn
        self.span = span
        self.callee = callee
        self.chain = chain

    def under(self, g, where=None):
        return Obl(and_(g, self.fail), self.kind, self.fn, self.span, self.callee, self.chain + (where,))

    def __repr__(self):
        return 'Obl(%s %s in %s at %s via %s)' % (self.kind, self.callee, self.fn, self.span, '<'.join(map(str, self.chain[:4])))


class LoopBack(Exception):
    pass


def floaty(p):
    """a rounded float, possibly wrapped"""
    for m, _ in p.terms:
        for i in m:
            a = by_id(i)
            if a.kind == 'f2i' or a.kind == 'bits' and floaty(a.args[0]):
                return True
    return False


NOSEQ = {'s': ''}


class Engine:
    def __init__(self, prog, opaque=(), limits=None):
        self.P = prog
        self.T = prog.types
        V.Ctx.expand = self.expand
        self.opaque = set(opaque)
        self.depth = 0
        self.ldepth = 0
        self.stack = []
        self.frames = {}       # depth -> instance being evaluated
        self.obl = []          # current obligation list
        self.looplog = {}      # loop -> how it ends
        self.openloops = set()
        self._exp = {}
        _sel_memo.clear()
        _len_memo.clear()
        self.fixlen = None     # {element type: length}
        self.known = {}        # {(struct, field): what the parsers put there}
        self.recobl = False
        self.unknown = {}
        self.memo = {}
        self.recursive = {}    # inst key -> list of facts
        self.hooks = []        # call observers: f(eng, frame, st, ftype, args)
        self.visited = set()
        self.callsites = 0
        self.sideskip = None
        self.facts = {}
        self.atomfacts = {}
        self.fpopaque = False
        self.opqcalled = set()
        self.bound = None      # unroll loops instead of summarising them
        self.recfacts = set()
        self.mapgets = []
        self.cur = None
        self.obj_ty = {}
        V.Ctx.eng = self
        self.cut, self.recsccs, self.uncut = prog.cuts()
        from . import models
        self.models = models.Models(self)

    # ---- types ------------------------------------------------------------
    def ty(self, t):
        return self.T[t]

    def tyid(self, s):
        return self.P.bys.get(s)

    def int_range(self, t):
        k = t['k']
        if k == 'bool':
            return 0, 1
        if k == 'char':
            return 0, 0x10ffff
        if k == 'int':
            return trange(t['bits'], True)
        if k == 'uint':
            return trange(t['bits'], False)

    def is_seq(self, t):
        return t['k'] == 'array' or (t['k'] == 'adt' and t['path'] in ('std::vec::Vec', 'std::string::String', 'std::collections::HashMap', 'std::collections::BTreeMap', 'std::collections::VecDeque'))

    def seq_elem(self, t):
        if t['k'] in ('array', 'slice'):
            return t['t']
        if t['k'] == 'str' or t.get('path') == 'std::string::String':
            return self.tyid('u8')
        a = t.get('args') or []
        return a[0] if a else None

    def is_sl(self, t):
        if t['k'] in ('ref', 'ptr'):
            return self.T[t['t']]['k'] in ('slice', 'str')
        return False

    def expand(self, v):
        if not isinstance(v, Lazy) or v.ty is None:
            return v
        r = self._exp.get(v)
        if r is None:
            r = self._exp[v] = self._expand(v)
        return r
    def mk_lazy(self, a, ty):
        v = lazy(a, ty)
        t = self.T[ty]
        if t['k'] in ('adt', 'tuple', 'closure') and not self.is_seq(t):
            return v
        return self.expand(v)

    def position(self, a):
        """the indices leading to a part of the input"""
        at = []
        while isinstance(a, Atom):
            if a.kind == 'el':
                i = a.args[1]
                at.append(i.cval() if isinstance(i, Poly) and i.is_const() else None)
            a = a.args[0] if a.args else None
        return tuple(reversed(at))

    def fixed(self, a, e, t):
        """the length assumed for a sequence of the input, when lengths are fixed:
        by element type, possibly by the position of the sequence in the input"""
        f = self.fixlen
        if f is None or t['s'] in ('&str', 'str'):
            return None
        for name, n in f.items():
            if name not in ('variant', 'fields') and name in e['s'] if name != '*' else e['s'] not in ('u8', 'char'):
                break
        else:
            return None
        if isinstance(n, dict):
            n = n.get(self.position(a), n.get(None))
        return None if n is None else k_(n)

    def elem(self, a, o, ty):
        """element of an input sequence; one of a few elements when its length is fixed"""
        if self.fixlen is not None and not o.is_const() and self.T[ty]['k'] == 'adt':
            n = self.fixed(a, self.T[ty], NOSEQ)
            if n is not None and 0 < n.v.cval() <= 4:
                n = n.v.cval()
                if o.iv[0] is not None and o.iv[0] >= 0:
                    r = self.mk_lazy(atom('el', (a, K(n - 1))), ty)
                    for i in range(n - 2, -1, -1):
                        r = vite(deq(leaf(o), k_(i)), self.mk_lazy(atom('el', (a, K(i))), ty), r)
                    return r
        return self.mk_lazy(atom('el', (a, o)), ty)

    def _expand(self, v):
        a, t = v.atom, self.T[v.ty]
        k = t['k']
        if k == 'bool':
            return boolatom(atom('lz', (a,), 0, 1))
        r = self.int_range(t)
        if r:
            return leaf(P(atom('lz', (a,), r[0], r[1])))
        if k == 'float':
            return leaf(ft('lz', (a,)))
        if k == 'tuple':
            return agg(*[self.mk_lazy(atom('fl', (a, 0, i)), x) for i, x in enumerate(t['ts'])])
        if k == 'ref' or k == 'ptr':
            if self.is_sl(t):
                e = self.T[self.seq_elem(self.T[t['t']])]
                n = atom('slen', (a,), 0, SLEN)
                if e['s'] == 'u8':
                    return sl(('in', a), ZERO, self.fixed(a, e, t) or leaf(P(n)))
                return sl(('ob', a, self.seq_elem(self.T[t['t']])), ZERO, self.fixed(a, e, t) or leaf(P(n)))
            return ref(('lz', a, t['t']))
        if self.is_seq(t):
            if k == 'array':
                return seq(('opq', a, t['t'], k_(t['len'])))
            n = atom('slen', (a,), 0, SLEN)
            return seq(('opq', a, self.seq_elem(t), self.fixed(a, self.T[self.seq_elem(t)], t) or leaf(P(n))))
        if k == 'adt':
            if t['path'].startswith('std::') and not t.get('enum') and t['path'] not in (
                    'std::ops::Range', 'std::ops::RangeInclusive', 'std::ops::RangeFrom', 'std::ops::RangeTo'):
                return v
            if not t.get('enum'):
                fs = [self.mk_lazy(atom('fl', (a, 0, i)), f[1]) for i, f in enumerate(t['v'][0]['f'])]
                if self.fixlen is not None:
                    for i, f in enumerate(t['v'][0]['f']):
                        n = self.fixlen.get('fields', {}).get((t['path'].split('::')[-1], f[0]))
                        if n is not None:
                            fs[i] = agg(*[k_(x) for x in n]) if isinstance(n, tuple) else k_(n)
                for i, f in enumerate(t['v'][0]['f']):
                    n = self.known.get((t['path'].split('::')[-1], f[0]))
                    if n is not None:
                        n(self, a, t, fs, i)
                return agg(*fs)
            vs = t['v']
            if not vs:
                return v
            d = P(atom('disc', (a,), 0, len(vs) - 1))
            if self.fixlen is not None and 'variant' in self.fixlen:
                i = self.fixlen['variant'](t['s'], self.position(a))
                d = d if i is None else K(i)
            return en([(i, eq0(psub(d, K(i))), tuple(self.mk_lazy(atom('fl', (a, i, j)), f[1]) for j, f in enumerate(x['f']))) for i, x in enumerate(vs)])
        if k == 'closure':
            return agg(*[self.mk_lazy(atom('fl', (a, 0, i)), x) for i, x in enumerate(t['ups'])])
        return v

    def unk(self, why, ty=None):
        V._unk_n[0] += 1
        self.unknown[why] = self.unknown.get(why, 0) + 1
        a = atom('unk', (why, V._unk_n[0]))
        return self.mk_lazy(a, ty) if ty is not None else lazy(a, None)

    # ---- memory -----------------------------------------------------------
    def root_default(self, root):
        if root[0] == 'lz':
            return self.mk_lazy(root[1], root[2])
        if root[0] == 'k':
            return root[1]
        if root[0] == 'mem':
            return None
        return UNDEF

    def getroot(self, st, root):
        v = st.mem.get(root)
        if v is None:
            return self.root_default(root)
        return v

    def proj(self, st, v, p):
        if p[0] == 'i':
            if isinstance(v, Lazy):
                v = self.expand(v)
            if isinstance(v, Seq):
                return self.select(v, p[1], st)
            return UNDEF if v is UNDEF else self.unk('index of non-seq')
        if p[0] == 'm':
            if isinstance(v, Lazy):
                v = self.expand(v)
            return self.models.map_lookup(v, p[1], p[2])[1] if isinstance(v, Seq) else self.unk('map entry')
        if isinstance(v, Lazy):
            v = self.expand(v)
        if p[0] == 'f':
            if isinstance(v, Agg):
                return v.f[p[1]] if p[1] < len(v.f) else UNDEF
            if v is UNDEF:
                return UNDEF
            if isinstance(v, (Ref, Sl)):   # wrapper around pointer (NonNull, Unique)
                return v
            if isinstance(v, Lazy) and v.ty is None:
                return v
            return self.unk('field of %s' % type(v).__name__)
        if p[0] == 'v':
            if isinstance(v, En):
                for vi, g, f in v.alts:
                    if vi == p[1]:
                        return f[p[2]] if p[2] < len(f) else UNDEF
                return UNDEF
            if v is UNDEF:
                return UNDEF
            return self.unk('variant of %s' % type(v).__name__)
        raise Unsupported('proj %r' % (p,))

    def read(self, st, root, path):
        if root[0] == 'mem':
            v = self.mem_read(st, root[1], path[0][1])
            path = path[1:]
        else:
            v = self.getroot(st, root)
        for p in path:
            v = self.proj(st, v, p)
        return v

    def mem_read(self, st, mem, idx):
        """element of slice memory at absolute index diagram"""
        k = mem[0]
        if k == 'in':
            return apply(('rd', mem[1]), lambda o: P(rd(mem[1], o, 1)), idx)
        if k == 'ob':
            return self.over(idx, lambda o: self.elem(mem[1], o, mem[2]))
        if k == 'pl':
            s = self.read(st, mem[1], mem[2])
            s = self.expand(s)
            if isinstance(s, Seq):
                return self.select(s, idx, st)
            return self.unk('memory of %s' % type(s).__name__)
        if k == 'sq':
            return self.select(mem[1], idx, st)
        if k == 'str':
            b = mem[1].encode()
            r = k_(0)
            for i, c in enumerate(b):
                r = ite(deq(idx, k_(i)), k_(c), r)
            return r
        return self.unk('mem_read ' + str(k))

    def over(self, idx, f):
        """gated result of f over the leaves of a scalar diagram"""
        gs = guards(idx)
        r = f(gs[-1][1])
        for g, p in reversed(gs[:-1]):
            r = vite(g, f(p), r)
        return r

    def write_val(self, st, v, path, new):
        if not path:
            return new
        p = path[0]
        if isinstance(v, Lazy):
            v = self.expand(v)
        if p[0] == 'f':
            if v is UNDEF:
                f = [UNDEF] * (p[1] + 1)
            elif isinstance(v, Agg):
                f = list(v.f)
                while len(f) <= p[1]:
                    f.append(UNDEF)
            else:
                return self.unk('write field of %s' % type(v).__name__)
            f[p[1]] = self.write_val(st, f[p[1]], path[1:], new)
            return agg(*f)
        if p[0] == 'v':
            if isinstance(v, En):
                out = []
                hit = False
                for vi, g, f in v.alts:
                    if vi == p[1]:
                        hit = True
                        f = list(f)
                        while len(f) <= p[2]:
                            f.append(UNDEF)
                        f[p[2]] = self.write_val(st, f[p[2]], path[1:], new)
                        f = tuple(f)
                    out.append((vi, g, f))
                return en(out) if hit else v
            if v is UNDEF:
                f = [UNDEF] * (p[2] + 1)
                f[p[2]] = self.write_val(st, UNDEF, path[1:], new)
                return en([(p[1], TRUE, tuple(f))])
            return self.unk('write variant of %s' % type(v).__name__)
        if p[0] == 'i':
            if isinstance(v, Seq):
                return self.store(st, v, p[1], path[1:], new)
            if v is UNDEF:
                return UNDEF
            return self.unk('write index of %s' % type(v).__name__)
        if p[0] == 'm':
            if isinstance(v, Seq):
                x = self.write_val(st, self.models.map_lookup(v, p[1], p[2])[1], path[1:], new) if len(path) > 1 else new
                return seq(v.base, v.effs + ((TRUE, 'ins', p[1], x),))
            return self.unk('write map entry')
        raise Unsupported('write %r' % (p,))

    def store(self, st, s, idx, path, new):
        if s.base[0] == 'lit' and not s.effs:
            els = list(s.base[1])
            if isinstance(idx, Leaf) and idx.v.is_const():
                i = idx.v.cval()
                if 0 <= i < len(els):
                    els[i] = self.write_val(st, els[i], path, new)
                    return seq(('lit', tuple(els)))
        return seq(s.base, s.effs + ((TRUE, 'store', idx, tuple(path), new),))

    def write(self, st, alts, new):
        """alts: ((g, root, path), ...)"""
        for g, root, path in alts:
            if root[0] in ('mem', 'slc'):
                continue
            old = self.getroot(st, root)
            nv = self.write_val(st, old, path, new)
            if g is not TRUE:
                nv = vite(g, nv, old)
            st.mem[root] = nv

    # ---- sequences ----------------------------------------------------------
    def seqlen(self, s):
        r = _len_memo.get(s)
        if r is None:
            r = _len_memo[s] = self._seqlen(s)
        return r

    def _seqlen(self, s):
        b = s.base
        k = b[0]
        if k == 'e':
            n = ZERO
        elif k == 'lit':
            n = k_(len(b[1]))
        elif k == 'fill':
            n = b[2]
        elif k == 'opq':
            n = b[3]
        elif k == 'sl':
            n = dsub(b[3], b[2])
        elif k == 'mu':
            n = b[2]
        elif k == 'ite':
            n = ite(b[1], self.seqlen(b[2]), self.seqlen(b[3]))
        else:
            n = leaf(P(atom('slen', (b,), 0, SLEN)))
        for e in s.effs:
            n = dadd(n, self.efflen(e))
        return n

    def efflen(self, e):
        g = e[0]
        if e[1] == 'push':
            return b2i(g)
        if e[1] in ('store', 'over', 'ins'):
            return ZERO
        if e[1] == 'ext':
            return ite(g, self.seqlen(e[2]), ZERO)
        if e[1] == 'loop':
            L = e[2]
            per = ZERO
            for x in L.effs:
                per = dadd(per, self.efflen(x))
            if isinstance(per, Leaf) and per.v.is_const():
                c = per.v.cval()
                if c == 0:
                    return ZERO
                if L.n is not None:
                    return ite(g, dmul(L.n, k_(c)), ZERO)
            return ite(g, leaf(P(atom("loopn", (L,), 0, SLEN))), ZERO)
        if e[1] == 'trunc':
            return ZERO
        return ite(g, leaf(P(atom('efflen', (e[1:],), 0, SLEN))), ZERO)

    def elty(self, s):
        b = s.base
        if b[0] == 'opq':
            return b[2]
        if b[0] == 'mu':
            return b[3]
        return None

    def select(self, s, idx, st=None):
        key = (s, idx)
        r = _sel_memo.get(key)
        if r is None:
            r = _sel_memo[key] = self._select(s, idx)
        return r

    def _select(self, s, idx):
        effs = s.effs
        if len(effs) > 1 and isinstance(idx, Leaf) and idx.v.is_const():
            # stores at other constant positions
            n, c = len(effs), idx.v.cval()
            while n and effs[n - 1][1] == 'store' and isinstance(effs[n - 1][2], Leaf) and effs[n - 1][2].v.is_const() and effs[n - 1][2].v.cval() != c:
                n -= 1
            if n < len(effs):
                return self.select(seq(s.base, effs[:n]), idx)
        if effs:
            e = effs[-1]
            pre = seq(s.base, effs[:-1])
            g = e[0]
            if e[1] == 'push':
                at = and_(g, deq(idx, self.seqlen(pre)))
                if at is FALSE:
                    return self.select(pre, idx)
                if at is TRUE:
                    return e[2]
                return vite(at, e[2], self.select(pre, idx))
            if e[1] == 'store':
                at = and_(g, deq(idx, e[2]))
                if at is FALSE:
                    return self.select(pre, idx)
                old = self.select(pre, idx)
                nv = self.write_val(None, old, e[3], e[4])
                return vite(at, nv, old)
            if e[1] == 'over':
                at = and_(g, and_(dge(idx, e[2]), dlt(idx, e[3])))
                if at is FALSE:
                    return self.select(pre, idx)
                x = None
                for h, m, a, b in reversed(e[4].alts):
                    v = self.mem_read(None, m, dadd(a, dsub(idx, e[2])))
                    x = v if x is None else vite(h, v, x)
                return x if at is TRUE else vite(at, x, self.select(pre, idx))
            if e[1] == 'ext':
                n0 = self.seqlen(pre)
                at = and_(g, dge(idx, n0))
                if at is FALSE:
                    return self.select(pre, idx)
                x = self.select(e[2], dsub(idx, n0))
                return x if at is TRUE else vite(at, x, self.select(pre, idx))
            if e[1] == 'loop':
                L = e[2]
                r = self.select_loop(s, pre, g, L, idx)
                if r is not None:
                    return r
                ty = self.elem_ty_of(s)
                return self.over(idx, lambda o: self.lazy_or_unk(atom('sel', (s, o)), ty))
        b = s.base
        if b[0] == 'lit':
            els = b[1]
            if isinstance(idx, Leaf) and idx.v.is_const():
                i = idx.v.cval()
                return els[i] if 0 <= i < len(els) else UNDEF
            if not els:
                return UNDEF
            r = els[-1]
            for i in range(len(els) - 2, -1, -1):
                r = vite(deq(idx, k_(i)), els[i], r)
            return r
        if b[0] == 'e':
            return UNDEF
        if b[0] == 'fill':
            return b[1]
        if b[0] == 'opq':
            return self.over(idx, lambda o: self.elem(b[1], o, b[2]))
        if b[0] == 'sl':
            return self.mem_read(None, b[1], dadd(b[2], idx))
        if b[0] == 'ite':
            return vite(b[1], self.select(b[2], idx), self.select(b[3], idx))
        ty = self.elem_ty_of(s)
        return self.over(idx, lambda o: self.lazy_or_unk(atom('sel', (s, o)), ty))

    def select_loop(self, s, pre, g, L, idx):
        """element of a sequence after a loop of unconditional pushes, or of
        stores at affine positions"""
        if L.mus or not L.effs or not isinstance(idx, Leaf):
            return None
        kat = atom_k(L.d)
        if all(x[0] is TRUE and x[1] == 'push' for x in L.effs):
            n0 = self.seqlen(pre)
            if not isinstance(n0, Leaf):
                return None
            at = and_(g, dge(idx, n0))
            if at is FALSE:
                return self.select(pre, idx)
            i = psub(idx.v, n0.v)
            c = len(L.effs)
            if c > 1 and i.iv[0] is None or i.iv[0] < 0:
                # below n0 the value is irrelevant
                pass
            it, lane = fd(i, c), psub(i, pscale(fd(i, c), c))
            x = None
            for j in range(c - 1, -1, -1):
                y = subst(L.effs[j][2], {kat: it}, L.d)
                x = y if x is None else vite(deq(leaf(lane), k_(j)), y, x)
            return x if at is TRUE else vite(at, x, self.select(pre, idx))
        if all(x[1] == 'store' and not x[3] and isinstance(x[2], Leaf) for x in L.effs) and L.n is not None:
            pats = []
            for x in L.effs:
                c, r = None, {}
                for m, co in x[2].v.terms:
                    if m == (kat.id,):
                        c = co
                    elif kat.id in m:
                        return None
                    else:
                        r[m] = co
                r = poly(r)
                if c is None or c <= 0 or binders(x[0]) - {kat} != binders(x[0]) and x[0] is not TRUE:
                    return None
                pats.append((c, r, x[4]))
            # disjoint lanes of one stride
            c0 = pats[0][0]
            for i, (c, r, _) in enumerate(pats):
                if c != c0:
                    return None
                for c2, r2, _ in pats[:i]:
                    d = psub(r, r2)
                    if not d.is_const() or d.cval() % c0 == 0:
                        return None
            out = None
            old = self.select(pre, idx)
            for c, r, v in pats:
                i = psub(idx.v, r)
                it = fd(i, c)
                at = and_(g, and_(eq0(psub(i, pscale(it, c))), and_(ge0(it), dlt(leaf(it), L.n))))
                if at is FALSE:
                    continue
                y = subst(v, {kat: it}, L.d)
                old = y if at is TRUE else vite(at, y, old)
            return old
        return None

    def lazy_or_unk(self, a, ty):
        return self.mk_lazy(a, ty) if ty is not None else lazy(a, None)

    def elem_ty_of(self, s):
        b = s.base
        if b[0] in ('opq',):
            return b[2]
        if b[0] == 'mu':
            return b[3]
        if b[0] == 'e' and b[1] is not None:
            return b[1]
        return self.seqty.get(s) or self.seqty.get(b)
    seqty = {}

    # ---- places -------------------------------------------------------------
    def loc(self, fr, st, place):
        """-> alts ((g, root, path)); slice places as root ('slc', mem, off, end)"""
        alts = ((TRUE, (fr.d, place[0]), ()),)
        pend = None
        for e in place[1]:
            if pend is not None:
                if e[0] == 'f':
                    alts = tuple((g, r, p + (('v', pend, e[1]),)) for g, r, p in alts)
                    pend = None
                    continue
                pend = None
            if e[0] == 'deref':
                alts = self.deref_alts(st, alts)
            elif e[0] == 'f':
                alts = tuple((g, r, p + (('f', e[1]),)) for g, r, p in alts)
            elif e[0] == 'v':
                pend = e[1]
            elif e[0] in ('i', 'ci'):
                if e[0] == 'i':
                    idx = st.mem.get((fr.d, e[1]), UNDEF)
                out = []
                for g, r, p in alts:
                    if r[0] == 'slc':
                        _, mem, off, end = r
                        if e[0] == 'ci':
                            ix = dsub(end, k_(e[1])) if e[3] else dadd(off, k_(e[1]))
                        else:
                            ix = dadd(off, idx)
                        out.append((g,) + self.elem_loc(mem, ix))
                    else:
                        if e[0] == 'ci':
                            if e[3]:
                                s = self.expand(self.read(st, r, p))
                                ix = dsub(self.seqlen(s), k_(e[1]))
                            else:
                                ix = k_(e[1])
                        else:
                            ix = idx
                        out.append((g, r, p + (('i', ix),)))
                alts = tuple(out)
            elif e[0] == 'sub':
                out = []
                for g, r, p in alts:
                    if r[0] == 'slc':
                        _, mem, off, end = r
                    else:
                        s = self.expand(self.read(st, r, p))
                        mem, off, end = ('pl', r, p), ZERO, self.seqlen(s) if isinstance(s, Seq) else ZERO
                    o2 = dadd(off, k_(e[1]))
                    e2 = dsub(end, k_(e[2])) if e[3] else dadd(off, k_(e[2]))
                    out.append((g, ('slc', mem, o2, e2), ()))
                alts = tuple(out)
            else:
                raise Unsupported('place elem %r' % (e,))
        return alts

    def elem_loc(self, mem, ix):
        if mem[0] == 'pl':
            return (mem[1], mem[2] + (('i', ix),))
        return (('mem', mem), (('i', ix),))

    def deref_alts(self, st, alts):
        out = []
        for g, r, p in alts:
            v = self.read(st, r, p)
            if isinstance(v, Lazy):
                v = self.expand(v)
            if isinstance(v, Ref):
                out.extend((and_(g, h), r2, p2) for h, r2, p2 in v.alts)
            elif isinstance(v, Sl):
                out.extend((and_(g, h), ('slc', m, a, b), ()) for h, m, a, b in v.alts)
            elif v is UNDEF:
                out.append((g, ('bad',), ()))
            elif isinstance(v, Agg) and len(v.f) == 1 and isinstance(v.f[0], (Ref, Sl)):
                v = v.f[0]
                if isinstance(v, Ref):
                    out.extend((and_(g, h), r2, p2) for h, r2, p2 in v.alts)
                else:
                    out.extend((and_(g, h), ('slc', m, a, b), ()) for h, m, a, b in v.alts)
            else:
                # Box-like or unknown pointer: treat as transparent cell
                out.append((g, r, p + ()))
                if isinstance(v, Lazy):
                    self.unknown['deref'] = self.unknown.get('deref', 0) + 1
        out = [a for a in out if a[0] is not FALSE]
        if len(out) > 1:
            d = {}
            for g, r, p in out:
                d[(r, p)] = or_(d.get((r, p), FALSE), g)
            out = [(g, r, p) for (r, p), g in d.items()]
        if len(out) == 1:
            out = [(TRUE,) + out[0][1:]]
        return tuple(out)

    def read_alts(self, st, alts):
        if not alts:
            return UNDEF
        r = None
        for g, root, path in reversed(alts):
            if root[0] == 'slc':
                v = UNDEF
            elif root[0] == 'bad':
                v = UNDEF
            else:
                v = self.read(st, root, path)
            r = v if r is None else vite(g, v, r)
        return r

    def ref_of(self, alts):
        if alts and alts[0][1][0] == 'slc':
            return sls([(g, r[1], r[2], r[3]) for g, r, p in alts])
        return refs(alts)

    # ---- operands / rvalues ------------------------------------------------
    def operand(self, fr, st, o):
        k = o['o']
        if k in ('copy', 'move'):
            p = o['p']
            if not p[1]:
                return st.mem.get((fr.d, p[0]), UNDEF)
            return self.read_alts(st, self.loc(fr, st, p))
        if k == 'const':
            return self.const(o['k'])
        if k == 'rtcheck':
            return FALSE
        raise Unsupported('operand ' + k)

    def const(self, c):
        if c['c'] == 'fn':
            return fnv(c['t'])
        if c['c'] == 'val':
            return self.cval(c['v'], c['t'])
        return self.unk('const %s' % c.get('name', '?'), c.get('t'))

    def cval(self, v, ty):
        t = self.T[ty] if ty is not None else None
        k = v[0]
        if k == 'i':
            if t['k'] == 'bool':
                return TRUE if int(v[1]) else FALSE
            return k_(int(v[1]))
        if k == 'fl':
            return leaf(fc(float(v[1])))
        if k == 'str':
            return sl(('str', v[1]), ZERO, k_(len(v[1].encode())))
        if k == 'bytes':
            s = seq(('lit', tuple(k_(b) for b in v[1])))
            return sl(('sq', s), ZERO, k_(len(v[1])))
        if k == 'ref':
            it = t['t'] if t['k'] in ('ref', 'ptr') else None
            x = self.cval(v[1], it)
            if it is not None and self.T[it]['k'] == 'slice' and isinstance(x, Seq):
                return sl(('sq', x), ZERO, self.seqlen(x))
            return ref(('k', x))
        if k == 'unit' or k == 'zst':
            if t['k'] == 'fndef':
                return fnv(ty)
            if t['k'] == 'adt' and t.get('enum'):
                return en([(0, TRUE, ())])
            if self.is_seq(t):
                return seq(('e', self.seq_elem(t)) if t['k'] != 'array' else ('lit', ()))
            return UNIT
        if k in ('adt', 'tup', 'arr'):
            t2 = self.T[v[1]]
            var = v[2]
            if k == 'arr':
                return seq(('lit', tuple(self.cval(x, t2['t']) for x in v[3])))
            if k == 'tup':
                return agg(*[self.cval(x, y) for x, y in zip(v[3], t2['ts'])])
            if self.is_seq(t2):
                return seq(('e', self.seq_elem(t2)))
            fs = [self.cval(x, f[1]) for x, f in zip(v[3], t2['v'][var]['f'])]
            if t2.get('enum'):
                return en([(var, TRUE, tuple(fs))])
            return agg(*fs)
        return self.unk('const ' + k, ty)

    def bits_of(self, t):
        k = t['k']
        if k in ('int', 'uint'):
            return t['bits'], k == 'int'
        if k == 'char':
            return 32, False
        if k == 'bool':
            return 1, False
        return None

    def binop(self, op, a, b, ta, tb):
        t = self.T[ta]
        if a is UNDEF or b is UNDEF:
            return UNDEF if not op.endswith('WithOverflow') else agg(UNDEF, FALSE)
        if not isdd(a) or not isdd(b):
            if op in ('Eq', 'Ne'):
                r = self.structeq(a, b)
                if r is not None:
                    return r if op == 'Eq' else not_(r)
            return self.unk('binop %s on %s' % (op, type(a).__name__))
        if t['k'] == 'bool':
            if op == 'BitAnd':
                return and_(a, b)
            if op == 'BitOr':
                return or_(a, b)
            if op in ('BitXor', 'Ne'):
                return xor_(a, b)
            if op == 'Eq':
                return not_(xor_(a, b))
            a, b = b2i(a), b2i(b)
        if t['k'] == 'float':
            if op in ('Add', 'Sub', 'Mul', 'Div', 'Rem'):
                o = op.lower()
                return apply(('f', o), lambda x, y: fbin(o, x, y), a, b)
            if op in ('Lt', 'Gt', 'Le', 'Ge', 'Eq', 'Ne'):
                f = {'Lt': lambda x, y: flt(x, y), 'Gt': lambda x, y: flt(y, x),
                     'Le': lambda x, y: not_(flt(y, x)), 'Ge': lambda x, y: not_(flt(x, y)),
                     'Eq': feq, 'Ne': lambda x, y: not_(feq(x, y))}[op]
                return apply_dd(('fc', op), f, a, b)
            return self.unk('float ' + op)
        if op == 'Eq':
            return deq(a, b)
        if op == 'Ne':
            return not_(deq(a, b))
        if op == 'Lt':
            return dlt(a, b)
        if op == 'Le':
            return dge(b, a)
        if op == 'Gt':
            return dlt(b, a)
        if op == 'Ge':
            return dge(a, b)
        if op == 'Cmp':
            lt, eq = dlt(a, b), deq(a, b)
            return en([(0, lt, ()), (1, and_(not_(lt), eq), ()), (2, and_(not_(lt), not_(eq)), ())])
        nb = self.bits_of(t)
        if nb is None:
            return self.unk('binop %s' % op)
        n, sg = nb
        if op.endswith('WithOverflow'):
            f = {'A': padd, 'S': psub, 'M': pmul}[op[0]]
            r = apply(('x', op[0]), f, a, b)
            lo, hi = trange(n, sg)
            ov = or_(dlt(r, k_(lo)), dlt(k_(hi), r))
            return agg(r, ov)
        if op.endswith('Unchecked') and op[0] in 'ASM':
            return apply(('x', op[0]), {'A': padd, 'S': psub, 'M': pmul}[op[0]], a, b)
        if op in ('Add', 'Sub', 'Mul'):
            f = {'A': padd, 'S': psub, 'M': pmul}[op[0]]
            return apply(('w', op, n, sg), lambda x, y: wrap(f(x, y), n, sg), a, b)
        if op == 'Div':
            return apply(('div', n, sg), lambda x, y: wrap(tdiv(x, y), n, sg) if sg else tdiv(x, y), a, b)
        if op == 'Rem':
            return apply('rem', trem, a, b)
        if op in ('Shl', 'ShlUnchecked'):
            return apply(('shl', n, sg), lambda x, y: pshl(x, y, n, sg), a, b)
        if op in ('Shr', 'ShrUnchecked'):
            return apply(('shr', n, sg), lambda x, y: pshr(x, y, n, sg), a, b)

        def bw(f):
            def g(x, y):
                if sg:
                    m = 1 << n
                    x2 = x if nonneg(x) else bits(x, 0, n)
                    y2 = y if nonneg(y) else bits(y, 0, n)
                    return wrap(f(x2, y2), n, True)
                return f(x, y)
            return g
        if op == 'BitAnd':
            return apply(('and', n, sg), bw(lambda x, y: pand(x, y, n)), a, b)
        if op == 'BitOr':
            return apply(('or', n, sg), bw(por), a, b)
        if op == 'BitXor':
            return apply(('xor', n, sg), bw(pxor), a, b)
        return self.unk('binop %s' % op)

    def structeq(self, a, b):
        return self.models.eqval(None, a, b)

    def discr(self, v, ty):
        t = self.T[ty]
        if isinstance(v, Lazy):
            v = self.expand(v)
        if isinstance(v, En):
            vs = t['v']
            d = lambda i: k_(int(vs[i]['d'])) if i < len(vs) and vs[i]['d'] is not None else k_(i)
            r = d(v.alts[-1][0])
            for vi, g, _ in reversed(v.alts[:-1]):
                r = ite(g, d(vi), r)
            return r
        if v is UNDEF:
            return UNDEF
        if isinstance(v, Agg):
            return ZERO
        return self.unk('discr of %s' % type(v).__name__)

    def cast(self, st, kind, v, tf, tt):
        f, t = self.T[tf], self.T[tt]
        if v is UNDEF:
            return UNDEF
        if kind == 'IntToInt':
            if f['k'] == 'bool':
                return b2i(v)
            if not isdd(v):
                return self.unk('int cast')
            n, sg = self.bits_of(t)
            flo, fhi = self.int_range(f)
            lo, hi = trange(n, sg)
            if lo <= flo and fhi <= hi:
                return v        # the operand is a value of its own type
            r = apply(('wrap', n, sg), lambda p: wrap(p, n, sg), v)
            if r is not v and st is not None and st.g is not TRUE and not any(floaty(p) for p in leaves(v) if isinstance(p, Poly)):
                g = st.g
                out = and_(g, or_(dlt(v, k_(lo)), dlt(k_(hi), v)))
                if out is FALSE:
                    return v
                if any((by_id(i).kind == 'tdiv' or by_id(i).kind == 'fd' and by_id(i).args[0].deg < 2 and between(by_id(i)) is not None) and len(m) == 1 for p in leaves(v) if isinstance(p, Poly) for m, _ in p.terms for i in m):
                    from . import lp
                    if lp.feasible(out, None, 200)[0] is False:
                        return v
            return r
        if kind == 'IntToFloat':
            return apply('i2f', i2f, v)
        if kind == 'FloatToInt':
            n, sg = self.bits_of(t)
            return apply(('f2i', n, sg), lambda x: f2i(x, n, sg), v)
        if kind.startswith('FloatToFloat'):
            return v if t['s'] == 'f64' else apply('f2f32', lambda x: ft('f32', (x,)), v)
        if kind.startswith('PointerCoercion(ReifyFnPointer') or kind.startswith('PointerCoercion(ClosureFnPointer') or kind.startswith('PointerCoercion(UnsafeFnPointer'):
            if isinstance(v, Fn):
                return v
            return fnv(tf)
        if kind.startswith('PointerCoercion(Unsize'):
            if isinstance(v, Ref):
                inner = self.T[f['t']] if f['k'] in ('ref', 'ptr') else None
                if inner and inner['k'] == 'array':
                    n = k_(inner['len'])
                    return sls([(g, ('pl', r, p), ZERO, n) for g, r, p in v.alts])
                return v
            return v
        if kind.startswith('PtrToPtr') or kind.startswith('PointerCoercion'):
            return v
        if kind == 'Transmute':
            if tf == tt:
                return v
            bf, bt = self.bits_of(f), self.bits_of(t)
            if bf and bt and isdd(v):
                n, sg = bt
                if f['k'] == 'bool':
                    v = b2i(v)
                if t['k'] == 'bool':
                    return deq(v, k_(1))
                return apply(('wrap', n, sg), lambda p: wrap(p, n, sg), v)
            if f['k'] == 'float' and bt:
                return apply('ftb', lambda x: x.args[0] if x.op == 'frombits' else P(atom('tobits', (x,), 0, (1 << bt[0]) - 1)), v)
            if bf and t['k'] == 'float':
                return apply(('fb', t['s']), lambda p: ft('frombits', (p, t['s'])), v)
            if f['k'] in ('ref', 'ptr', 'adt') and t['k'] in ('ref', 'ptr', 'adt') and isinstance(v, (Ref, Sl)):
                return v
            # int -> field-less enum
            if t['k'] == 'adt' and t.get('enum') and isdd(v) and all(not x['f'] for x in t['v']):
                return en([(i, deq(v, k_(int(x['d']))), ()) for i, x in enumerate(t['v'])])
            if isinstance(v, Agg) and len(v.f) == 1 and isdd(v.f[0]) and bt:
                return v.f[0]
            if isinstance(v, (Agg, Lazy)) and f['k'] == 'adt' and t['k'] == 'adt':
                return v
            if isinstance(v, Seq):
                return v
            return self.unk('transmute %s -> %s' % (f['s'][:60], t['s'][:60]), tt)
        return self.unk('cast ' + kind, tt)

    def rvalue(self, fr, st, r, destty):
        k = r[0]
        if k == 'use':
            return self.operand(fr, st, r[1])
        if k == 'ref':
            return self.ref_of(self.loc(fr, st, r[2]))
        if k == 'addr':
            return self.ref_of(self.loc(fr, st, r[1]))
        if k == 'cast':
            v = self.operand(fr, st, r[2])
            return self.cast(st, r[1], v, r[3], r[4])
        if k == 'bin':
            a = self.operand(fr, st, r[2])
            b = self.operand(fr, st, r[3])
            return self.binop(r[1], a, b, r[4], r[4])
        if k == 'un':
            v = self.operand(fr, st, r[2])
            if v is UNDEF:
                return UNDEF
            if r[1] == 'Not':
                t = self.T[r[3]]
                if t['k'] == 'bool':
                    return not_(v)
                n, sg = self.bits_of(t)
                if sg:
                    return apply('nots', lambda p: psub(K(-1), p), v)
                return apply(('notu', n), lambda p: psub(K((1 << n) - 1), p), v)
            if r[1] == 'Neg':
                t = self.T[r[3]]
                if t['k'] == 'float':
                    return apply('fneg', lambda x: fbin('sub', fc(0.0), x), v)
                return apply('neg', lambda p: pscale(p, -1), v)
            if r[1] == 'PtrMetadata':
                return self.sllen(v)
            return self.unk('un ' + r[1])
        if k == 'discr':
            return self.discr(self.read_alts(st, self.loc(fr, st, r[1])), r[1][2])
        if k == 'agg':
            fs = [self.operand(fr, st, o) for o in r[2]]
            kk = r[1]
            if kk[0] == 'tup' or kk[0] == 'clo':
                return agg(*fs)
            if kk[0] == 'adt':
                t = self.T[kk[1]]
                if t.get('enum'):
                    return en([(kk[2], TRUE, tuple(fs))])
                return agg(*fs)
            if kk[0] == 'arr':
                return seq(('lit', tuple(fs)))
            if kk[0] == 'other' and len(fs) == 2:   # raw slice pointer from parts
                return self.unk('raw ptr agg', destty)
            return self.unk('agg ' + str(kk[0]), destty)
        if k == 'repeat':
            v = self.operand(fr, st, r[1])
            n = r[2]
            r = seq(('fill', v, k_(n)))
            if destty is not None and self.T[destty]['k'] == 'array':
                self.seqty[r.base] = self.T[destty]['t']
            return r
        return self.unk('rvalue ' + k, destty)

    def sllen(self, v):
        if isinstance(v, Lazy):
            v = self.expand(v)
        if isinstance(v, Sl):
            r = dsub(v.alts[-1][3], v.alts[-1][2])
            for g, m, a, b in v.alts[:-1]:
                r = ite(g, dsub(b, a), r)
            return r
        if v is UNDEF:
            return UNDEF
        return self.unk('sllen of %s' % type(v).__name__)

    # ---- merging ------------------------------------------------------------
    def merge(self, a, b, live=None, d=None, addr=()):
        g = or_(a.g, b.g)
        if a.g is FALSE:
            return b
        if b.g is FALSE:
            return a
        gate = restrict(a.g, g)
        mem = {}
        am, bm = a.mem, b.mem
        for r, v in am.items():
            w = bm.get(r)
            if w is None:
                if r[0] in ('lz', 'k') or (d is not None and r[0] != d and r[0] != 'tmp' and not isinstance(r[0], int)):
                    w = self.root_default(r)
                elif r[0] == d and r[1] in addr:
                    mem[r] = v      # a borrowed local the other path has not initialised
                    continue
                else:
                    continue
            if v is w:
                mem[r] = v
                continue
            if live is not None and r[0] == d and r[1] not in live and r[1] not in addr:
                continue
            mem[r] = vite(gate, v, w)
        for r, w in bm.items():
            if r not in am and r[0] in ('lz', 'k'):
                mem[r] = vite(gate, self.root_default(r), w)
            elif r not in am and r[0] == d and r[1] in addr:
                mem[r] = w
        return St(g, mem)

    # ---- function evaluation --------------------------------------------------
    def eval_fn(self, key, args, st, span=None):
        """evaluate an instance; st.mem is updated in place; returns value"""
        inst = self.P.inst(key)
        self.visited.add(key)
        if self.stack and inst.path in self.opaque:
            return self.models.opaque_call(inst.path, args, inst.locals[0], st, inst.locals[1:1 + len(args)])
        pure = all(self.pure(a) for a in args)
        mk = None
        if pure:
            mk = (key, tuple(args), self.ldepth)
            m = self.memo.get(mk)
            if m is not None:
                ret, obs = m
                self.obl.extend(obs)
                return ret
        if key in self.stack or (self.stack and key in self.cut):
            return self.models.recursive_call(key, args, st)
        if len(self.stack) > 120:
            raise Unsupported('inlining depth at ' + inst.path)
        self.stack.append(key)
        self.depth += 1
        saved = self.obl
        self.obl = []
        fr = Frame(inst, self.depth)
        self.frames[self.depth] = inst
        s = St(TRUE, {} if pure else dict(st.mem))
        for i, a in enumerate(args):
            s.mem[(self.depth, i + 1)] = a
        try:
            rets = self.run(fr, None, 0, s)['ret']
        finally:
            self.depth -= 1
            self.stack.pop()
            mine = self.obl
            self.obl = saved
        d = fr.d
        if not rets:
            ret = UNDEF
            st.g = FALSE
        else:
            m = rets[0]
            for x in rets[1:]:
                m = self.merge(m, x, {0}, d, ())
            ret = m.mem.get((d, 0), UNIT)
            if not pure:
                st.mem = {r: v for r, v in m.mem.items() if r[0] != d}
        if mk is not None and rets:
            self.memo[mk] = (ret, mine)
        self.obl.extend(mine)
        return ret

    def pure(self, v):
        r = _pure_memo.get(v)
        if r is None:
            r = _pure_memo[v] = self._pure(v)
        return r

    def _pure(self, v):
        if isdd(v) or v is UNDEF:
            return True
        if isinstance(v, Agg):
            return all(self.pure(x) for x in v.f)
        if isinstance(v, En):
            return all(self.pure(x) for a in v.alts for x in a[2])
        if isinstance(v, Ref):
            return all(r[0] == 'k' for _, r, _ in v.alts)
        if isinstance(v, Sl):
            return all(m[0] != 'pl' for _, m, _, _ in v.alts)
        if isinstance(v, Lazy):
            return v.ty is not None and self.T[v.ty]['k'] not in ('ref', 'ptr')
        if isinstance(v, Seq):
            return True
        return True

    def run(self, fr, region, entry, st, header=None):
        """evaluate blocks from entry; returns {'ret': [...], 'back': [...], 'exit': [(tgt, st)]}"""
        inst = fr.inst
        out = {'ret': [], 'back': [], 'exit': []}
        pend = {entry: [st]}
        heap = [(inst.ord[entry], entry)]
        first = True
        while heap:
            _, b = heapq.heappop(heap)
            sts = pend.pop(b, None)
            if not sts:
                continue
            m = sts[0]
            live = inst.livein[b]
            for x in sts[1:]:
                m = self.merge(m, x, live, fr.d, inst.addr)
            if m.g is FALSE:
                continue
            if b in inst.loops and b != header:
                outs = self.loop(fr, b, m)
            else:
                outs = self.block(fr, b, m)
            for tgt, s in outs:
                if s.g is FALSE:
                    continue
                if tgt == 'ret':
                    out['ret'].append(s)
                elif tgt == header and header is not None:
                    out['back'].append(s)
                elif region is not None and tgt not in region:
                    out['exit'].append((tgt, s))
                else:
                    if tgt not in pend:
                        pend[tgt] = []
                        heapq.heappush(heap, (inst.ord[tgt], tgt))
                    pend[tgt].append(s)
        return out

    def block(self, fr, b, st):
        blk = fr.inst.blocks[b]
        d = fr.d
        mem = st.mem
        for s in blk['s']:
            k = s[0]
            if k == '=':
                p = s[1]
                v = self.rvalue(fr, st, s[2], p[2])
                if not p[1]:
                    st.mem[(d, p[0])] = v
                else:
                    self.write(st, self.loc(fr, st, p), v)
            elif k == 'dead':
                st.mem.pop((d, s[1]), None)
            elif k == 'setd':
                pass
        t = blk['t']
        k = t[0]
        fr.span = blk.get('sp')
        if k == 'goto':
            return [(t[1], st)]
        if k == 'return':
            return [('ret', st)]
        if k == 'switch':
            v = self.operand(fr, st, t[1])
            return self.switch(fr, st, v, t)
        if k == 'drop':
            return [(t[2], st)]
        if k == 'assert':
            v = self.operand(fr, st, t[1])
            if isdd(v):
                bad = not_(v) if t[2] else v
                f = and_(st.g, bad)
                if f is not FALSE:
                    self.oblige(f, t[3], fr)
            elif v is not UNDEF:
                self.oblige(st.g, t[3], fr)
            return [(t[4], st)]
        if k == 'call':
            return self.call_term(fr, st, t, b)
        return []

    def oblige(self, f, kind, fr, callee=None):
        self.obl.append(Obl(f, kind, fr.inst.path, fr.span, callee))

    def mkobl(self, f, kind, name):
        return Obl(f, kind, name, self.cur.span if self.cur else None)

    def switch(self, fr, st, v, t):
        ty = self.T[t[3 + 1]] if len(t) > 4 else None
        if not isdd(v):
            if v is UNDEF:
                return []
            u = self.unk('switch')
            outs = []
            for i, (c, b) in enumerate(t[2]):
                g = boolatom(atom('unkb', (u, i), 0, 1))
                outs.append((b, st.copy(and_(st.g, g))))
            if t[3] is not None:
                outs.append((t[3], st.copy(st.g)))
            return outs
        groups = {}
        rest = st.g
        isb = ty is not None and ty['k'] == 'bool'
        nb = self.bits_of(ty) if ty else None
        for c, b in t[2]:
            c = int(c)
            if isb:
                g = v if c else not_(v)
            else:
                if nb and nb[1] and c >= 1 << (nb[0] - 1):
                    cc = c - (1 << nb[0])
                    g = or_(deq(v, k_(cc)), deq(v, k_(c)))
                else:
                    g = deq(v, k_(c))
            g2 = and_(rest, g)
            rest = and_(rest, not_(g))
            if g2 is not FALSE:
                groups[b] = or_(groups.get(b, FALSE), g2)
        if t[3] is not None and rest is not FALSE:
            groups[t[3]] = or_(groups.get(t[3], FALSE), rest)
        if len(groups) == 1:
            for b, g in groups.items():
                return [(b, St(g, st.mem))]
        return [(b, st.copy(g)) for b, g in groups.items()]

    # ---- calls ----------------------------------------------------------------
    def call_term(self, fr, st, t, b):
        _, op, fty, args, argtys, dest, destty, target = t[:8]
        av = [self.operand(fr, st, a) for a in args]
        ft_ = self.T[fty]
        self.callsites += 1
        if ft_['k'] == 'fndef':
            cal = None
        else:
            cal = self.operand(fr, st, op)
        n0 = len(self.obl)
        pc = st.g
        self.sideskip = None
        self.cur = fr
        if cal is not None:
            v = self.call_value(fr, st, cal, fty, av, destty)
        else:
            v = self.call(fr, st, fty, av, argtys, destty, target is None)
        skip = self.sideskip
        self.sideskip = None
        if pc is not TRUE and len(self.obl) > n0:
            self.obl[n0:] = [x for x in (o.under(pc, fr.inst.path) for o in self.obl[n0:]) if x.fail is not FALSE]
        outs = []
        if skip is not None and b in fr.inst.selfedge:
            g, smem = skip
            sg = and_(pc, g)
            if sg is not FALSE:
                outs.append((b, St(sg, smem)))
            st.g = and_(pc, not_(g))
        elif st.g is not FALSE:
            st.g = pc
        if target is None or st.g is FALSE:
            return outs
        if not dest[1]:
            st.mem[(fr.d, dest[0])] = v
        else:
            self.write(st, self.loc(fr, st, dest), v)
        outs.append((target, st))
        return outs

    def call_value(self, fr, st, f, fty, args, destty):
        """call through a function value (pointer or closure value)"""
        if self.fpopaque and self.T[fty]['k'] == 'fnptr' and destty is None:
            destty = self.T[fty].get('ret')
        if isinstance(f, Lazy) and self.fpopaque and self.T[fty]['k'] == 'fnptr' and destty is not None:
            return self.mk_lazy(atom('callfp', (f,) + tuple(args)), destty)
        if isinstance(f, Fn):
            if self.fpopaque and self.T[fty]['k'] == 'fnptr' and destty is not None:
                return self.mk_lazy(atom('callfp', (f,) + tuple(args)), destty)
            if len(f.alts) == 1:
                return self.call(fr, st, f.alts[0][1], args, None, destty, False)
            res = None
            base = st.mem
            g0 = st.g
            outm = None
            for g, t in f.alts:
                s = St(TRUE, dict(base))
                n0 = len(self.obl)
                v = self.call(fr, s, t, list(args), None, destty, False)
                self.obl[n0:] = [o.under(g, 'fnptr') for o in self.obl[n0:]]
                s.g = g
                if res is None:
                    res, outm = v, s
                else:
                    n = or_(outm.g, g)
                    gate = restrict(outm.g, n)
                    res = vite(gate, res, v)
                    outm = self.merge(outm, s, None, None)
            st.mem = outm.mem
            st.g = g0
            return res
        t = self.T[fty]
        if t['k'] == 'closure':
            return self.call_closure(st, t, f, args)
        return self.unk('indirect call ' + t['s'][:60], destty)

    def call_closure(self, st, t, f, args, byref=None):
        """f: closure value (Agg) or reference to it; args: list of unpacked args"""
        ck = t['ck']
        self_ = f
        if ck == 'FnOnce':
            if isinstance(f, Ref):
                self_ = self.read_alts(st, f.alts)
        else:
            if not isinstance(f, Ref):
                root = ('tmp', self.depth, self.fresh())
                st.mem[root] = f
                self_ = ref(root)
        return self.eval_fn(t['inst'], [self_] + list(args), st)

    _fresh = 0

    def fresh(self):
        # deterministic per nesting, never escapes
        Engine._fresh += 1
        return Engine._fresh

    def call_callable(self, fr, st, f, fty, args, destty=None):
        """invoke a callable value of static type fty with unpacked args"""
        t = self.T[fty]
        while t['k'] == 'ref':
            if isinstance(f, Ref):
                inner = self.T[t['t']]
                if inner['k'] == 'ref' or inner['k'] in ('fndef', 'fnptr'):
                    f = self.read_alts(st, f.alts)
            fty = t['t']
            t = inner = self.T[fty]
        if t['k'] == 'closure':
            return self.call_closure(st, t, f, args)
        if t['k'] == 'fndef':
            return self.call(fr, st, fty, args, None, destty, False)
        if t['k'] == 'fnptr':
            if isinstance(f, Ref):
                f = self.read_alts(st, f.alts)
            if isinstance(f, Lazy):
                f = self.expand(f)
            return self.call_value(fr, st, f, fty, args, destty)
        return self.unk('callable ' + t['s'][:60], destty)

    def call(self, fr, st, fty, args, argtys, destty, diverges):
        t = self.T[fty]
        if t['k'] == 'closure':
            return self.call_closure(st, t, UNIT, args)
        if t.get('ctor') is not None:
            at = self.T[t['ctor']]
            if at.get('enum'):
                for i, v in enumerate(at['v']):
                    if v['n'] == t['cvar']:
                        return en([(i, TRUE, tuple(args))])
            return agg(*args)
        for h in self.hooks:
            h(self, fr, st, t, args)
        r = self.models.call(fr, st, t, args, argtys, destty, diverges)
        if r is not NotImplemented:
            return r
        ik = t.get('inst')
        if ik and ik in self.P.raw:
            return self.eval_fn(ik, args, st)
        name = t.get('rpath') or t.get('path')
        if diverges:
            self.oblige(st.g, 'panic', fr, name)
            st.g = FALSE
            return UNDEF
        if t.get('panics_doc'):
            self.oblige(st.g, 'mayPanic', fr, name)
        self.havoc(st, args, argtys, lambda i: self.fresh_atom(name))
        return self.unk('call ' + str(name)[:90], destty)

    def fresh_atom(self, why):
        V._unk_n[0] += 1
        return atom('unk', (why, V._unk_n[0]))

    def havoc(self, st, args, argtys, mk):
        """forget what the callee may write through mutable references"""
        for i, a in enumerate(args):
            ty = argtys[i] if argtys and i < len(argtys) else None
            t = self.T[ty] if ty is not None else None
            if t is not None and not (t['k'] in ('ref', 'ptr') and t.get('mut')):
                continue
            if isinstance(a, Ref) and t is not None:
                self.write(st, a.alts, self.mk_lazy(mk(i), t['t']))
            elif isinstance(a, Sl) and t is not None:
                n = self.sllen(a)
                el = self.seq_elem(self.T[t['t']])
                src = ('in', mk(i)) if self.T[el]['s'] == 'u8' else ('ob', mk(i), el)
                self.models.overwrite(st, a, sl(src, ZERO, n))


_len_memo = {}
_sel_memo = {}
_pure_memo = {}


def atom_k(d):
    return atom('k', (d,), 0, 1 << 62)


from .subst import subst, collect_atoms, binders   # noqa: E402
from .loops import loop as _loop, atom_k          # noqa: E402
Engine.loop = _loop
