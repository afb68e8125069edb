"""Facts about derived atoms (loop counters, recursion results), as guards."""
from .val import *
from .subst import collect_atoms


def strengthen(g, eng):
    """conjoin to g the known facts about the atoms it mentions"""
    if eng is None:
        return g
    seen = set()
    for _ in range(4):
        new = [a for a in collect_lin_atoms(g) if a not in seen]
        if not new:
            break
        for a in new:
            seen.add(a)
            for f in atom_facts(a, eng):
                g = and_(g, f)
                if g is FALSE:
                    return g
    return g


def collect_lin_atoms(g):
    out = []
    for L in lins_in(g):
        st = [L.poly]
        while st:
            p = st.pop()
            for m, _ in p.terms:
                for i in m:
                    a = by_id(i)
                    out.append(a)
                    if a.kind in ('fd', 'bits', 'trem', 'tdiv'):
                        st += [x for x in a.args if hasattr(x, 'terms')]
    return list(dict.fromkeys(out))


def atom_facts(a, eng):
    if a.kind in ('T', 'inflout'):
        for k, N in eng.facts.get(a, ()):
            if k == 'le':
                yield dge(N, leaf(P(a)))
    if a.kind == 'disc' and getattr(a.args[0], 'kind', '') == 'fl' and getattr(a.args[0].args[0], 'kind', '') == 'inflate':
        # no zlib stream is shorter than its header, one block and checksum
        n = eng.sllen(a.args[0].args[0].args[1])
        if isdd(n):
            yield or_(dge(k_(1), leaf(P(a))), dge(n, k_(8)))
    for f in eng.atomfacts.get(a, ()):
        yield f
