"""Runs goals in forked children (a fresh term table each, bounded in time and memory)."""
import os, pickle, resource, signal, sys, time, traceback
from . import goals as G


def summary(v):
    n = {}
    for k, o, c in v.obl:
        m = n.setdefault(o.kind if o.kind in ('loop', 'alloc') else 'panic', {})
        m[k] = m.get(k, 0) + 1
    return {
        'status': v.status,
        'detail': [(d[0], G.show_cube(d[1]) if len(d) > 1 and isinstance(d[1], list) else [], d[2] if len(d) > 2 else []) for d in v.detail[:6]],
        'obl': n,
        'obls': [(k, o.kind, o.fn, o.span, o.callee, [str(x) for x in o.chain if x][:12], G.show_cube(c)) for k, o, c in v.obl if k != 'DISCHARGED'][:40],
        'discharged': sorted({(o.kind, o.fn, str(o.span)) for k, o, c in v.obl if k == 'DISCHARGED'}),
        'loops': v.loops,
        'visited': sorted(v.visited_paths) if hasattr(v, 'visited_paths') else [],
        'unknown': {str(k)[:100]: x for k, x in list(v.unknown.items())[:30]},
        'time': round(v.t, 2), 'stats': v.stats, 'more': v.more}


def child(prog, fn, mem, timeout):
    resource.setrlimit(resource.RLIMIT_AS, (mem + (1 << 30),) * 2)
    G.MEM = G.SOFT[0] = mem

    def watch(*a):
        if G.SOFT[0] and int(open('/proc/self/statm').read().split()[0]) * 4096 > G.SOFT[0]:
            raise MemoryError
    signal.signal(signal.SIGVTALRM, watch)
    signal.setitimer(signal.ITIMER_VIRTUAL, .5, .5)
    signal.alarm(timeout)

    def onalarm(*a):
        raise TimeoutError('time limit of %d s' % timeout)
    signal.signal(signal.SIGALRM, onalarm)
    import gc
    gc.disable()
    G.PARTIAL = None
    G.DEADLINE = time.time() + timeout
    try:
        r = fn(prog)
    except (TimeoutError, MemoryError) as x:
        signal.alarm(0)
        G.SOFT[0] = None
        what = str(x) if isinstance(x, TimeoutError) else 'memory limit'
        r = {'status': 'UNKNOWN', 'detail': [(what, [], [])], 'err': what}
        v = G.PARTIAL
        if v is not None:
            # what was decided before the limit
            try:
                v.visited_paths = {prog.raw[k]['path'] for k in v.visited}
                v.status, v.detail = 'UNKNOWN', [(what, [], [])]
                r = dict(summary(v), err=what)
            except Exception:
                pass
    except Exception as x:
        G.SOFT[0] = None
        r = {'status': 'UNKNOWN', 'detail': [('analysis error: %s: %s' % (type(x).__name__, x), [], [])], 'err': traceback.format_exc(limit=-6)}
    signal.alarm(0)
    return r


def goal_fn(g, equal=True, kinds=None):
    """the analysis of a goal: of all inputs at once, then (`follow`) of shapes of
    inputs, each in a process of its own, for what that leaves open. equal: whether
    the comparison is of interest; kinds: which obligations are (None: all)"""
    def f(prog):
        v = G.decide(prog, g['repo'], g['ref'], **g['opts'])
        v.visited_paths = {prog.raw[k]['path'] for k in v.visited}
        return summary(v)

    def follow(r):
        more = r.pop('more', None)
        if not more:
            return []
        more['equal'] = more['equal'] and equal
        more['open'] = [k for k in more['open'] if kinds is None or kindof(k[0]) in kinds]
        if not more['equal'] and not more['open']:
            return []
        o = g['opts']
        r['left'] = dict(more, shapes=len(o.get('fix', ())), agree=[])
        return [(n, stage_fn(g, n, more)) for n in list(range(len(o.get('fix', ())))) + ([None] if o.get('bound', 2) else [])]
    f.follow = follow
    f.merge = lambda r, n, x: merge(g, r, n, x)
    return f


def kindof(k):
    return k if k in ('loop', 'alloc') else 'panic'


def stage_fn(g, n, more):
    def f(prog):
        v = G.decide_stage(prog, g['repo'], g['ref'], n, more, **g['opts'])
        r = summary(v)
        r['refuted'] = {k: ([str(x) for x in q.chain if x][:12], G.show_cube(c)) for k, (q, c) in v.refuted.items()}
        return r
    return f


def merge(g, r, n, x):
    """takes the result x of finite analysis n into r; true when nothing is left to do"""
    left = r['left']
    name = g['opts']['fix'][n][0] if n is not None else None
    for k, (chain, cube) in x.get('refuted', {}).items():
        if k in left['open']:
            left['open'].remove(k)
            m = r['obl'][kindof(k[0])]
            c = 0
            for i, o in enumerate(r['obls']):
                if o[0] == 'OPEN' and tuple(o[1:5]) == k:
                    r['obls'][i] = ('REFUTED',) + tuple(o[1:5]) + (chain, cube)
                    c += 1
            c = max(c, 1)
            m['OPEN'] = max(0, m.get('OPEN', 0) - c)
            m['REFUTED'] = m.get('REFUTED', 0) + c
    if left['equal']:
        if x['status'] == 'DIFFERENT':
            if r['status'] != 'DIFFERENT':
                r['status'], r['detail'] = 'DIFFERENT', x['detail']
                r['stats']['shape'] = name
        elif x['status'] == 'EQUAL':
            left['agree'].append(n)
            if r['status'] != 'DIFFERENT':
                if n is None:
                    r['status'] = 'EQUAL-BOUNDED'
                elif r['status'] == 'UNKNOWN' and len([i for i in left['agree'] if i is not None]) == left['shapes']:
                    r['status'] = 'EQUAL-SHAPES'
        else:
            r['detail'] = list(r['detail']) + [(('%s: %s' % (name or 'bounded', d[0])),) + tuple(d[1:]) for d in x['detail'][:2]]
    r['time'] = round(r.get('time', 0) + x.get('time', 0), 2)
    r['stats']['shapes'] = [g['opts']['fix'][i][0] for i in left['agree'] if i is not None]
    return not left['open'] and (not left['equal'] or r['status'] == 'DIFFERENT')


def run(prog, jobs, par=6, mem=4 << 30, timeout=150, deadline=None):
    """jobs: [(id, function(prog) -> picklable)] -> {id: result}"""
    res, live = {}, {}
    todo = list(jobs)
    fns = dict(jobs)
    dead = set()
    while todo or live:
        while todo and len(live) < par:
            jid, fn = todo.pop(0)
            if isinstance(jid, tuple) and jid[0] in dead:
                continue
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    t = timeout // 2
                    if deadline is not None:
                        t = max(1, min(t, int(deadline - time.time())))
                    out = pickle.dumps(child(prog, fn, mem, t))
                    with os.fdopen(w, 'wb') as f:
                        f.write(out)
                    code = 0
                except BaseException:
                    if os.environ.get('SA_DEBUG'):
                        traceback.print_exc(limit=-8)
                finally:
                    os._exit(code)
            os.close(w)
            live[r] = (jid, pid, bytearray(), time.time())
        import select
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for r in rd:
            b = os.read(r, 1 << 16)
            jid, pid, buf, t0 = live[r]
            if b:
                buf += b
                continue
            os.close(r)
            how = os.waitpid(pid, 0)[1]
            del live[r]
            try:
                x = pickle.loads(bytes(buf))
            except Exception:
                x = {'status': 'UNKNOWN', 'detail': [('analysis process ended early (%d)' % how, [], [])], 'err': 'killed'}
            if isinstance(jid, tuple):
                jid, n = jid
                if jid not in dead and fns[jid].merge(res[jid], n, x):
                    # nothing left to decide
                    dead.add(jid)
                    for y in live.values():
                        if y[0][0] == jid and isinstance(y[0], tuple):
                            os.kill(y[1], signal.SIGKILL)
            else:
                res[jid] = x
                if hasattr(fns[jid], 'follow'):
                    todo += [((jid, n), f) for n, f in fns[jid].follow(x)]
        now = time.time()
        for r, (jid, pid, buf, t0) in list(live.items()):
            if now - t0 > timeout + 20 or (deadline is not None and now > deadline + 20):
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
    return res
