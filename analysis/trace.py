"""Trace events (C36), instrumented library."""
from flow import *
from names import *
from procs import reach
from program import strip

EMIT = 'instrument_event'


class EventRule(Rule):
    """r = open events, innermost last: ((type, value), ...)"""
    def __init__(self, P, inl, brackets, A):
        self.P, self.inl, self.brackets, self.A = P, inl, brackets, A
        self.bad, self.sites = {}, set()

    def initial(self, E):
        return ()

    def inline(self, E, fid):
        return fid in self.inl

    def on_call(self, E, st, fid, args, node, fr):
        if fid != EMIT:
            return None
        t, v, a = args[:3]
        if not is_c(t) or t[1] not in self.brackets:
            return [(st, ('c', 0))]
        self.sites.add((self.brackets[t[1]], E.where(node, fr)))
        if a == ('c', self.A['EVENT_BEGIN']):
            st.r = st.r + ((t[1], v),)
            if len(st.r) > 8:
                self.bad[('many', self.brackets[t[1]])] = E.where(node, fr)
                st.r = st.r[:8]
        elif a == ('c', self.A['EVENT_END']):
            if not st.r:
                self.bad[('noopen', self.brackets[t[1]])] = E.where(node, fr)
            elif st.r[-1][0] != t[1]:
                self.bad[('cross', self.brackets[t[1]])] = E.where(node, fr)
                st.r = tuple(x for x in st.r if x[0] != t[1])
            else:
                if v != C0 and v != st.r[-1][1]:
                    self.bad[('value', self.brackets[t[1]])] = E.where(node, fr)
                st.r = st.r[:-1]
        return [(st, ('c', 0))]


def check_c36(rep, progs, ex):
    rep.rule('in the instrumented library, every path of every function that emits an operation, callback or CPU-count event is followed, helpers of the '
             'same file inlined: an end event must close the innermost open event, with the same value, and no event may be open when the function '
             'returns; the event of a region is opened exactly where the region becomes started and closed exactly where it stops being started; the '
             'function that writes an event writes the value at the begin and zero at the end under the same condition, for every type and value')
    for cfg, P in progs.items():
        if not any(f.nodes[c].get('fn') == EMIT for f in P.fns.values() for c in f.calls):
            continue
        T = {n: v for n, v in P.enums['InstrumentEvent']['consts']}
        A = {n: v for n, v in P.enums['InstrumentAction']['consts']}
        brackets = {T[n]: n for n in ('RUNTIME_EVENT', 'CALLBACK_EVENT', 'GIVE_CPUS_EVENT', 'WANT_CPUS_EVENT') if n in T}
        emit = reach(P, {EMIT})
        direct = {f.id for f in P.fns.values() if any(f.nodes[c].get('fn') == EMIT for c in f.calls)}
        files = {P.fns[x].file for x in direct}

        def in_file(f, seen):
            """statics of its file that f calls (transitively) and that emit directly"""
            if f.id in seen:
                return
            seen.add(f.id)
            for c in f.calls:
                g = P.fns.get(P.resolve(f.nodes[c].get('fn') or ''))
                if g is not None and g.static and g.file == f.file and g.id in emit:
                    in_file(g, seen)
        called = {P.resolve(f.nodes[c].get('fn') or '') for f in P.fns.values() for c in f.calls}
        for f in sorted(P.fns.values(), key=lambda x: x.id):
            if f.file not in files or f.id not in emit or f.static and f.id in called or f.name == EMIT:
                continue
            seen = set()
            in_file(f, seen)
            if not seen & direct:
                continue
            R = EventRule(P, seen, brackets, A)
            E = Engine(P, R, maxstates=400)
            outs = E.run(f)
            rep.analysed(E.covered)
            for s in R.sites:
                rep.count('event', s)
            if R.sites:
                rep.count('function', f.name)
            for (k, t), w in sorted(R.bad.items()):
                rep.v('%s:%s:%s' % (k, f.name, t), w, {'noopen': '%s: end of an event (%s) that is not open', 'cross': '%s: end of an event (%s) inside another open event',
                                                       'value': '%s: an event (%s) is closed with the value of another',
                                                       'many': '%s: events (%s) opened in a loop and not closed'}[k] % (f.name, t))
            for st, v in outs:
                if st.r:
                    t, x = st.r[-1]
                    n = name_of(P, t, x, brackets)
                    rep.v('open:%s:%s' % (f.name, n), f.file, '%s returns with the event %s still open on some path (result %s)' % (f.name, n, v))
                    break
        regions(rep, P, T, A)
        writer(rep, P, T, A)
    rep.need('event', 100)
    rep.need('function', 30)
    rep.need('written', 20)


def name_of(P, t, x, brackets):
    if brackets[t] == 'RUNTIME_EVENT' and is_c(x):
        for n, v in P.enums['InstrumentRuntimeValue']['consts']:
            if v == x[1]:
                return n
    return brackets[t]


# ------------------------------------------------------------------ regions
class RegionRule(Rule):
    """r = sorted tuple of what happened to the region: 'begin' / 'end' events, 'start' / 'stop' stores; a store of false
    counts only where the flag may have been true"""
    def __init__(self, P, inl, t, A):
        self.P, self.inl, self.t, self.A = P, inl, t, A

    def initial(self, E):
        return ()

    def inline(self, E, fid):
        return fid in self.inl

    def add(self, st, x):
        st.r = tuple(sorted(set(st.r) | {x}))

    def on_call(self, E, st, fid, args, node, fr):
        if fid == EMIT:
            if args[0] == ('c', self.t):
                self.add(st, 'begin' if args[2] == ('c', self.A['EVENT_BEGIN']) else 'end')
            return [(st, C0)]
        if fid == 'pthread_mutex_lock':
            # other threads may have changed the flag
            for l in [l for l in st.mem if l[0] == 'f' and l[2] == 'started']:
                del st.mem[l]
            st.mem.pop(('x', 'flag'), None)
        return None

    def on_store(self, E, st, loc, val, node, fr):
        if loc[0] != 'f' or loc[2] != 'started':
            return
        if is_c(val) and val[1]:
            self.add(st, 'start')
        elif val == C0:
            cur = st.mem.get(('x', 'flag'))
            if cur is not None:
                k = E.known(st, cur)
                if k is False:
                    return
            self.add(st, 'stop')

    def on_load(self, E, st, loc, val, node, fr):
        if loc[0] == 'f' and loc[2] == 'started':
            st.mem[('x', 'flag')] = val
        return None

    def key_extra(self, E, st):
        return tuple(sorted((repr(k), v) for k, v in st.facts.items() if 'started' in repr(k)))


def regions(rep, P, T, A):
    """the region event and the started flag change together"""
    t = T.get('MONITOR_REGION')
    if t is None:
        return
    stores = set()
    for f in P.fns.values():
        for n in f.nodes.values():
            if n['k'] == 'BinaryOperator' and n.get('op') == '=':
                l = f.nodes[strip(f, n['ch'][0])]
                if l['k'] == 'MemberExpr' and l['m'] == 'started':
                    stores.add(f.id)
    call = reach(P, stores) | stores
    ev = {f.id for f in P.fns.values() if any(f.nodes[c].get('fn') == EMIT for c in f.calls)}
    todo = []
    for fid in stores | ev:
        f = P.fns[fid]
        if f.static:
            todo += [g for g in P.fns.values() if not g.static and g.file == f.file and reaches_static(P, g, fid)]
        else:
            todo.append(f)
    done = set()
    for f in sorted(todo, key=lambda x: x.id):
        if f.id in done or not any(P.fns[x].file == f.file for x in stores):
            continue
        done.add(f.id)
        inl = {g.id for g in P.fns.values() if g.static and g.file == f.file and (g.id in stores or g.id in ev or reaches_static_any(P, g, stores | ev))}
        R = RegionRule(P, inl, t, A)
        E = Engine(P, R, maxstates=400)
        outs = E.run(f)
        rep.analysed(E.covered)
        for st, v in outs:
            s = set(st.r)
            if s & {'start', 'stop', 'begin', 'end'}:
                rep.count('region_event', '%s:%s' % (f.name, '+'.join(sorted(s))))
            for a, b in (('start', 'begin'), ('stop', 'end')):
                if a in s and b not in s:
                    rep.v('region:%s:%s' % (f.name, a), f.file, '%s: the region is marked as %s on a path that writes no %s event for it' % (f.name, {'start': 'started', 'stop': 'not started'}[a], b))
                if b in s and a not in s:
                    rep.v('region:%s:%s' % (f.name, b), f.file, '%s: a path writes the %s event of a region that it did not %s' % (f.name, b, a))
    rep.need('region_event', 2)


def reaches_static(P, g, target, seen=None):
    seen = set() if seen is None else seen
    if g.id in seen:
        return False
    seen.add(g.id)
    for c in g.calls:
        h = P.fns.get(P.resolve(g.nodes[c].get('fn') or ''))
        if h is not None and h.static and h.file == g.file and (h.id == target or reaches_static(P, h, target, seen)):
            return True
    return False


def reaches_static_any(P, g, targets):
    return any(reaches_static(P, g, t) for t in targets)


# ------------------------------------------------------------------ the writer
class WriterRule(Rule):
    def __init__(self):
        self.out = []

    def initial(self, E):
        return None

    def inline(self, E, fid):
        return E.P.fns[fid].static if hasattr(E, 'P') else True

    def on_call(self, E, st, fid, args, node, fr):
        return None

    def on_indirect(self, E, st, target, args, node, fr):
        st.r = tuple(args[:2])
        return [(st, C0)]


def writer(rep, P, T, A):
    f = P.fn(EMIT)
    raw = {'MONITOR_CYCLES', 'MONITOR_INSTR'}
    vals = {n: v for n, v in P.enums['InstrumentRuntimeValue']['consts']}
    for tn, t in sorted(T.items()):
        for vn, v in (sorted(vals.items()) if tn == 'RUNTIME_EVENT' else [('1', 1)]):
            got = {}
            for a in ('EVENT_BEGIN', 'EVENT_END'):
                R = WriterRule()
                E = Engine(P, R, maxstates=100)
                res = set()
                for st, x in E.run(f, [('c', t), ('c', v), ('c', A[a])]):
                    cond = tuple(sorted((repr(k), b) for k, b in st.facts.items()))
                    res.add((cond, st.r))
                got[a] = res
                rep.analysed(E.covered)
            rep.count('written', '%s %s' % (tn, vn))
            nb, ne = [{(c, x is not None) for c, x in got[a]} for a in ('EVENT_BEGIN', 'EVENT_END')]
            if nb != ne:
                rep.v('writer:%s:%s' % (tn, vn), f.file, 'the begin and the end of event %s (%s) are not written under the same condition' % (tn, vn))
            if tn in raw:
                continue
            for a, want in (('EVENT_BEGIN', v), ('EVENT_END', 0)):
                for c, x in got[a]:
                    if x is not None and x != (('c', t), ('c', want)):
                        rep.v('writer:%s:%s:%s' % (tn, vn, a), f.file, 'the %s of event %s (%s) is written as %s' % (a[6:].lower(), tn, vn, x))
            if not any(x is not None for c, x in got['EVENT_BEGIN']):
                rep.v('writer:%s:%s:never' % (tn, vn), f.file, 'event %s (%s) is never written' % (tn, vn))
