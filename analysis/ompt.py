"""Delivery of OpenMP runtime events (C30)."""
from flow import *
from names import *
from program import strip, walk

EV, CB = 'omptool_event_funcs_t', 'omptool_callback_funcs_t'
PAR = 'omptool_parallel_data_t'
# what an event of the runtime is to the modules: (callback, {parameter position: constant}) -> slots, one of which is called
# parameters are those of the callback types of the OpenMP tools interface
DATA = {'parallel_begin': 2, 'parallel_end': 0, 'implicit_task': 1, 'sync_region': 2}


def scenarios(P):
    c = P.enumconst
    B, En = c['ompt_scope_begin'], c['ompt_scope_end']
    yield 'thread_begin', {}, [{'thread_begin'}], {}
    yield 'thread_end', {}, [{'thread_end'}], {}
    yield 'parallel_begin', {4: c['ompt_parallel_team']}, [{'parallel_begin'}], {}
    yield 'parallel_end', {2: c['ompt_parallel_team']}, [{'parallel_end'}], {}
    yield 'task_create', {3: c['ompt_task_explicit']}, [{'task_create'}], {}
    for n, v in sorted(c.items()):
        if n.startswith('ompt_task_') and n in {k for k, _ in P.enums['ompt_task_status_t']['consts']}:
            yield 'task_schedule', {1: v}, [{'task_complete'} if n == 'ompt_task_complete' else {'task_switch'} if n == 'ompt_task_switch' else set()], {}
    yield 'implicit_task', {0: B, 5: c['ompt_task_implicit']}, [{'into_parallel_function'}], {}
    yield 'implicit_task', {0: En, 5: c['ompt_task_implicit']}, [set()], {}
    yield 'implicit_task', {0: B, 5: c['ompt_task_initial']}, [set()], {}
    for k in ('barrier_explicit', 'taskwait', 'taskgroup'):
        yield 'sync_region', {0: c['ompt_sync_region_' + k], 1: B}, [{'into_parallel_sync'}], {}
        yield 'sync_region', {0: c['ompt_sync_region_' + k], 1: En}, [{'outof_parallel_sync'}], {}
    k = c['ompt_sync_region_barrier_implicit_parallel']
    yield 'sync_region', {0: k, 1: B}, [{'into_parallel_implicit_barrier'}], {}
    yield 'sync_region', {0: k, 1: En}, [set()], {}
    k = c['ompt_sync_region_barrier_implicit']
    yield 'sync_region', {0: k, 1: B, 4: 0}, [{'into_parallel_implicit_barrier'}], {}
    yield 'sync_region', {0: k, 1: B}, [{'into_parallel_implicit_barrier'}, {'into_parallel_sync'}], {}
    yield 'sync_region', {0: k, 1: En}, [{'outof_parallel_sync'}, set()], {}
    yield 'sync_region', {0: k, 1: En}, [{'outof_parallel_sync'}], {4: True}      # not the barrier of the region itself


def slot_of(l, rec):
    """(instance, slot) of a location inside one of the tables"""
    if isinstance(l, tuple) and len(l) == 4 and l[0] == 'f' and l[3] == rec:
        return l[1], l[2]
    return None


class Dispatch(Rule):
    """r = what was delivered on this path: ('call', instance, slot, args) / ('null', instance, slot) / ('free', x)"""
    def __init__(self, P, inl, insts):
        self.P, self.inl, self.insts = P, inl, insts
        self.bad = []

    def initial(self, E):
        return ()

    def inline(self, E, fid):
        return fid in self.inl

    def on_branch(self, E, st, node, taken, fr):
        for k, t in st.facts.items():
            if k[0] == '==' and t is True and C0 in k[1:]:
                for v in k[1:]:
                    if v[0] == 's' and v[1] == 'ld' and slot_of(v[2], EV):
                        e = ('null',) + slot_of(v[2], EV)
                        if e not in st.r:
                            st.r = st.r + (e,)

    def on_call(self, E, st, fid, args, node, fr):
        if fid == 'free' and args:
            st.r = st.r + (('free', args[0]),)
        return None

    def on_indirect(self, E, st, target, args, node, fr):
        s = slot_of(target[2], EV) if target and target[0] == 's' and target[1] == 'ld' else None
        if not s:
            return None
        w = E.where(node, fr)
        if st.facts.get(('==', target, C0)) is not False:
            self.bad.append((s[1], w, 'the handler of %s is called without a test that the module has one' % s[1]))
        for a in args:
            if ('free', a) in st.r:
                self.bad.append((s[1], w, 'the data of event %s was freed before it is delivered' % s[1]))
        same = []
        for a in args:
            # the value the tool data has at this moment
            same.append(a)
        st.r = st.r + (('call', s[0], s[1], tuple(same), tuple(sorted((str(l), v) for l, v in st.mem.items()
                                                                        if l[0] == 'f' and l[2] == 'ptr'))),)
        return None


class Setup(Rule):
    """r = registrations and life-cycle calls of this path"""
    def __init__(self, P, inl, insts, cb):
        self.P, self.inl, self.insts, self.cb = P, inl, insts, cb
        self.events = {v for n, v in P.enums['ompt_callbacks_t']['consts']}

    def initial(self, E):
        return ()

    def inline(self, E, fid):
        return fid in self.inl

    def key_extra(self, E, st):
        return tuple(sorted((str(k[1:3]), v[1]) for k, v in st.mem.items() if k[0] == 'f' and k[3] in (EV, CB) and v[0] == 'fn'))

    def note(self, st, e):
        if e not in st.r:
            st.r = st.r + (e,)

    def on_call(self, E, st, fid, args, node, fr):
        n = fr.fn.nodes[node]
        if not n.get('fn'):
            m = fr.fn.nodes[strip(fr.fn, n['ch'][0])]
            while m['k'] in ('ImplicitCastExpr', 'ParenExpr', 'UnaryOperator') and m['ch']:
                m = fr.fn.nodes[strip(fr.fn, m['ch'][0])]
            if m['k'] == 'MemberExpr':
                self.note(st, ('slot', m['m'] if isinstance(m.get('m'), str) else str(m.get('m')), fid))
            return [(st, ('s', 'ret', fid, fr.ctx + (node,)))]
        return None

    def on_indirect(self, E, st, target, args, node, fr):
        ret = ('s', 'ret', None, fr.ctx + (node,))
        if len(args) == 2 and is_c(args[0]) and args[0][1] in self.events and (args[1][0] == 'fn' or args[1] == C0 or args[1][0] == 's'):
            self.note(st, ('set', args[0][1], args[1], E.where(node, fr)))
            return [(st, ret)]
        return None


def family(P, seeds, files):
    """static functions of the files from which the seeds can be reached, and the functions outside (or address-taken) that start them"""
    callers = {}
    for f in P.fns.values():
        for c in f.calls:
            t = f.nodes[c].get('fn')
            if t:
                callers.setdefault(P.resolve(t), set()).add(f.id)
    tops, inl, todo, seen = set(), set(seeds), list(seeds), set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        f = P.fns[x]
        cs = {c for c in callers.get(x, ()) if P.fns[c].file in files}
        if f.static and cs:
            inl |= cs
            todo += cs
        else:
            tops.add(x)
    return tops, inl


def globals_of(P, rec):
    out = []
    for g, d in P.globals.items():
        t = d['types'][d['t']] if 'types' in d else None
        if t and t['k'] == 'rec' and t['r'] == rec:
            out.append(g)
    return sorted(out)


def synonyms(slot):
    return {'into_mpi': {'into_mpi', 'intoblockingcall'}, 'outof_mpi': {'outof_mpi', 'outofblockingcall'}}.get(slot, {slot})


def check_c30(rep, progs, ex):
    rep.rule('The tables of handlers are computed by interpreting the start of the tool for every combination of modules.  A handler may not bear the name of '
             'another event; every event a module handles has its callback registered, with the callback identifier of that event, and unregistered '
             'at the end, before the modules are finalised.  Each callback is interpreted for every kind and endpoint of the runtime: on each path it '
             'must deliver exactly the slot that this event stands for, to every module that has a handler for it, guarded by the test that the handler '
             'exists, with the data of the event, and with the same arguments for all modules.')
    for cfg, P in progs.items():
        insts = globals_of(P, EV)
        cbs = globals_of(P, CB)
        if not insts or len(cbs) != 1:
            rep.need('tables', 1)
        rep.count('tables', len(insts) + len(cbs))
        cb = ('g', cbs[0])
        slots = [x['n'] for x in P.record(EV)['fields']]
        cslots = [x['n'] for x in P.record(CB)['fields']]
        event = {s: P.enumconst['ompt_callback_' + s] for s in cslots}
        file = P.globals[cbs[0]]['file']
        files = {f.file for f in P.fns.values() if f.file == file or f.file.endswith(file)}
        mine = [f for f in P.fns.values() if f.file in files]
        # ---- start and end of the tool
        inits = set()
        for g, d in P.globals.items():
            pass
        setters = {f.id for f in mine if any(not f.nodes[c].get('fn') and len(f.nodes[c]['ch']) == 3 and
                                            any(f.nodes[y].get('d', {}).get('n') in {'set_callback_fn'} or
                                                'ompt_set' in str(f.types[f.nodes[y]['t']].get('n', '')) for y in walk(f, f.nodes[c]['ch'][0]) if 't' in f.nodes[y])
                                            or not f.nodes[c].get('fn') and any(str(f.nodes[y].get('d', {}).get('n', '')).startswith('ompt_callback_')
                                                                               for y in walk(f, c)) for c in f.calls)}
        tops, inl = family(P, setters, files)
        inl |= {f.id for f in mine if f.static}
        starts, ends = [], []
        for t in sorted(tops):
            R = Setup(P, inl, insts, cb)
            E = Engine(P, R, maxstates=400)
            outs = E.run(P.fns[t])
            rep.analysed(E.covered)
            if any(e[0] == 'set' and e[2][0] == 'fn' for s, v in outs for e in s.r):
                starts.append((t, outs))
            else:
                ends.append(t)
        if not starts or not ends:
            rep.count('registration', 0)
            rep.need('registration', 1)
        tab = {}      # (inst, slot) -> set of handlers
        cbh = {}      # callback slot -> set of handlers
        combos = set()
        live = []
        for t, outs in starts:
            for s, v in outs:
                T = {(k[1], k[2]): x[1] for k, x in s.mem.items() if k[0] == 'f' and k[3] == EV and x[0] == 'fn' and k[1] in [('g', i) for i in insts]}
                C = {k[2]: x[1] for k, x in s.mem.items() if k[0] == 'f' and k[3] == CB and x[0] == 'fn' and k[1] == cb}
                for k, h in T.items():
                    tab.setdefault(k, set()).add(h)
                for k, h in C.items():
                    cbh.setdefault(k, set()).add(h)
                sets = {(e[1], e[2]) for e in s.r if e[0] == 'set'}
                if not C and not sets and not T:
                    continue
                if not sets and C and any(k[0] == '==' and x is True and C0 in k[1:] and any(y[0] == 's' and y[1] == 'ret' and y[2] is None for y in k[1:])
                                    for k, x in s.facts.items()):
                    continue        # the runtime offers no way to register
                combo = tuple(sorted(set(T.values()) | set(C.values())))
                rep.count('start_path', P.fns[t].name + ' ' + str(combo)[:400])
                for sl, h in sorted(C.items()):
                    if (event[sl], ('fn', h)) not in sets:
                        got = [e for e in s.r if e[0] == 'set' and e[2] == ('fn', h)]
                        rep.v('register:' + sl, got[0][3] if got else P.fns[t].name,
                              'the handler of %s %s' % (sl, 'is registered for another event' if got else 'is not registered'))
                    rep.count('registration', sl)
                for e in s.r:
                    if e[0] == 'set' and e[2][0] == 'fn' and e[2][1] not in C.values():
                        rep.v('register:foreign', e[3], 'a callback that is in no slot is registered')
                ret1 = is_c(v) and v[1] != 0
                if ret1:
                    live.append((s, T, C, sets))
                    called = {(e[1], e[2]) for e in s.r if e[0] == 'slot'}
                    for (i, sl), h in T.items():
                        if sl == 'init':
                            rep.count('life_cycle', 'init ' + h)
                            if not any(x[1] == h for x in called):
                                rep.v('init:' + h, P.fns[t].name, 'the tool starts without initialising a module that is in the table (%s)' % h)
        for s, T, C, sets in live:
            for t in ends:
                R = Setup(P, inl, insts, cb)
                E = Engine(P, R, maxstates=400)
                st = State(dict((k, v) for k, v in s.mem.items() if k[0] in ('f', 'g')), dict(s.facts), ())
                outs = E.run(P.fns[t], None, st)
                rep.analysed(E.covered)
                for s2, v2 in outs:
                    un = {e[1] for e in s2.r if e[0] == 'set' and e[2] == C0}
                    fin = [e for e in s2.r if e[0] == 'slot']
                    if not un and any(k[0] == '==' and x is True and C0 in k[1:] and any(y[0] == 's' and y[1] == 'ld' and y[2] and y[2][0] == 'g' for y in k[1:])
                                      for k, x in s2.facts.items()):
                        continue     # nothing could be registered
                    for sl in C:
                        rep.count('unregistration', sl)
                        if event[sl] not in un:
                            rep.v('unregister:' + sl, P.fns[t].name, 'the callback of %s is not unregistered when the tool ends' % sl)
                    for (i, sl), h in T.items():
                        if sl == 'finalize':
                            rep.count('life_cycle', 'finalize ' + h)
                            pos = [k for k, e in enumerate(s2.r) if e[0] == 'slot' and e[2] == h]
                            if not pos:
                                rep.v('finalize:' + h, P.fns[t].name, 'the tool ends without finalising a module that is in the table (%s)' % h)
                            elif any(e[0] == 'set' for e in s2.r[pos[0]:]):
                                rep.v('finalize-order:' + h, P.fns[t].name, 'a module is finalised while callbacks are still registered (%s)' % h)
        # ---- names
        for (i, sl), hs in sorted(tab.items()):
            for h in sorted(hs):
                n = P.fns[h].name.lower()
                rep.count('handler', '%s=%s' % (sl, h))
                others = [o for o in slots if o != sl and any(n.endswith(x) for x in synonyms(o))]
                mine_ = any(n.endswith(x) for x in synonyms(sl))
                if others and not mine_:
                    rep.v('handler:%s' % n, P.fns[h].name, 'the handler of event %s is %s' % (sl, h))
        # ---- dispatchers
        disp = {f.id for f in mine if any(not f.nodes[c].get('fn') and any(f.nodes[y]['k'] == 'MemberExpr' and f.nodes[y].get('r') == EV
                for y in walk(f, f.nodes[c]['ch'][0])) for c in f.calls)}
        dtops, dinl = family(P, disp, files)
        dinl |= {f.id for f in mine if f.static}
        delivered = {}
        direct = set()
        for sl, hs in cbh.items():
            for h in hs:
                if h not in dtops:
                    direct.add((sl, h))

        def judge(name, outs, R, allowed):
            for k, w, m in R.bad:
                rep.v('delivery:%s' % k, w, m)
            for s, v in outs:
                rep.count('delivery_path')
                per = {}
                for e in s.r:
                    if e[0] in ('call', 'null'):
                        per.setdefault(e[1], []).append(e)
                touched = {e[2] for e in s.r if e[0] in ('call', 'null')}
                for sl in sorted(touched):
                    args = set()
                    for i in insts:
                        ev = [e for e in per.get(('g', i), []) if e[2] == sl]
                        calls = [e for e in ev if e[0] == 'call']
                        if len(calls) > 1:
                            rep.v('twice:%s' % sl, name, 'event %s is delivered twice to the same module' % sl)
                        if calls:
                            args.add(calls[0][3])
                        if not ev and (('g', i), sl) in tab:
                            rep.v('missed:%s:%s' % (sl, i.split(':')[1].split('@')[0]), name, 'event %s is delivered to one module but not to the other, which '
                                  'has a handler for it (%s)' % (sl, ', '.join(sorted(tab[(('g', i), sl)]))))
                        if ev:
                            delivered.setdefault((i, sl), set()).add(name)
                    if len(args) > 1:
                        rep.v('args:%s' % sl, name, 'event %s is delivered with different data to the modules' % sl)
                if allowed is not None and touched not in allowed:
                    rep.v('event:%s' % name, name, 'the event is delivered as %s, expected %s' % (sorted(touched) or 'nothing', ' or '.join(str(sorted(a) or 'nothing') for a in allowed)))
                yield s

        done = set()
        for cbn, consts, allowed, nonnull in scenarios(P):
            for h in sorted(cbh.get(cbn, ())):
                if h not in dtops:
                    continue
                f = P.fns[h]
                done.add(h)
                args = [('c', consts[k]) if k in consts else ('s', 'P', p['n']) for k, p in enumerate(f.params)]
                st = State({}, {}, ())
                for k, a in enumerate(args):
                    if a[0] == 's' and f.types[f.params[k]['t']]['k'] == 'ptr' and not (cbn == 'sync_region' and k == 4 and not nonnull):
                        st.facts[('==', a, C0)] = False
                R = Dispatch(P, dinl, insts)
                E = Engine(P, R, maxstates=300)
                names = {v: n for n, v in P.enumconst.items() if n.startswith('ompt_')}
                label = '%s(%s)' % (f.name, ','.join('%s=%s' % (f.params[k]['n'], v) for k, v in sorted(consts.items())))
                rep.count('scenario', label)
                outs = E.run(f, args, st)
                if cbn in DATA:
                    d = f.params[DATA[cbn]]['n']
                    base = ('d', ('s', 'P', d))
                    # a region that the tool did not see begin carries no data
                    outs = [(s, v) for s, v in outs if not any(k[0] == '==' and t is True and C0 in k[1:] and
                            any(y[0] == 's' and y[1] == 'ld' and y[2] and y[2][0] == 'f' and y[2][1] == base for y in k[1:]) for k, t in s.facts.items())]
                if nonnull:
                    outs = [(s, v) for s, v in outs if not any(k[0] == '==' and t is True and args[4] in k[1:] for k, t in s.facts.items())]
                rep.analysed(E.covered)
                if not outs:
                    rep.v('event:' + label, f.name, 'no path handles this event')
                for s in judge(label, outs, R, allowed):
                    for e in s.r:
                        if e[0] != 'call':
                            continue
                        if cbn in DATA and e[3]:
                            a = e[3][0]
                            ok = mentions(a, lambda x: isinstance(x, tuple) and len(x) == 4 and x[0] == 'f' and x[1] == base) or \
                                any(str(('f', base))[:-1] in l and v == a for l, v in e[4])
                            rep.count('data', label)
                            if not ok:
                                rep.v('data:%s' % e[2], f.name, 'event %s is delivered with other data than that of its parallel region' % e[2])
                        if e[2] == 'into_parallel_function' and len(e[3]) > 1 and e[3][1] != args[4]:
                            rep.v('data:%s:index' % e[2], f.name, 'event %s is delivered with another thread number' % e[2])
                        if e[2] == 'thread_begin' and e[3] and e[3][0] != args[0]:
                            rep.v('data:thread_begin', f.name, 'event thread_begin is delivered with another thread type')
        for h in sorted(dtops - done):
            f = P.fns[h]
            R = Dispatch(P, dinl, insts)
            E = Engine(P, R, maxstates=300)
            outs = E.run(f)
            rep.analysed(E.covered)
            if h in tops:
                continue       # start and end of the tool, above
            rep.count('scenario', f.name)
            for s in judge(f.name, outs, R, None):
                pass
        # ---- every handled event is delivered by a callback that is registered whenever the module is active
        for (i, sl), hs in sorted(tab.items()):
            if sl in ('init', 'finalize'):
                continue
            rep.count('handled', '%s %s' % (i[1], sl))
            if (i[1], sl) in delivered or any(h in hs for _, h in direct):
                continue
            rep.v('undelivered:%s:%s' % (i[1].split(':')[1].split('@')[0], sl), sl, 'no event is ever delivered to %s' % ', '.join(sorted(hs)))
        for s, T, C, sets in live:
            for (i, sl), h in T.items():
                need = {n.split('(')[0] for n in delivered.get((i[1], sl), ())}
                cand = {c for c, hs in cbh.items() if any(P.fns[x].name in need for x in hs)}
                if cand and not any(c in C for c in cand):
                    rep.v('inactive:%s' % sl, sl, 'a module with a handler for %s (%s) is active while no callback that delivers it is registered' % (sl, h))
    rep.need('scenario', 10)
    rep.need('registration', 5)
    rep.need('unregistration', 5)
    rep.need('handler', 20)
    rep.need('data', 5)
