"""Callbacks, policy dispatch and parity of the interfaces (C06, C07, C08)."""
import os, re
from itertools import product
from flow import *
from names import *
from program import strip, walk, REPO
from api import Anchors, rec_of, LIFECYCLE, slot_functions, EffectRule, returns
import locks


# ------------------------------------------------------------------ C06
EVENTS = ['set_num_threads', 'set_active_mask', 'set_process_mask', 'add_active_mask', 'add_process_mask', 'enable_cpu', 'disable_cpu',
          'enable_cpu_set', 'disable_cpu_set']
# operation -> (event it fires, events whose callback may stand in for it when that one is not registered)
OPS = {
    'update_threads': ('set_num_threads', ()),
    'set_mask': ('set_active_mask', ()),
    'set_process_mask': ('set_process_mask', ()),
    'add_mask': ('add_active_mask', ('enable_cpu',)),
    'add_process_mask': ('add_process_mask', ()),
    'enable_cpu': ('enable_cpu', ('add_active_mask',)),
    'enable_cpu_set': ('enable_cpu_set', ('enable_cpu',)),
    'disable_cpu': ('disable_cpu', ('set_active_mask',)),
    'disable_cpu_set': ('disable_cpu_set', ('disable_cpu',)),
}
TAKES_SET = {'set_active_mask', 'set_process_mask', 'add_active_mask', 'add_process_mask', 'enable_cpu_set', 'disable_cpu_set'}


def is_false(v):
    return v == C0


class CallbackRule(Rule):
    def __init__(self, P, files):
        self.P, self.files = P, files
        self.calls = []
        self.bad = []

    def initial(self, E):
        return ((), ())

    def inline(self, E, fid):
        return self.P.fns[fid].file in self.files

    def on_call(self, E, st, fid, args, node, fr):
        if fid.startswith('cb:'):
            t = st.copy()
            ops = dict(st.r[1])
            extra = None
            if args and args[0][0] == '&':
                extra = ops.get(args[0][1], ())
            self.calls.append((fid[3:], tuple(args), extra, E.where(node, fr)))
            t.r = (tuple(sorted(set(st.r[0]) | {fid[3:]})), st.r[1])
            return [(t, C0)]
        if fid in ('sched_getaffinity', 'pthread_getaffinity_np') and args:
            t = st.copy()
            self.op(t, deref(args[-1]), ('affinity',))
            return [(t, ('s', 'ret', fid, fr.ctx + (node,)))]
        return None

    def op(self, st, loc, what):
        ops = dict(st.r[1])
        ops[loc] = ops.get(loc, ()) + (what,)
        st.r = (st.r[0], tuple(sorted(ops.items(), key=repr)))

    def on_store(self, E, st, loc, val, node, fr):
        if val[0] == 'mask' and val[1] in ('CPU_SET', 'CPU_CLR'):
            self.op(st, loc, (val[1], val[2]))
        elif val == ('agg',) and root_of(loc)[0] == 'v':
            self.op(st, loc, ('zero',))

    def on_indirect(self, E, st, target, args, node, fr):
        self.bad.append((E.where(node, fr), val_name(target)))


def check_c06(rep, progs, ex):
    rep.rule('pm_callback_set/get are interpreted for every event code (and an invalid one): set writes exactly the pair of fields of that event, '
             'from the two parameters, get reads exactly that pair.  Each operation that fires an event is interpreted for all 512 combinations of '
             'registered callbacks: it must invoke the callback of its event, with that event\'s argument and the caller\'s own CPU, mask or count; '
             'if that one is missing, only a stand-in of the declared list; if none is registered return DLB_ERR_NOCBK; a missing callback is never invoked.')
    for cfg, P in progs.items():
        A = Anchors(P)
        files = {P.fn('pm_callback_set').file}
        setf, getf = P.fn('pm_callback_set'), P.fn('pm_callback_get')
        fields = [f['n'] for f in P.record(A.pm)['fields']]
        consts = [('dlb_callback_' + e, P.const('dlb_callback_' + e)) for e in EVENTS]
        pairs = {}
        pm = ('d', ('s', 'P', 'pm'))
        ARG = {}
        for ev, c in consts + [('invalid', 999)]:
            class S(EffectRule):
                def on_store(self, E, st, loc, val, node, fr):
                    if root_of(loc)[0] == 'v':
                        return
                    self.effects.append((E.where(node, fr), loc, val))
            R = S(A)
            a = [('s', 'P', 'pm'), ('c', c), ('s', 'P', 'callback'), ('s', 'P', 'arg')]
            outs = Engine(P, R).run(setf, a)
            rs = returns(outs)
            st_ = {(l, v) for w, l, v in R.effects}
            rep.count('event', '%s:%s' % (cfg, ev))
            rep.analysed([setf.id, getf.id])
            if ev == 'invalid':
                if outs and (rs != {P.const('DLB_ERR_NOCBK')} or st_):
                    rep.v('set:invalid', setf.name, 'an unknown event is not refused by %s' % setf.name)
            else:
                f, g = [l for l, v in st_ if v == a[2]], [l for l, v in st_ if v == a[3]]
                if rs != {P.const('DLB_SUCCESS')} or len(st_) != 2 or len(f) != 1 or len(g) != 1:
                    rep.v('set:' + ev, setf.name, '%s of %s does not store exactly the callback and its argument (stores: %s)'
                          % (setf.name, ev, ', '.join(sorted(loc_name(l) for l, v in st_))))
                else:
                    pairs[ev[13:]] = (f[0], g[0])
            R2 = S(A)
            a2 = [('s', 'P', 'pm'), ('c', c), ('s', 'P', 'callback'), ('s', 'P', 'arg')]
            outs = Engine(P, R2).run(getf, a2)
            rs = returns(outs)
            st_ = {l: v for w, l, v in R2.effects}
            if ev == 'invalid':
                if outs and (rs != {P.const('DLB_ERR_NOCBK')} or st_):
                    rep.v('get:invalid', getf.name, 'an unknown event is not refused by %s' % getf.name)
            elif ev[13:] in pairs:
                want = {('d', a2[2]): pairs[ev[13:]][0], ('d', a2[3]): pairs[ev[13:]][1]}
                for l, src in want.items():
                    v = st_.get(l)
                    if v is None or val_origin(v) != src:
                        rep.v('get:' + ev, getf.name, '%s of %s returns %s where the registration stored %s'
                              % (getf.name, ev, val_name(v) if v else 'nothing', loc_name(src)))
                if set(st_) - set(want):
                    rep.v('get:extra:' + ev, getf.name, '%s of %s writes more than the callback and its argument' % (getf.name, ev))
        used = {}
        for e, (p, g) in pairs.items():
            for l in (p, g):
                if l in used:
                    rep.v('shared:%s' % loc_name(l), setf.name, 'events %s and %s share %s' % (used[l], e, loc_name(l)))
                used[l] = e
        if len(pairs) < 9:
            continue
        for op, (prim, alts) in sorted(OPS.items()):
            fn = P.fn(op)
            pname, xname = fn.params[0]['n'], fn.params[1]['n']
            base = ('d', ('s', 'P', pname))

            def at(loc):
                return ('f', base) + loc[2:]
            for combo in product((0, 1), repeat=len(EVENTS)):
                reg = {e for e, b in zip(EVENTS, combo) if b}
                mem = {}
                for e in EVENTS:
                    p, g = pairs[e]
                    mem[at(p)] = ('fn', 'cb:' + e) if e in reg else C0
                    mem[at(g)] = ('s', 'P', 'arg of ' + e)
                R = CallbackRule(P, files)
                outs = Engine(P, R).run(fn, None, State(mem, {}, ((), ())))
                rep.count('combination')
                name = '%s:%s' % (op, prim)
                who = '%s (%s)' % (fn.name, 'registered: ' + (', '.join(sorted(reg)) or 'none'))
                allowed = {prim} if prim in reg else set(alts) & reg
                for w, t in R.bad:
                    rep.v(name + ':null', w, '%s calls %s, which is not a registered callback' % (who, t))
                for ev, args, ops, w in R.calls:
                    rep.count('invocation', '%s->%s' % (op, ev))
                    if ev not in allowed:
                        rep.v('%s:wrong:%s' % (name, ev), w, '%s invokes the callback of %s' % (who, ev))
                    if args[-1] != ('s', 'P', 'arg of ' + ev):
                        rep.v('%s:arg:%s' % (name, ev), w, '%s passes %s to the callback of %s' % (who, val_name(args[-1]), ev))
                    x = args[0]
                    par = ('s', 'P', xname)
                    if op == 'update_threads':
                        if is_c(x) and x[1] < 1:
                            rep.v(name + ':value', w, '%s announces %d threads' % (who, x[1]))
                        if not is_c(x) and mentions(x, lambda y: y[1] == 'P' and y != par):
                            rep.v(name + ':value', w, '%s passes %s instead of the number of threads' % (who, val_name(x)))
                    elif (ev in TAKES_SET) == (prim in TAKES_SET):
                        if x != par:
                            rep.v('%s:value:%s' % (name, ev), w, '%s passes %s instead of its own argument' % (who, val_name(x)))
                    elif ev in TAKES_SET:      # one CPU through a set callback
                        want = ('CPU_SET', par) if op == 'enable_cpu' else ('CPU_CLR', par)
                        start = 'zero' if op == 'enable_cpu' else 'affinity'
                        seq = [o for o in (ops or ())]
                        if not seq or seq[0][0] not in (start,) or [o for o in seq if o[0].startswith('CPU_')] != [want]:
                            rep.v('%s:mask:%s' % (name, ev), w, '%s builds the set from %s' % (who, [o[0] for o in seq]))
                    else:                      # a set through a one-CPU callback
                        if x == par or is_c(x):
                            rep.v('%s:value:%s' % (name, ev), w, '%s passes %s as CPU number' % (who, val_name(x)))
                rs = returns(outs)
                want = P.const('DLB_SUCCESS' if allowed else 'DLB_ERR_NOCBK')
                if rs != {want}:
                    rep.v('%s:code:%d' % (name, len(allowed) > 0), fn.name, '%s returns %s' % (who, sorted(map(str, rs))))
                loops_ = any((e in TAKES_SET) != (prim in TAKES_SET) and prim in TAKES_SET for e in allowed)
                for s, v in outs:
                    if allowed and not s.r[0] and not loops_:
                        rep.v(name + ':none', fn.name, '%s can return without invoking the callback' % who)
                if allowed and not R.calls:
                    rep.v(name + ':none', fn.name, '%s never invokes a callback' % who)
        rep.need('event', 5)
        rep.need('invocation', 6)
        # nobody else calls through these fields, or changes them
        ptrs = {p[2] for p, g in pairs.values()} | {g[2] for p, g in pairs.values()}
        for f in P.fns.values():
            if f.file in files:
                continue
            for i, n in f.nodes.items():
                if n['k'] == 'MemberExpr' and n.get('r') == A.pm and n['m'] in ptrs:
                    # reading is fine (tests whether something is registered); writing or calling is not
                    pass
            for c in f.calls:
                n = f.nodes[c]
                if 'fn' in n:
                    continue
                x = strip(f, n['ch'][0])
                xn = f.nodes[x]
                if xn['k'] == 'MemberExpr' and xn.get('r') == A.pm:
                    rep.v('elsewhere:%s:%s' % (f.name, xn['m']), '%s (%s)' % (f.base(), f.name), '%s is invoked outside the dispatch module' % xn['m'])


# ------------------------------------------------------------------ C07
def norm(s):
    s = s.lower().replace('_', '')
    return s


SUFFIX_ALIAS = {'enabledlb': 'enable', 'disabledlb': 'disable', 'return': 'returnall'}


def slot_of_name(fname, slots, prefixes=('lewi_async_', 'lewi_mask_', 'lewi_')):
    for p in prefixes:
        if fname.startswith(p):
            s = norm(fname[len(p):])
            s = SUFFIX_ALIAS.get(s, s)
            for x in slots:
                if norm(x) == s:
                    return p, x
            return p, None
    return None, None


class SlotRule(Rule):
    """one kernel operation: which slot it calls, with what"""
    def __init__(self, A):
        self.A, self.P = A, A.P
        self.calls = []

    def inline(self, E, fid):
        f = self.P.fns[fid]
        return not f.file.endswith('/debug.c')

    def on_call(self, E, st, fid, args, node, fr):
        if fid.startswith('slot:'):
            t = st.copy()
            t.r = (st.r or ()) + (fid[5:],)
            v = ('s', 'ret', fid, ())
            self.calls.append((fid[5:], tuple(args), E.where(node, fr)))
            return [(t, v)]
        if fid.startswith(('__sync_bool_compare_and_swap', '__sync_val_compare_and_swap')):
            loc = deref(args[0])
            cur = st.mem.get(loc)
            if cur is not None and is_c(cur) and is_c(args[1]) and is_c(args[2]):
                t = st.copy()
                hit = cur[1] == args[1][1]
                if hit:
                    E.store(t, loc, args[2], fr, node)
                return [(t, (C1 if hit else C0) if 'bool' in fid else cur)]
        return None


def policy_table(P):
    """policy -> slot -> function, by interpreting set_lb_funcs"""
    A = Anchors(P)
    setf = P.fn('set_lb_funcs')
    slots = [f['n'] for f in P.record(A.lbf)['fields']]
    base = ('d', ('s', 'P', setf.params[0]['n']))
    out = {}
    for pn, pv in sorted(P.enumconst.items()):
        if pn.startswith('POLICY_'):
            for s, v in Engine(P, Rule()).run(setf, [('s', 'P', setf.params[0]['n']), ('c', pv)], State()):
                for sl in slots:
                    x = s.mem.get(('f', base, sl, A.lbf))
                    if x is not None and x[0] == 'fn':
                        out.setdefault(pn, {})[sl] = x[1]
    return out


def check_c07(rep, progs, ex):
    rep.rule('The policy table is built by interpreting set_lb_funcs for every policy: every slot must end with a target, the target of a slot of a '
             'policy must not bear the name of a different operation, an operation implemented by the policy\'s module must be in the table, and an '
             'operation that is not provided must lead to a function that only returns DLB_ERR_NOPOL.  Every function that dispatches through the '
             'table must call exactly the slot that bears its own name, with its own parameters in order, and return the result.  The policy\'s '
             'function must hand the caller\'s parameters to the same-named operation of the CPU table.')
    for cfg, P in progs.items():
        A = Anchors(P)
        setf = P.fn('set_lb_funcs')
        slots = [f['n'] for f in P.record(A.lbf)['fields']]
        pol = {k: v for k, v in P.enumconst.items() if k.startswith('POLICY_')}
        rep.analysed([setf.id])
        base = ('d', ('s', 'P', setf.params[0]['n']))
        modules = {'POLICY_LEWI': 'lewi_', 'POLICY_LEWI_ASYNC': 'lewi_async_', 'POLICY_LEWI_MASK': 'lewi_mask_', 'POLICY_NONE': None}
        table = {}
        for pn, pv in sorted(pol.items()):
            outs = Engine(P, Rule()).run(setf, [('s', 'P', setf.params[0]['n']), ('c', pv)], State())
            for s, v in outs:
                for sl in slots:
                    x = s.mem.get(('f', base, sl, A.lbf))
                    rep.count('slot', '%s.%s' % (pn, sl))
                    if x is None or x[0] != 'fn':
                        rep.v('slot:%s.%s' % (pn, sl), setf.name, 'slot %s of %s is left without a target' % (sl, pn))
                        continue
                    table[(pn, sl)] = x[1]
            mod = modules.get(pn)
            for sl in slots:
                t = table.get((pn, sl))
                if t is None:
                    continue
                fn = P.fns.get(t)
                p, named = slot_of_name(fn.name if fn else t, slots)
                if p is None:
                    if sl in ('init', 'finalize'):
                        continue
                    # not provided
                    R = EffectRule(A)
                    rs = returns(Engine(P, R).run(fn)) if fn else {'unknown'}
                    rep.count('not_provided', '%s.%s' % (pn, sl))
                    if rs != {P.const('DLB_ERR_NOPOL')} or R.effects:
                        rep.v('nopol:%s.%s' % (pn, sl), setf.name, 'operation %s, which %s does not provide, returns %s' % (sl, pn, sorted(map(str, rs))))
                else:
                    if named is not None and named != sl:
                        rep.v('swap:%s.%s' % (pn, sl), setf.name, 'slot %s of %s calls %s' % (sl, pn, fn.name))
                    if mod is not None and p != mod or mod is None:
                        rep.v('module:%s.%s' % (pn, sl), setf.name, 'slot %s of %s calls %s, of another policy' % (sl, pn, fn.name))
            # operations the module implements must be reachable
            if mod:
                for f in P.fns.values():
                    if f.static:
                        continue
                    p, named = slot_of_name(f.name, slots)
                    if p == mod and named and table.get((pn, named)) != f.id:
                        rep.v('missing:%s.%s' % (pn, named), setf.name, '%s implements %s but %s does not use it' % (f.name, named, pn))
        rep.need('slot', 60)
        # dispatch
        direct = slot_functions(P, A)
        roots = {}
        for f in P.fns.values():
            if f.static or not f.params:
                continue
            seen, todo, sl = set(), [f.id], set()
            while todo:
                x = todo.pop()
                if x in seen or x not in P.fns:
                    continue
                seen.add(x)
                sl |= direct.get(x, set())
                todo += [c for c in P.callees(P.fns[x]) if c in P.fns and P.fns[c].static]
            t = f.types[f.params[0]['t']]
            if sl and t.get('k') == 'ptr' and f.types[t['p']].get('r') == A.spd:
                roots[f.id] = sl
        dispatched = set()
        for fid, sl in sorted(roots.items()):
            fn = P.fns[fid]
            if sl <= {'init', 'finalize', 'into_blocking_call', 'out_of_blocking_call', 'into_communication', 'out_of_communication', 'update_ownership'}:
                continue
            want = norm(fn.name)
            named = [x for x in slots if norm(x) == want or norm(x) == want + 'all']
            spd = ('d', ('s', 'P', fn.params[0]['n']))
            G = [g for g in P.globals if g.endswith('thread_spd')][0]
            mem = {('g', G): ('s', 'P', fn.params[0]['n'])}
            mem[A.o(spd, 'lewi')] = C1
            mem[A.f(spd, 'lewi_enabled')] = C1
            for x in slots:
                mem[('f', ('f', spd, 'lb_funcs', A.spd), x, A.lbf)] = ('fn', 'slot:' + x)
            R = SlotRule(A)
            E = Engine(P, R, maxstates=60)
            outs = E.run(fn, None, State(mem, {}, ()))
            rep.analysed([fid])
            rep.count('dispatch', fn.name)
            got = {c[0] for c in R.calls}
            if named:
                if got != {named[0]}:
                    rep.v('dispatch:%s' % fn.name, fn.name, '%s performs %s' % (fn.name, ', '.join(sorted(got)) or 'nothing'))
                    continue
                dispatched.add(named[0])
                for ev, args, w in R.calls:
                    exp = [('s', 'P', p['n']) for p in fn.params]
                    if list(args) != exp:
                        rep.v('args:%s' % fn.name, w, '%s passes (%s) to its operation instead of its own arguments'
                              % (fn.name, ', '.join(val_name(a) for a in args)))
                for s, v in outs:
                    if len(s.r) != 1:
                        rep.v('times:%s' % fn.name, fn.name, '%s performs its operation %d times on some path' % (fn.name, len(s.r)))
                    if v != ('s', 'ret', 'slot:' + named[0], ()):
                        rep.v('result:%s' % fn.name, fn.name, '%s does not return the result of its operation' % fn.name)
            elif fn.name == 'set_lewi_enabled':
                pass
        for sl in slots:
            if sl in LIFECYCLE:
                continue
            if sl not in dispatched:
                if any(sl in x for x in direct.values()):
                    if not any(norm(P.fns[f].name) in (norm(sl),) for f in roots):
                        rep.v('undispatched:%s' % sl, setf.name, 'no operation of the same name dispatches to slot %s' % sl)
                else:
                    rep.v('undispatched:%s' % sl, setf.name, 'slot %s is never used' % sl)
        rep.need('dispatch', 15)
        check_policy_ops(rep, P, A, table, slots)
        check_enable(rep, P, A, slots)


def check_enable(rep, P, A, slots):
    """set_lewi_enabled performs enable or disable when the state changes"""
    fn = P.fns.get('set_lewi_enabled')
    if fn is None:
        return
    spd = ('d', ('s', 'P', fn.params[0]['n']))
    for arg, cur, want in ((C1, C0, ('enable',)), (C0, C1, ('disable',)), (C1, C1, ()), (C0, C0, ())):
        mem = {A.o(spd, 'lewi'): C1, A.f(spd, 'lewi_enabled'): cur}
        for x in slots:
            mem[('f', ('f', spd, 'lb_funcs', A.spd), x, A.lbf)] = ('fn', 'slot:' + x)
        R = SlotRule(A)
        outs = Engine(P, R).run(fn, [('s', 'P', fn.params[0]['n']), arg], State(mem, {}, ()))
        rep.count('dispatch', 'set_lewi_enabled(%d,%d)' % (arg[1], cur[1]))
        for s, v in outs:
            if s.r != want:
                rep.v('enable:%d%d' % (arg[1], cur[1]), fn.name, 'switching LeWI from %d to %d performs %s' % (cur[1], arg[1], s.r or 'nothing'))
            if s.mem.get(A.f(spd, 'lewi_enabled'), cur) != arg:
                rep.v('enable:flag:%d%d' % (arg[1], cur[1]), fn.name, 'switching LeWI from %d to %d leaves the flag at the old value' % (cur[1], arg[1]))


class OpRule(Rule):
    def __init__(self, P, fn):
        self.P, self.fn = P, fn
        self.calls = []

    def inline(self, E, fid):
        f = self.P.fns[fid]
        return f.file == self.fn.file and not f.file.endswith('/debug.c')

    def on_call(self, E, st, fid, args, node, fr):
        if fid.startswith(('shmem_cpuinfo__', 'shmem_lewi_async__')):
            self.calls.append((fid, tuple(args), E.where(node, fr)))
        return None


SHM_OPS = {'lend_cpu', 'lend_cpu_mask', 'reclaim', 'reclaim_cpu', 'reclaim_cpus', 'reclaim_cpu_mask', 'acquire_cpu', 'borrow_cpu',
           'return_all', 'return_cpu', 'return_cpu_mask', 'check_cpu_availability'}


def check_policy_ops(rep, P, A, table, slots):
    """lewi_mask: the operation's own CPU/count/mask is what the CPU table receives"""
    shm = {}
    for f in P.fns.values():
        if f.name.startswith('shmem_cpuinfo__'):
            n = norm(f.name[len('shmem_cpuinfo__'):])
            for s in slots:
                if norm(s) == n or norm(s) == n + 'all':
                    shm[s] = f.id
    for (pn, sl), t in sorted(table.items()):
        if pn != 'POLICY_LEWI_MASK' or sl not in SHM_OPS or sl not in shm:
            continue
        fn = P.fns.get(t)
        if fn is None or not fn.name.startswith('lewi_mask'):
            continue
        R = OpRule(P, fn)
        E = Engine(P, R, maxstates=60)
        E.run(fn)
        mine = [c for c in R.calls if c[0] == shm[sl]]
        rep.count('table_operation', '%s->%s' % (fn.name, shm[sl]))
        rep.analysed([fn.id])
        other = {c[0] for c in R.calls if c[0] in shm.values() and c[0] != shm[sl]}
        # a different CPU-table operation with the same signature is a mix-up, unless the own one is performed too
        if not mine and other:
            rep.v('table:%s' % fn.name, fn.name, '%s performs %s instead of %s' % (fn.name, ', '.join(sorted(other)), shm[sl]))
        own = {('s', 'P', p['n']) for p in fn.params[1:]}
        for fid, args, w in mine:
            if len(fn.params) > 1:
                p = ('s', 'P', fn.params[1]['n'])
                if p not in args:
                    rep.v('table:arg:%s' % fn.name, w, '%s does not pass its own %s to %s' % (fn.name, fn.params[1]['n'], fid))


# ------------------------------------------------------------------ C08
class TraceRule(Rule):
    """which internal operations an entry point performs, with which arguments"""
    def __init__(self, P, files):
        self.P, self.files = P, files
        self.calls = set()

    def inline(self, E, fid):
        f = self.P.fns[fid]
        return f.static and f.file in self.files

    def on_call(self, E, st, fid, args, node, fr):
        if fid in ('spd_enter_dlb',) or fid in self.P.fns and self.P.fns[fid].file.endswith('/debug.c'):
            return [(st, ('s', 'ret', fid, fr.ctx + (node,)))]
        f = self.P.fns.get(fid)
        if f is not None and not self.inline(E, fid):
            self.calls.add((fid, tuple(val_name(a) for a in args)))
        return None


def cparam(types, t):
    ty = types[t]
    k = ty.get('k')
    if k == 'ptr':
        p = types[ty['p']]
        if p.get('k') in ('fn', 'func'):
            return 'funptr'
        if p.get('k') == 'ptr':
            q = types[p['p']]
            return 'ref funptr' if q.get('k') in ('fn', 'func') else 'ref ptr'
        if p.get('c', '').replace('const ', '') in ('char',):
            return 'char*'
        if p.get('k') in ('int', 'enum'):
            return 'ref int%d' % (8 * p.get('size', 4))
        if p.get('k') in ('float', 'real'):
            return 'ref real%d' % (8 * p.get('size', 8))
        return 'ptr'
    if k in ('int', 'enum', 'bool'):
        return 'int%d' % (8 * ty.get('size', 4))
    if k in ('float', 'real'):
        return 'real%d' % (8 * ty.get('size', 8))
    return ty.get('c', k)


FKIND = {'c_int': 'int32', 'c_int64_t': 'int64', 'c_long': 'int64', 'c_long_long': 'int64', 'c_size_t': 'int64', 'c_bool': 'int8',
         'c_double': 'real64', 'c_float': 'real32'}


def parse_fortran(path):
    """(procedures, constants, derived types) declared in a Fortran include file"""
    txt = open(path).read()
    lines, cur = [], ''
    for l in txt.splitlines():
        if l[:1] in ('!', 'c', 'C') and not l.startswith(('call', 'char')):
            continue
        # comments (no strings with ! are used)
        l = re.sub(r'!.*', '', l).rstrip()
        l = l.strip()
        if l.startswith('&'):
            l = l[1:].strip()
            cur = cur.rstrip()
            if cur.endswith('&'):
                cur = cur[:-1]
            cur += ' ' + l
        else:
            if cur.rstrip().endswith('&'):
                cur = cur.rstrip()[:-1] + ' ' + l
            else:
                if cur.strip():
                    lines.append(cur.strip())
                cur = l
    if cur.strip():
        lines.append(cur.strip())
    procs, consts, derived = [], {}, {}
    proc = ty = None
    for l in lines:
        low = l.lower()
        m = re.match(r"(function|subroutine)\s+(\w+)\s*(?:\(([^)]*)\))?(.*)", l, re.I)
        if m and not low.startswith('end'):
            b = re.search(r"bind\s*\(\s*c\s*,\s*name\s*=\s*['\"](\w+)['\"]\s*\)", m.group(4), re.I)
            r = re.search(r"result\s*\(\s*(\w+)\s*\)", m.group(4), re.I)
            proc = {'kind': m.group(1).lower(), 'name': m.group(2).lower(), 'c': b.group(1) if b else None,
                    'args': [a.strip().lower() for a in (m.group(3) or '').split(',') if a.strip()],
                    'result': (r.group(1) if r else m.group(2)).lower() if m.group(1).lower() == 'function' else None, 'decl': {}}
            procs.append(proc)
            continue
        if re.match(r'end\s*(function|subroutine)', low):
            proc = None
            continue
        m = re.match(r"type\s*,\s*bind\(c\)\s*::\s*(\w+)", low)
        if m:
            ty = derived.setdefault(m.group(1), [])
            continue
        if re.match(r'end\s*type', low):
            ty = None
            continue
        m = re.match(r"integer\s*(?:\([^)]*\))?\s*,\s*parameter\s*::\s*(\w+)\s*=\s*([-+\d]+)", l, re.I)
        if m:
            consts[m.group(1)] = int(m.group(2))
            continue
        m = re.match(r"(integer|real|type|character|logical)\s*(\((?:[^()]|\([^()]*\))*\))?\s*(.*?)::\s*(.*)", low)
        if m and (proc is not None or ty is not None):
            base, par, attrs, names = m.groups()
            par = (par or '').strip('()').replace('kind', '').replace('=', '').strip()
            if base == 'type':
                k = {'c_ptr': 'ptr', 'c_funptr': 'funptr'}.get(par, 'struct ' + par)
            elif base == 'character':
                k = 'char'
            else:
                k = FKIND.get(par, base + ':' + par)
            for nm in re.findall(r'(\w+)\s*(\([^)]*\))?', names):
                d = (k, 'value' in attrs, bool(nm[1]))
                if proc is not None:
                    proc['decl'][nm[0]] = d
                else:
                    ty.append((nm[0], k))
    return procs, consts, derived


def fparam(d):
    k, val, arr = d
    if k == 'char':
        return 'char*'
    if val:
        return k
    if k == 'ptr':
        return 'ref ptr'
    if k.startswith('struct'):
        return 'ptr'
    return 'ref ' + k


def check_c08(rep, progs, ex):
    rep.rule('Every entry point of the handle interface (_sp) is interpreted together with the global entry point of the same name on an initialised '
             'process, with the handle identified with the global descriptor: both must perform the same internal operations with the same arguments '
             'and return the result of the same operation.  Every Fortran interface block bound to a C name is compared, argument by argument (kind, '
             'by value or by reference), with the type-checked C prototype; shared constants and the layout of the shared record are compared; every '
             'function declared in the public headers must be defined with default visibility.')
    P = progs[list(progs)[0]]
    A = Anchors(P)
    G = [g for g in P.globals if g.endswith('thread_spd')][0]
    sym = ('s', 'P', 'SPD')
    D = ('d', sym)
    pub = set()
    headers = ('dlb.h', 'dlb_sp.h', 'dlb_drom.h', 'dlb_talp.h', 'dlb_stats.h')
    for l in P.decls.values():
        for d in l:
            if d['file'].split('/')[-1] in headers and d['name' if 'name' in d else 'n'].startswith('DLB_'):
                pub.add(d['n'])
    for n in sorted(pub):
        rep.count('public_function', n)
        fn = P.fns.get(n)
        al = [d for d in P.decls.get(n, ()) if d.get('alias')]
        if fn is None and al:
            t = P.fns.get(al[0]['alias'])
            if t is None:
                rep.v('undefined:' + n, n, '%s is an alias of %s, which is not defined' % (n, al[0]['alias']))
            elif al[0].get('vis') != 'default':
                rep.v('hidden:' + n, n, '%s is declared in the public headers but not exported' % n)
            continue
        if fn is None:
            rep.v('undefined:' + n, n, '%s is declared in the public headers but not defined' % n)
        elif fn.raw.get('vis') != 'default' or fn.static:
            rep.v('hidden:' + n, fn.base(), '%s is declared in the public headers but not exported' % n)
    rep.need('public_function', 60)
    # ---- parity
    for n in sorted(pub):
        if not n.endswith('_sp') or n[:-3] not in P.fns or n not in P.fns:
            continue
        if n in ('DLB_Init_sp', 'DLB_Finalize_sp'):
            continue
        g, h = P.fns[n[:-3]], P.fns[n]
        res = {}
        for which, fn, args, off in (('g', g, None, 0), ('h', h, None, 1)):
            a = ([sym] if off else []) + [('s', 'P', 'argument %d' % (i + 1)) for i in range(len(fn.params) - off)]
            mem = {('g', G): sym, A.f(D, 'dlb_initialized'): C1}
            R = TraceRule(P, {fn.file})
            E = Engine(P, R, maxstates=60)
            outs = E.run(fn, a, State(mem, {('==', sym, C0): False}, None))
            rv = set()
            for s, v in outs:
                rv.add(v[2] + '()' if v is not None and v[0] == 's' and v[1] == 'ret' and isinstance(v[2], str) else
                       (str(v[1]) if v is not None and v[0] == 'c' else (val_name(v) if v is not None else 'nothing')))
            res[which] = (len(a) - off, R.calls, rv)
        rep.count('parity', n)
        rep.analysed([g.id, h.id])
        (na, ca, ra), (nb, cb, rb) = res['g'], res['h']
        if na != nb:
            rep.v('parity:%s:arity' % n, h.base(), '%s takes %d arguments and %s %d besides the handle' % (g.name, na, h.name, nb))
        if ca != cb:
            d = sorted(ca ^ cb)
            rep.v('parity:%s:operation' % n, h.base(), '%s and %s perform different operations: %s' % (g.name, h.name, '; '.join(
                '%s(%s) only in %s' % (x[0], ', '.join(x[1]), g.name if x in ca else h.name) for x in d[:4])))
        if ra != rb:
            rep.v('parity:%s:result' % n, h.base(), '%s returns %s and %s returns %s' % (g.name, sorted(ra), h.name, sorted(rb)))
    rep.need('parity', 20)
    # ---- Fortran
    d = os.path.join(REPO, 'src', 'apis')
    for f in sorted(os.listdir(d)):
        if not (f.startswith('dlbf') and f.endswith('.h')):
            continue
        procs, consts, derived = parse_fortran(os.path.join(d, f))
        for p in procs:
            if not p['c']:
                continue
            rep.count('fortran_procedure', '%s:%s' % (f, p['name']))
            key = 'fortran:%s' % p['name']
            fn = P.fns.get(p['c'])
            if fn is None:
                for d_ in P.decls.get(p['c'], ()):
                    fn = fn or P.fns.get(d_.get('alias'))
            if fn is None:
                rep.v(key, 'src/apis/' + f, '%s is bound to %s, which the library does not define' % (p['name'], p['c']))
                continue
            cp = [cparam(fn.types, q['t']) for q in fn.params]
            fp = [fparam(p['decl'][a]) if a in p['decl'] else 'undeclared' for a in p['args']]
            if len(cp) != len(fp):
                rep.v(key, 'src/apis/' + f, '%s has %d arguments, %s has %d' % (p['name'], len(fp), p['c'], len(cp)))
                continue
            for a, x, y in zip(p['args'], cp, fp):
                rep.count('fortran_argument')
                ok = x == y or (x, y) in (('char*', 'char*'), ('ptr', 'char*'), ('char*', 'ptr'), ('funptr', 'funptr'))
                if x == 'ptr' and y.startswith('ref ') and y != 'ref ptr':
                    ok = True
                if not ok:
                    rep.v('%s:%s' % (key, a), 'src/apis/' + f, 'argument %s of %s is %s, %s expects %s' % (a, p['name'], y, p['c'], x))
            want = 'ptr' if p['result'] and p['decl'].get(p['result'], ('',))[0] == 'ptr' else None
            rt = cparam(fn.types, fn.ret) if fn.ret is not None else None
            if p['result'] and p['result'] in p['decl']:
                k = p['decl'][p['result']][0]
                if rt and rt != k and not (k == 'ptr' and rt in ('ptr', 'char*', 'ref ptr') or k == 'char' ):
                    rep.v(key + ':result', 'src/apis/' + f, '%s returns %s, %s returns %s' % (p['name'], k, p['c'], rt))
        for c, v in consts.items():
            if c in P.enumconst:
                rep.count('fortran_constant', c)
                if P.enumconst[c] != v:
                    rep.v('constant:' + c, 'src/apis/' + f, '%s is %d in Fortran and %d in C' % (c, v, P.enumconst[c]))
        for tn, fl in derived.items():
            hits = [r for r in P.records.values() if r['name'].lower() == tn or r['name'].lower() == tn.replace('dlb_', '').replace('_t', '')]
            for r in hits[:1]:
                cf = []
                for x in r['fields']:
                    ty, nm = x['ty'], x['n']
                    if ty.get('k') == 'rec' and ty.get('r') in P.records:      # anonymous union of aliases
                        sub = P.records[ty['r']]['fields'][0]
                        ty, nm = sub['ty'], sub['n']
                    k = ty.get('k')
                    x = {'n': nm}
                    cf.append((x['n'].strip('_'), 'ptr' if k == 'ptr' else ('int' if k in ('int', 'enum') else 'real') + str(8 * ty.get('size', 0))))
                ff = [(n.strip('_'), k) for n, k in fl]
                rep.count('fortran_record', tn)
                if cf != ff:
                    diff = [(a, b) for a, b in zip(cf, ff) if a != b] or [('%d fields' % len(cf), '%d fields' % len(ff))]
                    rep.v('record:' + tn, 'src/apis/' + f, 'the layout of %s differs: C has %s, Fortran has %s' % (tn, diff[0][0], diff[0][1]))
    # every error code has its Fortran constant
    rep.need('fortran_procedure', 40)
    rep.need('fortran_constant', 15)
