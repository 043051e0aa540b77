"""The public interface: guards before initialization, callbacks, dispatch, parity of the interfaces (C05-C08)."""
import re
from flow import *
from names import *
from program import strip, walk
import locks


def rec_of(P, field, among=None):
    """the record that has all of these fields (anchor by content, not by name)"""
    hits = [r for r, d in P.records.items() if set(field) <= {f['n'] for f in d['fields']}]
    if len(hits) != 1:
        raise AnalysisError('record with fields %s not found (%d candidates)' % (field, len(hits)))
    return hits[0]


class Anchors:
    def __init__(self, P):
        self.P = P
        self.spd = rec_of(P, ('dlb_initialized', 'lb_funcs', 'options'))
        self.opt = rec_of(P, ('lewi', 'drom', 'shm_key'))
        self.lbf = rec_of(P, ('lend_cpu', 'borrow_cpus_in_mask'))
        self.pm = rec_of(P, ('dlb_callback_set_num_threads_ptr',)) if any(
            'dlb_callback_set_num_threads_ptr' in [f['n'] for f in d['fields']] for d in P.records.values()) else None
        self.tls = 'G:thread_spd'
        if self.tls not in P.globals and not any(k.endswith('thread_spd') for k in P.globals):
            raise AnalysisError('global thread_spd not found')

    def f(self, base, name):
        return ('f', base, name, self.spd)

    def o(self, base, name):
        return ('f', ('f', base, 'options', self.spd), name, self.opt)


def public_functions(P, headers):
    """functions declared in the public headers and defined in the library"""
    out = {}
    for d in P.decls.values():
        h = d['file'].split('/')[-1]
        if h in headers and d['name'] in P.fns:
            out[d['name']] = P.fns[d['name']]
    return out


LOGGING = ('verbose', 'vverbose', 'warning', 'info', 'print', 'vwarning', 'vinfo')


class EffectRule(Rule):
    """runs a function and records everything it does that can be observed outside"""

    def __init__(self, A, allow_store=()):
        self.A, self.P = A, A.P
        self.effects = []
        self.allow = set(allow_store)

    def inline(self, E, fid):
        return True

    def on_call(self, E, st, fid, args, node, fr):
        if fid.startswith('__sync_bool_compare_and_swap') or fid.startswith('__sync_val_compare_and_swap'):
            loc = deref(args[0])
            cur = st.mem.get(loc)
            if cur is not None and is_c(cur) and is_c(args[1]):
                if cur[1] == args[1][1]:
                    st.mem[loc] = args[2]
                    if loc not in self.allow:
                        self.effects.append((E.where(node, fr), 'changes %s' % loc_name(loc)))
                    return [(st, C1 if 'bool' in fid else cur)]
                return [(st, C0 if 'bool' in fid else cur)]
            self.effects.append((E.where(node, fr), 'changes %s' % loc_name(loc)))
            return None
        if fid in locks.LOCK_FNS or fid in ('fork', 'execvp', 'kill', 'shm_open', 'shm_unlink', 'sched_setaffinity'):
            self.effects.append((E.where(node, fr), 'calls %s' % fid))
        f = self.P.fns.get(fid)
        if f is not None and f.file.endswith('/debug.c'):
            return self._skip(E, st, fid, args, node, fr)
        return None

    def _skip(self, E, st, fid, args, node, fr):
        return [(st, ('s', 'ret', fid, fr.ctx + (node,)))]

    def on_indirect(self, E, st, target, args, node, fr):
        self.effects.append((E.where(node, fr), 'calls through %s' % val_name(target)))

    def on_store(self, E, st, loc, val, node, fr):
        if root_of(loc)[0] == 'v' or loc in self.allow:
            return
        self.effects.append((E.where(node, fr), 'writes %s' % loc_name(loc)))


def returns(outs):
    r = set()
    for s, v in outs:
        r.add(v[1] if v is not None and v[0] == 'c' else 'unknown')
    return r


LB_API = ('Enable Disable SetMaxParallelism UnsetMaxParallelism Lend LendCpu LendCpus LendCpuMask Reclaim ReclaimCpu ReclaimCpus '
          'ReclaimCpuMask AcquireCpu AcquireCpus AcquireCpuMask AcquireCpusInMask Borrow BorrowCpu BorrowCpus BorrowCpuMask '
          'BorrowCpusInMask Return ReturnCpu ReturnCpuMask PollDROM PollDROM_Update').split()
TALP_API = ('MonitoringRegionReset MonitoringRegionStart MonitoringRegionStop MonitoringRegionReport MonitoringRegionsUpdate '
            'TALP_CollectPOPMetrics TALP_CollectPOPNodeMetrics').split()


def slot_functions(P, A):
    """functions that call through a slot of the policy table: fid -> set of slots"""
    slots = {f['n'] for f in P.record(A.lbf)['fields']}
    out = {}
    for f in P.fns.values():
        for c in f.calls:
            n = f.nodes[c]
            if 'fn' in n:
                continue
            x = f.nodes[strip(f, n['ch'][0])]
            if x['k'] == 'UnaryOperator' and x['op'] == '*':
                x = f.nodes[strip(f, x['ch'][0])]
            if x['k'] == 'MemberExpr' and x.get('r') == A.lbf and x['m'] in slots:
                out.setdefault(f.id, set()).add(x['m'])
    return out


LIFECYCLE = {'init', 'finalize', 'enable', 'disable', 'into_blocking_call', 'out_of_blocking_call', 'into_communication',
             'out_of_communication', 'update_ownership'}


def dispatchers(P, A):
    """non-static functions through which a load-balancing operation is dispatched: fn -> slots reachable by static helpers"""
    direct = slot_functions(P, A)
    out = {}
    for f in P.fns.values():
        if f.static:
            continue
        seen, todo, sl = set(), [f.id], set()
        while todo:
            x = todo.pop()
            if x in seen or x not in P.fns:
                continue
            seen.add(x)
            sl |= direct.get(x, set())
            todo += [c for c in P.callees(P.fns[x]) if c in P.fns and P.fns[c].static]
        sl -= LIFECYCLE
        if sl:
            out[f.id] = sl
    return out


def check_c05(rep, progs, ex):
    rep.rule('Each guarded entry point is interpreted with the guard state fixed (descriptor not initialised; option lewi off; lewi disabled; '
             'no TALP module) and everything else unknown: every path must return exactly the refusal code and perform no store outside its '
             'own frame (other than selecting the descriptor), no callback, no lock operation and no dispatch.  Finish must leave lewi_enabled '
             'false, DLB_Finalize must clear dlb_initialized before finishing, a second DLB_Init must be refused.')
    for cfg, P in progs.items():
        A = Anchors(P)
        tls = [g for g in P.globals if g.endswith('thread_spd')][0]
        G = ('g', tls)
        glob = ('s', 'P', 'the_descriptor')
        D = ('d', glob)

        def base():
            return State({G: glob}, {('==', glob, C0): False}, None)

        def run(fn, st, args=None, allow=()):
            R = EffectRule(A, {G} | set(allow))
            E = Engine(P, R, maxstates=40)
            outs = E.run(fn, args, st)
            return outs, R.effects

        def expect(kind, fn, st, code, args=None, what=''):
            outs, eff = run(fn, st, args)
            rs = returns(outs)
            want = {P.const(code)}
            rep.count(kind, fn.name)
            rep.analysed([fn.id])
            where = '%s (%s)' % (fn.file.split('/repo/')[-1], fn.name)
            if rs != want:
                rep.v('%s:%s:code' % (kind, fn.name), where, '%s %s returns %s, not only %s' % (fn.name, what, sorted(map(str, rs)), code))
            if eff:
                rep.v('%s:%s:effect' % (kind, fn.name), eff[0][0], '%s %s %s' % (fn.name, what, eff[0][1]))
        for a in LB_API:
            fn = P.fns.get('DLB_' + a)
            if fn is None:
                raise AnalysisError('DLB_%s not found' % a)
            st = base()
            st.mem[A.f(D, 'dlb_initialized')] = C0
            expect('not_initialised', fn, st, 'DLB_ERR_NOINIT', what='before initialization')
        for a in TALP_API:
            fn = P.fns.get('DLB_' + a)
            if fn is None:
                raise AnalysisError('DLB_%s not found' % a)
            st = base()
            st.mem[A.f(D, 'talp_info')] = C0
            expect('no_talp', fn, st, 'DLB_ERR_NOTALP', what='without the TALP module')
        for fid, slots in sorted(dispatchers(P, A).items()):
            fn = P.fns[fid]
            if fn.name.startswith('DLB_') or not fn.params or fn.file.endswith(('/omptool.c',)) or 'omptm' in fn.file:
                continue
            p0 = ('s', 'P', fn.params[0]['n'])
            t = fn.types[fn.params[0]['t']]
            if not (t.get('k') == 'ptr' and fn.types[t['p']].get('r') == A.spd):
                continue
            B = ('d', p0)
            st = State({G: glob, A.o(B, 'lewi'): C0}, {}, None)
            expect('lewi_not_requested', fn, st, 'DLB_ERR_NOLEWI', what='without LeWI')
            st = State({G: glob, A.o(B, 'lewi'): C1, A.f(B, 'lewi_enabled'): C0}, {}, None)
            expect('lewi_disabled', fn, st, 'DLB_ERR_DISBLD', what='while LeWI is disabled')
            # enabled: must not be refused by the guard
            st = State({G: glob, A.o(B, 'lewi'): C1, A.f(B, 'lewi_enabled'): C1}, {}, None)
            outs, eff = run(fn, st)
            for bad in ('DLB_ERR_NOLEWI', 'DLB_ERR_DISBLD'):
                if P.const(bad) in returns(outs):
                    rep.v('enabled:%s:%s' % (fn.name, bad), fn.name, '%s returns %s although LeWI is requested and enabled' % (fn.name, bad))
        # life cycle
        fin = P.fn('DLB_Finalize')
        st = base()
        st.mem[A.f(D, 'dlb_initialized')] = C1

        class Fin(EffectRule):
            def on_call(self, E, st, fid, args, node, fr):
                if fid == 'Finish':
                    self.seen.append(st.mem.get(A.f(D, 'dlb_initialized')))
                    return [(st, ('s', 'ret', fid, fr.ctx + (node,)))]
                return EffectRule.on_call(self, E, st, fid, args, node, fr)
        R = Fin(A, {G})
        R.seen = []
        outs = Engine(P, R, maxstates=40).run(fin, None, st)
        rep.count('life_cycle', 'DLB_Finalize')
        if not R.seen:
            rep.v('finalize:finish', fin.name, 'DLB_Finalize of an initialised process does not reach Finish')
        elif any(x != C0 for x in R.seen) or any(s.mem.get(A.f(D, 'dlb_initialized')) != C0 for s, v in outs):
            rep.v('finalize:flag', fin.name, 'DLB_Finalize leaves dlb_initialized set')
        st = base()
        st.mem[A.f(D, 'dlb_initialized')] = C1
        expect('life_cycle', P.fn('DLB_Init'), st, 'DLB_ERR_INIT', what='when already initialised')
        st = base()
        st.mem[A.f(D, 'dlb_initialized')] = C1
        expect('life_cycle', P.fn('DLB_PreInit'), st, 'DLB_ERR_INIT', what='when already initialised')
        st = base()
        st.mem[A.f(D, 'dlb_initialized')] = C0
        st.mem[A.f(D, 'dlb_preinitialized')] = C0
        expect('life_cycle', fin, st, 'DLB_NOUPDT', what='before initialization')
        # Finish disables load balancing for good
        fn = P.fn('Finish')

        class Shallow(EffectRule):
            def inline(self, E, fid):
                return self.P.fns[fid].static

            def on_store(self, E, st, loc, val, node, fr):
                if loc[0] == 'f' and loc[2] == 'lewi_enabled' and loc[3] == A.spd:
                    self.vals.append(val)
        R = Shallow(A)
        R.vals = []
        Engine(P, R, maxstates=60).run(fn)
        rep.count('life_cycle', 'Finish')
        if not R.vals or any(v != C0 for v in R.vals):
            rep.v('finish:lewi_enabled', fn.name, 'Finish does not switch load balancing off')
        # features that were not requested
        for name, opt, code in (('node_barrier', 'barrier', 'DLB_ERR_NOCOMP'), ('node_barrier_attach', 'barrier', 'DLB_ERR_NOCOMP'),
                                ('node_barrier_detach', 'barrier', 'DLB_ERR_NOCOMP'), ('poll_drom', 'drom', 'DLB_ERR_NOCOMP'),
                                ('poll_drom_update', 'drom', 'DLB_ERR_NOCOMP')):
            fn = P.fn(name)
            B = ('d', ('s', 'P', fn.params[0]['n']))
            expect('feature_not_requested', fn, State({G: glob, A.o(B, opt): C0}, {}, None), code, what='without the option --%s' % opt)
        for name in ('into_sync_call', 'out_of_sync_call'):
            fn = P.fn(name)
            for lewi, en in ((C0, None), (C1, C0)):
                st = base()
                st.mem[A.o(D, 'talp')] = C0
                st.mem[A.o(D, 'lewi')] = lewi
                if en:
                    st.mem[A.f(D, 'lewi_enabled')] = en
                outs, eff = run(fn, st)
                rep.count('feature_not_requested', name)
                if eff:
                    rep.v('sync:%s' % name, eff[0][0], '%s %s although LeWI is %s' % (name, eff[0][1], 'disabled' if en else 'not requested'))
    rep.need('not_initialised', 20)
    rep.need('lewi_not_requested', 15)
    rep.need('lewi_disabled', 15)
    rep.need('no_talp', 5)
