"""Waiting for other processes and threads (C33)."""
from flow import *
from names import *
from program import AnalysisError
import locks

SLEEP = {'usleep', 'nanosleep', 'sleep', 'sched_yield', 'pthread_yield', 'poll', 'select', 'clock_nanosleep', '__sync_synchronize', '__builtin_ia32_pause'}
# waits whose end is another participant's decision: the state word of a segment (held for the whole of a group barrier), and a testing aid
TIMED = {'pthread_mutex_timedlock', 'pthread_rwlock_timedwrlock', 'pthread_rwlock_timedrdlock', 'sem_timedwait', 'pthread_cond_timedwait'}
UNLIMITED = {'shmem_lock_maintenance', 'shmem_acquire_busy', 'shmem_async_wait_for_completion'}
NOW, LATE = 1000000, 2000000          # seconds shown by the clocks before and after time has passed
CLOCKS = {'clock_gettime', 'gettimeofday'}


class WaitRule(Rule):
    """r = (clock reading, sleeps since the time has passed, place of the last sleep, outcome of the timed lock, the answer awaited is known to be missing)"""
    exact = False

    def __init__(self, P, inl, top, target=None):
        self.P, self.inl, self.top, self.target = P, inl, top, target
        self.bad, self.sleeps, self.timed, self.late = {}, set(), set(), set()

    def initial(self, E):
        return (NOW, 0, None, None, False, frozenset())

    def inline(self, E, fid):
        return fid in self.inl

    def tell(self, st, ts, fid, args):
        r = st.r
        # the clocks that do not follow the wall show another number
        t = r[0] if fid == 'gettimeofday' or args[0] in (C0, ('c', 5)) else r[0] - NOW + 5000
        rec = 'timeval' if fid == 'gettimeofday' else 'timespec'
        sec, sub = ('f', ts, 'tv_sec', rec), ('f', ts, 'tv_usec' if fid == 'gettimeofday' else 'tv_nsec', rec)
        st.mem[sec], st.mem[sub] = ('c', t), C0
        # readings survive what the engine forgets about address-taken variables in loops
        st.r = r[:5] + (frozenset(x for x in r[5] if x[0] not in (sec, sub)) | {(sec, t), (sub, 0)},)
        return [(st, C0)]

    def on_call(self, E, st, fid, args, node, fr):
        r = st.r
        w = E.where(node, fr)
        if fid in CLOCKS:
            ts = deref(args[1] if fid == 'clock_gettime' else args[0])
            if r[0] == NOW and r[2] is not None:
                late = st.copy()         # the time may also have passed anywhere between two waits
                late.r = (LATE, 1) + r[2:]
                return self.tell(st, ts, fid, args) + self.tell(late, ts, fid, args)
            return self.tell(st, ts, fid, args)
        if fid in SLEEP:
            if self.target and fr.fn.id != self.target:
                return None
            self.sleeps.add((fr.fn.id, node))
            if r[0] == LATE and r[2] != (fr.fn.id, node):
                return []                # another wait: decided on the paths where the time passes there
            if r[0] == LATE:
                k = r[1] + 1
                if k > 2:
                    self.bad.setdefault((fr.fn.name, fid), (w, '%s waits on (%s) for another process although %d seconds have passed: nothing ends this wait when the other process never acts'
                                                            % (fr.fn.name, fid, LATE - NOW)))
                    return []
                st.r = (r[0], k, (fr.fn.id, node), r[3], False, r[5])
                return [(st, C0)]
            a, b = st, st.copy()
            a.r = (NOW, 0, (fr.fn.id, node), r[3], False, r[5])
            b.r = (LATE, 1, (fr.fn.id, node), r[3], False, r[5])
            return [(a, C0), (b, C0)]
        if fid in TIMED:
            ts = deref(args[1])
            sec = st.mem.get(('f', ts, 'tv_sec', 'timespec'))
            self.timed.add((fr.fn.id, node))
            if sec is None or not is_c(sec) or not r[0] < sec[1] <= r[0] + 3600:
                self.bad.setdefault((fr.fn.name, fid), (w, '%s waits for the lock until %s, which is not a moment shortly after the time of the call' % (fr.fn.name, 'an unknown time' if sec is None or not is_c(sec)
                                                                                                         else 'second %d (now is %d)' % (sec[1], r[0]))))
            a, b, c = st, st.copy(), st.copy()
            a.r = r[:3] + (0,) + r[4:]
            b.r = r[:3] + (110,) + r[4:]
            c.r = r[:3] + (22,) + r[4:]
            return [(a, C0), (b, ('c', 110)), (c, ('c', 22))]
        if fid in locks.LOCK_FNS and self.timed is not None and self.top in ('shmem_init',) and r[3] is None and 'mutex' in fid:
            nm = loc_name(deref(args[0]))
            if 'G:' not in nm and '::' not in nm or 'shsync' in nm:
                self.bad.setdefault((fr.fn.name, fid), (w, '%s takes the lock of the segment with no limit of time: a process that died holding it blocks every later attach' % fr.fn.name))
        if fid == 'pthread_mutex_unlock' and r[3] not in (None, 0):
            self.bad.setdefault((fr.fn.name, 'goes on'), (w, '%s goes on although the lock of the segment was not obtained (error %d)' % (fr.fn.name, r[3])))
            return []
        return None

    def on_load(self, E, st, loc, val, node, fr):
        if loc[0] == 'f' and loc[2] in ('tv_sec', 'tv_nsec', 'tv_usec'):
            for l, v in st.r[5]:
                if l == loc:
                    return ('c', v)
        if st.r[0] == LATE and loc[0] == 'f' and loc[2] == 'dirty' and root_of(loc)[0] != 'v':
            # the history decided here: the other process never answers
            st.r = st.r[:4] + (True,) + st.r[5:]
            return ('c', 1)
        return None

    def on_store(self, E, st, loc, val, node, fr):
        if loc[0] == 'f' and loc[2] in ('tv_sec', 'tv_nsec', 'tv_usec'):
            st.r = st.r[:5] + (frozenset(x for x in st.r[5] if x[0] != loc) | ({(loc, val[1])} if is_c(val) else set()),)


class CondRule(Rule):
    """r = (state of the condition: None not held / 'held' / 'checked' / 'woken', fields read in the check)"""
    def __init__(self, P, inl):
        self.P, self.inl = P, inl
        self.bad, self.waits, self.pred = {}, set(), {}
        # the records (or globals) that hold the conditions waited for
        self.recs = set()
        for f in P.fns.values():
            if f.id in inl:
                for n in f.nodes.values():
                    if n['k'] == 'MemberExpr' and 'pthread_cond_t' in str(f.types[n['t']].get('s')):
                        self.recs.add(n.get('r'))
        if not self.recs:
            self.recs.add('G')

    def initial(self, E):
        return (None, frozenset())

    def inline(self, E, fid):
        return fid in self.inl

    def on_call(self, E, st, fid, args, node, fr):
        s, reads = st.r
        w = E.where(node, fr)
        if fid in locks.LOCK_FNS:
            st.r = ('held', frozenset())
            return [(st, C0)]
        if fid in ('pthread_cond_wait', 'pthread_cond_timedwait'):
            site = (fr.fn.id, node)
            self.waits.add(site)
            if s in (None, 'held'):
                self.bad.setdefault((fr.fn.name, 'first'), (w, '%s waits for the condition without having checked it under the lock: when it is already true nobody wakes it' % fr.fn.name))
            elif s == 'woken':
                self.bad.setdefault((fr.fn.name, 'again'), (w, '%s waits again without having checked the condition' % fr.fn.name))
            if reads:
                c = cond_key(deref(args[0]))
                self.pred.setdefault((c, cond_key(deref(args[1]))), set()).update(reads)
            l = deref(args[0])
            if l[0] == 'f':
                E.havoc_under(st, l[1])
            st.r = ('woken', frozenset())
            return [(st, C0)]
        if fid in locks.UNLOCK_FNS:
            if s == 'woken':
                self.bad.setdefault((fr.fn.name, 'if'), (w, '%s goes on after pthread_cond_wait without checking the condition again: a spurious wake-up is taken for the event' % fr.fn.name))
            st.r = (None, frozenset())
            return [(st, C0)]
        return None

    def on_branch(self, E, st, node, taken, fr):
        s, reads = st.r
        if s is not None:
            got = frozenset(x for x in fields_read(fr.fn, node, self.P) if x[0] in self.recs)
            if got:
                st.r = ('checked' if s != 'x' else s, reads | got)

    def on_store(self, E, st, loc, val, node, fr):
        if st.r[0] == 'woken' and root_of(loc)[0] != 'v' and not (loc[0] == 'f' and loc[2] == 'status'):
            self.bad.setdefault((fr.fn.name, 'if'), (E.where(node, fr), '%s goes on after pthread_cond_wait without checking the condition again: a spurious wake-up is taken for the event' % fr.fn.name))


def cond_key(l):
    return (l[3], l[2]) if l[0] == 'f' else l


def fields_read(f, i, P=None, seen=None):
    """the fields a condition depends on: read in it, in a local it is computed from, or in a helper it calls"""
    seen = set() if seen is None else seen
    if (f.id, i) in seen:
        return
    seen.add((f.id, i))
    n = f.nodes[i]
    if n['k'] == 'MemberExpr':
        yield (n.get('r'), n['m'])
    d = n.get('d') or {}
    if n['k'] == 'DeclRefExpr' and d.get('k') == 'gvar':
        yield ('G', d['id'])
    if n['k'] == 'DeclRefExpr' and d.get('k') == 'var' and P:
        for m in f.nodes.values():
            if m['k'] == 'DeclStmt':
                for v in m.get('decls', ()):
                    if v['id'] == d['id'] and v.get('init') is not None:
                        yield from fields_read(f, v['init'], P, seen)
            elif m['k'] == 'BinaryOperator' and m.get('op') == '=' and strip(f, m['ch'][0]).get('d', {}).get('id') == d['id']:
                yield from fields_read(f, m['ch'][1], P, seen)
    if n['k'] == 'CallExpr' and P and n.get('fn'):
        g = P.fns.get(P.resolve(n['fn']))
        if g is not None and g.cfg and g.file == f.file and len(seen) < 2000:
            for k, m in g.nodes.items():
                if m['k'] in ('MemberExpr', 'DeclRefExpr'):
                    yield from fields_read(g, k, P, seen)
    for c in n.get('ch', ()):
        yield from fields_read(f, c, P, seen)


def strip(f, i):
    n = f.nodes[i]
    while n['k'] in ('ParenExpr', 'ImplicitCastExpr') and n.get('ch'):
        n = f.nodes[n['ch'][0]]
    return n


class SignalRule(Rule):
    """r = (locks held, condition changed since, signalled)"""
    def __init__(self, P, inl, pred):
        self.P, self.inl, self.pred = P, inl, pred
        self.bad, self.stores, self.inits = {}, set(), set()

    def initial(self, E):
        return (frozenset(), None, frozenset())

    def inline(self, E, fid):
        return fid in self.inl

    def on_call(self, E, st, fid, args, node, fr):
        held, changed, sig = st.r
        if fid == 'pthread_cond_init':
            self.inits.add((fr.fn.name, cond_key(deref(args[0]))))
            return None
        if fid in locks.LOCK_FNS:
            st.r = (held | {cond_key(deref(args[0]))}, changed, frozenset())
            return [(st, C0)]
        if fid in locks.UNLOCK_FNS:
            st.r = (held - {cond_key(deref(args[0]))}, changed, sig)
            return [(st, C0)]
        if fid in ('pthread_cond_signal', 'pthread_cond_broadcast'):
            c = cond_key(deref(args[0]))
            # a signal sent before the change, in the same critical section, wakes the waiter only after the unlock
            st.r = (held, None if changed and changed[0] == c else changed, sig | ({c} if held else set()))
            return [(st, C0)]
        return None

    def on_store(self, E, st, loc, val, node, fr):
        if loc[0] != 'f':
            return
        for (c, m), fields in self.pred.items():
            if (loc[3], loc[2]) in fields:
                w = E.where(node, fr)
                self.stores.add((fr.fn.id, node))
                held, changed, sig = st.r
                if m not in held:
                    self.bad.setdefault((fr.fn.name, loc[2]), (w, '%s changes %s, which another thread waits for, without holding %s: the wake-up can be lost' % (fr.fn.name, loc[2], m[1])))
                if c not in sig:
                    st.r = (held, (c, w, fr.fn.name, loc[2]), sig)


class NestRule(Rule):
    """r = (node lock held, locks initialised here)"""
    def __init__(self, P):
        self.P, self.bad, self.sites = P, {}, set()

    def initial(self, E):
        return (False, frozenset())

    def inline(self, E, fid):
        return False

    def on_call(self, E, st, fid, args, node, fr):
        held, fresh = st.r
        if fid in ('shmem_lock', 'shmem_lock_maintenance'):
            st.r = (True, fresh)
        elif fid in ('shmem_unlock', 'shmem_unlock_maintenance'):
            st.r = (False, fresh)
        elif fid == 'pthread_rwlock_init':
            st.r = (held, fresh | {deref(args[0])})
        elif fid in locks.LOCK_FNS and 'rwlock' in fid and held:
            self.sites.add((fr.fn.id, node))
            if deref(args[0]) not in fresh:
                self.bad.setdefault((fr.fn.name, fid), (E.where(node, fr), '%s takes the lock of a group object with no limit of time while it holds the node lock: participants that keep the group '
                                                        'lock block every process of the node' % fr.fn.name))
        return None


def helpers(P, f, clockfns):
    """the statics of the file of f that read a clock or the answer awaited"""
    out = set()
    for g in P.fns.values():
        if g.cfg and g.static and g.file == f.file and g.id != f.id:
            cs = {P.resolve(c) for c in P.callees(g)}
            if cs & (clockfns | CLOCKS) and not cs & SLEEP or any(n['k'] == 'MemberExpr' and n['m'] == 'dirty' for n in g.nodes.values()) and len(g.nodes) < 120:
                out.add(g.id)
    return out


def check_c33(rep, progs, ex):
    for cfg, P in progs.items():
        bad = {}
        sleepers = [f for f in sorted(P.fns.values(), key=lambda f: f.id) if f.cfg and '/src/' in f.file and '/utils/' not in f.file and f.base() != 'gtree.c'
                    and (any(P.resolve(c) in SLEEP for c in P.callees(f)) or any(P.resolve(c) in TIMED for c in P.callees(f)))]
        clockfns = {f.id for f in P.fns.values() if f.base() in ('mytime.c', 'mytime.h')}
        tops = {}
        for f in sleepers:
            if f.name in UNLIMITED:
                rep.count('waits of unlimited kind', (cfg, f.name))
                continue
            for t in roots(P, f):
                tops.setdefault(t.id, set()).add(f.id)
        for tid, target in sorted((t, x) for t in tops for x in tops[t]):
            t = P.fns[tid]
            rule = WaitRule(P, clockfns | P.closure(lambda f: f.id == target) | helpers(P, P.fns[target], clockfns), t.name, target)
            E = Engine(P, rule, maxstates=4000, maxinline=6, budget=4000000, unroll=0)
            outs = E.run(t)
            rep.analysed({tid, target})
            for k, v in rule.bad.items():
                bad.setdefault(k, v)
            for s in rule.sleeps:
                rep.count('waits', (cfg,) + s)
            for s in rule.timed:
                rep.count('timed locks', (cfg,) + s)
            TO = P.enumconst.get('DLB_ERR_TIMEOUT')
            late = [(st, ret) for st, ret in outs if st.r[0] == LATE]
            if t.types[t.ret]['k'] == 'int' and TO is not None and late:
                rep.count('late endings', (cfg, tid, target))
                if not any(ret == ('c', TO) for st, ret in late):
                    bad.setdefault((t.name, 'report'), (P.fns[target].file.split('/repo/')[-1], '%s never reports DLB_ERR_TIMEOUT when the other process does not answer in time' % t.name))
                if any(st.r[4] and ret == C0 for st, ret in late):
                    bad.setdefault((t.name, 'success'), (P.fns[target].file.split('/repo/')[-1], '%s returns success although the other process had not acted when the time was over' % t.name))
        for f in sorted(P.fns.values(), key=lambda f: f.id):
            cs = {P.resolve(c) for c in P.callees(f)} if f.cfg and '/src/' in f.file else set()
            if cs & {'shmem_lock', 'shmem_lock_maintenance'} and any('rwlock' in c for c in cs):
                rule = NestRule(P)
                Engine(P, rule, maxstates=1000, budget=400000).run(f)
                for k, v in rule.bad.items():
                    bad.setdefault(k, v)
                for s in rule.sites:
                    rep.count('nested locks', (cfg,) + s)
        # threads of one process
        pred = {}
        waiters = [f for f in sorted(P.fns.values(), key=lambda f: f.id) if f.cfg and '/src/' in f.file and any(P.resolve(c) in ('pthread_cond_wait', 'pthread_cond_timedwait') for c in P.callees(f))]
        for f in waiters:
            tl = [f]
            if not any(P.resolve(c) in locks.LOCK_FNS for c in P.callees(f)):
                tl = [g for g in P.fns.values() if f.id in {P.resolve(c) for c in P.callees(g)}] or [f]
            for t in tl:
                rule = CondRule(P, {f.id})
                E = Engine(P, rule, maxstates=600, budget=400000)
                E.run(t)
                rep.analysed({t.id, f.id})
                for s in rule.waits:
                    rep.count('condition waits', (cfg,) + s)
                for k, v in rule.bad.items():
                    bad.setdefault(k, v)
                for k, v in rule.pred.items():
                    pred.setdefault(k, set()).update(v)
        wid = {f.id for f in waiters} | {g.id for g in P.fns.values() if g.cfg and any(P.resolve(c) in {f.id for f in waiters} for c in P.callees(g))}
        if pred:
            allf = {x for v in pred.values() for x in v}
            for g in sorted(P.fns.values(), key=lambda f: f.id):
                if not g.cfg or g.id in {f.id for f in waiters} or '/src/' not in g.file:
                    continue
                if not any(n['k'] == 'MemberExpr' and (n.get('r'), n['m']) in allf for n in g.nodes.values()):
                    continue
                tops2 = roots(P, g, stop=lambda h: any(P.resolve(c) in locks.LOCK_FNS for c in P.callees(h)))
                for t in tops2:
                    if t.id in wid and t.id in {f.id for f in waiters}:
                        continue
                    rule = SignalRule(P, {g.id} | P.closure(lambda f: f.id == g.id), pred)
                    E = Engine(P, rule, maxstates=1000, budget=400000)
                    outs = E.run(t)
                    for s in rule.stores:
                        rep.count('changes of a condition', (cfg,) + s)
                    if rule.inits:
                        continue                 # nobody waits yet
                    for k, v in rule.bad.items():
                        bad.setdefault(k, v)
                    for st, ret in outs:
                        if st.r[1]:
                            c, w, fn, fld = st.r[1]
                            bad.setdefault((fn, fld + ':signal'), (w, '%s changes %s, which another thread waits for, and does not signal %s on this path: the waiter sleeps on' % (fn, fld, c[1])))
                    rep.analysed({t.id})
        for (fn, what), (w, m) in sorted(bad.items(), key=repr):
            rep.v('%s:%s' % (fn, what), w if isinstance(w, str) else str(w), m)
    rep.need('waits', 3)
    rep.need('timed locks', 1)
    rep.need('condition waits', 1)
    rep.need('changes of a condition', 1)
    rep.rule('two readings of the clock, before and after a million seconds: every wait for another process (sleep or memory fence in a loop) ends once the late reading can be seen, with '
             'DLB_ERR_TIMEOUT reported; the lock is taken with a limit at attach and nothing goes on without it; after pthread_cond_wait the condition is checked before anything else, it was checked '
             'before waiting, and whoever changes what it reads holds the mutex and signals')


def roots(P, f, stop=None, seen=None):
    """the non-static functions (of the same file) that reach f"""
    seen = seen if seen is not None else set()
    if f.id in seen:
        return []
    seen.add(f.id)
    if not f.static or stop is not None and stop(f):
        return [f]
    out = []
    for g in sorted(P.fns.values(), key=lambda g: g.id):
        if g.cfg and f.id in {P.resolve(c) for c in P.callees(g)}:
            out += [x for x in roots(P, g, stop, seen) if x not in out]
    return out or [f]
