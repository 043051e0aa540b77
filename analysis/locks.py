"""Lock discipline: balance, self-deadlock, lock order, what happens under the node lock."""
from flow import *
from names import *

LOCK_FNS = {'pthread_mutex_lock': 'm', 'pthread_spin_lock': 'm', 'pthread_rwlock_rdlock': 'r', 'pthread_rwlock_wrlock': 'w', 'sem_wait': None}
TRY_FNS = {'pthread_mutex_trylock': 'm', 'pthread_mutex_timedlock': 'm', 'pthread_rwlock_tryrdlock': 'r', 'pthread_rwlock_trywrlock': 'w',
           'pthread_rwlock_timedrdlock': 'r', 'pthread_rwlock_timedwrlock': 'w', 'pthread_spin_trylock': 'm'}
UNLOCK_FNS = {'pthread_mutex_unlock', 'pthread_rwlock_unlock', 'pthread_spin_unlock'}
BLOCKING = {'pthread_barrier_wait', 'usleep', 'nanosleep', 'sleep', 'sem_wait', 'sem_timedwait', 'pthread_join', 'waitpid', 'wait', 'system',
            'popen', 'poll', 'select', 'pause', 'sigwait', 'pthread_cond_wait', 'pthread_cond_timedwait', 'clock_nanosleep', 'flock', 'mq_receive'}
PRIMS = set(LOCK_FNS) | set(TRY_FNS) | set(UNLOCK_FNS) | {'pthread_cond_wait', 'pthread_cond_timedwait'}


def alias_root(st, l):
    """rewrite the root symbol of a location to the global that holds it, when there is one"""
    if l[0] in ('f', 'e'):
        return (l[0], alias_root(st, l[1])) + l[2:]
    if l[0] == 'd':
        v = l[1]
        if v[0] == 's' and v[1] in ('ret', 'x', 'cond'):
            a = st.mem.get(('x', v))
            if a is not None:
                return ('d', ('s', 'ld', a[1], ('#',)))
        elif v[0] == 's' and v[1] in ('ld', 'uns') and isinstance(v[2], tuple):
            return ('d', (v[0], v[1], alias_root(st, v[2])) + v[3:])
    return l


def by_path(st, l, P, rec=None):
    """a lock reached through a pointer that a record holds is named by that record, whether or not the pointer's value is known"""
    if l[0] in ('f', 'e'):
        return (l[0], by_path(st, l[1], P, l[3] if l[0] == 'f' else None)) + l[2:]
    if l[0] == 'd' and rec and l[1][0] == 's' and l[1][1] == 'ret':
        at = sorted((m for m, v in st.mem.items() if v == l[1] and m[0] == 'f' and root_of(m)[0] != 'v' and points_to(P, m, rec)), key=repr)
        if at:
            return ('d', ('s', 'ld', at[0], ('#',)))
    return l


def points_to(P, floc, rec):
    r = P.records.get(floc[3])
    for f in r['fields'] if r else ():
        if f['n'] == floc[2]:
            t = f['ty']
            if t['k'] != 'ptr':
                return False
            tt = r['types'].get(str(t['p']), r['types'].get(t['p'])) if isinstance(r['types'], dict) else r['types'][t['p']]
            return bool(tt) and tt.get('r') == rec
    return False


def lock_name(v, st=None, P=None):
    l = deref(v)
    if st is not None:
        if P is not None:
            l = by_path(st, l, P)
        l = alias_root(st, l)
    return loc_name(l)


class LockRule(Rule):
    def __init__(self, prog):
        self.P = prog
        self.rel = prog.closure(lambda f: bool(prog.callees(f) & (PRIMS | BLOCKING)) or any('fn' not in f.nodes[c] for c in f.calls))
        self.viol = []       # (kind, where, message)
        self.edges = {}      # (a,b) -> where
        self.acq = 0
        self.sites = set()
        self.held_calls = {}  # for reporting
        self.under = []       # (kind, what, where, held)

    def initial(self, E):
        return ()

    def inline(self, E, fid):
        return fid in self.rel

    def report(self, kind, where, msg):
        t = (kind, where, msg)
        if t not in self.viol:
            self.viol.append(t)

    def take(self, E, st, lk, mode, node, fr, raw=None):
        self.acq += 1
        where = E.where(node, fr)
        self.sites.add((fr.fn.id, node))
        for (l, m, w, q) in st.r:
            if l == lk and m == mode == 'r':
                continue            # read locks may be shared
            if l == lk or q == raw:
                self.report('relock', where, 'acquires %s which is already held (taken at %s)' % (lk, w))
            else:
                self.edges.setdefault((l, lk), (w, where, '/'.join(fr.chain())))
        st.r = tuple(sorted(st.r + ((lk, mode, self.site(fr, node), raw),), key=repr))

    def site(self, fr, node):
        n = fr.fn.nodes[node]
        f = fr
        # report the first frame outside lock wrappers
        while f.up is not None and f.fn.name.startswith('shmem_lock'):
            node, f = f.callnode, f.up
        n = f.fn.nodes[node]
        return '%s:%d' % (n['f'].split('/')[-1], n['l'])

    def on_store(self, E, st, loc, val, node, fr):
        if loc[0] == 'g' and val[0] == 's' and val[1] == 'ret':
            st.mem[('x', val)] = ('&', loc)

    def on_call(self, E, st, fid, args, node, fr):
        if fid in LOCK_FNS and LOCK_FNS[fid]:
            self.take(E, st, lock_name(args[0], st, self.P), LOCK_FNS[fid], node, fr, deref(args[0]))
            return [(st, C0)]
        if fid in TRY_FNS:
            s2 = st.copy()
            self.take(E, st, lock_name(args[0], st, self.P), TRY_FNS[fid], node, fr, deref(args[0]))
            v = ('s', 'ret', fid, fr.ctx + (node,))
            s2.facts[('==', v, C0)] = False
            return [(st, C0), (s2, v)]
        if fid in UNLOCK_FNS:
            lk = lock_name(args[0], st, self.P)
            self.sites.add((fr.fn.id, node))
            raw = deref(args[0])
            hit = [x for x in st.r if x[3] == raw] or [x for x in st.r if x[0] == lk]
            if not hit:
                self.report('unlock', E.where(node, fr), 'releases %s which is not held on this path (%s)' % (lk, '/'.join(fr.chain())))
            else:
                r = list(st.r)
                r.remove(hit[-1])
                st.r = tuple(r)
            return [(st, C0)]
        if fid in ('pthread_cond_wait', 'pthread_cond_timedwait'):
            lk = lock_name(args[1], st, self.P)
            if not any(x[0] == lk or x[3] == deref(args[1]) for x in st.r):
                self.report('condwait', E.where(node, fr), 'waits with %s not held' % lk)
        if fid in BLOCKING and st.r:
            self.under.append(('block', fid, E.where(node, fr), st.r, '/'.join(fr.chain())))
        return None

    def on_indirect(self, E, st, target, args, node, fr):
        if st.r:
            self.under.append(('indirect', val_name(target), E.where(node, fr), st.r, '/'.join(fr.chain())))
        return None

    def on_leave(self, E, st, fn, ret, fr):
        if fr.up is None:
            self.exits.append((st.r, fn))

    def finish(self):
        """judge the exits of the root: all its exits holding one lock of its argument = a lock wrapper"""
        effects = {tuple(x[0] for x in r) for r, fn in self.exits}
        if len(effects) == 1 and all(n.startswith('arg:') for n in next(iter(effects))):
            return
        for r, fn in self.exits:
            for (l, m, w, q) in r:
                self.report('leak', '%s' % w, '%s, acquired at %s, is still held when %s returns' % (l, w, fn.name))


def substitute(name, fn, args):
    """express a callee's lock name in the caller's terms"""
    for p, a in zip(fn.params, args):
        t = 'arg:' + p['n']
        if t in name:
            name = name.replace(t + '->', val_name(a) + '->') if a[0] != '&' else name.replace(t + '->', loc_name(a[1]) + '.')
    return name


class Summary:
    __slots__ = ('acquires', 'under', 'balanced', 'blocks', 'indirect', 'err', 'effect')


class Locks:
    """Bottom-up lock summaries of every function that can touch a lock."""

    def __init__(self, P):
        self.P = P
        self.summaries = {}
        self.viol, self.edges, self.under = [], {}, []
        self.stats = {'functions': 0, 'lock_sites': set(), 'steps': 0, 'widened': 0}
        self.rel = P.closure(lambda f: bool(P.callees(f) & (PRIMS | BLOCKING)) or any('fn' not in f.nodes[c] for c in f.calls))
        self.active = set()
        self.called = set()
        for f in P.fns.values():
            self.called |= P.callees(f)

    def summary(self, fid):
        if fid in self.summaries:
            return self.summaries[fid]
        if fid in self.active or fid not in self.P.fns:
            return None
        self.active.add(fid)
        rule = SumRule(self)
        E = Engine(self.P, rule, maxstates=80)
        f = self.P.fns[fid]
        s = Summary()
        outs = E.run(f)
        rule.finish()
        s.effect = {o.r for o, v in outs}
        s.balanced = all(not o.r for o, v in outs) and not any(k in ('unlock',) for k, w, m in rule.viol)
        s.acquires, s.under = rule.acquired, rule.under
        s.blocks, s.indirect = rule.blocks, rule.indirects
        self.active.discard(fid)
        self.summaries[fid] = s
        self.stats['functions'] += 1
        self.stats['steps'] += E.steps
        self.stats['widened'] += E.widened
        self.stats['lock_sites'] |= rule.sites
        if s.balanced or f.id not in self.called or f.id in self.P.addr_taken:
            wrapper = len(rule.sites) == 1 and len(outs) == 1 and not rule.acquired
            for v in rule.viol:
                if v[0] == 'unlock' and wrapper and 'arg:' in v[2]:
                    continue
                if v not in self.viol:
                    self.viol.append(v)
        else:
            # a lock wrapper: judged inside its callers (it is inlined there)
            for v in rule.viol:
                if v[0] == 'relock' and v not in self.viol:
                    self.viol.append(v)
        for k, w in rule.edges.items():
            self.edges.setdefault(k, w)
        for u in rule.under:
            if u not in self.under:
                self.under.append(u)
        return s

    def all(self):
        for fid in sorted(self.rel):
            f = self.P.fns[fid]
            if not f.static or fid in self.P.addr_taken or fid not in self.called:
                self.summary(fid)


class SumRule(LockRule):
    def __init__(self, L):
        self.L, self.P, self.rel = L, L.P, L.rel
        self.viol, self.edges, self.acq, self.sites, self.under, self.exits = [], {}, 0, set(), [], []
        self.acquired, self.blocks, self.indirects = {}, {}, {}

    def take(self, E, st, lk, mode, node, fr, raw=None):
        LockRule.take(self, E, st, lk, mode, node, fr, raw)
        self.acquired.setdefault(lk, E.where(node, fr))

    def inline(self, E, fid):
        return fid in self.rel

    def on_call(self, E, st, fid, args, node, fr):
        r = LockRule.on_call(self, E, st, fid, args, node, fr)
        if fid in BLOCKING:
            self.blocks.setdefault(fid, E.where(node, fr))
        if r is not None:
            return r
        f = self.P.fns.get(fid)
        if f is None or fid not in self.rel or f.static:
            return None
        if any(x[0] == 'fn' for x in args) or any(x[0] == '&' and any(v[0] == 'fn' and contains_loc(x[1], l) for l, v in st.mem.items()) for x in args):
            return None           # passes a callback of ours: analyse in context
        s = self.L.summary(fid)
        if s is None or not s.balanced:
            return None
        here = E.where(node, fr)
        for lk0, w in s.acquires.items():
            lk = substitute(lk0, f, args)
            self.acquired.setdefault(lk, w)
            for (l, m, w0, q) in st.r:
                if l == lk:
                    self.report('relock', here, 'calls %s, which acquires %s again (at %s; taken at %s)' % (f.name, lk, w, w0))
                else:
                    self.edges.setdefault((l, lk), (w0, w, '/'.join(fr.chain()) + '/' + f.name))
        for b, w in s.blocks.items():
            self.blocks.setdefault(b, w)
            if st.r:
                self.under.append(('block', b, w, st.r, '/'.join(fr.chain()) + '/' + f.name))
        for b, w in s.indirect.items():
            self.indirects.setdefault(b, w)
            if st.r:
                self.under.append(('indirect', b, w, st.r, '/'.join(fr.chain()) + '/' + f.name))
        if E.P.fns[fid].raw.get('nr'):
            return []
        return None if not f.cfg else self.opaque(E, st, fid, args, node, fr)

    def opaque(self, E, st, fid, args, node, fr):
        keep = self.inline
        self.inline = lambda E, x: False
        try:
            return E.default_call(st, fid, args, node, fr.fn.nodes[node], fr)
        finally:
            self.inline = keep

    def on_indirect(self, E, st, target, args, node, fr):
        self.indirects.setdefault(val_name(target), E.where(node, fr))
        return LockRule.on_indirect(self, E, st, target, args, node, fr)


# ---------------------------------------------------------------- checks
_cache = {}


def locks_of(P):
    if id(P) not in _cache:
        L = Locks(P)
        L.all()
        _cache[id(P)] = L
    return _cache[id(P)]


def shm_mutex_field(P):
    """(record, field) of the mutex that the public shmem_lock() acquires"""
    L = locks_of(P)
    s = L.summary(P.fn('shmem_lock').id)
    names = list(s.acquires) if s else []
    if not names:
        raise AnalysisError('shmem_lock acquires nothing')
    return names[0].split('->')[-1].split('.')[-1]


def lock_class(name):
    """class of a lock for the order graph: the global, or the record member that holds it"""
    last = name.replace('.', '->').split('->')[-1]
    if '->' in name or '.' in name.split('@')[0]:
        return last
    return name


def shm_class(name, fld):
    return name.endswith('->' + fld) or name.endswith('.' + fld)


def check_c01(rep, progs, ex):
    rep.rule('Path-sensitive lock typestate: every path of every function that can reach a lock operation is followed, static helpers '
             'inlined, return-code correlations kept; at each exit the set of held locks equals the one on entry, no held lock is taken '
             'again, no lock that is not held is released or waited on.')
    for cfg, P in progs.items():
        L = locks_of(P)
        for k, w, m in L.viol:
            if k in ('leak', 'relock', 'unlock', 'condwait'):
                fn = w.split('(')[-1].rstrip(')')
                rep.v('%s:%s' % (k, fn), w, m)
        for s in L.stats['lock_sites']:
            rep.count('lock_sites', s)
        rep.count('functions_with_lock_effects', L.stats['functions'])
        rep.count('paths_blocks_steps', L.stats['steps'])
        rep.analysed(L.rel)
    rep.need('lock_sites', 60)


CALLBACK_OK = ('cleanup_fn', 'is_empty_fn', 'key_compare', 'key_destroy_func', 'value_destroy_func')


def check_c03(rep, progs, ex):
    rep.rule('For every path that holds a node-wide shared-memory lock (the mutex taken by shmem_lock): no call of a blocking primitive '
             'and no call through a function pointer other than the module\'s own cleanup/emptiness functions, transitively through '
             'bottom-up summaries.')
    for cfg, P in progs.items():
        L = locks_of(P)
        fld = shm_mutex_field(P)
        for s in L.summaries.values():
            if s and any(shm_class(a, fld) for a in s.acquires):
                rep.count('functions_taking_the_node_lock', 1)
        for kind, what, where, held, chain in L.under:
            if not any(shm_class(x[0], fld) for x in held):
                continue
            rep.count('suspicious_calls_under_lock_examined', 1)
            last = what.replace('.', '->').split('->')[-1]
            if kind == 'indirect' and what.startswith('arg:') and (last in CALLBACK_OK or '->' not in what and '.' not in what):
                # the function is chosen by the caller, and every caller is analysed with the function it passes
                continue
            h = [x for x in held if shm_class(x[0], fld)][0]
            if kind == 'block':
                rep.v('block:%s:%s' % (what, where.split('(')[-1].rstrip(')')), where, '%s is called while the node lock %s (taken at %s) is held [%s]' % (what, h[0], h[2], chain))
            else:
                rep.v('callback:%s:%s' % (last, where.split('(')[-1].rstrip(')')), where, 'a call through %s is made while the node lock %s (taken at %s) is held [%s]' % (what, h[0], h[2], chain))
        rep.analysed(L.rel)
    rep.need('functions_taking_the_node_lock', 40)


def check_c04(rep, progs, ex):
    rep.rule('Lock-order graph over lock classes (global mutexes; shared-memory lock per module; record members) with an edge for each '
             'acquisition made while another lock is held, transitively; the graph must have no cycle.')
    for cfg, P in progs.items():
        L = locks_of(P)
        fld = shm_mutex_field(P)
        handler = handler_modules(P)
        g = {}

        def cls(n, site):
            if shm_class(n, fld):
                root = n.split('->')[0]
                if root.startswith('G:shm_handler') or root.startswith('G:'):
                    return 'node lock of ' + root.split('@')[-1]
                return None      # inside shmem_init: a lock no other thread of the process can hold yet, see below
            return lock_class(n)
        for (a, b), w in L.edges.items():
            ca, cb = cls(a, w), cls(b, w)
            if ca is None or cb is None or ca == cb:
                if ca == cb and ca is not None and a != b and not (a.startswith('G:') and b.startswith('G:')):
                    pass
                continue
            g.setdefault(ca, {})[cb] = w
            rep.count('ordered_pairs', ca + ' < ' + cb)
        # cycles
        color, stack, done = {}, [], []

        def dfs(x):
            color[x] = 1
            stack.append(x)
            for y in g.get(x, {}):
                if color.get(y) == 1:
                    done.append(stack[stack.index(y):] + [y])
                elif y not in color:
                    dfs(y)
            stack.pop()
            color[x] = 2
        for x in sorted(g):
            if x not in color:
                dfs(x)
        for c in done:
            det = '; '.join('%s taken (%s) while %s is held (%s) in %s' % (c[i + 1], g[c[i]][c[i + 1]][1], c[i], g[c[i]][c[i + 1]][0], g[c[i]][c[i + 1]][2]) for i in range(len(c) - 1))
            k = sorted(set(c))
            rep.v('cycle:' + '|'.join(k), g[c[0]][c[1]][1], 'locks are nested in both orders: ' + det)
        rep.analysed(L.rel)
    rep.need('ordered_pairs', 8)


def handler_modules(P):
    return {}
