"""What lives in shared segments, and who may write it when (C02, C18 use this)."""
from flow import *
from names import *
from program import strip, walk
import locks


def shmem_modules(P):
    """for each call of shmem_init: the global that receives the segment, the one that receives the handler"""
    mods = []
    for f in P.fns.values():
        for c in f.calls:
            n = f.nodes[c]
            if n.get('fn') != 'shmem_init':
                continue
            m = {'fn': f, 'node': c, 'shdata': None, 'handler': None, 'record': None}
            for x in walk(f, n['ch'][1]):
                d = f.nodes[x].get('d')
                if d and d['k'] == 'gvar':
                    m['shdata'] = d['id']
                    t = f.types[f.nodes[x]['t']]
                    if t.get('k') == 'ptr':
                        m['record'] = f.types[t['p']].get('r')
            for i, q in f.nodes.items():
                if q['k'] == 'BinaryOperator' and q['op'] == '=' and c in set(walk(f, q['ch'][1])):
                    l = f.nodes[strip(f, q['ch'][0])]
                    if l['k'] == 'DeclRefExpr':
                        m['handler'] = l['d']['id']
                    elif l['k'] == 'UnaryOperator' and l['op'] == '*':
                        # handler returned through a parameter: find what callers pass
                        m['handler'] = None
            # props: cleanup function etc.
            m['props'] = {}
            for x in walk(f, n['ch'][2]) if len(n['ch']) > 2 else ():
                q = f.nodes[x]
                if q['k'] == 'InitListExpr' and q['fields']:
                    for nm, ch in zip(q['fields'], q['ch']):
                        m['props'][nm] = ch
            mods.append(m)
    return mods


def shared_records(P):
    """records stored by value in shared segments -> owning module file"""
    out = {}

    def add(r, own):
        if r in out or r not in P.records:
            return
        if P.records[r]['file'].startswith('/usr/'):
            return
        out[r] = own
        for fl in P.records[r]['fields']:
            t = fl['ty']
            while t.get('k') == 'arr':
                t = P.records[r]['types'][t['p']]
            if t.get('k') == 'rec':
                add(t['r'], own)
    for m in shmem_modules(P):
        if m['record']:
            add(m['record'], m['fn'].base())
    # the segment header (pid list, state, the lock itself)
    return out


def sync_record(P):
    """the record that holds the node-wide mutex"""
    fld = locks.shm_mutex_field(P)
    for r, d in P.records.items():
        if any(f['n'] == fld for f in d['fields']):
            return r
    raise AnalysisError('no record holds ' + fld)


WRITERS = {'memcpy': 0, 'memmove': 0, 'memset': 0, 'strcpy': 0, 'strncpy': 0, 'snprintf': 0, 'sprintf': 0, 'strcat': 0, 'strncat': 0, 'vsnprintf': 0,
           'bcopy': 1, '__builtin_memcpy': 0, '__builtin_memset': 0, '__builtin___snprintf_chk': 0}


def subst(x, env):
    """rewrite the parameters in a location or value by the caller's arguments"""
    if not isinstance(x, tuple) or not x:
        return x
    if x[0] == 's' and x[1] == 'P' and len(x) == 3:
        return env.get(x[2], ('s', 'ret', '?', x))
    if x[0] == 'd':
        p = subst(x[1], env)
        return p[1] if p[0] == '&' else ('d', p)
    if x[0] in ('s',) and x[1] in ('ld', 'uns', 'at') and isinstance(x[2], tuple):
        return x[:2] + (subst(x[2], env),) + x[3:]
    if x[0] in ('f', 'e', '&'):
        return (x[0], subst(x[1], env)) + x[2:]
    if x[0] == 'op':
        return tuple(subst(y, env) if isinstance(y, tuple) else y for y in x)
    return x


class GuardRule(locks.LockRule):
    """one function: every store to a guarded record is judged against the locks held; what is not guarded here is owed by the callers"""

    def __init__(self, G):
        locks.LockRule.__init__(self, G.P) if not hasattr(G, 'rel') else None
        self.G, self.P, self.rel = G, G.P, G.rel
        self.viol, self.edges, self.acq, self.sites, self.under, self.exits = [], {}, 0, set(), [], []
        self.owed = {}

    def inline(self, E, fid):
        return fid in self.G.wrappers

    def on_call(self, E, st, fid, args, node, fr):
        r = locks.LockRule.on_call(self, E, st, fid, args, node, fr)
        if r is not None:
            return r
        if fid in WRITERS and len(args) > WRITERS[fid]:
            a = fr.fn.nodes[node]['ch'][1 + WRITERS[fid]]
            t = fr.fn.types[fr.fn.nodes[strip(fr.fn, a)]['t']]
            self.judge(E, st, self.whole(st, deref(args[WRITERS[fid]]), fr.fn.types[t['p']].get('r') if t.get('k') == 'ptr' else None), node, fr)
        f = self.P.fns.get(fid)
        if f is None or fid not in self.G.wrappers:
            # quantities only: a pointer that selects an object is not a quantity taken from the table
            ch = fr.fn.nodes[node]['ch'][1:]
            hit = [h for a, c in zip(args, ch) if fr.fn.types[fr.fn.nodes[c]['t']].get('k') in ('int', 'enum') for h in self.stale_in(st, a)]
            if hit:
                st.mem[('x', 't', fr.ctx + (node,))] = tuple(sorted(set(hit)))
        if f is not None and fid not in self.G.wrappers:
            env = {p['n'] or str(i): a for i, (p, a) in enumerate(zip(f.params, args))}
            for (what, loc), (w, chain) in self.G.summary(fid).items():
                self.judge(E, st, subst(loc, env), node, fr, w, chain)
        return None

    def on_indirect(self, E, st, target, args, node, fr):
        n = val_name(target).replace('.', '->').split('->')[-1].split(':')[-1]
        self.G.indirect.setdefault(n, []).append((tuple(x[0] for x in st.r), E.where(node, fr)))

    def on_atomic(self, E, st, op, loc, node, fr):
        self.atomic = (fr.fn.id, node)

    def on_load(self, E, st, loc, val, node, fr):
        if val[0] == 's' and root_of(loc)[0] != 'v' and not self.by_value(loc, fr):
            g = self.G.guards(locks.alias_root(st, loc))
            if g is not None:
                st.mem[('x', 'u', val)] = C0 if any(g[1](x) for x in st.r) else ('s', g[0])
                if any(g[1](x) for x in st.r):
                    d = st.mem.get(('x', 'dep'))
                    if d:
                        st.mem[('x', 'dep')] = tuple(x for x in d if x[0] != g[0])

    def by_value(self, loc, fr):
        """read of an input structure that a caller passed by const address"""
        r = root_of(loc)
        if r[0] == 'd' and r[1][0] == 's' and r[1][1] == 'P':
            for p in fr.fn.params:
                if p['n'] == r[1][2]:
                    t = fr.fn.types[p['t']]
                    return t.get('k') == 'ptr' and bool(fr.fn.types[t['p']].get('const'))
        return False

    def on_branch(self, E, st, node, taken, fr):
        v = E.val(fr.fn, fr, st, node)
        hit = self.stale_in(st, v)
        if hit:
            d = set(st.mem.get(('x', 'dep')) or ())
            st.mem[('x', 'dep')] = tuple(sorted(d | {(h, E.where(node, fr)) for h in hit}))

    def stale_in(self, st, v):
        """guarded fields, read without their lock, that a value was computed from"""
        hit = []

        def chk(x):
            if isinstance(x, tuple) and len(x) == 4 and x[0] == 's':
                m = st.mem.get(('x', 'u', x))
                if m is not None and m != C0:
                    hit.append(m[1])
                if x[1] == 'ret':
                    hit.extend(st.mem.get(('x', 't', x[3])) or ())
            return False
        mentions(v, chk)
        return hit

    def whole(self, st, loc, rec):
        """the location, with its record's name when nothing in it tells that it is a shared one"""
        if rec in self.G.recs and self.G.guards(locks.alias_root(st, loc)) is None:
            return ('f', loc, '*', rec)
        return loc

    def on_store(self, E, st, loc, val, node, fr):
        locks.LockRule.on_store(self, E, st, loc, val, node, fr)
        n = fr.fn.nodes[node]
        if n['k'] == 'BinaryOperator' and loc[0] == 'd':
            loc = self.whole(st, loc, fr.fn.types[fr.fn.nodes[n['ch'][0]]['t']].get('r'))
        if val[0] != 'atomic' and getattr(self, 'atomic', None) != (fr.fn.id, node):
            hit = self.stale_in(st, val)
            if hit:
                d = st.mem.get(('x', 'dep'))
                st.mem[('x', 'dep')] = tuple(sorted(set(d or ()) | {(h, E.where(node, fr)) for h in hit}))
                self.judge(E, st, loc, node, fr)
                if d is None:
                    st.mem.pop(('x', 'dep'), None)
                else:
                    st.mem[('x', 'dep')] = d
            else:
                self.judge(E, st, loc, node, fr)

    def judge(self, E, st, loc, node, fr, where=None, chain=()):
        loc = locks.alias_root(st, loc)
        g = None
        r = root_of(loc)
        if r[0] == 'v':
            return
        g = self.G.guards(loc)
        if g is None:
            if r[0] == 'd' and mentions_param(loc) and len(chain) < 6 and loc_may_matter(self.G, loc):
                self.owed.setdefault(('?', norm(loc)), (where or E.where(node, fr), (fr.fn.name,) + chain))
            return
        what, pred, want = g
        if any(pred(x) for x in st.r):
            self.G.ok.add((what, where or E.where(node, fr)))
            for f, w in st.mem.get(('x', 'dep')) or ():
                self.G.stale.setdefault((f, fr.fn.id), (w, what, where or E.where(node, fr)))
        else:
            self.owed.setdefault((what, norm(loc)), (where or E.where(node, fr), (fr.fn.name,) + chain))


def mentions_param(loc):
    return mentions(loc, lambda v: v[0] == 's' and v[1] == 'P')


def norm(x):
    """context-free form of a location (drops evaluation contexts)"""
    if not isinstance(x, tuple) or not x:
        return x
    if x[0] == 's':
        if x[1] == 'P':
            return x
        if x[1] in ('ld', 'uns', 'at') and isinstance(x[2], tuple):
            return ('s', x[1], norm(x[2]), '#')
        return ('s', x[1], x[2] if isinstance(x[2], str) else '?', '#')
    if x[0] == 'e':
        return ('e', norm(x[1]), ('s', 'x', '#'))
    if x[0] in ('f', '&', 'd'):
        return (x[0], norm(x[1])) + x[2:]
    return x


def loc_may_matter(G, loc):
    """an unguarded store through a parameter into a generic record that some shared record contains"""
    return any(r in G.generic for r, f in loc_fields(loc)) or loc[0] in ('d', 'e')


class Guards:
    def __init__(self, P):
        self.P = P
        self.guards, self.handlers = make_guards(P)
        self.recs = shared_records(P)
        self.generic = {r for r in self.recs if P.records[r]['file'].endswith('.h')}
        self.rel = locks.locks_of(P).rel
        self.wrappers = {fid for fid, s in locks_of_unbalanced(P).items()}
        self.sums, self.active = {}, set()
        self.ok, self.indirect, self.stale = set(), {}, {}
        names = {('f', r, f['n']) for r in self.recs for f in P.records[r]['fields']} | {('f',) + k for k in FIELD_GUARDS}
        self.scope = {f.id for f in P.fns.values() if any(m in names or m[0] == '*' for m in P.mods(f.id))}

    def summary(self, fid):
        if fid in self.sums:
            return self.sums[fid]
        if fid in self.active or fid not in self.scope:
            return {}
        self.active.add(fid)
        R = GuardRule(self)
        E = Engine(self.P, R, maxstates=12)
        E.run(self.P.fns[fid])
        self.active.discard(fid)
        self.sums[fid] = R.owed
        return R.owed


def locks_of_unbalanced(P):
    L = locks.locks_of(P)
    return {fid: s for fid, s in L.summaries.items() if s is not None and not s.balanced}


# process-local data and the lock that guards it (confirmed by reading the declarations and their writers)
FIELD_GUARDS = {
    ('talp_info_t', 'samples'): 'samples_mutex', ('talp_info_t', 'ncpus'): 'samples_mutex',
    ('talp_info_t', 'regions'): 'regions_mutex', ('talp_info_t', 'open_regions'): 'regions_mutex',
}
QUEUE_FIELDS = {('helper_t', f) for f in ('queue', 'q_head', 'q_tail', 'joinable', 'status')}
GLOBAL_GUARD_FILES = ('spd.c', 'node_barrier.c')


def base_rec(r):
    return r.split('@')[0] if r else r


def selectors(loc):
    out = []
    for x in loc_fields(loc):
        out.append(x)
    return out


def make_guards(P):
    mods = shmem_modules(P)
    recs = shared_records(P)
    fld = locks.shm_mutex_field(P)
    sync = sync_record(P)
    by_file, by_data = {}, {}
    for m in mods:
        if m['handler']:
            by_file[m['fn'].base()] = m['handler']
            by_data[m['shdata']] = m['fn'].base()
    statics = {}
    for g, d in P.globals.items():
        f = d['file'].split('/')[-1]
        t = d.get('ty', {})
        if f in GLOBAL_GUARD_FILES:
            statics[g] = f

    def guards(loc):
        sel = selectors(loc)
        for r, f in sel:
            if (base_rec(r), f) in QUEUE_FIELDS:
                hnd = by_file.get(recs.get(r))
                # the slot itself is set up under the segment lock, before any message can be sent
                return ('message queue', lambda h: h[0].endswith(('->q_lock', '.q_lock')) or locks.shm_class(h[0], fld) and h[0].split('->')[0] == hnd,
                        'the queue lock')
        for r, f in sel:
            if (r, f) in FIELD_GUARDS:
                lk = FIELD_GUARDS[(r, f)]
                return ('%s.%s' % (r, f), lambda h: h[0].endswith('->' + lk) or h[0].endswith('.' + lk), lk)
        mod = None
        for r, f in sel:
            if r in recs:
                mod = recs[r]
            elif r == 'g' and f in by_data:
                if len(sel) > 1 or loc[0] == 'd':
                    mod = by_data[f]
        if mod:
            what = '.'.join(f for r, f in sel if r not in ('g', 'v', 'd'))
            hnd = by_file.get(mod)
            def pred(h):
                if locks.shm_class(h[0], fld):
                    root = h[0].split('->')[0]
                    return root == hnd or not root.startswith('G:shm_handler') and (root.startswith(('malloc', 'arg:', 'shmem_init')))
                return mod == 'shmem_barrier.c' and h[0].endswith('rwlock') and h[1] == 'w'
            return ('%s: %s' % (mod, what), pred, "this segment's lock")
        return None
    return guards, by_file


# a write that is rightly made without the lock
UNLOCKED_OK = {
    ('shmem_talp.c: talp_region.avg_cpus', 'shmem_talp__set_avg_cpus'):
        'published measurement with a single writer, the process that owns the region; readers tolerate the previous value',
}
# a write that rightly depends on a value read before taking the lock
STALE_OK = {
    ('message queue', None): 'helper->joinable only goes from false to true; a message sent while the helper leaves is discarded either way',
    ('shmem_procinfo.c: pid', 'shmem_procinfo__setprocessmask'): 'the own slot: only this process changes its pid',
    ('shmem_procinfo.c: dirty', 'shmem_procinfo__polldrom'): 'only the polled process itself clears the flag',
    ('talp_info_t.open_regions', 'talp_finalize'): 'finalization: no other thread of the process may use TALP any more',
}


def listed(what, entry):
    """same module and same member, however the record is reached"""
    return (what.split(':')[0], what.split(':')[-1].split('.')[-1].strip()) == (entry.split(':')[0], entry.split(':')[-1].split('.')[-1].strip()) or what == entry


class CleanupRule(locks.LockRule):
    def __init__(self, P):
        locks.LockRule.__init__(self, P)
        self.exits, self.calls = [], {}

    def on_indirect(self, E, st, target, args, node, fr):
        self.calls.setdefault(E.where(node, fr), []).append(bool(st.r))


def check_c02(rep, progs, ex):
    rep.rule('Guarded-by analysis: for every function, bottom-up, each store (assignment, memcpy/memset/strcpy-like call, cpu_set operation, '
             'store through a callee that takes the record by address) to a field of a record that lives in a shared segment must be made '
             'with that segment\'s lock held on every path (or the lock declared for process-local registries); what a function does not '
             'guard itself is owed by each of its callers.  A guarded store must not be control dependent on a shared field that was '
             'only read before the lock was taken.  Atomic operations are exempt (C19).')
    for cfg, P in progs.items():
        G = Guards(P)
        called = set()
        for f in P.fns.values():
            called |= P.callees(f)
        cleanup = set()
        for m in shmem_modules(P):
            c = m['props'].get('cleanup_fn')
            for x in walk(m['fn'], c) if c is not None else ():
                d = m['fn'].nodes[x].get('d')
                if d and d['k'] == 'func':
                    cleanup.add(d['id'])
        # the cleanup functions run from shmem_init: always under the lock of the new segment
        R = CleanupRule(P)
        Engine(P, R, maxstates=40).run(P.fn('shmem_init'))
        for w, hs in R.calls.items():
            rep.count('cleanup_calls_under_lock', w)
            if not all(hs):
                rep.v('cleanup:%s' % w.split('(')[-1].rstrip(')'), w, 'the cleanup function of a segment is called without the lock of the segment')
        for fid in sorted(G.scope):
            f = P.fns[fid]
            if f.file.endswith('.h'):
                continue
            owed = G.summary(fid)
            if fid in called and (f.static or fid not in P.addr_taken) or fid in cleanup:
                continue
            for (what, loc), (w, ch) in owed.items():
                if what == '?' or any(listed(what, m) and fn in ch for m, fn in UNLOCKED_OK):
                    continue
                rep.v('unlocked:%s:%s' % (what, ch[-1]), w, '%s is modified without the lock that guards it [%s]' % (what, '/'.join(ch)))
        for (fld, fid), (w, what, w2) in G.stale.items():
            f = P.fns[fid]
            if any(listed(fld, m) and fn in (f.name, None) for m, fn in STALE_OK):
                continue
            rep.v('stale:%s:%s' % (fld, f.name), w, 'the update of %s at %s depends on %s, which was read before the lock was taken and not read again' % (what, w2, fld))
        for o in G.ok:
            rep.count('guarded_writes', o)
        for c in cleanup:
            rep.count('cleanup_functions', c)
        rep.analysed(G.scope)
    rep.need('guarded_writes', 60)
    rep.need('cleanup_functions', 3)
    rep.need('cleanup_calls_under_lock', 1)
