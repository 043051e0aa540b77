"""Membership of node barriers and the barrier objects (C32)."""
from collections import namedtuple
from flow import *
from names import *
from program import AnalysisError, strip, walk
import shared
from lewiasync import lin, add, scale
from segments import lin2

WR = {'pthread_rwlock_wrlock': 'w', 'pthread_rwlock_rdlock': 'r'}
TWR = {'pthread_rwlock_timedwrlock': 'w', 'pthread_rwlock_trywrlock': 'w', 'pthread_rwlock_timedrdlock': 'r', 'pthread_rwlock_tryrdlock': 'r',
       'pthread_rwlock_clockwrlock': 'w', 'pthread_rwlock_clockrdlock': 'r'}
B = namedtuple('B', 'lock old changed destroyed ready fresh value')
NEW = B(None, None, None, False, False, False, None)


def barrier_record(P):
    """the shared record that holds a barrier object, with the names of its synchronisation members"""
    for r, v in sorted(P.records.items()):
        by = {f['ty'].get('s'): f['n'] for f in v['fields']}
        if 'pthread_barrier_t' in by and 'pthread_rwlock_t' in by and 'participants' in {f['n'] for f in v['fields']}:
            return r, by['pthread_barrier_t'], by['pthread_rwlock_t']
    raise AnalysisError('no shared record with a barrier object, its lock and the number of participants')


class MemberRule(Rule):
    """r = (node lock held, {record location: B})"""
    exact = True

    def __init__(self, P, rec, bar, rw, inl):
        self.P, self.rec, self.bar, self.rw, self.inl = P, rec, bar, rw, inl
        self.bad, self.changes, self.waits, self.clears = {}, set(), set(), set()

    def initial(self, E):
        return (False, ())

    def inline(self, E, fid):
        return fid in self.inl

    def key_extra(self, E, st):
        return frozenset(st.facts.items())

    def get(self, st, b):
        return dict(st.r[1]).get(b, NEW)

    def put(self, st, b, **kw):
        d = dict(st.r[1])
        d[b] = d.get(b, NEW)._replace(**kw)
        st.r = (st.r[0], tuple(sorted(d.items(), key=repr)))

    def say(self, what, E, node, fr, msg):
        f = fr
        while f.up is not None:
            f = f.up
        self.bad.setdefault((what, f.fn.name), (E.where(node, fr), msg))

    def forget(self, st, b=None):
        for l in [l for l in st.mem if l[0] == 'f' and (l[3] == self.rec or 'flags' in str(l[3]) or True) and self.base(l) is not None and (b is None or self.base(l) == b)]:
            del st.mem[l]

    def base(self, l):
        """the barrier record a location is part of"""
        x = l
        while x[0] in ('f', 'e'):
            if x[0] == 'f' and x[3] == self.rec:
                return x[1]
            x = x[1]
        return None

    def part(self, b):
        return ('f', b, 'participants', self.rec)

    def on_load(self, E, st, loc, val, node, fr):
        if loc[0] == 'f' and loc[2] == 'participants' and loc[3] == self.rec:
            b = self.get(st, loc[1])
            if "('s', 'ld', ('v'" in repr(loc):
                self.put(st, loc[1], old=val, value=val if b.changed else None)     # a place of a search or sweep: one of many
            elif b.old is None and b.changed is None:
                self.put(st, loc[1], old=val)

    def on_store(self, E, st, loc, val, node, fr):
        r = E_rec(loc, self.rec)
        if root_of(loc)[0] == 'v':
            return
        n = fr.fn.nodes[node]
        whole = n['k'] == 'BinaryOperator' and fr.fn.types[fr.fn.nodes[n['ch'][0]]['t']].get('r') == self.rec
        if whole and not (val[0] in ('obj', 'agg')):
            return
        if val[0] in ('obj', 'agg') and (whole or self.whole(st, loc)):
            b = self.get(st, loc)
            if b == NEW and loc[0] == 'd' and loc[1][0] == 's' and loc[1][1] == 'ld' and isinstance(loc[1][2], tuple) and loc[1][2][0] == 'v':
                self.put(st, loc, fresh=True, value=C0, old=C0)     # found by a search whose later rounds are summarised
                return
            self.clears.add(E.where(node, fr))
            old = b.value if b.changed else b.old
            gone = old is not None and (old == C0 or E.known(st, ('cmp', '==', old, C0)) is True or E.known(st, ('cmp', '>', old, C0)) is False)
            if not gone:
                self.say('wiped', E, node, fr, 'a barrier record is cleared although it may have participants')
            if not st.r[0]:
                self.say('unlocked-reset', E, node, fr, 'a barrier record is cleared without the node lock')
            if b.changed and not b.destroyed:
                self.say('leak', E, node, fr, 'a barrier record is cleared without its barrier object being destroyed')
            if loc[0] == 'e' and "('s', 'ld', ('v'" in repr(loc):
                self.put(st, loc, **NEW._asdict())
            else:
                self.put(st, loc, changed=None, destroyed=True, ready=False, fresh=True, value=C0, old=C0, lock=None)
        elif r and loc[2] == 'participants':
            b = self.get(st, loc[1])
            self.changes.add((fr.fn.name, E.where(node, fr)))
            if b.lock != 'w':
                self.say('unlocked', E, node, fr, 'the number of participants changes without the lock that waiting processes hold')
            prev = b.value if b.value is not None else b.old
            ok = False
            if b.fresh:
                ok = val == ('c', 1)
            elif prev is not None and (b.changed is None or "('s', 'ld', ('v'" in repr(loc)):
                ok = val in (E.simp('+', prev, ('c', 1)) or ('op', '+', prev, ('c', 1)), ('op', '+', prev, ('c', 1)), ('op', '+', ('c', 1), prev),
                             ('op', '+', prev, ('c', -1)), ('op', '-', prev, ('c', 1)), E.simp('-', prev, ('c', 1)), ('op', '+', prev, ('c', 2 ** 32 - 1)))
                live = E.known(st, ('cmp', '==', prev, C0)) is False or E.known(st, ('cmp', '>', prev, C0)) is True
                if not live:
                    self.say('dead', E, node, fr, 'participants are counted on a barrier that is not known to have any')
            if not ok:
                self.say('step', E, node, fr, 'the number of participants does not change by exactly one')
            self.put(st, loc[1], changed=True, ready=False, value=val)

    def whole(self, st, loc):
        """is loc a barrier record? (its fields have been accessed, or it is an element of an array of them)"""
        return loc in dict(st.r[1])

    def on_call(self, E, st, fid, args, node, fr):
        if fid == 'shmem_lock':
            self.forget(st)
            d = {k: v._replace(old=None) for k, v in st.r[1] if v.lock}
            st.r = (True, tuple(sorted(d.items(), key=repr)))
            return [(st, C0)]
        if fid == 'shmem_unlock':
            for b, v in st.r[1]:
                if v.changed:
                    self.say('stale', E, node, fr, 'the node lock is released while the barrier object does not match the number of participants')
            st.r = (False, st.r[1])
            return [(st, C0)]
        if fid in WR or fid in TWR:
            l = deref(args[0])
            if l[0] != 'f' or l[3] != self.rec:
                return None
            s2 = st.copy() if fid in TWR else None
            if not st.r[0] and not self.get(st, l[1]).fresh:
                self.forget(st, l[1])
                self.put(st, l[1], old=None)
            self.put(st, l[1], lock=WR.get(fid) or TWR[fid])
            if s2 is None:
                return [(st, C0)]
            v = ('s', 'ret', fid, fr.ctx + (node,))
            s2.facts[('==', v, C0)] = False
            return [(st, C0), (s2, v)]
        if fid == 'pthread_rwlock_unlock':
            l = deref(args[0])
            if l[0] == 'f' and l[3] == self.rec:
                b = self.get(st, l[1])
                if b.changed and not b.ready:
                    left = b.value is not None and (E.known(st, ('cmp', '>', b.value, C0)) is False or E.known(st, ('cmp', '==', b.value, C0)) is True)
                    if not left:
                        self.say('stale', E, node, fr, 'the lock of a barrier is released while its object is still that of the former number of participants')
                    elif not st.r[0]:
                        self.say('stale', E, node, fr, 'the lock of a barrier that lost its last participant is released without the node lock')
                elif b.lock == 'w' and b.destroyed and not b.ready:
                    self.say('stale', E, node, fr, 'the lock of a barrier is released with its object destroyed')
                self.put(st, l[1], lock=None, **({'changed': None, 'destroyed': False, 'old': None, 'value': None, 'fresh': False} if b.ready else {}))
            return [(st, C0)]
        if fid == 'pthread_barrier_destroy':
            l = deref(args[0])
            if l[0] == 'f' and l[3] == self.rec:
                b = self.get(st, l[1])
                if b.destroyed and not b.ready:
                    self.say('twice', E, node, fr, 'a barrier object is destroyed twice')
                if b.lock != 'w' and not st.r[0]:
                    self.say('unlocked', E, node, fr, 'a barrier object is destroyed while processes may be waiting on it')
                self.put(st, l[1], destroyed=True, ready=False)
            return [(st, C0)]
        if fid == 'pthread_barrier_init':
            l = deref(args[0])
            if l[0] == 'f' and l[3] == self.rec:
                b = self.get(st, l[1])
                if not (b.destroyed or b.fresh):
                    self.say('live', E, node, fr, 'a barrier object is initialised over one that was not destroyed')
                cur = b.value if b.changed else b.old
                if not b.changed:
                    self.say('unchanged', E, node, fr, 'a barrier object is made again although the number of participants was not changed')
                if b.lock != 'w' and not (b.fresh and st.r[0]):
                    self.say('unlocked', E, node, fr, 'a barrier object is initialised while processes may be waiting on it')
                if cur is None or args[2] != cur:
                    self.say('number', E, node, fr, 'a barrier object is made for a number other than the participants just recorded')
                self.put(st, l[1], ready=True, changed=None if args[2] == cur else b.changed, old=cur)
            return [(st, C0)]
        if fid == 'pthread_barrier_wait':
            l = deref(args[0])
            if l[0] == 'f' and l[3] == self.rec:
                self.waits.add((fr.fn.name, E.where(node, fr)))
                b = self.get(st, l[1])
                if b.lock is None:
                    self.say('wait-unlocked', E, node, fr, 'waits on a barrier without holding its lock: the object can be replaced meanwhile')
                elif b.lock == 'w':
                    self.say('wait-excl', E, node, fr, 'waits on a barrier holding its lock exclusively: no other participant can enter')
                live = any(x[0] == 'f' and x[2] == 'initialized' and E.known(st, v) is True for x, v in st.mem.items() if self.base(x) == l[1]) \
                    or (b.old is not None and E.known(st, ('cmp', '==', b.old, C0)) is False)
                if not live:
                    self.say('wait-dead', E, node, fr, 'waits on a barrier that is not known to exist')
            return [(st, C0)]
        if fid in self.inl:
            return None
        return [(st, ('s', 'ret', fid, fr.ctx + (node,)))] if fid in ('warning', 'verbose', 'info', 'info0', 'warning0', 'snprintf', 'get_time_real') or (fid or '').startswith('pthread_') else None

    def on_noret(self, *a):
        pass

    def on_leave(self, E, st, fn, v, fr):
        if fr.up is None:
            for b, x in st.r[1]:
                if x.changed and not x.ready:
                    self.say('stale', E, fn_last(fn), fr, 'returns with the number of participants changed and the barrier object not rebuilt or removed')


def E_rec(loc, rec):
    return loc[0] == 'f' and loc[3] == rec


def fn_last(fn):
    return max(fn.nodes)


def check_c32(rep, progs, ex):
    rep.rule('the number of participants of a barrier record changes only by one, on a barrier known to have participants (or from empty to one), while holding that '
             'barrier\'s lock exclusively; before that lock is released the old barrier object is destroyed and one for exactly the new number is made, or, with '
             'nobody left, the object is destroyed and the record cleared under the node lock; a process waits only holding the barrier\'s lock shared, after seeing '
             'under it that the barrier exists; whoever joins a barrier keeps the reference it must leave by, and drops it exactly when it left')
    for cfg, P in progs.items():
        rec, bar, rw = barrier_record(P)
        touched = {}
        for f in P.fns.values():
            acc = set()
            for i, n in f.nodes.items():
                if n['k'] == 'MemberExpr' and n.get('r') == rec and n.get('m') in ('participants', bar):
                    acc.add(n['m'])
            if acc:
                touched[f.id] = acc
        files = {P.fns[g].file for g in touched}
        mods = [m for m in shared.shmem_modules(P) if m['fn'].file in files]
        cleanups = cleanup_fns(P, mods)
        roots = set()
        for g in touched:
            f = P.fns[g]
            if not f.static or g in cleanups:
                roots.add(g)
            else:
                up = {h for h in P.fns if g in P.callees(P.fns[h])}
                while up:
                    h = up.pop()
                    if not P.fns[h].static:
                        roots.add(h)
                    else:
                        up |= {k for k in P.fns if h in P.callees(P.fns[k])}
        for g in sorted(roots):
            f = P.fns[g]
            inl = {h for h in P.fns if P.fns[h].static and P.fns[h].file == f.file and h != g}
            R = MemberRule(P, rec, bar, rw, inl)
            E = Engine(P, R, maxstates=400, unroll=2)
            if g in cleanups:
                st = State()
                st.r = (True, ())       # called by the segment layer with the node lock held
                E.run(f, None, st)
            else:
                E.run(f)
            rep.analysed(E.covered)
            nm = 'cleanup' if g in cleanups else f.name
            for x in R.changes:
                rep.count('change', '%s %s' % (nm, x[1]))
            for x in R.clears:
                rep.count('clear', '%s %s' % (nm, x))
            for x in R.waits:
                rep.count('wait', '%s %s' % (nm, x[1]))
            for (what, fnm), (w, msg) in sorted(R.bad.items()):
                if nm == 'cleanup' and what == 'leak':
                    continue        # a process that died inside would never let the object be destroyed
                if nm == 'cleanup' and what in ('unlocked', 'stale'):
                    rep.v('cleanup', w, 'the death of a process takes one participant off every barrier, also those it had not joined, and leaves their objects as they were')
                    continue
                rep.v('%s:%s' % (what, nm), w, msg)
        check_refs(rep, P, rec)
    rep.need('change', 3)
    rep.need('wait', 1)


def cleanup_fns(P, mods):
    out = set()
    for m in mods:
        n = m['props'].get('cleanup_fn')
        if n is not None:
            for x in walk(m['fn'], n):
                d = m['fn'].nodes[x].get('d')
                if d and d['k'] == 'func':
                    out.add(d['id'])
    return out


# ---------------------------------------------------------------- references kept by the process
class RefRule(Rule):
    """r = (joined values not yet kept, left references not yet dropped, kept, dropped)"""
    exact = True

    def __init__(self, P, rec, inl, join, attach, leave, wait, inforecs):
        self.P, self.rec, self.inl = P, rec, inl
        self.join, self.attach, self.leave, self.wait = join, attach, leave, wait
        self.inforecs = inforecs
        self.bad, self.seen, self.exits, self.moved, self.left_from, self.freed = {}, set(), [], {}, set(), set()

    def initial(self, E):
        return (frozenset(), frozenset(), False, False)

    def inline(self, E, fid):
        return fid in self.inl

    def key_extra(self, E, st):
        return frozenset(st.facts.items())

    def say(self, what, E, node, fr, msg):
        f = fr
        while f.up is not None:
            f = f.up
        self.bad.setdefault((what, f.fn.name), (E.where(node, fr), msg))

    def kept_at(self, loc):
        """is loc a place of the process's own record of barriers?"""
        x = loc
        while x[0] in ('f', 'e', 'd'):
            if x[0] == 'f' and x[3] in self.inforecs:
                return True
            if x[0] == 'd':
                v = x[1]
                if v[0] == 's' and len(v) > 2 and isinstance(v[2], tuple) and v[1] in ('ld', 'uns'):
                    x = v[2]
                    continue
                if v[0] == '&':
                    x = v[1]
                    continue
                return False
            x = x[1]
        return False

    def on_call(self, E, st, fid, args, node, fr):
        joined, left, k, d = st.r
        v = ('s', 'ret', fid, fr.ctx + (node,))
        if fid in self.join:
            self.seen.add(('join', E.where(node, fr)))
            s2 = st.copy()
            s2.facts[('==', v, C0)] = False
            s2.r = (joined | {(v, E.where(node, fr))}, left, k, d)
            return [(st, C0), (s2, v)]
        if fid in self.attach or fid in self.leave:
            self.seen.add(('join' if fid in self.attach else 'leave', E.where(node, fr)))
            s2 = st.copy()
            s2.facts[('<', v, C0)] = False
            if fid in self.attach:
                s2.r = (joined | {(args[0], E.where(node, fr))}, left, k, d)
            else:
                self.left_from |= self.fields_of(st, args[0])
                if not self.own(E, st, args[0]):
                    self.say('foreign-leave', E, node, fr, 'leaves a barrier that is not one this process keeps as joined')
                s2.r = (joined, left | {(args[0], E.where(node, fr))}, k, d)
            st.facts[('<', v, C0)] = True
            return [(st, v), (s2, v)]
        if fid in self.wait:
            self.seen.add(('wait', E.where(node, fr)))
            if not self.own(E, st, args[0]):
                self.say('foreign-wait', E, node, fr, 'waits on a barrier that is not one this process keeps as joined')
            return [(st, C0)]
        if fid in ('memmove', 'memcpy') and len(args) == 3 and left:
            dst, src = deref(args[0]), deref(args[1])
            if self.kept_at(dst):
                if dst[0] == 'e' and src[0] == 'e' and dst[1] == src[1]:
                    if add(lin(src[2]), lin(dst[2]), -1) != {None: 1}:
                        self.say('shift', E, node, fr, 'the remaining references are not moved by one place: one is lost or repeated')
                    self.moved[dst[1]] = (lin2(args[2]), lin(dst[2]))
                st.r = (joined, frozenset(), k, True)
            return [(st, args[0])]
        if fid == 'free':
            v0 = args[0]
            t = fr.fn.types[fr.fn.nodes[strip(fr.fn, fr.fn.nodes[node]['ch'][1])]['t']]
            rr = fr.fn.types[t['p']].get('r') if t.get('k') == 'ptr' else None
            if rr is None and isinstance(v0, tuple):
                rr = next((l[3] for l in st.mem if l[0] == 'f' and l[1] == deref(v0) and l[3] in self.inforecs), None)
            if rr in self.inforecs:
                self.freed.add((rr, E.where(node, fr)))
        if fid == 'free' and left:
            for l, val in st.mem.items():
                if val == args[0] and self.kept_any(l):
                    st.r = (joined, frozenset(), k, True)
            if args[0][0] == 's' and args[0][1] == 'ld' and isinstance(args[0][2], tuple) and self.kept_any(args[0][2]):
                st.r = (joined, frozenset(), k, True)
            return [(st, C0)]
        return None

    def fields_of(self, st, v):
        """members of the process's record that a reference was read from"""
        out, locs = set(), [l for l, x in st.mem.items() if x == v]
        if v[0] == 's' and len(v) > 2 and isinstance(v[2], tuple):
            locs.append(v[2])
        for l in locs:
            x = l
            while x[0] in ('f', 'e', 'd'):
                if x[0] == 'f' and x[3] in self.inforecs:
                    out.add(x[2])
                    break
                if x[0] == 'd':
                    w = x[1]
                    if w[0] == 's' and len(w) > 2 and isinstance(w[2], tuple) and w[1] in ('ld', 'uns'):
                        x = w[2]
                        continue
                    if w[0] == '&':
                        x = w[1]
                        continue
                    break
                x = x[1]
        return out

    def kept_any(self, loc):
        return self.kept_at(loc) or (loc[0] == 'f' and self.points_info(loc))

    def points_info(self, loc):
        r = self.P.records.get(loc[3])
        return bool(r) and loc[2] in ('barrier_info',)

    def own(self, E, st, v):
        if v[0] == 's' and v[1] in ('ld', 'uns') and isinstance(v[2], tuple) and self.kept_at(v[2]):
            return True
        for l, x in st.mem.items():
            if self.kept_at(l) and (x == v or E.known(st, ('cmp', '==', x, v)) is True):
                return True
        for (op, a, b), t in st.facts.items():
            if op == '<' and t is False and (st.facts.get(('==', a, b)) is False or st.facts.get(('==', b, a)) is False):
                return True         # a counter that goes up by one does not pass its bound without meeting it
            if op == '==' and t and v in (a, b):
                o = b if a == v else a
                if o[0] == 's' and o[1] == 'ld' and isinstance(o[2], tuple) and self.kept_at(o[2]):
                    return True
        return False

    def on_store(self, E, st, loc, val, node, fr):
        joined, left, k, d = st.r
        if self.kept_at(loc) and root_of(loc)[0] != 'v':
            hit = {x for x in joined if x[0] == val}
            if hit:
                joined, k = joined - hit, True
            if val == C0 and loc[0] == 'e' and loc[1] in self.moved and fr.fn.nodes[node]['k'] == 'BinaryOperator':
                ln, at = self.moved[loc[1]]
                if add(ln, scale(add(lin(loc[2]), at, -1), 8), -1) not in ({}, {None: 0}):
                    self.say('shift', E, node, fr, 'the place cleared is not the one left over by the move: a reference is repeated or lost')
            if val == C0 and left:
                left, d = frozenset(), True
            st.r = (joined, left, k, d)

    def on_leave(self, E, st, fn, v, fr):
        if fr.up is None:
            full = any(op == '<' and t is False and b[0] == 's' for (op, a, b), t in st.facts.items())
            self.exits.append((st.r, full, fn))


def check_refs(rep, P, rec):
    name = {'join': set(), 'attach': set(), 'leave': set(), 'wait': set()}
    # the four operations of the table, by what they do
    touches = {}
    for f in P.fns.values():
        if f.static:
            continue
        inl = {h for h in P.fns if P.fns[h].static and P.fns[h].file == f.file}
        fs = [f] + [P.fns[h] for h in P.callees(f) if h in inl]
        calls, mems = set(), set()
        for g in fs:
            calls |= P.callees(g)
            for n in g.nodes.values():
                if n['k'] == 'MemberExpr' and n.get('r') == rec:
                    mems.add(n['m'])
        if 'participants' not in mems:
            continue
        rt = f.types[f.ret] if isinstance(f.ret, int) else f.ret
        if 'pthread_barrier_wait' in calls:
            name['wait'].add(f.id)
        elif 'pthread_barrier_init' in calls:
            if rt.get('k') == 'ptr':
                name['join'].add(f.id)
            else:
                name['leave' if changes_down(f, rec) else 'attach'].add(f.id)
    ops = set().union(*name.values())
    files = {f.file for f in P.fns.values() if P.callees(f) & ops and P.callees(f) & name['leave']}
    for f in sorted(P.fns.values(), key=lambda x: x.id):
        if f.static or f.file not in files:
            continue
        inl = {h for h in P.fns if P.fns[h].static and P.fns[h].file == f.file}
        if not ({f.id} | inl) & {g for g in {f.id} | (P.callees(f) & inl) if P.callees(P.fns[g]) & ops}:
            continue
        infos = {n.get('r') for g in P.fns.values() if g.file == f.file for n in g.nodes.values() if n['k'] == 'MemberExpr' and str(n.get('r', '')).endswith('@' + f.base())}
        R = RefRule(P, rec, inl, name['join'], name['attach'], name['leave'], name['wait'], infos)
        E = RefEngine(P, R, maxstates=400)
        E.run(f)
        rep.analysed(E.covered)
        for k, w in R.seen:
            rep.count(k, '%s %s' % (f.name, w))
        if len(infos) == 1 and scenarios(rep, P, rec, f, inl, name, next(iter(infos))):
            for rr, w in R.freed:
                rep.count('release', f.name)
            continue        # followed place by place: decided there
        for (what, fnm), (w, msg) in sorted(R.bad.items()):
            rep.v('%s:%s' % (what, fnm), w, msg)
        for rr, w in R.freed:
            rep.count('release', f.name)
            for fld in P.records[rr]['fields']:
                if holds(P, rr, fld['ty'], rec) and fld['n'] not in R.left_from:
                    rep.v('unreleased:%s:%s' % (f.name, fld['n']), w, 'the process discards its barrier references without leaving those kept in %s' % fld['n'])
        kept = any(r[2] for r, _, _ in R.exits)
        for r, full, fn in R.exits:
            for v, w in r[0]:
                if not (full and kept):
                    rep.v('lost:%s' % f.name, w, 'joins a barrier and returns without keeping the reference that it must leave it by')
            for v, w in r[1]:
                rep.v('dangling:%s' % f.name, w, 'leaves a barrier and returns still keeping it as joined: it would be left or waited on again')
    rep.need('join', 3)
    rep.need('leave', 3)
    rep.need('scenario', 30)
    rep.need('release', 1)


def holds(P, rr, t, rec):
    ts = P.records[rr]['types']
    for _ in range(3):
        if t.get('k') == 'rec' or t.get('r'):
            return str(t.get('r')).split('@')[0] == rec.split('@')[0]
        if t.get('k') not in ('ptr', 'arr'):
            return False
        t = ts[t['p']]
    return False


class RefEngine(Engine):
    def mods(self, fid):
        return frozenset()


def changes_down(f, rec):
    for i, n in f.nodes.items():
        if n['k'] == 'UnaryOperator' and n['op'] == '--':
            m = f.nodes[strip(f, n['ch'][0])]
            if m['k'] == 'MemberExpr' and m.get('m') == 'participants':
                return True
        if n['k'] in ('CompoundAssignOperator',) and n['op'] == '-=':
            m = f.nodes[strip(f, n['ch'][0])]
            if m['k'] == 'MemberExpr' and m.get('m') == 'participants':
                return True
        if n['k'] == 'BinaryOperator' and n['op'] == '=':
            m = f.nodes[strip(f, n['ch'][0])]
            if m['k'] == 'MemberExpr' and m.get('m') == 'participants' and any(f.nodes[x]['k'] == 'BinaryOperator' and f.nodes[x]['op'] == '-' for x in walk(f, n['ch'][1])):
                return True
    return False


# ---------------------------------------------------------------- the process's list, followed place by place
NPLACES = 3


def tok(n):
    return C0 if n is None else ('c', 0x1000 * ord(n))


def pointed(types, t, n):
    for _ in range(n):
        if t.get('k') != 'ptr':
            return None
        t = types[t['p']]
    return t


class ListRule(Rule):
    """r = (places of the process's own record, barriers joined, left, failures); every value is concrete"""
    exact = True

    def __init__(self, P, f, rec, inl, name, info, places, byname, found):
        self.P, self.f, self.rec, self.inl, self.name, self.info = P, f, rec, inl, name, info
        self.places, self.byname, self.found = places, byname, found
        self.ends, self.bad = [], {}
        self.kind = {}
        ts = P.records[info]['types']
        for x in P.records[info]['fields']:
            t = x['ty']
            one, two = pointed(ts, t, 1), pointed(ts, t, 2)
            if one is not None and str(one.get('r')).split('@')[0] == rec.split('@')[0]:
                self.kind[x['n']] = 'one'
            elif two is not None and str(two.get('r')).split('@')[0] == rec.split('@')[0]:
                self.kind[x['n']] = 'list'
            elif t.get('k') == 'int' and t.get('size') == 4:
                self.kind[x['n']] = 'number'

    def initial(self, E):
        return (self.places, (), (), 0)

    def inline(self, E, fid):
        g = self.P.fns[fid]
        return fid in self.inl and not any(n['k'] == 'CallExpr' and self.P.resolve(n.get('fn') or '') in ('strtok_r', 'strtok') for n in g.nodes.values()) \
            or self.segfile(g) and not g.params and g.types[g.ret].get('k') == 'int'

    def segfile(self, g):
        return any(self.P.fns[x].file == g.file for x in self.name['join'])

    def key_extra(self, E, st):
        return frozenset(st.facts.items())

    def place(self, loc):
        """the place of the process's record that loc is, if any"""
        if loc == ('g', 'LIST'):
            return ('list', 0)
        if loc[0] == 'e' and loc[1] == ('g', 'LIST'):
            return ('list', loc[2][1] if loc[2][0] == 'c' else None)
        if loc[0] == 'f' and loc[3] == self.info and self.kind.get(loc[2]) == 'one':
            return ('one', loc[2])
        return None

    def on_load(self, E, st, loc, val, node, fr):
        p = self.place(loc)
        if p is not None:
            if p not in dict(st.r[0]):
                if fr.fn.types[fr.fn.nodes[node]['t']].get('k') == 'ptr':
                    self.bad.setdefault('outside', (E.where(node, fr), 'a place outside the list is read'))
                return None
            return tok(dict(st.r[0])[p])
        if loc[0] == 'f' and loc[3] == self.info:
            k = self.kind.get(loc[2])
            return ('&', ('g', 'LIST')) if k == 'list' else ('c', NPLACES) if k == 'number' else None
        if loc[0] == 'f':
            t = fr.fn.types[fr.fn.nodes[node]['t']]
            to = pointed(fr.fn.types, t, 1)
            if to is not None and (str(to.get('r')).split('@')[0] == self.info.split('@')[0] or loc[2] == 'barrier_info' and to.get('k') == 'void'):
                return ('&', ('g', 'INFO'))
            if loc[2] == 'barrier' and t.get('size') == 1:
                return ('c', 1)
        if loc[0] == 'g' and fr.fn.id not in self.inl and fr.fn is not self.f and self.segfile(fr.fn):
            return ('c', NPLACES)
        return None

    def put(self, st, p, v):
        d = dict(st.r[0])
        d[p] = None if v == C0 else self.barrier(v) or '?'
        st.r = (tuple(sorted(d.items())),) + st.r[1:]

    def on_store(self, E, st, loc, val, node, fr):
        p = self.place(loc)
        if p is not None:
            if p not in dict(st.r[0]):
                self.bad.setdefault('outside', (E.where(node, fr), 'a place outside the list is written'))
            else:
                self.put(st, p, val)

    def barrier(self, v):
        return chr(v[1] // 0x1000) if v[0] == 'c' and v[1] else None

    def on_call(self, E, st, fid, args, node, fr):
        k, j, l, bad = st.r
        kept = [x for _, x in k if x]
        if fid in self.name['join']:
            if self.byname is None:
                return [(st, C0)]
            if self.byname in kept:
                self.bad.setdefault('again', (E.where(node, fr), 'a barrier that the process keeps already is joined once more'))
            s2 = st.copy()
            s2.r = (k, j + (self.byname,), l, bad)
            return [(st, C0), (s2, tok(self.byname))]
        if fid in self.name['attach'] or fid in self.name['leave']:
            b = self.barrier(args[0])
            if b is None:
                return [(st, ('c', -1))]
            out = []
            for v in (-1, 2) if fid in self.name['attach'] else (-1, 0, 1):
                s2 = st.copy()
                if v >= 0:
                    s2.r = (k, j + (b,), l, bad) if fid in self.name['attach'] else (k, j, l + (b,), bad)
                    if fid in self.name['attach'] and b in kept:
                        self.bad.setdefault('again', (E.where(node, fr), 'a barrier that the process keeps already is joined once more'))
                else:
                    s2.r = (k, j, l, bad + 1)
                out.append((s2, ('c', v)))
            return out
        if fid in self.name['wait']:
            b = self.barrier(args[0])
            if b not in kept:
                self.bad.setdefault('wait', (E.where(node, fr), 'waits on a barrier that the process does not keep'))
            return [(st, C0)]
        g = self.P.fns.get(fid)
        if fid in ('memmove', 'memcpy') and len(args) == 3 and self.place(deref(args[0])) and self.place(deref(args[1])) is not None and args[2][0] == 'c':
            a, b, n = self.place(deref(args[0]))[1], self.place(deref(args[1]))[1], args[2][1] // 8
            if not 0 <= n <= NPLACES:
                self.bad.setdefault('outside', (E.where(node, fr), 'places outside the list are moved'))
                return [(st, args[0])]
            d = dict(k)
            src = [d.get(('list', b + i), '?') for i in range(n)]
            for i in range(n):
                if ('list', a + i) not in d or ('list', b + i) not in d:
                    self.bad.setdefault('outside', (E.where(node, fr), 'places outside the list are moved'))
                else:
                    d[('list', a + i)] = src[i]
            st.r = (tuple(sorted(d.items())), j, l, bad)
            return [(st, args[0])]
        if fid == 'free' and args[0] == ('&', ('g', 'INFO')):
            st.r = (tuple((p, None) for p, _ in k), j, l, bad)
            return [(st, C0)]
        if g is not None and self.segfile(g) and g.types[g.ret].get('k') == 'ptr' and g.params:
            return [(st, tok(self.found))]
        if g is None or self.inline(E, fid):
            return None
        return [(st, ('s', 'ret', fid, fr.ctx + (node,)))]

    def on_leave(self, E, st, fn, v, fr):
        if fr.up is None:
            self.ends.append((st.r, v))


def scenarios(rep, P, rec, f, inl, name, info):
    """the public operation f on every small list of kept barriers"""
    args, bar, nm = [], None, None
    for i, p in enumerate(f.params):
        t = pointed(f.types, f.types[p['t']], 1)
        if t is not None and str(t.get('r')).split('@')[0] == rec.split('@')[0]:
            bar = i
        elif t is not None and t.get('k') == 'int' and t.get('size') == 1:
            nm = i
        args.append(('s', 'P', p['n']))
    if any(P.resolve(f.nodes[c].get('fn') or '') in ('malloc', 'calloc') for c in f.calls) or not f.params or f.types[f.params[0]['t']].get('k') != 'ptr':
        return False
    one = [x['n'] for x in P.records[info]['fields'] if (pointed(P.records[info]['types'], x['ty'], 1) or {}).get('r') and
           str(pointed(P.records[info]['types'], x['ty'], 1)['r']).split('@')[0] == rec.split('@')[0]]
    if len(one) != 1:
        return False
    for dflt in ('D', None):
        for lst in ((), ('A',), ('A', 'B'), ('A', 'B', 'E')):
            places = tuple(sorted([(('one', one[0]), dflt)] + [(('list', i), (lst[i] if i < len(lst) else None)) for i in range(NPLACES)]))
            if nm is not None:
                cases = [(None, x, x) for x in lst] + [(None, 'C', 'C'), (None, None, 'C'), (None, None, None)]
            elif bar is not None:
                cases = [(x, None, 'D') for x in (None, 'D') + lst + ('C',) if x != 'D' or dflt]
            else:
                cases = [(None, None, None)]
            for b, found, byname in cases:
                if len(lst) == NPLACES and 'C' in (b, found, byname):
                    continue            # the segment has no more places than the list
                R = ListRule(P, f, rec, inl, name, info, places, byname, found)
                E = RefEngine(P, R, maxstates=2000, unroll=60)
                a = list(args)
                if bar is not None:
                    a[bar] = tok(b)
                if nm is not None:
                    a[nm] = ('&', ('g', 'NAME'))
                E.run(f, a)
                rep.analysed(E.covered)
                what = '%s, default %s, list %s, argument %s' % (f.name, dflt or '-', ''.join(lst) or '-', b or byname or '-')
                rep.count('scenario', what)
                for k, (w, msg) in R.bad.items():
                    rep.v('list-%s:%s' % (k, f.name), w, '%s (%s)' % (msg, what))
                before = sorted([dflt] * bool(dflt) + list(lst))
                for (k, j, l, bad), v in R.ends:
                    after = sorted(x for _, x in k if x)
                    want = list(before)
                    for x in j:
                        want.append(x)
                    extra = [x for x in l if x not in want or not want.remove(x) is None]
                    freed = not after and not j and (l or bad) and f.types[f.ret].get('k') != 'int'
                    if extra:
                        rep.v('list-twice:%s' % f.name, f.name, 'a barrier is left that is not kept any more (%s)' % what)
                    elif freed:
                        if len(want) > bad:
                            rep.v('list-left:%s' % f.name, f.name, 'the list is given up without leaving every barrier in it (%s)' % what)
                    elif after != sorted(want):
                        rep.v('list-kept:%s' % f.name, f.name, 'after joining %s and leaving %s the process keeps %s (%s)' % (''.join(j) or '-', ''.join(l) or '-', ''.join(after) or '-', what))
                    holes = [x for (w, i), x in k if w == 'list']
                    if None in holes and any(holes[holes.index(None):]):
                        rep.v('list-hole:%s' % f.name, f.name, 'a free place is left in the middle of the list, where searches end (%s)' % what)
                    if f.types[f.ret].get('k') == 'int' and v[0] == 'c' and (j or l or bad) and (v[1] >= 2 ** 31 or v[1] < 0) == bool(j or l):
                        rep.v('list-result:%s' % f.name, f.name, 'the result does not tell whether the barrier was joined or left (%s)' % what)
    return True
