"""Delivery of the notifications that a table operation decides (C14)."""
from flow import *
from names import *
from program import strip, walk
from dispatch import policy_table
import itertools

OWN, PA, PB = 200, 100, 300          # the calling process, one with a lower and one with a higher number
AFF = frozenset({1, 2})              # CPUs of the calling thread
MODES = {'async': 'MODE_ASYNC', 'polling': 'MODE_POLLING'}


def task_types(P):
    """(record of one task, record of the list of tasks)"""
    task = [r for r, d in P.records.items() if {'pid', 'cpuid', 'action'} <= {x['n'] for x in d['fields']} and len(d['fields']) == 3]
    if len(task) != 1:
        return None, None
    lst = set()
    for r, d in P.records.items():
        for x in d['fields']:
            t = x['ty']
            if t.get('k') == 'ptr' and d['types'][t['p']].get('r') == task[0]:
                lst.add(r.split('@')[0])
    return task[0], lst


def list_param(f, lst):
    for k, p in enumerate(f.params):
        t = f.types[p['t']]
        if t['k'] == 'ptr' and (f.types[t['p']].get('r') or '').split('@')[0] in lst:
            return k
    return None


def is_push(f, task, lst):
    k = list_param(f, lst)
    return k is not None and any(f.types[p['t']].get('r') == task for p in f.params)


class PushRule(Rule):
    """which kinds of tasks a table operation leaves in the list, per result"""
    keepconst = True

    def __init__(self, P, f, task, lst, memo):
        self.P, self.f, self.task, self.lst, self.memo = P, f, task, lst, memo
        self.bad, self.sites = [], set()
        self.pidp = next((p['n'] for p in f.params if f.types[p['t']].get('s') == 'pid_t'), None)

    def initial(self, E):
        return frozenset()

    def inline(self, E, fid):
        # a helper that adds the notice it is given is seen with the arguments of each caller
        g = self.P.fns[fid]
        if list_param(g, self.lst) is None or g.file != self.f.file or is_push(g, self.task, self.lst):
            return False
        push_summary(self.P, g, self.task, self.lst, self.memo)
        return bool(self.memo['bad'].get(fid))

    def on_call(self, E, st, fid, args, node, fr):
        g = self.P.fns.get(fid)
        if g is not None and fid in self.P.fns and self.inline(E, fid):
            return None
        if g is not None and not is_push(g, self.task, self.lst) and g.file == self.f.file and list_param(g, self.lst) is not None:
            summary = push_summary(self.P, g, self.task, self.lst, self.memo)
            pk = next((a for a, p in zip(args, g.params) if g.types[p['t']].get('s') == 'pid_t'), None)
            same = pk is not None and bool(E.known(st, ('cmp', '==', pk, ('s', 'P', self.pidp))))
            out = []
            for kinds, ret in summary:
                t = st.copy()
                t.r = st.r | {(w if same else 'other', a) for w, a in kinds}
                out.append((t, ret if ret is not None else ('s', 'ret', fid, fr.ctx + (node,))))
            return out
        if g is not None and is_push(g, self.task, self.lst):
            t = st.copy()
            v = next(a for a, p in zip(args, g.params) if g.types[p['t']].get('r') == self.task)
            get = lambda x: st.mem.get(('f', v[1], x, self.task)) if v[0] == 'obj' else None
            pid, act = get('pid'), get('action')
            self.sites.add(E.where(node, fr))
            if act is None or act[0] != 'c':
                self.bad.append((E.where(node, fr), 'a notification without a definite action'))
                return [(t, C0)]
            own = pid is not None and E.known(st, ('cmp', '==', pid, ('s', 'P', self.pidp)))
            t.r = st.r | {('own' if own else 'other', act[1])}
            return [(t, C0)]
        return None


def push_summary(P, f, task, lst, memo):
    if f.id not in memo:
        memo[f.id] = []
        memo.setdefault('bad', {})[f.id] = []
        R = PushRule(P, f, task, lst, memo)
        E = Engine(P, R, maxstates=400)
        outs = set()
        for st, ret in E.run(f):
            outs.add((st.r, ret if ret is not None and ret[0] == 'c' else None))
        memo[f.id] = sorted(outs, key=repr)
        memo.setdefault('covered', set()).update(E.covered)
        memo.setdefault('bad', {})[f.id] = R.bad
    return memo[f.id]


class DeliverRule(Rule):
    """one policy operation: the table operation answers with a list of tasks; what reaches the processes is collected.
    state: (owed, delivered, masks, operation)"""
    exact = True

    def __init__(self, P, f, summ, task, lst, mode, owned, keep):
        self.P, self.f, self.summ, self.task, self.lst = P, f, summ, task, lst
        self.mode, self.owned, self.keep = mode, owned, keep
        self.ends, self.ops = [], set()
        self.const = P.enumconst
        self.E_, self.D_ = P.enumconst['ENABLE_CPU'], P.enumconst['DISABLE_CPU']

    def initial(self, E):
        return ((), (), (), '')

    def key_extra(self, E, st):
        return None

    def inline(self, E, fid):
        g = self.P.fns[fid]
        return fid not in self.summ and (g.static or g.file == self.f.file) and len(g.nodes) < 900

    def on_load(self, E, st, loc, val, node, fr):
        if loc[0] == 'f' and loc[3] == 'SubProcessDescriptor' and loc[2] == 'id':
            return ('c', OWN)
        if loc[0] == 'f' and loc[3] == 'Options' and loc[2] == 'mode':
            return ('c', self.mode)
        return None

    # -- sets of CPUs
    def mask(self, st, v):
        if v[0] == '&':
            l = v[1]
            for k, s in st.r[2]:
                if k == l:
                    return s
            if l[0] == 'f' and l[3] == 'SubProcessDescriptor' and l[2] == 'process_mask':
                return AFF | {3} if self.owned else frozenset({5, 6})
        return None

    def setmask(self, st, v, s):
        if v[0] != '&':
            return
        d = dict(st.r[2])
        d[v[1]] = s
        st.r = st.r[:2] + (tuple(sorted(d.items(), key=repr)),) + st.r[3:]

    def on_store(self, E, st, loc, v, node, fr):
        if v == ('agg',):
            if loc[0] == 'v':
                self.setmask(st, ('&', loc), frozenset())

    def variants(self, kinds):
        """lists of tasks made of these kinds"""
        ks = sorted(kinds)
        if not ks:
            return [()]
        out = []
        for w, a in ks:
            if w == 'own':
                out += [((OWN, 1, a),), ((OWN, 1, a), (OWN, 2, a))]
            else:
                out += [((PA, 4, a),), ((PA, 4, a), (PA, 5, a)), ((PB, 4, a), (PB, 5, a), (PB, 6, a))]
        big = []
        for n, (w, a) in enumerate(ks):
            big += [(OWN, 1 + 2 * n, a)] if w == 'own' else [(PB, 20 + 4 * n, a), (PA, 21 + 4 * n, a)]
        for n, (w, a) in enumerate(ks):
            big += [(OWN, 2 + 2 * n, a)] if w == 'own' else [(PB, 22 + 4 * n, a), (PA, 23 + 4 * n, a)]
        out.append(tuple(big))
        return out

    def on_call(self, E, st, fid, args, node, fr):
        P = self.P
        g = P.fns.get(fid)
        if fid in self.summ:
            k = list_param(g, self.lst)
            L = args[k]
            out = []
            if L == C0:
                return [(st.copy(), ('s', 'ret', fid, fr.ctx + (node,)))]
            lrec = self.list_rec(g, k)
            self.ops.add(fid)
            for kinds, ret in self.summ[fid]:
                for tasks in self.variants(kinds):
                    t = st.copy()
                    base = deref(L)
                    items = ('s', 'P', 'ITEMS')
                    n = st.mem.get(('f', base, 'count', lrec))
                    n = n[1] if n is not None and n[0] == 'c' else 0
                    t.mem[('f', base, 'items', lrec)] = items
                    for x, (pid, cpu, a) in enumerate(tasks):
                        self.put(t, items, n + x, pid, cpu, a)
                    t.mem[('f', base, 'count', lrec)] = ('c', n + len(tasks))
                    t.r = (tuple(sorted(st.r[0] + tasks)),) + st.r[1:3] + (st.r[3] + fid + ' ',)
                    out.append((t, ret if ret is not None else ('s', 'ret', fid, fr.ctx + (node,))))
            return out
        if fid == 'qsort' and args[0] == ('s', 'P', 'ITEMS') and args[1][0] == 'c':
            n = args[1][1]
            key = self.sort_key(args[3])
            its = [self.item(st, x) for x in range(n)]
            if any(v is None for it in its for v in it):
                return None
            t = st.copy()
            its.sort(key=lambda it: it[{'pid': 0, 'cpuid': 1, 'action': 2}[key]][1])
            for x, it in enumerate(its):
                self.put(t, args[0], x, it[0][1], it[1][1], it[2][1])
            return [(t, C0)]
        cpu = lambda v: v[1] if v[0] == 'c' else repr(v)
        new = None
        if fid in ('enable_cpu', 'disable_cpu'):
            new = [(fid, OWN, cpu(args[1]))]
        elif fid in ('enable_cpu_set', 'disable_cpu_set'):
            s = self.mask(st, args[1])
            new = [(fid[:-4], OWN, c) for c in (sorted(s) if s is not None else ['some set'])]
        elif fid in ('shmem_async_enable_cpu', 'shmem_async_disable_cpu', 'shmem_cpuinfo__return_async_cpu'):
            new = [('enable_cpu' if 'enable' in fid else 'disable_cpu' if 'disable' in fid else 'give back', cpu(args[0]), cpu(args[1]))]
        elif fid in ('shmem_async_enable_cpu_set', 'shmem_async_disable_cpu_set', 'shmem_cpuinfo__return_async_cpu_mask'):
            s = self.mask(st, args[1])
            op = 'enable_cpu' if 'enable' in fid else 'disable_cpu' if 'disable' in fid else 'give back'
            new = [(op, cpu(args[0]), c) for c in (sorted(s) if s is not None else ['some set'])]
        if new is not None:
            t = st.copy()
            t.r = (st.r[0], tuple(sorted(st.r[1] + tuple(new), key=repr))) + st.r[2:]
            return [(t, ('s', 'ret', fid, fr.ctx + (node,)))]
        t = st.copy()
        ret = ('s', 'ret', fid, fr.ctx + (node,))
        if fid in ('CPU_ZERO', 'mu_zero'):
            self.setmask(t, args[0], frozenset())
        elif fid in ('CPU_SET', 'mu_set', 'CPU_CLR', 'mu_unset'):
            s = self.mask(st, args[1])
            if s is not None and args[0][0] == 'c':
                s = s | {args[0][1]} if fid in ('CPU_SET', 'mu_set') else s - {args[0][1]}
            else:
                s = None
            self.setmask(t, args[1], s)
        elif fid in ('CPU_COUNT', 'mu_count', 'mu_count_cpus'):
            s = self.mask(st, args[0])
            ret = ('c', len(s)) if s is not None else ret
        elif fid in ('CPU_ISSET', 'mu_isset'):
            s = self.mask(st, args[1])
            ret = ('c', int(args[0][1] in s)) if s is not None and args[0][0] == 'c' else ret
        elif fid in ('mu_or', 'mu_and', 'mu_substract', 'CPU_OR', 'CPU_AND'):
            a, b = self.mask(st, args[1]), self.mask(st, args[2])
            self.setmask(t, args[0], None if a is None or b is None else a | b if fid.lower().endswith('_or') else a & b if fid.lower().endswith('_and') else a - b)
        elif fid in ('pthread_getaffinity_np', 'sched_getaffinity'):
            self.setmask(t, args[-1], AFF)
        elif fid in ('mu_get_first_cpu', 'mu_get_next_cpu'):
            s = self.mask(st, args[0])
            if s is not None and (fid == 'mu_get_first_cpu' or args[1][0] == 'c'):
                r = [c for c in sorted(s) if fid == 'mu_get_first_cpu' or c > args[1][1]]
                ret = ('c', r[0] if r else -1)
            elif s is None:
                ret = ('c', -1)         # an empty set will do for sets that have no part in the deliveries
        elif g is not None and self.inline(E, fid):
            return None
        elif any(a[0] == '&' and a[1][0] == 'v' for a in args):
            for a in args:
                if a[0] == '&' and a[1][0] == 'v' and self.mask(st, a) is not None and fid.startswith('mu_get'):
                    self.setmask(t, a, None)
        return [(t, ret)]

    def sort_key(self, cmpf):
        f = self.P.fns.get(cmpf[1]) if cmpf[0] == 'fn' else None
        if f is not None:
            ms = {n['m'] for n in f.nodes.values() if n['k'] == 'MemberExpr'}
            if len(ms) == 1:
                return ms.pop()
        return min(self.P.records[self.task]['fields'], key=lambda x: x['off'])['n']

    def list_rec(self, g, k):
        t = g.types[g.params[k]['t']]
        r = g.types[t['p']]['r'].split('@')[0]
        return r

    def at(self, items, x):
        return ('d', items) if x == 0 else ('e', ('d', items), ('c', x))

    def put(self, t, items, x, pid, cpu, a):
        for l in [self.at(items, x)] + ([('e', ('d', items), C0)] if x == 0 else []):
            t.mem[('f', l, 'pid', self.task)] = ('c', pid)
            t.mem[('f', l, 'cpuid', self.task)] = ('c', cpu)
            t.mem[('f', l, 'action', self.task)] = ('c', a)

    def item(self, st, x):
        l = self.at(('s', 'P', 'ITEMS'), x)
        return [st.mem.get(('f', l, q, self.task)) for q in ('pid', 'cpuid', 'action')]

    def on_leave(self, E, st, fn, v, fr):
        if fr.up is None:
            self.ends.append((st.r, v))


def table_ops(P, task, lst):
    """operations of the CPU table that answer with a list of tasks"""
    files = {f.file for f in P.fns.values() for c in f.calls if (g := P.fns.get(P.resolve(f.nodes[c].get('fn') or ''))) is not None and is_push(g, task, lst) and f.file != g.file}
    return [f for f in P.fns.values() if not f.static and f.file in files and list_param(f, lst) is not None]


def check_c14(rep, progs, ex):
    rep.rule('For every operation of the CPU table the kinds of notifications it may leave (own or another process, switch on or off) are derived for each result. '
             'Every operation that calls one is then interpreted, in each mode, with every such result and several lists of notifications of those kinds: each '
             'notification of the calling process must be carried out, each of another process sent to that process (asynchronous mode; a switched off CPU is also '
             'given back in the table), once, and nothing else.  A process leaving a blocking call already runs on its CPUs: its own switch-on notices must not be '
             'repeated.  The messages to the helper thread are interpreted from sender to receiver, and the queue for all positions of its ends.')
    for cfg, P in progs.items():
        task, lst = task_types(P)
        if task is None:
            rep.v('task-record', 'program', 'the record of one notification was not found')
            continue
        names = {v: k.split('_')[0].lower() for k, v in P.enumconst.items() if k in ('ENABLE_CPU', 'DISABLE_CPU')}
        ops = table_ops(P, task, lst)
        summ, memo = {}, {}
        for f in ops:
            summ[f.id] = push_summary(P, f, task, lst, memo)
            rep.count('table_operation', f.name)
        rep.analysed(memo.get('covered', set()))
        for f in ops:
            for w, m in memo['bad'][f.id]:
                rep.v('action:%s' % f.name, w, m)
        table = policy_table(P)
        leaving = {P.resolve(v) for pol in table.values() for s, v in pol.items() if 'out_of_blocking' in s}
        users = {}
        for f in P.fns.values():
            for c in f.calls:
                o = P.resolve(f.nodes[c].get('fn') or '')
                if o in summ and f.file != P.fns[o].file:
                    users[f.id] = f
        roots = dict(users)
        # helpers are seen through the functions that use them
        grow = True
        while grow:
            grow = False
            for i, f in list(roots.items()):
                if f.static:
                    del roots[i]
                    for g in P.fns.values():
                        if g.file == f.file and any(P.resolve(g.nodes[c].get('fn') or '') == i for c in g.calls):
                            roots[g.id] = g
                            grow = True
        done = set()
        for f in sorted(roots.values(), key=lambda f: f.id):
            for mode, const in sorted(MODES.items()):
                for owned in ((True, False) if f.id in leaving else (True,)):
                    R = DeliverRule(P, f, summ, task, lst, P.enumconst[const], owned, False)
                    E = Engine(P, R, maxstates=5000, unroll=400, budget=3000000)
                    E.run(f, [('&', ('g', 'SPD')) if f.types[p['t']]['k'] == 'ptr' and f.types[f.types[p['t']]['p']].get('r') == 'SubProcessDescriptor' else ('s', 'P', p['n'])
                              for p in f.params])
                    rep.analysed(E.covered)
                    done |= R.ops
                    for (owed, got, _, op), ret in R.ends:
                        if op:
                            rep.count('delivery', '%s %s %s %s' % (f.name, mode, op, owed))
                        exp = []
                        for pid, cpu, a in owed:
                            if pid == OWN:
                                if a == R.E_ and f.id in leaving:
                                    continue
                                exp.append(('enable_cpu' if a == R.E_ else 'disable_cpu', pid, cpu))
                            elif mode == 'async':
                                exp.append(('enable_cpu' if a == R.E_ else 'disable_cpu', pid, cpu))
                                if a == R.D_:
                                    exp.append(('give back', pid, cpu))
                        have = list(got)
                        who = {OWN: 'the caller', PA: 'another process', PB: 'another process'}
                        for x in exp:
                            if x in have:
                                have.remove(x)
                            else:
                                rep.v('dropped:%s:%s:%s:%s' % (f.name, mode, x[0], 'own' if x[1] == OWN else 'other'), f.name,
                                      '%s mode: after %s(result %s) the notice "%s" for %s is not delivered' % (mode, op.strip() or 'the operation', ret[1] if ret and ret[0] == 'c' else '?', x[0], who[x[1]]))
                        for x in have:
                            if x[0] == 'disable_cpu' and x[1] == OWN and x[2] not in [c for p, c, a in owed if p == OWN]:
                                continue    # CPUs lost earlier
                            if f.id not in leaving and not owed:
                                continue
                            rep.v('invented:%s:%s:%s:%s' % (f.name, mode, x[0], 'own' if x[1] == OWN else 'other'), f.name,
                                  '%s mode: "%s" is delivered to %s for a CPU without that notice (%s)' % (mode, x[0], who.get(x[1], x[1]), op.strip()))
        for o in summ:
            if o not in done and any(P.resolve(f.nodes[c].get('fn') or '') == o for f in users.values() for c in f.calls):
                rep.v('unseen:%s' % P.fns[o].name, P.fns[o].name, 'no interpreted operation reaches this table operation')
        messages(rep, P)
    rep.need('table_operation', 12)
    rep.need('delivery', 60)


# ------------------------------------------------------------------------------------------------ messages to the helper thread
# request to another process -> what its helper thread must do with the same argument
SENT = {'shmem_async_enable_cpu': 'enable_cpu', 'shmem_async_enable_cpu_set': 'enable_cpu_set', 'shmem_async_disable_cpu': 'disable_cpu',
        'shmem_async_disable_cpu_set': 'disable_cpu_set', 'shmem_async_set_num_cpus': 'update_threads'}
CARRY = set(SENT.values())
NHELP, PIDS = 3, (71, 70, 72, 60)     # helpers in the segment, their process numbers and one without helper


def queue_records(P):
    """(record of the receiver, its queue member, record of a message)"""
    for r, d in P.records.items():
        names = {x['n'] for x in d['fields']}
        if {'q_head', 'q_tail', 'pid'} <= names:
            for x in d['fields']:
                t = x['ty']
                if t.get('k') == 'arr':
                    m = d['types'][t['p']].get('r')
                    if m and 'action' in {y['n'] for y in P.records[m]['fields']}:
                        return r, x['n'], m, t.get('c') or t.get('u') or t.get('n')
    return None


class SendRule(Rule):
    exact = True

    def __init__(self, P, f, Q, head, tail):
        self.P, self.f, self.Q, self.head, self.tail = P, f, Q, head, tail
        self.ends, self.noret = [], 0

    def initial(self, E):
        return ()                        # (index written, {member: value}, new head, receiver known to be pid, unlocked)

    def inline(self, E, fid):
        return self.P.fns[fid].static and self.P.fns[fid].file == self.f.file

    def on_load(self, E, st, loc, val, node, fr):
        if loc[0] == 'g':
            t = fr.fn.types[fr.fn.nodes[node]['t']]
            if t['k'] == 'int':
                return ('c', NHELP)
            if t['k'] == 'ptr':
                return ('s', 'P', loc[1])
        if loc[0] == 'f' and loc[3] == self.Q[0]:
            if loc[2] == 'pid' and self.number(loc[1]) is not None:
                return ('c', PIDS[self.number(loc[1])])
            if loc[2] == 'q_head' and not any(x[0] == 'head' for x in st.r):
                return ('c', self.head)
            if loc[2] == 'q_tail' and not any(x[0] == 'tail' for x in st.r):
                return ('c', self.tail)
            if loc[2] == 'joinable':
                return C0
        return None

    def slot(self, loc):
        """(receiver, index) of a place in the queue"""
        if loc[0] == 'e' and loc[1][0] == 'f' and loc[1][2] == self.Q[1]:
            return loc[1][1], loc[2]
        if loc[0] == 'f' and loc[2] == self.Q[1]:
            return loc[1], C0
        return None

    def on_store(self, E, st, loc, v, node, fr):
        if loc[0] == 'f' and loc[3] == self.Q[0] and loc[2] in ('q_head', 'q_tail'):
            st.r = st.r + ((loc[2][2:], v),)
            return
        if loc[0] == 'f' and loc[3] == self.Q[2]:
            s = self.slot(loc[1])
            if s is not None:
                mine = self.mine(E, st, s[0])
                st.r = st.r + (('put', s[1], loc[2], v, mine),)
            else:
                st.r = tuple(x for x in st.r if x[:3] != ('has', loc[1], loc[2])) + (('has', loc[1], loc[2], v),)
        elif v[0] == 'obj' and self.slot(loc) is not None:
            s = self.slot(loc)
            st.r = st.r + tuple(('put', s[1], x[2], x[3], self.mine(E, st, s[0])) for x in st.r if x[0] == 'has' and x[1] == v[1])
        elif v[0] == 'obj':
            st.r = st.r + tuple(('has', loc, x[2], x[3]) for x in st.r if x[0] == 'has' and x[1] == v[1])

    def number(self, base):
        """which of the helpers a record is"""
        while base[0] == '&' or base[0] == 'd' and base[1][0] == '&':
            base = base[1]
        if base[0] == 'e' and base[2][0] == 'c':
            return base[2][1]
        return 0 if base[0] == 'f' else None

    def mine(self, E, st, base):
        return self.number(base)

    def on_leave(self, E, st, fn, v, fr):
        if fr.up is None:
            self.ends.append(st.r)


class RecvRule(Rule):
    """the helper thread, with a message of one kind in its queue"""
    def __init__(self, P, f, Q, act, head, tail):
        self.P, self.f, self.Q, self.act, self.head, self.tail = P, f, Q, act, head, tail
        self.calls, self.taken, self.newtail = set(), set(), set()

    def inline(self, E, fid):
        return self.P.fns[fid].static and self.P.fns[fid].file == self.f.file

    def key_extra(self, E, st):
        return None

    slot = SendRule.slot

    def on_load(self, E, st, loc, val, node, fr):
        if loc[0] == 'f' and loc[3] == self.Q[2] and loc[2] == 'action':
            return ('c', self.act)
        if loc[0] == 'f' and loc[3] == self.Q[0]:
            if loc[2] == 'q_head':
                return ('c', self.head)
            if loc[2] == 'q_tail':
                return ('c', self.tail) if not isinstance(st.r, tuple) or not st.r else st.r
        if loc[0] == 'f' and loc[3] == self.Q[2]:
            return ('s', 'P', 'message.' + loc[2])
        return None

    def on_store(self, E, st, loc, v, node, fr):
        if v[0] == 'obj' and self.slot(v[1]) is not None:
            self.taken.add(self.slot(v[1])[1])
        if loc[0] == 'f' and loc[3] == self.Q[0] and loc[2] == 'q_tail':
            self.newtail.add(v)
            st.r = v

    def initial(self, E):
        return ()

    def on_call(self, E, st, fid, args, node, fr):
        if fid in CARRY:
            v = args[1]
            what = v[2][8:] if v[:2] == ('s', 'P') and v[2].startswith('message.') else \
                v[1][2] if v[0] == '&' and v[1][0] == 'f' and v[1][3] == self.Q[2] else repr(v)[:60]
            self.calls.add((fid, what))
            return []                   # one message is followed to its end
        return None


def payload(v):
    """the parameter a stored value comes from"""
    if v[0] == 's' and v[1] == 'P':
        return v[2]
    if v[0] == 'obj' and v[1][0] == 'd' and v[1][1][:2] == ('s', 'P'):
        return v[1][1][2]
    if v[0] == 's' and v[1] in ('ld', 'uns') and v[2][0] == 'd' and v[2][1][:2] == ('s', 'P'):
        return v[2][1][2]
    return None


def messages(rep, P):
    Q = queue_records(P)
    if Q is None:
        rep.v('queue-record', 'program', 'the queue of the helper thread was not found')
        return
    r, q, m, _ = Q
    d = P.records[r]
    size = next(x['ty']['size'] for x in d['fields'] if x['n'] == q) // P.records[m]['size']
    sent = {}
    for name, op in sorted(SENT.items()):
        f = P.fns.get(name)
        if f is None:
            rep.v('missing:%s' % name, name, 'the request does not exist')
            continue
        for head, tail, to in ((0, 0, 0), (1, 0, 1), (size - 2, 0, 2), (size - 1, 1, 0), (size - 1, 0, 1), (0, 1, 2), (3, 4, 0), (0, 0, 3)):
            R = SendRule(P, f, Q, head, tail)
            E = Engine(P, R, maxstates=400, unroll=20)
            E.run(f, [('c', PIDS[to])] + [('s', 'P', p['n']) for p in f.params[1:]])
            rep.analysed(E.covered)
            full = (head + 1) % size == tail
            got = False
            for e in R.ends:
                puts = [x for x in e if x[0] == 'put']
                if not puts:
                    if any(x[0] == 'head' for x in e):
                        rep.v('queue:%s' % name, name, 'the end of the queue moves without a message')
                    continue
                got = True
                if to == NHELP:
                    rep.v('receiver:%s' % name, name, 'a message for a process without a helper is stored in the queue of another')
                    continue
                rep.count('message', '%s %d/%d' % (name, head, tail))
                if full:
                    rep.v('queue-full:%s' % name, name, 'with the queue full, a waiting message is overwritten')
                    continue
                if any(x[1] != ('c', head) for x in puts):
                    rep.v('queue-slot:%s' % name, name, 'with the end of the queue at %d, the message is stored at %s' % (head, [val_name(x[1]) for x in puts if x[1] != ('c', head)][:1]))
                if [x[1] for x in e if x[0] == 'head'] != [('c', (head + 1) % size)]:
                    rep.v('queue-head:%s' % name, name, 'after the message the end of the queue is not the next place')
                if any(x[4] != to for x in puts):
                    rep.v('receiver:%s' % name, name, 'the message for the process of helper %d is stored in the queue of helper %s' % (to, [x[4] for x in puts if x[4] != to][0]))
                acts = {x[3] for x in puts if x[2] == 'action'}
                if len(acts) != 1 or next(iter(acts))[0] != 'c':
                    rep.v('message:%s' % name, name, 'the message has no definite action')
                    continue
                pay = {x[2] for x in puts if x[2] not in (None, 'action') and payload(x[3]) == f.params[1]['n']}
                if len(pay) != 1:
                    rep.v('payload:%s' % name, name, 'the argument is not in the message')
                    continue
                sent[name] = (next(iter(acts))[1], next(iter(pay)))
            if not got and not full and to < NHELP:
                rep.v('not-sent:%s' % name, name, 'no message is stored although the queue has room')
    # receivers: functions that read the queue, seen from the start of the thread
    starts = [f for f in P.fns.values() if f.static and f.ret is not None and len(f.params) == 1 and any(P.resolve(f.nodes[c].get('fn') or '') in CARRY for c in f.calls)
              and f.file == (P.fns['shmem_async_enable_cpu'].file if 'shmem_async_enable_cpu' in P.fns else None)]
    todo = [f for f in P.fns.values() if f.file == P.fns['shmem_async_enable_cpu'].file and f.types[f.ret]['k'] == 'ptr' and len(f.params) == 1 and
            f.types[f.params[0]['t']].get('c', '').replace(' ', '') == 'void*']
    if len(todo) != 1:
        rep.v('helper', 'program', 'the function of the helper thread was not found')
        return
    h = todo[0]
    for name, (act, fld) in sorted(sent.items()):
        for head, tail in ((1, 0), (5, 3), (0, size - 1), (size - 1, size - 2)):
            R = RecvRule(P, h, Q, act, head, tail)
            E = Engine(P, R, maxstates=400)
            E.run(h)
            rep.analysed(E.covered)
            rep.count('reception', '%s %d/%d' % (name, head, tail))
            if R.calls != {(SENT[name], fld)}:
                rep.v('handled:%s' % name, h.name, 'the message of %s (argument in %s) is answered by: %s' % (name, fld, ', '.join('%s(%s)' % x for x in sorted(R.calls)) or 'nothing'))
            if R.taken != {('c', tail)}:
                rep.v('taken', h.name, 'with the front of the queue at %d, the message taken is the one at %s' % (tail, [val_name(x) for x in R.taken]))
            if R.newtail != {('c', (tail + 1) % size)}:
                rep.v('tail', h.name, 'after a message the front of the queue is not the next place')
    rep.need('message', 20)
    rep.need('reception', 16)
