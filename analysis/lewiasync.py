"""Conservation of CPUs in the asynchronous pool (C31)."""
from fractions import Fraction
from flow import *
from program import AnalysisError
import shared

N = 3                                     # slots of the table that is interpreted
PIDS = (101, 102, 103)
POP, PUSH, REMOVE, SIZE, QINIT = ('queue_lewi_reqs_' + x for x in ('pop_ncpus', 'push', 'remove', 'size', 'init'))


# ------------------------------------------------------------------ linear terms
def lin(v):
    """linear form {atom: coefficient}, constant under None"""
    if v[0] == 'c':
        return {None: v[1]}
    if v[0] == 'op' and v[1] == 'neg':
        return scale(lin(v[2]), -1)
    if v[0] == 'op' and v[1] in '+-' and len(v) == 4:
        return add(lin(v[2]), lin(v[3]), 1 if v[1] == '+' else -1)
    if v[0] == 'op' and v[1] == '*' and is_c(v[3]):
        return scale(lin(v[2]), v[3][1])
    return {v: 1}


def scale(a, k):
    return {x: c * k for x, c in a.items()}


def add(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        r[x] = r.get(x, 0) + k * c
    return {x: c for x, c in r.items() if c or x is None}


def infeasible(ineqs):
    """ineqs: linear forms required >= 0.  Fourier-Motzkin elimination; True = no rational solution"""
    rows = {tuple(sorted(((repr(x), c) for x, c in r.items() if x is not None and c), key=str)) + (('', r.get(None, 0)),) for r in ineqs}
    rows = [dict(r) for r in rows]
    while True:
        for r in rows:
            if all(not c for x, c in r.items() if x) and r.get('', 0) < 0:
                return True
        vs = {x for r in rows for x, c in r.items() if x and c}
        if not vs:
            return False
        x = min(vs, key=lambda y: (sum(r.get(y, 0) > 0 for r in rows) * sum(r.get(y, 0) < 0 for r in rows), y))
        pos, neg, rest = [r for r in rows if r.get(x, 0) > 0], [r for r in rows if r.get(x, 0) < 0], [r for r in rows if not r.get(x, 0)]
        new = set()
        for p in pos:
            for q in neg:
                a, b = Fraction(1, p[x]), Fraction(1, -q[x])
                s = {}
                for y in set(p) | set(q):
                    c = p.get(y, 0) * a + q.get(y, 0) * b
                    if c or not y:
                        s[y] = c
                s.pop(x, None)
                new.add(tuple(sorted(s.items())))
        rows = rest + [dict(t) for t in new]
        if len(rows) > 4000:
            return False


def facts(st, E):
    """alternatives (lists of >= 0 forms) of the path's linear facts"""
    out, dis = [], []
    for (op, a, b), v in st.facts.items():
        d = add(lin(b), lin(a), -1)                    # b - a
        if op == '<':
            out.append(add(d, {None: -1}) if v else scale(d, -1))
        elif v:
            out += [d, scale(d, -1)]
        else:
            dis.append(d)
    atoms = {x for r in out + dis for x in r if x is not None}
    return out, dis, atoms


def entails(st, E, form, extra=()):
    """facts => form >= 0 (over the non-negative atoms); disequalities are split, at most three of them"""
    goal = add(scale(form, -1), {None: -1})
    near = {x for x in goal if x is not None}
    if not near and goal[None] < 0:
        return True
    out, dis, atoms = facts(st, E)
    out = [r for r in out if all(x is None or unsigned(x) for x in r)]
    dis = [r for r in dis if all(x is None or unsigned(x) for x in r)]
    if not near:
        near = {x for r in out + dis for x in r if x is not None}
    while True:                                            # the facts connected with the goal
        more = {x for r in out + dis if any(y in near for y in r) for x in r if x is not None}
        more |= {y for x in near if x[0] == 'op' and x[1] == '/' for y in lin(x[2]) if y is not None}
        if more <= near:
            break
        near |= more
    out = [r for r in out if any(y in near for y in r)]
    rel = [d for d in dis if any(y in near for y in d)]
    rel = [d for d in rel if not (len(d) <= 2 and d.get(None, 0) == 0)][:3]
    pos = {x for d in dis for x in d if x is not None and len([y for y in d if y is not None]) == 1 and not d.get(None, 0)}
    base = out + divisions(near) + [{x: 1, None: -1 if x in pos else 0} for x in near if unsigned(x)] + list(extra) + [goal]

    def rec(i, rows):
        if infeasible(rows):
            return True
        if i == len(rel):
            return False
        return rec(i + 1, rows + [add(rel[i], {None: -1})]) and rec(i + 1, rows + [add(scale(rel[i], -1), {None: -1})])
    return rec(0, base)


def unsigned(x):
    return x[0] == 's' and x[1] == 'uns' or x[0] == 'op' and x[1] == '/' and is_c(x[3]) and x[3][1] > 0


def divisions(near):
    r = []
    for x in near:
        if x[0] == 'op' and x[1] == '/':
            d = add(lin(x[2]), {x: x[3][1]}, -1)            # 0 <= a - c * (a / c) <= c - 1
            r += [d, add({None: x[3][1] - 1}, d, -1)]
    return r


def sym(*n):
    return ('s', 'uns', n, ())


# ------------------------------------------------------------------ interpretation
class PoolEngine(Engine):
    def mods(self, fid):
        return frozenset()

    def _limit(self, v, fr, i):
        return v if v is not None else super()._limit(v, fr, i)


class PoolRule(Rule):
    exact = True

    def __init__(self, P, inl, watch):
        self.P, self.inl, self.watch = P, inl, watch
        self.bad = {}
        self.sites = set()
        self.n = 0

    def initial(self, E):
        return ()

    def inline(self, E, fid):
        return fid in self.inl

    def key_extra(self, E, st):
        return tuple(st.mem.get(l) for l in self.watch), frozenset(st.facts.items())

    def on_store(self, E, st, loc, val, node, fr):
        if loc in self.watch:
            self.sites.add(E.where(node, fr))

    def on_call(self, E, st, fid, args, node, fr):
        n = fr.fn.nodes[node]
        if fid == POP:
            return self.pop(E, st, args, node, fr)
        if fid == PUSH:
            l = deref(args[0])
            if root_of(l)[0] == 'v':                       # a queue of the function's own
                st.r = st.r + (('push', root_of(l), args[1], args[2]),)
                self.surplus(E, st, args, node, fr)
            return [(st, C0)]
        if fid == SIZE:
            return [(st, sym('qsize', len(st.r), fr.ctx, node))]
        if fid == REMOVE:
            st.r = st.r + (('removed', args[1]),)
            return [(st, sym('removed', fr.ctx, node))]
        if fid == 'mu_get_system_size':
            return [(st, ('c', N))]
        if fid == QINIT:
            return [(st, C0)]
        return None

    def surplus(self, E, st, args, node, fr):
        """what is offered for reclaiming is at most what the process has beyond its own"""
        i = PIDS.index(args[1][1]) if is_c(args[1]) and args[1][1] in PIDS else None
        if i is None:
            return
        cur, ini = st.mem[self.cur[i]], st.mem[self.ini[i]]
        if not entails(st, E, add(add(lin(cur), lin(ini), -1), lin(args[2]), -1)):
            self.bad[('surplus', fr.fn.name)] = (E.where(node, fr), 'CPUs are offered for reclaiming that the process may not have beyond its own')

    def pop(self, E, st, args, node, fr):
        q, want, req, nreq = deref(args[0]), args[1], deref(args[2]), deref(args[3])
        own = root_of(q)[0] == 'v'
        if own:
            cand = [x for x in st.r if x[0] == 'push' and x[1] == root_of(q)]
        else:
            cand = [('push', None, st.mem[l], None) for l in self.pid if is_c(st.mem[l]) and st.mem[l] != C0 and ('removed', st.mem[l]) not in st.r]
        out = []
        base = req[1] if req[0] == 'e' else req
        rr = self.reqrec
        for k in range(min(len(cand), 2) + 1):
            for all_ in (True, False):
                if all_ and not k:
                    continue
                s = st.copy()
                rest = C0 if all_ else sym('rest', fr.ctx, node)
                if not k:
                    rest = want
                left = lin(want)
                for j in range(k):
                    e = ('e', base, ('c', j))
                    s.mem[('f', e, 'pid', rr)] = cand[j][2]
                    if j == k - 1:
                        h = E.simp('-', want, rest) or ('op', '-', want, rest)
                        for jj in range(j):
                            h = ('op', '-', h, s.mem[('f', ('e', base, ('c', jj)), 'howmany', rr)])
                    else:
                        h = sym('H', j, fr.ctx, node)
                    s.mem[('f', e, 'howmany', rr)] = h
                s.mem[nreq] = ('c', k)
                s.r = tuple(x for x in s.r if x[0] != 'pop') + (('pop', own, k, all_),)
                # each amount popped is at least one and, from the process's own queue, at most what was pushed
                ok = s
                for j in range(k):
                    h = s.mem[('f', ('e', base, ('c', j)), 'howmany', rr)]
                    ok = ok and E.assume(ok, ('<', C0, h), True)
                    if ok is not None and own:
                        ok = E.assume(ok, ('<', cand[j][3], h), False)
                if ok is not None and k and not all_:
                    ok = E.assume(ok, ('<', C0, rest), True)
                if ok is not None:
                    out.append((ok, rest))
        return out


def check_c31(rep, progs, ex):
    rep.rule('every public function of the asynchronous pool is interpreted, helpers of the file inlined, on tables of three slots (some free, the caller being '
             'the first one, another one or none, its slot cached or not) with symbolic numbers of CPUs, any outcome of the request queue, and the linear '
             'facts of the path kept: at every return, idle CPUs + the CPUs of all processes - the CPUs they brought in is unchanged; no counter can become '
             'negative; what is reclaimed from a process is at most what it has beyond its own; and the numbers reported to the caller and in the list of '
             'notifications are the ones recorded')
    for cfg, P in progs.items():
        init = P.fn('shmem_lewi_async__init')
        mod = [m for m in shared.shmem_modules(P) if m["fn"].file == init.file]
        if not mod:
            raise AnalysisError('module of the asynchronous pool not found')
        rec = mod[0]['record']
        shd = mod[0]['shdata']
        flds = {f['n']: f for f in P.records[rec]['fields']}
        prec = [r for r in P.records if {'current_ncpus', 'initial_ncpus', 'pid'} <= {f['n'] for f in P.records[r]['fields']}]
        rr = [r for r in P.records if {'pid', 'howmany'} == {f['n'] for f in P.records[r]['fields']}]
        if 'idle_cpus' not in flds or not prec or not rr:
            raise AnalysisError('records of the asynchronous pool not found')
        prec, rr = prec[0], rr[0]
        S = ('g', 'shared segment')
        idle = ('f', S, 'idle_cpus', rec)
        slot = [('e', ('f', S, 'processes', rec), ('c', i)) for i in range(N)]
        pid = [('f', s, 'pid', prec) for s in slot]
        cur = [('f', s, 'current_ncpus', prec) for s in slot]
        ini = [('f', s, 'initial_ncpus', prec) for s in slot]
        att = ('f', S, 'attached_nprocs', rec)
        head = ('f', S, 'proc_list_head', rec)
        myp = [g for g in P.globals if g.endswith('@' + init.file.split('/')[-1]) and rec_of_ptr(P, g) == prec]
        nmax = [g for g in P.globals if g.endswith('@' + init.file.split('/')[-1]) and int_var(P, g)]
        inl = {f.id for f in P.fns.values() if f.file == init.file and f.static} | \
              {f.id for f in P.fns.values() if f.name in ('min_uint', 'max_int', 'min_int', 'max_uint')} | \
              {f.id for f in P.fns.values() if f.static and f.file.endswith('.h') and len(f.nodes) < 60}
        files = [f for f in sorted(P.fns.values(), key=lambda x: x.id) if f.file == init.file and not f.static]
        todo = [f for f in files if touches(P, f, {'idle_cpus', 'current_ncpus', 'initial_ncpus', 'processes', 'requests'})]
        for f in todo:
            R = PoolRule(P, inl, [idle] + pid + cur + ini)
            R.pid, R.cur, R.ini, R.reqrec = pid, cur, ini, rr
            R.shm = lambda t: any(op == '==' and not v and b == C0 and a[0] == 's' and a[1] in ('ld', 'uns') and a[2] == ('g', mod[0]['handler'])
                                  for (op, a, b), v in t.facts.items())
            for used in ((1, 1, 1), (1, 1, 0), (1, 0, 1), (0, 1, 0), (0, 0, 0)):
                for mine in (None, 0, 1):
                    if mine is not None and not used[mine]:
                        continue
                    for caller in (PIDS[0], PIDS[1], 999):
                        if f.id == init.id and caller != 999 or f.id != init.id and not any(used) or f.id != init.id and caller == 999 and used != (1, 1, 0):
                            continue
                        st = State(r=())
                        st.mem[('g', shd)] = ('&', S)
                        st.mem[idle] = sym('idle')
                        for i in range(N):
                            st.mem[pid[i]] = ('c', PIDS[i] if used[i] else 0)
                            st.mem[cur[i]] = sym('current', i) if used[i] else C0
                            st.mem[ini[i]] = sym('initial', i) if used[i] else C0
                        st.mem[att] = ('c', sum(used))
                        st.mem[head] = ('c', max([i + 1 for i in range(N) if used[i]] or [0]))
                        for g in myp:
                            st.mem[('g', g)] = C0 if mine is None else ('&', slot[mine])
                        for g in nmax:
                            if not is_counter(g):
                                st.mem[('g', g)] = ('c', N)
                        E = PoolEngine(P, R, maxstates=3000, unroll=3000)
                        R.E = E
                        args, outs_ = [], {}
                        for i, p in enumerate(f.params):
                            ty = f.types[p['t']]
                            if ty['k'] == 'ptr' and f.types[ty['p']].get('k') == 'rec':
                                args.append(('&', ('e', ('g', 'requests'), C0)))
                                outs_['req'] = i
                            elif ty['k'] == 'ptr' and f.types[ty['p']].get('k') == 'int' and f.types[ty['p']].get('size') == 4:
                                args.append(('&', ('g', 'out:%d' % i)))
                                if outs_.get('req') == i - 1 and i:
                                    outs_['n'] = i
                                elif p['n'] == 'new_ncpus':
                                    outs_['new'] = i
                            elif i == 0 and ty['k'] == 'int':
                                args.append(('c', caller))
                            elif ty['k'] == 'int':
                                args.append(sym('arg', p['n']))
                            else:
                                args.append(('s', 'P', p['n']))
                        before = add(sum_(st, idle, cur, ini), {})
                        res = E.run(f, args, st)
                        rep.analysed(E.covered)
                        rep.count('scenario', '%s:%s:%s:%s' % (f.name, used, mine, caller))
                        if not res and used != (0, 0, 0):
                            raise AnalysisError('%s: no path returns' % f.name)
                        for t, v in res:
                            judge(rep, R, E, f, t, v, before, used, caller, idle, pid, cur, ini, outs_, rr)
            for s in R.sites:
                rep.count('update', s)
            rep.count('function', f.name)
            for (k, w), (where, m) in sorted(R.bad.items()):
                rep.v('%s:%s' % (k, w), where, '%s: %s' % (f.name, m))
        queue_ops(rep, P, rr)
    rep.need('function', 9)
    rep.need('queue scenario', 30)
    rep.need('update', 15)
    rep.need('scenario', 200)


def judge(rep, R, E, f, t, v, before, used, caller, idle, pid, cur, ini, outs, rr):
    def bad(k, m):
        R.bad.setdefault((k, f.name), (f.file, m))
    pops = [x for x in t.r if x[0] == 'pop']
    gone = sum(1 for i in range(N) if used[i] and t.mem.get(pid[i]) == C0)
    failed = any(x[1] and not x[3] for x in pops)
    if gone and failed:
        return                              # it leaves although the others could not give back what they owe (reported by the queue)
    for i in range(N):
        if is_c(t.mem.get(pid[i], sym('lost', 'pid', i))) and t.mem[pid[i]] == C0:
            t.mem[cur[i]] = t.mem[ini[i]] = C0
    for l in [idle] + cur + ini:
        if l not in t.mem:
            bad('lost', 'a counter of the pool is overwritten by something that is not a number of CPUs')
            return
    if not any(used):
        before = {None: 0}
    d = add(sum_(t, idle, cur, ini), before, -1)
    if not (entails(t, E, d) and entails(t, E, scale(d, -1))):
        sign = 'the numbers do not balance'
        bad('balance', 'idle CPUs + CPUs of the processes - CPUs they brought in changes by (%s) on some path (slots in use %s, caller %s, result %s)'
            % (show(d), used, caller, v if is_c(v) else '-'))
        return
    for l, n in [(idle, 'the idle CPUs')] + [(c, 'the CPUs of process %d' % PIDS[i]) for i, c in enumerate(cur)]:
        if not entails(t, E, lin(t.mem[l])):
            bad('negative', '%s can become negative (%s) on some path' % (n, show(lin(t.mem[l]))))
            return
    me = PIDS.index(caller) if caller in PIDS and used[PIDS.index(caller)] else None
    if f.name.endswith('__finalize') and me is not None and not gone and R.shm(t):
        bad('stays', 'the process is still registered when it has left')
    ok = is_c(v) and v[1] >= 0
    me = PIDS.index(caller) if caller in PIDS and used[PIDS.index(caller)] else None
    if ok and me is not None and 'new' in outs and v[1] in (0, 1):
        o = t.mem.get(('g', 'out:%d' % outs['new']))
        if o is not None and not gone:
            dd = add(lin(o), lin(t.mem[cur[me]]), -1)
            if not (entails(t, E, dd) and entails(t, E, scale(dd, -1))):
                bad('reported', 'the number of CPUs given to the caller (%s) is not the one recorded (%s)' % (show(lin(o)), show(lin(t.mem[cur[me]]))))
    if 'n' in outs and v == C0:
        k = t.mem.get(('g', 'out:%d' % outs['n']))
        if k is not None and is_c(k):
            for j in range(k[1]):
                e = ('e', ('g', 'requests'), ('c', j))
                p, h = t.mem.get(('f', e, 'pid', rr)), t.mem.get(('f', e, 'howmany', rr))
                if p is None or h is None or not is_c(p) or p[1] not in PIDS:
                    continue
                dd = add(lin(h), lin(t.mem[cur[PIDS.index(p[1])]]), -1)
                if p[1] != caller and not (entails(t, E, dd) and entails(t, E, scale(dd, -1))):
                    bad('notified', 'the number of CPUs notified to another process (%s) is not the one recorded for it (%s)'
                        % (show(lin(h)), show(lin(t.mem[cur[PIDS.index(p[1])]]))))


def sum_(st, idle, cur, ini):
    s = lin(st.mem[idle])
    for c, i in zip(cur, ini):
        s = add(add(s, lin(st.mem[c])), lin(st.mem[i]), -1)
    return s


def show(d):
    def nm(x):
        if x is None:
            return ''
        n = x[2] if x[0] == 's' else x
        n = n if isinstance(n, tuple) else (n,)
        return '.'.join(str(y) for y in n[:2] if not isinstance(y, tuple))
    return ' '.join('%+d%s' % (c, '*' + nm(x) if x is not None else '') for x, c in d.items() if c) or '0'


def rec_of_ptr(P, g):
    G = P.globals[g]
    t = G['types'][G['t']]
    if t.get('k') == 'ptr' and G['types'][t['p']].get('k') == 'rec':
        return G['types'][t['p']].get('r')


def int_var(P, g):
    G = P.globals[g]
    return G['types'][G['t']].get('k') == 'int'


def is_counter(g):
    return 'attached' in g


# ------------------------------------------------------------------ the queue of requests itself
class QueueRule(Rule):
    exact = True

    def __init__(self, P, inl, q, qrec, rrec):
        self.inl, self.q, self.qrec, self.rrec = inl, q, qrec, rrec

    def initial(self, E):
        return ()

    def inline(self, E, fid):
        return fid in self.inl

    def on_call(self, E, st, fid, args, node, fr):
        if fid == 'qsort':                                  # any order will do
            return [(st, C0)]
        if fid in ('memset', '__builtin_memset') and deref(args[0]) == self.q:
            st.mem[('f', self.q, 'head', self.qrec)] = C0
            return [(st, args[0])]
        return None

    def key_extra(self, E, st):
        return tuple(sorted((repr(l), v) for l, v in st.mem.items() if l[0] == 'f' and root_of(l) in (root_of(self.q), ('g', 'requests')))), \
            frozenset(st.facts.items())


def content(st, q, qrec, rrec):
    """{pid: number} of the queue, or None if it is not a set of entries with known processes"""
    h = st.mem.get(('f', q, 'head', qrec))
    if h is None or not is_c(h) or h[1] < 0:
        return None
    r = {}
    for i in range(h[1]):
        e = ('e', ('f', q, 'queue', qrec), ('c', i))
        p, n = st.mem.get(('f', e, 'pid', rrec)), st.mem.get(('f', e, 'howmany', rrec))
        if p is None or not is_c(p) or n is None or p[1] in r:
            return None
        r[p[1]] = lin(n)
    return r


def same(t, E, a, b):
    d = add(a, b, -1)
    return entails(t, E, d) and entails(t, E, scale(d, -1))


def queue_ops(rep, P, rrec):
    qrec = [r for r in P.records if {'head', 'queue'} <= {f['n'] for f in P.records[r]['fields']} and len(P.records[r]['fields']) == 2 and
            any(r == x for x in (rec_of_param(P, POP),))]
    if not qrec:
        raise AnalysisError('record of the request queue not found')
    qrec = qrec[0]
    q = ('g', 'queue')
    inl = {f.id for f in P.fns.values() if f.file == P.fns[POP].file} | {f.id for f in P.fns.values() if f.static and f.file.endswith('.h') and len(f.nodes) < 60}
    bad = {}
    for name in (POP, PUSH, REMOVE, SIZE, QINIT, 'queue_lewi_reqs_get'):
        f = P.fns.get(name)
        if f is None:
            raise AnalysisError('%s not found' % name)
        for n in range(4):
            for who in (201, 202, 209) if name in (PUSH, REMOVE, 'queue_lewi_reqs_get') else (None,):
                R = QueueRule(P, inl, q, qrec, rrec)
                E = PoolEngine(P, R, maxstates=3000, unroll=3000)
                st = State(r=())
                st.mem[('f', q, 'head', qrec)] = ('c', n)
                for i in range(n):
                    e = ('e', ('f', q, 'queue', qrec), ('c', i))
                    st.mem[('f', e, 'pid', rrec)] = ('c', 201 + i)
                    st.mem[('f', e, 'howmany', rrec)] = sym('queued', i)
                    st = E.assume(st, ('<', C0, sym('queued', i)), True)
                args = []
                for i, p in enumerate(f.params):
                    ty = f.types[p['t']]
                    if i == 0:
                        args.append(('&', q))
                    elif ty['k'] == 'ptr' and f.types[ty['p']].get('k') == 'rec':
                        args.append(('&', ('e', ('g', 'requests'), C0)))
                    elif ty['k'] == 'ptr':
                        args.append(('&', ('g', 'n')))
                    elif i == 1 and who:
                        args.append(('c', who))
                    else:
                        args.append(sym('arg', p['n']))
                num = args[1] if name == POP else args[2] if name == PUSH else None
                before = content(st, q, qrec, rrec)
                for t, v in E.run(f, args, st):
                    if entails(t, E, {None: -1}):
                        continue                            # this path is impossible
                    after = content(t, q, qrec, rrec)
                    ctx = '%d entries, process %s' % (n, who)
                    if after and any(not entails(t, E, add(h, {None: -1})) for h in after.values()):
                        bad.setdefault((name, 'zero'), (f, 'leaves a request for no CPUs in the queue (%s)' % ctx))
                        continue
                    if name == QINIT:
                        if after != {}:
                            bad.setdefault((name, 'init'), (f, 'the queue is not empty after its initialisation'))
                        continue
                    if after is None:
                        bad.setdefault((name, 'broken'), (f, 'leaves the queue with an undefined or repeated entry (%s)' % ctx))
                        continue
                    want = dict(before)
                    if name == POP:
                        k = t.mem.get(('g', 'n'))
                        if k is None or not is_c(k):
                            bad.setdefault((name, 'n'), (f, 'the number of notifications is not given'))
                            continue
                        tot = lin(v)
                        for j in range(k[1]):
                            e = ('e', ('g', 'requests'), ('c', j))
                            p, h = t.mem.get(('f', e, 'pid', rrec)), t.mem.get(('f', e, 'howmany', rrec))
                            if p is None or h is None or not is_c(p) or p[1] not in want:
                                bad.setdefault((name, 'pid'), (f, 'hands CPUs to something that is not in the queue (%s)' % ctx))
                                break
                            tot = add(tot, lin(h))
                            want[p[1]] = add(want[p[1]], lin(h), -1)
                        else:
                            if not same(t, E, tot, lin(num)):
                                bad.setdefault((name, 'sum'), (f, 'CPUs handed out + CPUs returned differ from the CPUs given by %s (%s)' % (show(add(tot, lin(num), -1)), ctx)))
                            if not entails(t, E, lin(v)):
                                bad.setdefault((name, 'neg'), (f, 'the CPUs returned can be negative (%s)' % ctx))
                            if k[1] and not entails(t, E, add(lin(args[4]), {None: k[1]}, -1)):
                                bad.setdefault((name, 'max'), (f, 'more notifications than fit (%s)' % ctx))
                    elif name == PUSH:
                        if is_c(v) and v[1] == 0:
                            want[who] = add(want.get(who, {None: 0}), lin(num))
                            if entails(t, E, scale(lin(num), -1)):      # zero: the request is withdrawn
                                want[who] = {None: 0}
                    elif name == REMOVE:
                        if not same(t, E, lin(v), before.get(who, {None: 0})):
                            bad.setdefault((name, 'ret'), (f, 'does not return what it removes (%s)' % ctx))
                        want.pop(who, None)
                    elif name == SIZE:
                        if not same(t, E, lin(v), {None: n}):
                            bad.setdefault((name, 'ret'), (f, 'is not the number of entries (%s)' % ctx))
                    elif not same(t, E, lin(v), before.get(who, {None: 0})):
                        bad.setdefault((name, 'ret'), (f, 'does not return the number asked for (%s)' % ctx))
                    for p in set(want) | set(after):
                        if not same(t, E, want.get(p, {None: 0}), after.get(p, {None: 0})):
                            bad.setdefault((name, 'entry'), (f, 'the request of a process becomes %s instead of %s (%s)'
                                                             % (show(after.get(p, {None: 0})), show(want.get(p, {None: 0})), ctx)))
                rep.count('queue scenario', '%s:%d:%s' % (name, n, who))
                rep.analysed(E.covered)
    for (n, k), (f, m) in sorted(bad.items()):
        rep.v('queue:%s:%s' % (n, k), f.file, '%s: %s' % (n, m))


def rec_of_param(P, fid):
    f = P.fns[fid]
    ty = f.types[f.params[0]['t']]
    return f.types[ty['p']].get('r')


def touches(P, f, names, seen=None):
    seen = seen if seen is not None else set()
    if f.id in seen:
        return False
    seen.add(f.id)
    if any(n['k'] == 'MemberExpr' and n.get('m') in names for n in f.nodes.values()):
        return True
    for c in f.calls:
        g = P.fns.get(P.resolve(f.nodes[c].get('fn') or ''))
        if g is not None and g.static and g.file == f.file and touches(P, g, names, seen):
            return True
    return False
