"""What the death of a process leaves behind (C16)."""
import itertools
from flow import *
from names import *
from program import AnalysisError, strip, walk
import barrier
import shared

DEAD, LIVE, LATER = 4242, 77, 5151


def pid_fields(P, top):
    """pid fields of the records that make up a shared segment: {record: [field]}"""
    out, todo, seen = {}, [top], set()
    while todo:
        r = todo.pop()
        if r in seen or r not in P.records:
            continue
        seen.add(r)
        for f in P.records[r]['fields']:
            t = f['ty']
            ts = P.records[r]['types']
            while t['k'] == 'arr':
                t = ts[t['p']] if not isinstance(ts, dict) else ts.get(t['p'], ts.get(str(t['p'])))
            if t.get('s') == 'pid_t':
                out.setdefault(r, []).append(f['n'])
            if t['k'] == 'rec' and t.get('r') and not t['r'].startswith(('cpu_set_t', 'pthread', 'queue_')):
                todo.append(t['r'])
    return out, seen


class Trace(Rule):
    """effects on the shared segment when every pid field holds what the scenario says.
    r = (effects so far, places that still hold the dead pid)"""
    exact = True

    def __init__(self, P, recs, pids, top, scen, inl, pidval, slots=1):
        self.slots = slots
        self.P, self.recs, self.pids, self.top, self.scen, self.inl, self.pidval = P, recs, pids, top, scen, inl, pidval
        self.where_ = {}
        self.first = None

    def initial(self, E):
        return (frozenset(), frozenset())

    def inline(self, E, fid):
        return fid in self.inl

    def key_extra(self, E, st):
        return frozenset(st.facts.items())

    def add(self, E, st, tok, node, fr):
        self.where_.setdefault(tok, (E.where(node, fr), fr.fn.id))
        st.r = (st.r[0] | {tok}, st.r[1])

    def on_load(self, E, st, loc, val, node, fr):
        if loc[0] == 'f' and loc[3] in self.recs:
            if loc[2] in self.pids.get(loc[3], ()):
                if is_c(val):
                    return None
                v = self.scen.get((loc[3], loc[2]))
                if index_of(loc) == 1:
                    v = LIVE                    # the second place always belongs to somebody else
                if v is None:
                    return None
                if v == DEAD:
                    st.r = (st.r[0], st.r[1] | {loc})
                return ('c', v)
            if loc[3] == self.top and not is_c(val) and fr.fn.types[fr.fn.nodes[node]['t']]['k'] == 'int':
                return ('c', self.slots)
        return None

    def gone(self, st, loc):
        """the place is overwritten: it no longer holds the dead pid"""
        st.r = (st.r[0], frozenset(x for x in st.r[1] if x != loc and not under(x, loc)))

    def on_store(self, E, st, loc, val, node, fr):
        root = root_of(loc)
        if root[0] == 'v':
            return
        if index_of(loc) == 1:
            self.add(E, st, ('neighbour', loc[3] if loc[0] == 'f' else '', loc[2] if loc[0] == 'f' else ''), node, fr)
            return
        if loc[0] == 'f' and loc[3] in self.recs:
            kind = 'mask' if val[0] == 'mask' else 'store'
            self.add(E, st, (kind, loc[3], loc[2]), node, fr)
            if val[0] != 'mask' and not (is_c(val) and val[1] == DEAD):
                self.gone(st, loc)
                if (val == ('agg',) or val[0] == 'obj'):
                    self.gone(st, loc)
            return
        if val == ('agg',) or val[0] == 'obj':
            r = self.whole(fr, node)
            if r in self.recs:
                self.add(E, st, ('all', r), node, fr)
                self.gone(st, loc)
                if r == self.top:
                    st.r = (st.r[0], frozenset())

    def whole(self, fr, node):
        f = fr.fn
        n = f.nodes[node]
        i = strip(f, n['ch'][1]) if n['k'] == 'CallExpr' and len(n['ch']) > 1 else node
        t = f.types[f.nodes[i]['t']] if 't' in f.nodes[i] else None
        if t is not None and t['k'] == 'ptr':
            t = f.types[t['p']]
        return t.get('r') if t else None

    def on_call(self, E, st, fid, args, node, fr):
        c = self.P.fns.get(fid)
        if fid in self.inl:
            return None
        for k, a in enumerate(args):
            if a[0] == '&':
                l = a[1]
                if l[0] == 'f' and l[3] in self.recs and root_of(l)[0] != 'v':
                    if fid.startswith('queue_') or c is not None and c.base() == 'queues.c':
                        if any(w in fid for w in ('_remove', '_clear')):
                            own = any(x == self.pidval for x in args[k + 1:]) or '_clear' in fid
                            self.add(E, st, ('queue' if own else 'queue of another', l[3], l[2]), node, fr)
                            break
                    elif fid.startswith('mu_') and k == 0 and c is not None and c.ret is not None and c.types[c.ret]['k'] == 'void':
                        self.add(E, st, ('mask', l[3], l[2]), node, fr)
                        break
                    elif fid.startswith('__sync_') and k == 0:
                        self.add(E, st, ('store', l[3], l[2]), node, fr)
                        break
        return None


def index_of(loc):
    while loc[0] in ('f', 'e'):
        if loc[0] == 'e' and loc[2] == C1:
            return 1
        loc = loc[1]
    return 0


def under(x, loc):
    while x[0] in ('f', 'e'):
        if x == loc:
            return True
        x = x[1]
    return x == loc


def inside(P, r, top):
    """the records embedded in a record"""
    out, todo = set(), [top]
    while todo:
        x = todo.pop()
        if x in out or x not in P.records:
            continue
        out.add(x)
        ts = P.records[x]['types']
        for f in P.records[x]['fields']:
            t = f['ty']
            while t['k'] == 'arr':
                t = ts[t['p']] if not isinstance(ts, dict) else ts.get(t['p'], ts.get(str(t['p'])))
            if t['k'] == 'rec' and t.get('r'):
                todo.append(t['r'])
    return r in out


def covered(tok, toks, P):
    if tok in toks:
        return True
    if tok[0] != 'queue of another' and any(t[0] == 'all' and inside(P, tok[1], t[1]) for t in toks):
        return True
    if tok[0] in ('store', 'mask'):
        return ('all', tok[1]) in toks or ('store', tok[1], tok[2]) in toks or ('mask', tok[1], tok[2]) in toks
    return False


def show(t):
    if t[0] == 'all':
        return 'the whole record ' + t[1].split('@')[0]
    return {'store': 'field', 'mask': 'mask', 'queue': 'request queue', 'queue of another': 'request queue (of another process)'}[t[0]] + ' %s.%s' % (t[1].split('@')[0], t[2])


def run(P, m, f, recs, pids, scen, inl, preset, which, slots):
    pid = ('c', DEAD)
    args, k = [], 0
    for p in f.params:
        t = f.types[p['t']]
        if t.get('s') == 'pid_t' or which == 'cleanup' and t['k'] == 'int':
            args.append(pid)
        elif t['k'] == 'bool':
            args.append(C0)             # stolen CPUs are not returned
        else:
            args.append(('s', 'P', p['n'] or 'p%d' % len(args)))
    rule = Trace(P, recs, pids, m['record'], scen, inl, pid, slots)
    E = Engine(P, rule, maxstates=3000, maxinline=5, budget=2000000, unroll=50)
    st = State(r=rule.initial(E))
    base = None
    for g, v in preset.items():
        st.mem[('g', g)] = v if v != C1 else ('c', slots)
    s = E.assume(st, ('!=', ('s', 'P', 'handler'), C0), True)
    s = E.assume(s, ('!=', ('s', 'P', 'segment'), C0), True)
    outs = E.run(f, args=args, st=s)
    return rule, outs, E


def scenario(rep, P, cfg, bad, m, base, cl, fins, recs, pids, scen, vals, slots, statics, early, preset):
    names = {DEAD: 'dead', LIVE: 'live', LATER: 'live', 0: 'nobody'}
    what = ', '.join('%s=%s' % (k[1], names[v]) for k, v in scen.items()) or 'no pid recorded'
    somebody = LIVE in vals or LATER in vals or slots == 2
    rc, oc, E = run(P, m, cl, recs, pids, scen, statics - {f.id for f in fins}, early, 'cleanup', slots)
    rep.analysed(E.covered)
    rep.count('scenarios', (cfg, base, vals, slots))
    if not oc:
        raise AnalysisError('no path through the cleanup of %s' % base)
    may = set().union(*[st.r[0] for st, ret in oc])
    must = set.intersection(*[set(st.r[0]) for st, ret in oc])
    where = cl.file.split('/repo/')[-1]
    for st, ret in oc:
        for loc in st.r[1]:
            if scen.get((loc[3], loc[2])) == DEAD:
                bad.setdefault((base, 'left:' + loc[2]), ('%s (%s)' % (where, cl.name), 'the cleanup of %s leaves the dead process in %s.%s (%s)' % (base, loc[3].split('@')[0], loc[2], what)))
    for t in sorted(may, key=repr):
        w = rc.where_[t][0]
        if t[0] == 'neighbour' and scen:
            bad.setdefault((base, 'neighbour:' + t[2]), (w, 'the cleanup of %s changes the record of a live process (%s.%s)' % (base, t[1].split('@')[0], t[2])))
        elif t == ('all', m['record']) and somebody and scen:
            bad.setdefault((base, 'touched:' + t[-1]), (w, 'the cleanup of %s resets the whole segment although a live process is recorded there (%s)' % (base, what)))
        elif t[0] in ('store', 'mask', 'all') and t[1] != m['record'] and somebody and scen and DEAD not in vals:
            bad.setdefault((base, 'touched:' + t[-1]), (w, 'the cleanup of %s changes %s although the dead process has no part in it (%s)' % (base, show(t), what)))
    for k, v in scen.items():
        if v in (LIVE, LATER) and ('store',) + k in may:
            bad.setdefault((base, 'lost:' + k[1]), (rc.where_[('store',) + k][0], 'the cleanup of %s overwrites %s.%s, which names a live process (%s)' % (base, k[0].split('@')[0], k[1], what)))
    # requests the dead process left in the queues
    for r in sorted(recs):
        for f in P.records[r]['fields'] if r in P.records else ():
            if f['ty']['k'] == 'rec' and str(f['ty'].get('r')).startswith('queue_') and scen:
                if (r != m['record'] and DEAD not in vals or r == m['record'] and set(vals) == {DEAD}) and not covered(('queue', r, f['n']), may, P):
                    bad.setdefault((base, 'requests:' + f['n']), ('%s (%s)' % (where, cl.name), 'the cleanup of %s leaves the requests of the dead process in %s.%s (%s)' % (base, r.split('@')[0], f['n'], what)))
    for f in fins if DEAD in vals or not scen else ():
        rf, of, E2 = run(P, m, f, recs, pids, scen, statics - {f.id}, preset, 'finalize', slots)
        rep.analysed(E2.covered)
        if not of:
            continue
        fmay = set().union(*[st.r[0] for st, ret in of])
        fmust = set.intersection(*[set(st.r[0]) for st, ret in of])
        rep.count('comparisons', (cfg, base, f.name, vals, slots))
        for t in sorted(fmay, key=repr):
            if t[0] in ('queue of another', 'neighbour'):
                continue
            key = ':'.join(str(x).split('@')[0] for x in t)
            if not covered(t, may, P):
                bad.setdefault((base, 'missing:' + key), (rf.where_[t][0], 'an orderly %s updates %s and the cleanup after a death (%s) does not' % (f.name, show(t), cl.name)))
            elif t in fmust and not covered(t, must, P):
                bad.setdefault((base, 'sometimes:' + key), (rf.where_[t][0], 'an orderly %s always updates %s and the cleanup after a death (%s) only on some paths (%s)' % (f.name, show(t), cl.name, what)))


def check_c16(rep, progs, ex):
    for cfg, P in progs.items():
        bad = {}
        mods = shared.shmem_modules(P)
        seen = set()
        for m in mods:
            base = m['fn'].base()
            n = m['props'].get('cleanup_fn')
            rep.count('segments', (cfg, m['fn'].id))
            cl = None
            if n is not None:
                for x in walk(m['fn'], n):
                    d = m['fn'].nodes[x].get('d')
                    if d and d['k'] == 'func':
                        cl = P.fns[P.resolve(d['id'])]
            if cl is None:
                bad.setdefault((m['fn'].name, 'none'), (m['fn'].file.split('/repo/')[-1], '%s attaches to a segment without giving a cleanup function: what a dead process left there stays' % m['fn'].name))
                continue
            if m['record'] in seen:
                continue
            seen.add(m['record'])
            pids, recs = pid_fields(P, m['record'])
            statics = {f.id for f in P.fns.values() if f.cfg and f.file == cl.file and f.static}
            # helpers of the module that only look things up
            statics |= {f.id for f in P.fns.values() if f.cfg and f.file == cl.file}
            preset = {m['handler']: ('s', 'P', 'handler'), m['shdata']: ('s', 'P', 'segment')}
            ready = set_before(P, m)
            early = dict(preset)
            for gid, g in P.globals.items():
                ty = gtype(P, gid)
                if gid.endswith('@' + base) and ty and ty['k'] == 'int' and not ty.get('const') and ty.get('s') in ('int', 'unsigned int') and (bounds_loop(P, cl, gid)):
                    preset[gid] = C1
                    # the cleanup runs while the segment is being opened: what is set afterwards still has its first value
                    early[gid] = C1 if gid in ready else C0
            fins = [f for f in sorted(P.fns.values(), key=lambda f: f.id) if f.cfg and f.file == cl.file and not f.static and 'finalize' in f.name]
            keys = sorted((r, x) for r in pids for x in pids[r])
            for vals in itertools.product((DEAD, LIVE, LATER, 0), repeat=len(keys)):
                for slots in (1, 2):
                    scenario(rep, P, cfg, bad, m, base, cl, fins, recs, pids, dict(zip(keys, vals)), vals, slots, statics, early, preset)
        who_is_dead(rep, P, cfg, bad)
        for (b, what), (w, msg) in sorted(bad.items(), key=repr):
            rep.v('%s:%s' % (b, what), w, msg)
    rep.need('segments', 6)
    rep.need('scenarios', 10)
    rep.need('comparisons', 10)
    rep.need('pid lists', 1)
    rep.rule('every kind of segment gives a cleanup function; with the pid fields of its records set to every combination of the dead process, a live one and nobody, the cleanup removes the dead '
             'pid wherever it finds it, changes nothing else, and updates everything the orderly finalization of the same segment updates; the cleanup is called for every listed process that '
             'does not exist (ESRCH), for no other, and its place in the list is freed')


class Before(Rule):
    """r = globals assigned so far"""
    exact = True

    def __init__(self, P):
        self.P, self.at = P, []

    def initial(self, E):
        return frozenset()

    def inline(self, E, fid):
        return False

    def on_store(self, E, st, loc, val, node, fr):
        if loc[0] == 'g':
            st.r = st.r | {loc[1]}

    def on_call(self, E, st, fid, args, node, fr):
        if fid == 'shmem_init':
            self.at.append(st.r)


def set_before(P, m):
    rule = Before(P)
    f = m['fn']
    Engine(P, rule, maxstates=300, budget=200000).run(f)
    return frozenset.intersection(*rule.at) if rule.at else frozenset()


def gtype(P, gid):
    g = P.globals[gid]
    try:
        return g['types'][g['t']]
    except (KeyError, TypeError, IndexError):
        return None


def bounds_loop(P, cl, gid):
    """the global is compared with a loop variable somewhere in the file"""
    for f in P.fns.values():
        if f.cfg and f.file == cl.file:
            for n in f.nodes.values():
                if n['k'] == 'BinaryOperator' and n['op'] in ('<', '<=', '!=', '>', '>='):
                    for c in n['ch']:
                        x = f.nodes[strip(f, c)]
                        if x.get('d', {}).get('id') == gid and x['k'] == 'DeclRefExpr':
                            return True
    return False


class ListRule(Rule):
    """r = (answer of kill for the entry: None, (entry, pid value, answer), cleaned pid, entries cleared)"""
    exact = True

    def __init__(self, P, inl, answer, errno):
        self.P, self.inl, self.answer, self.errno = P, inl, answer, errno
        self.calls, self.bad, self.kills = [], {}, set()

    def initial(self, E):
        return (None, False, False)

    def inline(self, E, fid):
        return fid in self.inl

    def on_call(self, E, st, fid, args, node, fr):
        if fid == 'kill':
            self.kills.add((fr.fn.id, node))
            if args[1] != C0:
                self.bad.setdefault('signal', (E.where(node, fr), 'a signal is sent to a process of the list'))
            st.r = (args[0], False, False)
            return [(st, ('c', self.answer))]
        if fid == '__errno_location':
            return [(st, ('&', ('g', 'errno')))]
        if fid in ('mu_get_system_size',):
            return [(st, C1)]
        return None

    def on_load(self, E, st, loc, val, node, fr):
        if loc == ('g', 'errno'):
            return ('c', self.errno)
        return None

    def on_indirect(self, E, st, target, args, node, fr):
        if len(args) == 2:
            self.calls.append((E.where(node, fr), args[1], st.r[0]))
            st.r = (st.r[0], True, st.r[2])
            return [(st, C0)]
        return None

    def on_store(self, E, st, loc, val, node, fr):
        if st.r[0] is not None and loc[0] in ('e', 'd') and root_of(loc)[0] != 'v' and val != ('agg',):
            st.r = (st.r[0], st.r[1], val)


def place(v):
    return v[2] if v[0] == 's' and v[1] in ('ld', 'uns') else v


def who_is_dead(rep, P, cfg, bad):
    fs = [f for f in sorted(P.fns.values(), key=lambda f: f.id) if f.cfg and f.base() == 'shmem.c' and any(P.resolve(c) == 'kill' for c in P.callees(f))]
    for f in fs:
        rep.count('pid lists', (cfg, f.id))
        rep.analysed({f.id})
        w0 = '%s (%s)' % (f.file.split('/repo/')[-1], f.name)
        for answer, errno, what in ((0, 0, 'exists'), (-1, 1, 'exists and belongs to another user'), (-1, 3, 'does not exist')):
            rule = ListRule(P, {g.id for g in P.fns.values() if g.cfg and g.file == f.file and g.static}, answer, errno)
            E = Engine(P, rule, maxstates=500, budget=200000, unroll=20)
            st = State(r=rule.initial(E))
            args = [('s', 'P', p['n'] or str(i)) for i, p in enumerate(f.params)]
            for i, p in enumerate(f.params):
                t = f.types[p['t']]
                if t['k'] == 'ptr' and f.types[t['p']]['k'] == 'fn':
                    st = E.assume(st, ('!=', args[i], C0), True)
            outs = E.run(f, args=args, st=st)
            for k, v in rule.bad.items():
                bad.setdefault((f.name, k), v)
            for w, a, asked in rule.calls:
                if errno != 3:
                    bad.setdefault((f.name, 'live'), (w, 'the cleanup is called for a process that ' + what))
                elif asked is None or place(a) != place(asked):
                    bad.setdefault((f.name, 'other'), (w, 'the cleanup is called for another process than the one found dead'))
            for st, ret in outs:
                if st.r[0] is None:
                    continue
                if errno == 3 and not st.r[1]:
                    bad.setdefault((f.name, 'not cleaned'), (w0, 'a process that does not exist any more is left without cleanup'))
                if errno == 3 and st.r[1] and st.r[2] is False:
                    bad.setdefault((f.name, 'listed'), (w0, 'a process found dead stays in the list of attached processes'))
                if errno == 3 and st.r[1] and st.r[2] is not False and is_c(st.r[2]) and any(f.types[p['t']].get('s') == 'pid_t' for p in f.params):
                    bad.setdefault((f.name, 'unregistered'), (w0, 'a process that attaches when every place of the list belongs to a dead process is not recorded itself: its own death would go unnoticed'))
                if errno != 3 and st.r[2] is not False:
                    bad.setdefault((f.name, 'unlisted'), (w0, 'the place of a live process in the list of attached processes is overwritten'))
