"""What is stored in shared segments: no addresses, process-shared synchronisation objects, sizes that cover the records (C18)."""
from flow import *
from names import *
from program import AnalysisError, strip, walk
import shared
from lewiasync import lin, add, scale, entails

SYS = ('s', 'uns', 'system size', ())
OBJ = ('pthread_mutex_t', 'pthread_cond_t', 'pthread_barrier_t', 'pthread_rwlock_t', 'sem_t', 'pthread_spinlock_t')
INITS = {'pthread_%s_init' % k: k for k in ('mutex', 'cond', 'barrier', 'rwlock')}
PROCESS_SHARED = 1


def elem(P, r, t):
    """type of an array's element; t: type dict"""
    while t.get('k') == 'arr':
        t = P.records[r]['types'][t['p']]
    return t


class SyncRule(Rule):
    """r = frozenset of (attribute location, state)"""
    def __init__(self, P, inl, objs):
        self.P, self.inl, self.objs = P, inl, objs
        self.bad, self.sites, self.seen = {}, set(), set()

    def initial(self, E):
        return frozenset()

    def inline(self, E, fid):
        return fid in self.inl

    def member(self, loc):
        return loc[0] == 'f' and (loc[3], loc[2]) in self.objs

    def on_store(self, E, st, loc, val, node, fr):
        if self.member(loc) and val[0] in ('init', 'obj', 'agg') and not (val[0] == 'agg' and False):
            n = fr.fn.nodes[node]
            if n['k'] == 'BinaryOperator':
                self.bad[('assign', fr.fn.name, loc[2])] = E.where(node, fr)

    def on_call(self, E, st, fid, args, node, fr):
        if fid and fid.startswith('pthread_') and 'attr_' in fid and args and args[0][0] == '&':
            a = deref(args[0])
            op = fid.split('attr_')[1]
            rest = frozenset(x for x in st.r if x[0] != a)
            if op == 'init':
                st.r = rest | {(a, 'private')}
            elif op == 'setpshared':
                st.r = rest | {(a, 'shared' if len(args) > 1 and args[1] == ('c', PROCESS_SHARED) else 'private')}
            elif op == 'destroy':
                st.r = rest
            else:
                return [(st, C0)]
            return [(st, C0)]
        if fid in INITS or fid in ('sem_init', 'pthread_spin_init'):
            l = deref(args[0])
            if self.member(l):
                self.sites.add((fr.fn.name, l[2]))
                self.seen.add((l[3], l[2]))
                if fid == 'sem_init' or fid == 'pthread_spin_init':
                    ok = is_c(args[1]) and (args[1][1] != 0) == (fid == 'sem_init')
                else:
                    a = args[1]
                    ok = a[0] == '&' and (deref(a), 'shared') in st.r
                if not ok:
                    self.bad[('private', fr.fn.name, l[2])] = E.where(node, fr)
            return [(st, C0)]
        return None


class QuietEngine(Engine):
    def mods(self, fid):
        return frozenset()


class SizeRule(Rule):
    exact = True

    def __init__(self, P, inl):
        self.P, self.inl = P, inl
        self.at = []

    def inline(self, E, fid):
        return fid in self.inl

    def key_extra(self, E, st):
        return tuple(sorted((l, v) for l, v in st.mem.items() if l[0] == 'g' and v[0] == 's'))

    def on_call(self, E, st, fid, args, node, fr):
        if fid == 'mu_get_system_size':
            return [(st, SYS)]
        if fid == 'shmem_init':
            p = deref(args[1])
            size = [v for l, v in st.mem.items() if l[0] == 'f' and l[1] == p and l[2] == 'size']
            st.r = (size[0] if size else None,)
            return [(st, ('s', 'handler'))]
        return None


def lin2(v):
    """linear form with products normalised"""
    if v[0] == 'op' and v[1] == '*' and len(v) == 4:
        a, b = lin2(v[2]), lin2(v[3])
        if set(a) <= {None}:
            return scale(b, a.get(None, 0))
        if set(b) <= {None}:
            return scale(a, b.get(None, 0))
        r = {}
        for x, c in a.items():
            for y, d in b.items():
                k = y if x is None else x if y is None else ('prod',) + tuple(sorted((x, y), key=repr))
                r = add(r, {k: c * d})
        return r
    if v[0] == 'op' and v[1] in '+-' and len(v) == 4:
        return add(lin2(v[2]), lin2(v[3]), 1 if v[1] == '+' else -1)
    return lin(v)


def check_c18(rep, progs, ex):
    rep.rule('no record that lives in a shared segment has a field that holds an address, and no integer field of one is given an address; a field with the '
             'address of an object of one process, or the handle of one of its threads, may only be read by the thread started on that very record or to join it; '
             'every mutex, condition, barrier and lock in a shared record is initialised, with an attribute that is process-shared on every path; the size asked '
             'for a segment covers its record and one element of its array for every unit of the capacity the module works with; the mapping covers both the '
             'header and that size, and attaching never shortens an existing segment')
    for cfg, P in progs.items():
        recs = shared.shared_records(P)
        sync = shared.sync_record(P)
        sr = sync if isinstance(sync, str) else None
        if sr is None:
            sr = [r for r in P.records if {'pidlist', 'shmem_mutex'} <= {f['n'] for f in P.records[r]['fields']}][0]
        all_recs = dict(recs)
        all_recs[sr] = 'shmem.c'
        private, objs = {}, set()
        for r in sorted(all_recs):
            for f in P.records[r]['fields']:
                t = elem(P, r, f['ty'])
                rep.count('field', '%s.%s' % (r, f['n']))
                if t.get('k') in ('ptr', 'fn') or t.get('s') == 'pthread_t':
                    private[(r, f['n'])] = t.get('s') or 'pointer'
                if t.get('k') == 'rec' and (t.get('s') in OBJ or t.get('r') in OBJ) or t.get('s') in OBJ:
                    objs.add((r, f['n']))
        # ---- addresses of one process
        starts = {}
        for f in P.fns.values():
            for c in f.calls:
                n = f.nodes[c]
                if n.get('fn') == 'pthread_create' and len(n['ch']) > 4:
                    for x in walk(f, n['ch'][3]):
                        d = f.nodes[x].get('d')
                        if d and d['k'] == 'func':
                            starts[P.resolve(d['id'])] = (f.id, f.types[f.nodes[strip(f, n['ch'][4])]['t']])
        for (r, m), ty in sorted(private.items()):
            bad = []
            ok = []
            for f in P.fns.values():
                par = parents(f)
                for i, n in f.nodes.items():
                    if n['k'] == 'MemberExpr' and n.get('m') == m and n.get('r') == r:
                        if is_write(f, i, par):
                            continue
                        if f.id in starts and own_base(f, n):
                            ok.append(f.id)
                        elif ty == 'pthread_t' and callee_of(f, i, par) in ('pthread_join', 'pthread_create', 'pthread_detach'):
                            ok.append(f.id)
                        else:
                            bad.append((f, n))
            for f, n in bad:
                rep.v('address:%s.%s:%s' % (base(r), m, f.name), '%s:%d (%s)' % (f.file, n['l'], f.name),
                      'the shared record %s holds %s in %s and %s reads it: it is an address (or thread) of the process that wrote it' % (base(r), ty, m, f.name))
            if not ok and not bad:
                rep.v('address:%s.%s' % (base(r), m), P.records[r]['file'], 'the shared record %s holds an address (%s) in %s' % (base(r), ty, m))
            rep.count('private field', '%s.%s' % (r, m))
        # ---- addresses in integers
        for f in P.fns.values():
            par = None
            for i, n in f.nodes.items():
                if n.get('ck') == 'PointerToIntegral':
                    par = par or parents(f)
                    x = i
                    while x in par:
                        y = f.nodes[par[x]]
                        if y['k'] == 'BinaryOperator' and y['op'] == '=' and y['ch'][1] == x:
                            l = f.nodes[strip(f, y['ch'][0])]
                            while l['k'] == 'ArraySubscriptExpr':
                                l = f.nodes[strip(f, l['ch'][0])]
                            if l['k'] == 'MemberExpr' and l.get('r') in all_recs:
                                rep.v('number:%s.%s:%s' % (base(l['r']), l['m'], f.name), '%s:%d (%s)' % (f.file, y['l'], f.name),
                                      '%s stores an address in the shared field %s.%s' % (f.name, base(l['r']), l['m']))
                            break
                        if y['k'] not in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr', 'BinaryOperator'):
                            break
                        x = par[x]
        # ---- synchronisation objects
        seen = set()
        files = {f.file for f in P.fns.values() for c in f.calls if f.nodes[c].get('fn') in INITS or f.nodes[c].get('fn') in ('sem_init', 'pthread_spin_init')}
        for f in sorted(P.fns.values(), key=lambda x: x.id):
            if f.file not in files or not reaches_init(P, f, set()):
                continue
            inl = {g.id for g in P.fns.values() if g.static and g.file == f.file and reaches_attr(P, g, set())}
            R = SyncRule(P, inl, objs)
            E = QuietEngine(P, R, maxstates=300)
            if f.static and f.id in inl and called_here(P, f):
                continue
            E.run(f)
            rep.analysed(E.covered)
            seen |= R.seen
            for s in R.sites:
                rep.count('sync init', '%s:%s' % s)
            for (k, fn, m), w in sorted(R.bad.items()):
                rep.v('%s:%s:%s' % (k, fn, m), w, '%s: the shared object %s is %s' % (fn, m, 'initialised without a process-shared attribute' if k == 'private'
                                                                                     else 'overwritten by an assignment, which makes it private'))
        for r, m in sorted(objs - seen):
            rep.v('noinit:%s.%s' % (base(r), m), P.records[r]['file'], 'the shared object %s.%s is never initialised' % (base(r), m))
        sizes(rep, P)
        mapping(rep, P, sr)
    rep.need('field', 60)
    rep.need('sync init', 5)
    rep.need('segment', 7)


def base(r):
    return r.split('@')[0]


def called_here(P, f):
    return any(P.resolve(g.nodes[c].get('fn') or '') == f.id for g in P.fns.values() if g.file == f.file for c in g.calls)


def reaches_init(P, f, seen):
    if f.id in seen:
        return False
    seen.add(f.id)
    for c in f.calls:
        x = f.nodes[c].get('fn') or ''
        if x in INITS or x in ('sem_init', 'pthread_spin_init'):
            return True
        g = P.fns.get(P.resolve(x))
        if g is not None and g.static and g.file == f.file and reaches_init(P, g, seen):
            return True
    return False


def reaches_attr(P, f, seen):
    if f.id in seen:
        return False
    seen.add(f.id)
    for c in f.calls:
        x = f.nodes[c].get('fn') or ''
        if x.startswith('pthread_') and 'attr_' in x or x in INITS:
            return True
        g = P.fns.get(P.resolve(x))
        if g is not None and g.static and g.file == f.file and reaches_attr(P, g, seen):
            return True
    return False


def is_write(f, i, par):
    """the member is (only) assigned here, or its address passed to be filled"""
    x = i
    while x in par:
        y = f.nodes[par[x]]
        if y['k'] == 'BinaryOperator' and y['op'] == '=':
            return y['ch'][0] == x
        if y['k'] == 'UnaryOperator' and y['op'] == '&':
            return callee_of(f, par[x], par) == 'pthread_create'
        if y['k'] == 'InitListExpr':
            return False
        if y['k'] not in ('ParenExpr', 'ArraySubscriptExpr'):
            return False
        x = par[x]
    return False


def callee_of(f, i, par):
    x = i
    while x in par:
        y = f.nodes[par[x]]
        if y['k'] == 'CallExpr':
            return y.get('fn')
        if y['k'] not in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr', 'UnaryOperator', 'ExprWithCleanups'):
            return None
        x = par[x]
    return None


def own_base(f, n):
    """the record is the one the thread was started on: a local initialised or assigned from the function's parameter, or that parameter"""
    b = f.nodes[strip(f, n['ch'][0])]
    if b['k'] != 'DeclRefExpr':
        return False
    v = b['d']['id']
    if any(p['id'] == v for p in f.params):
        return True
    src = []
    for q in f.nodes.values():
        if q['k'] == 'DeclStmt':
            src += [d['init'] for d in q['decls'] if d['id'] == v and 'init' in d]
        elif q['k'] == 'BinaryOperator' and q['op'] == '=':
            l = f.nodes[strip(f, q['ch'][0])]
            if l['k'] == 'DeclRefExpr' and l['d']['id'] == v:
                src.append(q['ch'][1])
    ps = {p['id'] for p in f.params}
    return bool(src) and all(f.nodes[strip(f, s)].get('d', {}).get('id') in ps for s in src)


# ------------------------------------------------------------------ sizes
def flexible(P, r):
    """(offset is the size of the record, record of the elements, bytes of one element)"""
    fs = P.records[r]['fields']
    if not fs:
        return None
    t = fs[-1]['ty']
    if t.get('k') == 'arr' and not t.get('size'):
        e = P.records[r]['types'][t['p']]
        return fs[-1]['n'], e
    return None


def sizeof(P, t):
    return P.records[t['r']]['size'] if t.get('k') == 'rec' and t.get('r') in P.records else t.get('size') or 0


def sizes(rep, P):
    done = set()
    for m in shared.shmem_modules(P):
        f = m['fn']
        inl = {g.id for g in P.fns.values() if g.file == f.file and len(g.nodes) < 60 and g.id != f.id and ret_int(g)}
        R = SizeRule(P, inl)
        E = QuietEngine(P, R, maxstates=300)
        outs = [t for t, v in E.run(f) if t.r]
        rep.analysed(E.covered)
        if not outs:
            raise AnalysisError('%s: call of shmem_init not reached' % f.name)
        rep.count('segment', f.id)
        rec = m['record']
        fl = flexible(P, rec)
        for t in outs:
            size = t.r[0]
            if size is None:
                rep.v('size:%s' % f.name + f.base(), f.file, '%s: no size is given for the segment' % f.name)
                continue
            need = {None: P.records[rec]['size'] or 0}
            caps = {}
            for l, v in t.mem.items():
                if l[0] == 'g' and v[0] in ('s', 'op') and l[1].endswith('@' + f.base()) and depends(v, SYS):
                    caps[l[1]] = v
            L = lin2(size)
            k = sizeof(P, fl[1]) if fl else 0
            wanted = [SYS] if not caps else list(caps.values())
            for c in wanted if fl else [C0]:
                d = add(L, add(need, lin2(('op', '*', ('c', k), c))), -1)
                if not nonneg(t, E, d):
                    rep.v('size:%s' % f.base(), f.file, '%s: the size of the segment does not cover the record (%d bytes) and %d bytes for each of %s'
                          % (f.name, need[None], k, 'the system\'s CPUs' if c == SYS else 'its elements'))
            done.add(f.id)


def depends(v, a):
    return v == a or isinstance(v, tuple) and any(depends(x, a) for x in v if isinstance(x, tuple))


def nonneg(t, E, d):
    """all coefficients non-negative, or the products that are not are under a path fact that makes them no capacity"""
    if all(c >= 0 for c in d.values()):
        return True
    if d.get(None, 0) < 0:
        return False
    # a capacity that is zero or negative on this path
    for x, c in d.items():
        if x is not None and c < 0:
            term = ('op', '*') + x[1:] if x[0] == 'prod' else x
            if not any(op == '<' and a == C0 and b in (term, ('op', '*') + tuple(reversed(term[2:]))) and not v for (op, a, b), v in t.facts.items()):
                return False
    return True


def ret_int(g):
    t = g.types[g.ret] if isinstance(g.ret, int) else g.ret
    return isinstance(t, dict) and t.get('k') == 'int'


# ------------------------------------------------------------------ the mapping
class MapRule(Rule):
    exact = True

    def __init__(self, P):
        self.P = P
        self.bad, self.n = {}, set()

    def initial(self, E):
        return ()

    def inline(self, E, fid):
        f = self.P.fns[fid]
        return f.static and f.file == self.file and any(f.nodes[c].get('fn') in ('mmap', 'ftruncate', 'fstat') for c in f.calls)

    def key_extra(self, E, st):
        return frozenset(st.facts.items())

    def on_call(self, E, st, fid, args, node, fr):
        if fid == 'ftruncate':
            self.n.add('truncate')
            st.r = st.r + (('truncate', args[1]),)
            old = [(a, b, v) for (op, a, b), v in st.facts.items() if op == '<' and (is_stat(a) or is_stat(b))]
            ok = any(is_stat(a) and b == args[1] and v or is_stat(b) and a == args[1] and not v for a, b, v in old)
            if not ok:
                self.bad['shorten'] = (E.where(node, fr), 'an existing segment may be shortened: the length is set without knowing that the file is not longer')
        if fid == 'mmap':
            self.n.add('map')
            st.r = st.r + (('map', args[1]),)
        return None


def is_stat(v):
    return v[0] == 's' and v[1] in ('ld', 'uns') and isinstance(v[2], tuple) and v[2][0] == 'f' and v[2][2] == 'st_size'


def mapping(rep, P, sr):
    f = P.fn('shmem_init')
    R = MapRule(P)
    R.file = f.file
    E = QuietEngine(P, R, maxstates=500)
    outs = E.run(f)
    rep.analysed(E.covered)
    szf = P.fn('shmem_shsync__size')
    for t, v in outs:
        maps = [x[1] for x in t.r if x[0] == 'map']
        if len(maps) != 1:
            R.bad['maps'] = (f.file, 'the segment is mapped %d times' % len(maps))
            continue
        # where the data of the module begins
        dst = t.mem.get(('d', ('s', 'P', f.params[0]['n'])))
        off = None
        if dst is not None and dst[0] == '&' and dst[1][0] == 'e':
            off = dst[1][2]
        elif dst is not None and dst[0] == 'op' and dst[1] == '+':
            off = dst[3]
        if off is None:
            R.bad['data'] = (f.file, 'the data of the module is not placed behind the header (%s)' % (dst,))
            continue
        if not from_size(off, szf.id):
            R.bad['offset'] = (f.file, 'the data does not begin where the header ends')
        size = [x for x in atoms(maps[0]) if x[0] == 's' and x[1] in ('ld', 'uns') and isinstance(x[2], tuple) and x[2][0] == 'f' and x[2][2] == 'size']
        if size:
            want = ('op', '+', off, size[0])
            tr = [x[1] for x in t.r if x[0] == 'truncate']
            if not (covers(E, t, maps[0], want)):
                R.bad['short'] = (f.file, 'the mapping does not cover the header and the size asked for')
            if any(op == '<' and a == maps[0] and is_stat(b) and v2 for (op, a, b), v2 in t.facts.items()):
                R.bad['part'] = (f.file, 'only a part of an existing, longer segment is mapped')
            if any(not covers(E, t, x, maps[0]) for x in tr):
                R.bad['file'] = (f.file, 'the file is shorter than the mapping')
        elif is_stat(maps[0]):
            # an existing, longer file: known to be longer than what is needed on this path
            facts = [(a, b, v2) for (op, a, b), v2 in t.facts.items() if op == '<' and (a == maps[0] or b == maps[0])]
            lower = [a if v2 and b == maps[0] else b for a, b, v2 in facts if v2 and b == maps[0] or not v2 and a == maps[0]]
            ok = False
            for lo in lower:
                s = [x for x in atoms(lo) if x[0] == 's' and x[1] in ('ld', 'uns') and isinstance(x[2], tuple) and x[2][0] == 'f' and x[2][2] == 'size']
                ok = ok or bool(s) and covers(E, t, lo, ('op', '+', off, s[0]))
            if not ok:
                R.bad['short'] = (f.file, 'the mapping does not cover the header and the size asked for')
        else:
            R.bad['short'] = (f.file, 'the length of the mapping is not computed from the size asked for')
    for k, (w, m) in sorted(R.bad.items()):
        rep.v('mapping:%s' % k, w, m)
    for x in R.n:
        rep.count('mapping', x)
    rep.need('mapping', 2)
    # the header itself
    R2 = SizeRule(P, set())
    E2 = QuietEngine(P, R2, maxstates=50)
    fl = flexible(P, sr)
    for t, v in E2.run(szf):
        for n in (1, 2, 3, 7, 48, 64, 112, 256, 1000):
            x = value(v, n)
            if x is None or x < (P.records[sr]['size'] or 0) + n * sizeof(P, fl[1]):
                rep.v('header', szf.file, 'the size of the segment header does not cover its list of %d processes' % n)
                break
        rep.count('segment', 'header')


def covers(E, t, a, b):
    d = add(lin2(a), lin2(b), -1)
    return all(c >= 0 for c in d.values())


def from_size(v, fid):
    return v[0] == 's' and v[1] in ('ret', 'uns') and v[2] == fid


def atoms(v):
    if not isinstance(v, tuple):
        return []
    if v and v[0] == 's':
        return [v]
    return [y for x in v for y in atoms(x)]


def value(v, n):
    if v == SYS:
        return n
    if v[0] == 'c':
        return v[1]
    if v[0] == 'op' and v[1] == 'neg':
        x = value(v[2], n)
        return None if x is None else -x
    if v[0] == 'op' and v[1] == '~':
        x = value(v[2], n)
        return None if x is None else ~x
    if v[0] == 'op' and len(v) == 4:
        a, b = value(v[2], n), value(v[3], n)
        if a is None or b is None:
            return None
        try:
            return {'+': a + b, '-': a - b, '*': a * b, '&': a & b, '|': a | b, '/': a // b if b else None, '%': a % b if b else None,
                    '<<': a << b if 0 <= b < 64 else None, '>>': a >> b if 0 <= b < 64 else None}[v[1]]
        except KeyError:
            return None
    return None
