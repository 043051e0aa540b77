"""Child processes (C22) and temporary process-wide settings and resources (C23)."""
from flow import *
from names import *
from program import strip, walk

EXEC = {'execv', 'execve', 'execvp', 'execvpe', 'execl', 'execle', 'execlp', 'fexecve'}
WAIT = {'wait': None, 'waitpid': 0, 'wait4': 0, 'wait3': None, 'waitid': 1}


def reach(P, targets):
    """functions from which one of the targets can be called through direct calls"""
    rev = {}
    for f in P.fns.values():
        for c in f.calls:
            t = f.nodes[c].get('fn')
            if t:
                rev.setdefault(P.resolve(t), set()).add(f.id)
    out, todo = set(), list(targets)
    while todo:
        for g in rev.get(todo.pop(), ()):
            if g not in out:
                out.add(g)
                todo.append(g)
    return out


class ForkRule(Rule):
    def __init__(self, P, inl):
        self.P, self.inl = P, inl
        self.sites, self.bad = set(), {}
        self.execs, self.waits = set(), set()

    def inline(self, E, fid):
        return fid in self.inl

    def key_extra(self, E, st):
        return (st.mem.get(('x', 'child')), st.mem.get(('x', 'parent')))

    def on_call(self, E, st, fid, args, node, fr):
        here = ('@', E.where(node, fr), fr.fn.name)
        if fid in ('fork', 'vfork', '_Fork'):
            self.sites.add(here)
            pid = ('s', 'ret', fid, fr.ctx + (node,))
            c, p, e = st.copy(), st.copy(), st.copy()
            c.mem[('x', 'child')] = here
            p.mem[('x', 'parent')] = here
            p.mem[('x', 'pid')] = pid
            p.facts[('<', C0, pid)] = True
            p.facts[('==', pid, C0)] = False
            p.facts[('<', pid, C0)] = False
            return [(c, C0), (p, pid), (e, ('c', -1))]
        if fid in EXEC and st.mem.get(('x', 'child')):
            self.execs.add(here)
            return [(st, ('c', -1))]          # success never returns
        if fid in WAIT and st.mem.get(('x', 'parent')):
            k = WAIT[fid]
            if k is None or k < len(args) and args[k] in (st.mem.get(('x', 'pid')), ('c', -1)):
                self.waits.add(here)
                st.mem.pop(('x', 'parent'))
                return None
        return None

    def on_noret(self, E, st, fid, node, fr):
        p = st.mem.get(('x', 'parent'))
        if p:
            self.bad[('parent', p)] = E.where(node, fr)


def check_c22(rep, progs, ex):
    rep.rule('Typestate over every path that starts at a fork: fork() is split into child, parent and failure.  In the child, no path may reach the '
             'return of the function that forked (or of the callers of a forking helper): after a failed exec* only a call that does not return may '
             'follow.  In the parent every path must wait (wait/waitpid of that child) before returning or exiting.')
    nsites = 0
    for cfg, P in progs.items():
        fk = {f.id for f in P.fns.values() if any(f.nodes[c].get('fn') in ('fork', 'vfork', '_Fork') for c in f.calls)}
        inl = reach(P, {'fork', 'vfork', '_Fork'}) | reach(P, set(EXEC)) | reach(P, set(WAIT))
        # small helpers of the same file that end the process
        files = {P.fns[x].file for x in fk}
        inl |= {x for x in reach(P, {'exit', '_exit', '_Exit', 'abort'}) if P.fns[x].static and P.fns[x].file in files}
        callers = {}
        for f in P.fns.values():
            for g in P.callees(f):
                callers.setdefault(g, set()).add(f.id)
        todo, seen = sorted(fk), set()
        while todo:
            fid = todo.pop()
            if fid in seen:
                continue
            seen.add(fid)
            R = ForkRule(P, inl)
            E = Engine(P, R, maxstates=60)
            outs = E.run(P.fns[fid])
            rep.analysed(E.covered)
            for s in R.sites:
                rep.count('fork', s[1])
            for s in R.execs:
                rep.count('exec', s[1])
            for s in R.waits:
                rep.count('wait', s[1])
            bad = dict(R.bad)
            for st, v in outs:
                for k in ('child', 'parent'):
                    x = st.mem.get(('x', k))
                    if x:
                        bad[(k, x)] = x[1]
            up = [c for c in callers.get(fid, ()) if c in P.fns]
            if bad and P.fns[fid].static and up:
                todo += up          # a helper that hands the child or the pid to its callers: they are judged
                continue
            for (k, x), w in sorted(bad.items()):
                if k == 'child':
                    rep.v('child:%s' % x[2], x[1], 'the child started in %s returns into the code of its parent when the command cannot be executed' % x[2])
                else:
                    rep.v('parent:%s' % x[2], w, 'the parent does not wait for the child started in %s' % x[2])
    rep.need('fork', 1)


# ------------------------------------------------------------------ C23
# kind -> (acquire: function -> where the handle is ('ret' or argument index), release: function -> argument index)
PAIRS = {
    'file': ({'fopen': 'ret', 'fdopen': 'ret', 'fopen64': 'ret', 'tmpfile': 'ret'}, {'fclose': 0}),
    'pipe': ({'popen': 'ret'}, {'pclose': 0}),
    'directory': ({'opendir': 'ret', 'fdopendir': 'ret'}, {'closedir': 0}),
    'regular expression': ({'regcomp': 0}, {'regfree': 0}),
    'topology': ({'hwloc_topology_init': 0}, {'hwloc_topology_destroy': 0}),
    'bitmap': ({'hwloc_bitmap_alloc': 'ret', 'hwloc_bitmap_dup': 'ret'}, {'hwloc_bitmap_free': 0}),
    'locale object': ({'newlocale': 'ret', 'duplocale': 'ret'}, {'freelocale': 0}),
    'descriptor': ({'open': 'ret', 'open64': 'ret', 'openat': 'ret', 'shm_open': 'ret'}, {'close': 0}),
    'memory': ({'malloc': 'ret', 'calloc': 'ret', 'strdup': 'ret', 'strndup': 'ret', 'asprintf': 0, 'vasprintf': 0}, {'free': 0, 'realloc': 0}),
    'lock attribute': ({'pthread_mutexattr_init': 0, 'pthread_rwlockattr_init': 0, 'pthread_condattr_init': 0, 'pthread_barrierattr_init': 0,
                        'pthread_attr_init': 0},
                       {'pthread_mutexattr_destroy': 0, 'pthread_rwlockattr_destroy': 0, 'pthread_condattr_destroy': 0,
                        'pthread_barrierattr_destroy': 0, 'pthread_attr_destroy': 0}),
}
ACQ = {a: (k, w) for k, (A, R) in PAIRS.items() for a, w in A.items()}
REL = {r: (k, w) for k, (A, R) in PAIRS.items() for r, w in R.items()}
# settings: function -> (index of the new value, how the old value is obtained)
SETTINGS = {'uselocale': 'ret', 'setlocale': 'ret', 'signal': 'ret', 'umask': 'ret', 'sigaction': 2, 'sigprocmask': 2, 'pthread_sigmask': 2,
            'pthread_setcancelstate': 1, 'pthread_setcanceltype': 1}
NEWARG = {'uselocale': 0, 'setlocale': 1, 'signal': 1, 'umask': 0, 'sigaction': 1, 'sigprocmask': 1, 'pthread_sigmask': 1,
          'pthread_setcancelstate': 0, 'pthread_setcanceltype': 0}
GLOBAL_LOCALE = ('c', -1)
# calls of the C library that keep the pointer they are given
KEEPS = {'putenv', 'setvbuf', 'pthread_create', 'atexit', 'on_exit', 'pthread_setspecific', 'g_slist_prepend', 'g_slist_append', 'g_tree_insert',
         'g_slist_insert_sorted', 'g_slist_insert'}


class ResRule(Rule):
    """r: tuple of (kind, handle, where, function)"""

    def __init__(self, P, inl, kinds):
        self.P, self.inl, self.kinds = P, inl, kinds
        self.acq, self.rel, self.misuse = set(), set(), {}
        self.killed = set()

    def inline(self, E, fid):
        return fid in self.inl

    def initial(self, E):
        return ()

    def key_extra(self, E, st):
        return tuple(x[:2] for x in st.r)

    def handle(self, args, w, node, fr, fid):
        if w == 'ret':
            return ('s', 'ret', fid, fr.ctx + (node,))
        return ('at', args[w]) if w < len(args) else None

    def on_call(self, E, st, fid, args, node, fr):
        if fid in ACQ and ACQ[fid][0] in self.kinds:
            k, w = ACQ[fid]
            if w == 'ret':
                outs = Engine.default_call(E, st, fid, args, node, fr.fn.nodes[node], fr)
                r = []
                for t, v in outs:
                    if v[0] == 's':
                        t.r = t.r + ((k, v, E.where(node, fr), fr.fn.name),)
                        self.acq.add((k, E.where(node, fr)))
                    r.append((t, v))
                return r
            if k == 'memory':
                # asprintf(&p, ...): the new block is what p holds afterwards
                outs = Engine.default_call(E, st, fid, args, node, fr.fn.nodes[node], fr)
                v = ('s', 'ret', fid, fr.ctx + (node, 'p'))
                for t, rv in outs:
                    t.mem[deref(args[0])] = v
                    if deref(args[0])[0] == 'e':
                        t.mem[('x', 'arr', v)] = deref(args[0])[1]
                    t.r = t.r + ((k, v, E.where(node, fr), fr.fn.name),)
                    self.acq.add((k, E.where(node, fr)))
                return outs
            loc = deref(args[w])
            if root_of(loc)[0] != 'v':
                return None
            self.acq.add((k, E.where(node, fr)))
            ok = st.copy()
            ok.r = ok.r + ((k, ('at', loc), E.where(node, fr), fr.fn.name),)
            if fid == 'regcomp' or fid == 'hwloc_topology_init':
                return [(ok, C0), (st, ('c', -1))]
            return [(ok, C0)]
        if fid in REL and REL[fid][0] in self.kinds:
            k, w = REL[fid]
            if w < len(args):
                h = args[w]
                loc = deref(h) if h[0] == '&' else None
                keep = tuple(x for x in st.r if not (x[0] == k and (x[1] == h or loc is not None and x[1] == ('at', loc))))
                if k == 'topology':
                    keep = tuple(x for x in st.r if x[0] != k)
                if len(keep) != len(st.r):
                    self.rel.add((k, E.where(node, fr)))
                st.r = keep
                if k == 'locale object' and h == st.mem.get(('x', 'locale')):
                    self.misuse[('inuse:%s' % fr.fn.name)] = (E.where(node, fr), 'the locale object is released while it is the locale of the thread')
            return None
        if fid in SETTINGS and 'setting' in self.kinds:
            new = args[NEWARG[fid]] if NEWARG[fid] < len(args) else C0
            if new == C0:
                return None
            which = fid + (str(args[0]) if fid in ('sigaction', 'signal', 'setlocale') else '')
            cur = [x for x in st.r if x[0] == 'setting' and x[1][0] == which]
            old = ('s', 'ret', fid, fr.ctx + (node,))
            w = SETTINGS[fid]
            if w != 'ret' and w < len(args) and args[w] != C0:
                old = ('at', deref(args[w]))
            val = ('at', deref(new)) if new[0] == '&' else new
            self.acq.add(('setting', E.where(node, fr)))
            if fid == 'uselocale':
                st.mem[('x', 'locale')] = new
            if cur:
                if val == cur[0][1][1]:
                    st.r = tuple(x for x in st.r if x not in cur)
                    self.rel.add(('setting', E.where(node, fr)))
                return [(st, old)] if w == 'ret' else None
            st.r = st.r + (('setting', (which, old), E.where(node, fr), fr.fn.name),)
            return [(st, old)] if w == 'ret' else None
        # handing a block to code that may keep it
        f = self.P.fns.get(fid)
        if f is None and fid in KEEPS or f is not None and fid not in self.inl and not self.is_log(f):
            for k, a in enumerate(args):
                if a[0] == 's' and any(x[1] == a for x in st.r):
                    if f is not None and k < len(f.params):
                        t = f.types[f.params[k]['t']]
                        if t.get('k') == 'ptr' and f.types[t['p']].get('const'):
                            continue
                        if any(x[1] == a and x[0] != 'memory' for x in st.r):
                            continue
                    st.r = tuple(x for x in st.r if x[1] != a)
        return None

    def is_log(self, f):
        return f.file.endswith('/debug.c')

    def on_indirect(self, E, st, target, args, node, fr):
        st.r = tuple(x for x in st.r if x[0] != 'memory' or x[1] not in args)

    def on_store(self, E, st, loc, val, node, fr):
        if loc[0] == 'e' and any(x[1] == val for x in st.r):
            st.mem[('x', 'arr', val)] = loc[1]
        if root_of(loc)[0] != 'v':
            def inside(v):
                return v == val or isinstance(val, tuple) and mentions(val, lambda q: q == v)
            st.r = tuple(x for x in st.r if x[0] == 'setting' or not inside(x[1]))


def live(st, x, E):
    h = x[1]
    if x[0] == 'setting' or h[0] == 'at':
        return True
    if st.facts.get(('==', h, C0)) is True or st.facts.get(('<', h, C0)) is True:
        return False
    if x[0] == 'descriptor' and st.facts.get(('==', h, ('c', -1))) is True:
        return False
    return True


def reachable_from(st, v, ret):
    """the block is referenced from what is returned"""
    return ret is not None and (ret == v or mentions(ret, lambda q: q == v))


def check_c23(rep, progs, ex):
    kinds = set(PAIRS) | {'setting'}
    rep.rule('Resource typestate on every path: files, directories, regular expressions, locale objects, topologies, descriptors, lock attributes and '
             'scratch memory obtained in a call, and settings of the thread or process changed by it (locale, signal actions, masks), must be released '
             'or put back to the value they had before every return, unless the handle is returned or stored in a longer-lived object; a locale object '
             'is not released while it is in use.')
    for cfg, P in progs.items():
        direct = {f.id for f in P.fns.values() if any(f.nodes[c].get('fn') in ACQ or f.nodes[c].get('fn') in SETTINGS for c in f.calls)}
        relf = {f.id for f in P.fns.values() if any(f.nodes[c].get('fn') in REL for c in f.calls)}
        allocs = {f.id for f in P.fns.values()}
        for fid in sorted(direct):
            f = P.fns[fid]
            if f.file.startswith('/usr') or not f.cfg:
                continue
            # helpers of the same file that release or acquire are followed
            inl = {g for g in P.fns if P.fns[g].static and P.fns[g].file == f.file and (g in relf or g in direct) and g != fid}
            looped = set()
            for c in f.calls:
                n = f.nodes[c]
                if n.get('fn') in REL and len(n['ch']) > 1:
                    x = f.nodes[strip(f, n['ch'][1])]
                    if x['k'] == 'ArraySubscriptExpr' and 'v' not in f.nodes[strip(f, x['ch'][1])]:
                        y = f.nodes[strip(f, x['ch'][0])]
                        if y['k'] == 'DeclRefExpr':
                            looped.add(('v', 0, y['d']['id']))
            R = ResRule(P, inl, kinds)
            E = Engine(P, R, maxstates=60)
            outs = E.run(f)
            rep.analysed({fid})
            for k, w in R.acq:
                rep.count('acquired', '%s %s' % (k, w))
            for k, w in R.rel:
                rep.count('released', '%s %s' % (k, w))
            for k, (w, m) in R.misuse.items():
                rep.v('misuse:' + k, w, m)
            for st, v in outs:
                for x in st.r:
                    if x[3] != f.name or not live(st, x, E) or reachable_from(st, x[1], v):
                        continue
                    if st.mem.get(('x', 'arr', x[1])) in looped:
                        continue        # a loop over the array that holds it releases its elements
                    # the handle is held by an object that outlives the call, or returned inside one
                    if x[1][0] == 's' and any(val == x[1] and root_of(l)[0] not in ('v', 'x') for l, val in st.mem.items() if isinstance(l, tuple)):
                        continue
                    w = 'setting %s is not put back to its previous value' % x[1][0] if x[0] == 'setting' else '%s obtained in %s is not released' % (x[0], f.name)
                    rep.v('%s:%s:%s' % (x[0].replace(' ', '_'), f.name, nth(f, x)), x[2], w + ' on every path')
    rep.need('acquired', 5)


def nth(f, x):
    return str(x[1][2]) if x[1][0] == 's' else 'arg'
