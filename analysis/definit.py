"""Local variables, CPU sets, out-parameters and freshly allocated records are given a value before they are read (C20)."""
from flow import *
from names import *
from program import AnalysisError, strip, walk

CPU_EFFECT = {'CPU_ZERO': ('w',), 'CPU_SET': ('', 'rw'), 'CPU_CLR': ('', 'rw'), 'CPU_ISSET': ('', 'r'), 'CPU_COUNT': ('r',), 'CPU_AND': ('w', 'r', 'r'),
              'CPU_OR': ('w', 'r', 'r'), 'CPU_XOR': ('w', 'r', 'r'), 'CPU_EQUAL': ('r', 'r'), 'CPU_COUNT_S': ('', 'r'), 'CPU_ZERO_S': ('', 'w'), 'CPU_SET_S': ('', '', 'rw'),
              'CPU_AND_S': ('', 'w', 'r', 'r'), 'CPU_OR_S': ('', 'w', 'r', 'r')}
NOREAD = {'free', 'va_start', '__builtin_va_start', '__builtin_va_end', 'pthread_setspecific', '__builtin_va_copy', '__builtin_object_size'}


class Summary:
    __slots__ = ('reads', 'exits', 'known')

    def __init__(self):
        self.reads, self.exits, self.known = {}, [], False      # parameter index -> {path}, [(returned constant or None, {parameter index written})]


def spell(loc):
    """(root, path) with array positions merged"""
    path, x = [], loc
    while x[0] in ('f', 'e'):
        path.append(x[2] if x[0] == 'f' else '[]')
        x = x[1]
    return x, tuple(reversed(path))


def overlap(a, b):
    n = min(len(a), len(b))
    return all(x == y or '[]' in (x, y) for x, y in zip(a[:n], b[:n]))


class InitRule(Rule):
    exact = False

    def __init__(self, P, f, sums, facts):
        self.P, self.f, self.sums, self.facts = P, f, sums, facts
        self.tracked = {}
        self.bad, self.sum = {}, Summary()
        self.pidx = {p['n']: k for k, p in enumerate(f.params)}
        self.decls, self.tabled = set(), set()
        self.filled = filled_in_loops(f)

    def initial(self, E):
        return frozenset()

    def inline(self, E, fid):
        return False

    def key_extra(self, E, st):
        return frozenset(st.facts.items()) if self.facts else None

    # ---- r: pending = places declared without a value, minus those written: {('u', root)} and {('i', root, path)}
    def on_decl(self, E, st, loc, q, node, fr):
        t = fr.fn.types[q['t']]
        st.r = frozenset(x for x in st.r if x[1] != loc)
        if q.get('init') is not None or t.get('k') in ('arr', 'fn') or q.get('static') or t.get('k') == 'rec' and not self.P.records.get(t.get('r'), {}).get('fields', 1):
            return
        if t.get('s') == 'va_list' or '__va_list_tag' in str(t.get('c')):
            return
        self.decls.add((fr.fn.id, q['n']))
        self.tracked[loc] = q['n']
        st.r = st.r | {('u', loc)}

    def state(self, st, loc):
        """None: not tracked; else is there a value at loc"""
        root, path = spell(loc)
        if ('u', root) not in st.r:
            return None
        return any(x[0] == 'i' and x[1] == root and overlap(x[2], path) for x in st.r)

    def read(self, E, st, loc, node, fr, how='reads'):
        root, path = spell(loc)
        s = self.state(st, loc)
        if s is False and not self.counted(root, node, fr):
            nm = self.tracked.get(root) or self.heap(root)
            self.bad.setdefault((nm + ''.join('.' + p for p in path if p != '[]')), (E.where(node, fr), how))
        if root[0] == 'd' and root[1][0] == 's' and root[1][1] == 'P' and root[1][2] in self.pidx and fr.up is None:
            if not any(x[0] == 'i' and x[1] == root and overlap(x[2], path) for x in st.r):
                self.sum.reads.setdefault(self.pidx[root[1][2]], set()).add(path)

    def counted(self, root, node, fr):
        """given a value in a loop that the reading place is not part of"""
        if root[0] != 'v':
            return False
        return any(node not in b for b in self.filled.get(root[2], ()))

    def heap(self, root):
        return 'block of ' + str(root[1][2])

    def write(self, st, loc):
        root, path = spell(loc)
        if ('u', root) in st.r or root[0] == 'd' and root[1][0] == 's' and root[1][1] == 'P':
            if not path:
                st.r = frozenset(x for x in st.r if not (x[0] == 'i' and x[1] == root))
                if root[0] == 'v' or root[1][1] == 'ret':
                    st.r = st.r - {('u', root)}
                    return
            if len([x for x in st.r if x[0] == 'i' and x[1] == root]) < 60:
                st.r = st.r | {('i', root, path)}

    def on_store(self, E, st, loc, val, node, fr):
        if val[0] == 'mask':
            for a in val[2:]:
                if isinstance(a, tuple):
                    self.read(E, st, deref(a), node, fr)
        if val[0] == '&':
            self.write(st, self.top(val[1]))        # known elsewhere from now on
        if val[0] == 's' and val[1] == 'ret' and root_of(loc)[0] != 'v':
            st.r = frozenset(x for x in st.r if x != ('u', ('d', val)))
        if val[0] != 'atomic' or True:
            self.write(st, loc)

    def top(self, loc):
        return root_of(loc)

    def on_load(self, E, st, loc, val, node, fr):
        if val[0] == '&' and val[1][0] == 'e':
            return
        self.read(E, st, loc, node, fr)

    def on_indirect(self, E, st, target, args, node, fr):
        n = fr.fn.nodes[node]
        for a, c in zip(args, n['ch'][1:]):
            t = fr.fn.types[fr.fn.nodes[c]['t']]
            if t.get('k') == 'ptr' and fr.fn.types[t['p']].get('const') and fr.fn.types[t['p']].get('k') in ('rec', 'void') and a[0] in ('&', 's'):
                self.read(E, st, deref(a), node, fr, 'hands to a callback')
        for a in args:
            if a[0] == '&':
                self.write(st, self.top(a[1]))
            elif a[0] == 's':
                self.write(st, ('d', a))
        return None

    def untyped(self, f, p):
        """a place of any type (void *): written through a pointer of the right type, chosen by a type code"""
        t = f.types[p['t']]
        return t.get('k') == 'ptr' and f.types[t['p']].get('k') == 'void' and not f.types[t['p']].get('const')

    def on_branch(self, E, st, node, taken, fr):
        if taken != 'default':
            return
        n = fr.fn.nodes[strip(fr.fn, node)]
        if n['k'] != 'UnaryOperator' or n['op'] != '++' or n.get('post'):
            return
        x = fr.fn.nodes[strip(fr.fn, n['ch'][0])]
        if x['k'] == 'DeclRefExpr' and x['d']['k'] == 'var':
            # counting up: the cases below the default were all met before
            for u in [u for u in st.r if u[0] == 'u' and u[1][0] == 'v']:
                self.write(st, u[1])

    def inside(self, st, a):
        """the object that an address computed from a tracked one lies in"""
        while a[0] == 'op' and a[1] in '+-':
            a = a[2]
        return a

    def forget_block(self, st, a):
        st.r = frozenset(x for x in st.r if x != ('u', ('d', a)))

    def on_call(self, E, st, fid, args, node, fr):
        n = fr.fn.nodes[node]
        tys = [fr.fn.types[fr.fn.nodes[c]['t']] for c in n['ch'][1:]]
        if fid in ('malloc', 'aligned_alloc', 'realloc'):
            out = E.default_call(st, fid, args, node, n, fr)
            if fid == 'malloc':
                for s, v in out:
                    if v[0] == 's':
                        s.r = frozenset(x for x in s.r if x[1] != ('d', v)) | {('u', ('d', v))}
            return out
        for a in args:
            if a[0] == 'op' and a[1] in '+-':
                b = self.inside(st, a)
                if b[0] in ('&', 's'):
                    self.write(st, self.top(deref(b)))
        eff = CPU_EFFECT.get(fid)
        if eff:
            for a, e in zip(args, eff):
                if 'r' in e:
                    self.read(E, st, deref(a), node, fr)
            for a, e in zip(args, eff):
                if e == 'w':
                    self.write(st, deref(a))
            return None
        if fid in ('memcpy', 'memmove', '__builtin_memcpy', '__builtin_memmove'):
            return None         # modelled as a copy
        if fid in ('memset', '__builtin_memset'):
            if args:
                self.write(st, self.top(deref(args[0])) if deref(args[0])[0] == 'e' else deref(args[0]))
            return None
        s = self.sums.get(fid)
        if s is not None and s.known and any(fr.fn.nodes[strip(fr.fn, c)].get('m') == 'default_value' for c in n['ch'][1:]):
            for a in args:          # the default value of an option is a valid one (C09)
                if a[0] == '&':
                    self.write(st, deref(a))
            return None
        if s is not None and s.known:
            for k, a in enumerate(args):
                if k in s.reads and (a[0] == '&' or a[0] == 's'):
                    base = deref(a)
                    for p in s.reads[k]:
                        root, path = spell(base)
                        if ('u', root) in st.r and not self.counted(root, node, fr) and not any(x[0] == 'i' and x[1] == root and overlap(x[2], path + p) for x in st.r):
                            nm = self.tracked.get(root) or self.heap(root)
                            self.bad.setdefault(nm + ''.join('.' + q for q in path + p if q != '[]'), (E.where(node, fr), 'hands to %s, which reads it,' % E.P.fns[fid].name))
                        if root[0] == 'd' and root[1][0] == 's' and root[1][1] == 'P' and root[1][2] in self.pidx and fr.up is None:
                            if not any(x[0] == 'i' and x[1] == root and overlap(x[2], path + p) for x in st.r):
                                self.sum.reads.setdefault(self.pidx[root[1][2]], set()).add((path + p)[:4])
            ptrs = [k for k, a in enumerate(args) if a[0] == '&' or a[0] == 's' and ('u', ('d', a)) in st.r or a[0] == 's' and a[1] == 'P']
            if not ptrs:
                return None
            res = []
            outs = E.default_call(st, fid, args, node, n, fr)
            for s0, v in outs:
                seen = set()
                gen = {k for k, p in enumerate(E.P.fns[fid].params) if self.untyped(E.P.fns[fid], p)}
                for rc, wr in s.exits:
                    rel = frozenset(k for k in ptrs if k in wr or k in gen)
                    if (rc, rel) in seen:
                        continue
                    seen.add((rc, rel))
                    s1 = s0.copy()
                    for k in rel:
                        self.write(s1, deref(args[k]))
                        if k in gen and deref(args[k])[0] == 'e':
                            self.tabled.add(spell(deref(args[k]))[0])
                    for k in ptrs:
                        if args[k][0] == 's' and k not in rel and k not in s.reads:
                            self.forget_block(s1, args[k])
                        if args[k][0] == 's' and args[k][1] == 'ret' and ('d', args[k]) and k in s.reads:
                            pass
                    if rc == 'nz':
                        s1.facts[('==', v, C0)] = False
                    res.append((s1, ('c', rc) if isinstance(rc, int) else v))
                if not seen:
                    return outs
            return res
        for k, a in enumerate(args):
            t = tys[k] if k < len(tys) else {}
            if a[0] == '&':
                const = t.get('k') == 'ptr' and fr.fn.types[t['p']].get('const')
                if const and fid and fid not in NOREAD:
                    if E.P.fns.get(fid) is None and root_of(a[1])[0] == 'v':
                        self.read(E, st, a[1], node, fr, 'hands to %s' % fid)
                else:
                    self.write(st, self.top(a[1]) if a[1][0] == 'e' else a[1])
                    if E.P.fns.get(fid) is not None or not fid:
                        self.write(st, self.top(a[1]))
            elif a[0] == 's':
                self.forget_block(st, a)
                self.write(st, ('d', a))
        return None

    def on_leave(self, E, st, fn, v, fr):
        if fr.up is None:
            wr = frozenset(k for nm, k in self.pidx.items() if any(x[0] == 'i' and x[1] == ('d', ('s', 'P', nm)) for x in st.r))
            wr |= frozenset(k for nm, k in self.pidx.items() if E.known(st, ('cmp', '==', ('s', 'P', nm), C0)) is True)    # nowhere to write to
            rc = None
            if v is not None and v[0] == 'c':
                rc = v[1]
            elif v is not None and v[0] in ('s', 'op', 'cmp') and fn.types[fn.ret].get('k') != 'fp':
                z = E.known(st, ('cmp', '==', v, C0))
                rc = 0 if z is True else 'nz' if z is False else None
            e = (rc, wr)
            if e not in self.sum.exits:
                self.sum.exits.append(e)


class InitEngine(Engine):
    def mods(self, fid):
        return frozenset()


LOOPS = ('ForStmt', 'WhileStmt', 'DoStmt')


def filled_in_loops(f):
    """local variable -> [nodes of a loop in which it is given a value]; after such a loop a counter may tell whether it was"""
    out = {}
    for i, n in f.nodes.items():
        if n['k'] not in LOOPS:
            continue
        body = set(walk(f, i))
        for x in body:
            q = f.nodes[x]
            tgt = []
            if q['k'] == 'BinaryOperator' and q['op'] == '=':
                tgt = [q['ch'][0]]
            elif q['k'] == 'CallExpr' and 'fn' in q:
                eff = CPU_EFFECT.get(q['fn'])
                tgt = [a for k, a in enumerate(q['ch'][1:]) if not eff or k < len(eff) and eff[k] == 'w']
                tgt = [a for a in tgt if f.nodes[strip(f, a)]['k'] == 'UnaryOperator' and f.nodes[strip(f, a)]['op'] == '&']
            for a in tgt:
                for y in walk(f, a):
                    d = f.nodes[y].get('d')
                    if d and d['k'] == 'var':
                        out.setdefault(d['id'], []).append(body)
                        break
    return out


def order(P):
    """callees first"""
    done, out = set(), []
    for r in sorted(P.fns):
        stack = [(r, iter(sorted(P.callees(P.fns[r]))))] if r not in done else []
        done.add(r)
        while stack:
            g, it = stack[-1]
            for h in it:
                if h in P.fns and h not in done:
                    done.add(h)
                    stack.append((h, iter(sorted(P.callees(P.fns[h])))))
                    break
            else:
                stack.pop()
                out.append(g)
    return out


def analyse(P, only=None):
    sums, found, und, decls, covered = {}, {}, [], set(), set()
    for g in order(P):
        f = P.fns[g]
        if not f.cfg or '/src/' not in f.file:
            continue
        R = None
        for facts in (True, False):
            R = InitRule(P, f, sums, facts)
            E = InitEngine(P, R, maxstates=1200 if facts else 250, budget=120000 if facts else 60000)
            try:
                E.run(f)
                break
            except AnalysisError as e:
                R = None
                if 'budget' not in str(e) and 'states' not in str(e):
                    raise
        if R is None:
            und.append(g)
            continue
        covered |= E.covered
        decls |= R.decls
        R.sum.known = True
        for k, p in enumerate(f.params):        # filled through a table of offsets: the table decides (C09)
            if ('d', ('s', 'P', p['n'])) in R.tabled:
                R.sum.reads.pop(k, None)
                R.sum.exits = [(rc, wr | {k}) for rc, wr in R.sum.exits]
        sums[g] = R.sum
        if facts:
            for nm, (w, how) in R.bad.items():
                found[(g, nm)] = (w, how)
        elif R.bad:
            und.append(g)
    return sums, found, und, decls, covered


def check_c20(rep, progs, ex):
    rep.rule('a forward, path-sensitive analysis of every function: a local variable or CPU set declared without a value, a block from malloc, or a member of one, is '
             'not read - directly, through CPU-set macros, or by a callee that reads its parameter before writing it - on a path on which nothing wrote it; whether a '
             'callee writes its out-parameter is a per-outcome summary of the callee (returned constant or zero / non-zero, parameters written), so a value left unwritten '
             'on an error return counts when the caller goes on to read it')
    for cfg, P in progs.items():
        sums, found, und, decls, covered = analyse(P)
        rep.analysed(covered)
        for g in sums:
            rep.count('function', g)
        for d in decls:
            rep.count('variable', '%s %s' % d)
        for (g, nm), (w, how) in sorted(found.items()):
            rep.v('uninit:%s:%s' % (P.fns[g].name, nm), w, '%s %s, which has no value on this path' % (how, nm))
        for g in und:
            rep.notes.append('not decided: %s' % g)
    rep.need('function', 500)
    rep.need('variable', 100)
