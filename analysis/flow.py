"""Path-sensitive abstract interpretation of the exported CFGs (property simulation).

A state is (mem, facts, r):
  mem    abstract location -> value
  facts  comparison atom -> bool, gathered at branches
  r      the rule's own finite state (any hashable)
States meeting at a block are merged when they agree on r and on the constant-valued live
locals; a merge keeps what both sides agree on.  At a loop head everything the loop changes is
forgotten.  Calls are inlined (functions of the program that matter to the rule), given to the
rule, or treated as opaque with the callee's modification summary.

Values   ('c',n) ('fn',id) ('str',s) ('&',loc) ('s',...)=opaque symbol ('op',op,a,b) ('init',..)
Locs     ('v',depth,declid) ('g',id) ('f',base,field,record) ('e',base,index) ('d',ptrvalue)
"""
from program import build_blocks, rpo, loops, live_in, strip, walk, AnalysisError

C0, C1 = ('c', 0), ('c', 1)
MAXDEPTH = 14


def is_c(v):
    return v[0] == 'c'


def vdepth(v):
    d, st = 0, [(v, 1)]
    n = 0
    while st:
        x, k = st.pop()
        n += 1
        if n > 400:
            return 99
        if k > d:
            d = k
        for y in x:
            if isinstance(y, tuple):
                st.append((y, k + 1))
    return d


def clip(loc, n, sym):
    """loc, with what its fields are reached through forgotten when the expression is deeper than n"""
    if vdepth(loc) < n:
        return loc
    path, x = [], loc
    while x[0] in ('f', 'e'):
        path.append(x)
        x = x[1]
    if x[0] != 'd' or len(path) > 3:
        return None
    x = ('d', ('s', 'ld', None, sym))
    for y in reversed(path):
        if y[0] == 'e' and vdepth(y[2]) > 3:
            return None
        x = (y[0], x) + y[2:]
    return x


def deref(v):
    return v[1] if v[0] == '&' else ('d', v)


def addr(loc):
    return loc[1] if loc[0] == 'd' else ('&', loc)


def mentions(v, pred):
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and x[0] == 's' and pred(x):
                return True
            st.extend(y for y in x if isinstance(y, tuple))
    return False


def root_of(loc):
    while loc[0] in ('f', 'e'):
        loc = loc[1]
    return loc


def contains_loc(outer, inner):
    while True:
        if outer == inner:
            return True
        if inner[0] in ('f', 'e'):
            inner = inner[1]
        else:
            return False


_counters = {}


def counters(fn):
    """locals that are incremented or accumulated into: their exact value does not separate paths"""
    c = _counters.get(id(fn))
    if c is None:
        c = set()
        for n in fn.nodes.values():
            if n['k'] == 'CompoundAssignOperator' and n['op'] in ('+=', '-=', '*=') or n['k'] == 'UnaryOperator' and n['op'] in ('++', '--'):
                x = fn.nodes[strip(fn, n['ch'][0])]
                if x['k'] == 'DeclRefExpr':
                    c.add(x['d']['id'])
        _counters[id(fn)] = c
    return c


def parents(fn):
    """expression nodes whose value is used by an enclosing expression"""
    if fn.parent is None:
        used = {}
        for i, n in fn.nodes.items():
            k = n['k']
            if 't' in n or k in ('ReturnStmt', 'DeclStmt'):
                for c in n['ch']:
                    used[c] = i
            if k == 'StmtExpr':
                b = fn.nodes[n['ch'][0]]['ch']
                if b:
                    used[b[-1]] = i
            if k == 'DeclStmt':
                for q in n['decls']:
                    if 'init' in q:
                        used[q['init']] = i
        fn.parent = used
    return fn.parent


NEG = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}


class State:
    __slots__ = ('mem', 'facts', 'r')

    def __init__(self, mem=None, facts=None, r=None):
        self.mem, self.facts, self.r = mem if mem is not None else {}, facts if facts is not None else {}, r

    def copy(self):
        return State(dict(self.mem), dict(self.facts), self.r)


def elem_of(v):
    """(array, index) a pointer points to"""
    if v[0] == '&':
        return (v[1][1], v[1][2]) if v[1][0] == 'e' else (v[1], C0)
    if v[0] == 's':
        return ('d', v), C0
    return None


def cmp_c(op, a, b):
    return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]


class Rule:
    exact = False              # True: paths with different values of locals are never merged
    keepconst = False      # constants survive in loops (only for rules under which locals take few values)

    """Base class: override the hooks."""
    def initial(self, E):
        return None

    def inline(self, E, fid):           # inline this program function?
        return True

    def on_call(self, E, st, fid, args, node, fr):
        """return None (default handling) or list of (state, value)"""
        return None

    def on_indirect(self, E, st, target, args, node, fr):
        return None

    def on_store(self, E, st, loc, val, node, fr):
        pass

    def on_load(self, E, st, loc, val, node, fr):
        pass                            # a value returned here replaces the one loaded

    def on_atomic(self, E, st, op, loc, node, fr):
        pass

    def on_branch(self, E, st, node, taken, fr):
        pass

    def on_div(self, E, st, den, node, fr):
        pass

    def on_index(self, E, st, base, idx, node, fr):
        pass

    def on_enter(self, E, st, fn, args, fr):
        pass

    def on_leave(self, E, st, fn, ret, fr):
        pass

    def on_decl(self, E, st, loc, decl, node, fr):
        pass

    def on_noret(self, E, st, fid, node, fr):
        pass

    def key_extra(self, E, st):
        return None


class Frame:
    __slots__ = ('fn', 'depth', 'ctx', 'up', 'args', 'callnode')

    def __init__(self, fn, depth, ctx, up, args, callnode=None):
        self.fn, self.depth, self.ctx, self.up, self.args, self.callnode = fn, depth, ctx, up, args, callnode

    def chain(self):
        out, f = [], self
        while f:
            out.append(f.fn.name)
            f = f.up
        return list(reversed(out))

    def stack(self):
        f = self
        while f:
            yield f
            f = f.up


class Engine:
    def __init__(self, prog, rule, maxstates=300, maxinline=14, budget=4000000, unroll=0):
        self.P, self.rule = prog, rule
        self.unroll = unroll       # loops over constant tables: visits of a head before it is widened
        self.maxstates, self.maxinline = maxstates, maxinline
        self.steps, self.budget = 0, budget
        self.widened = 0
        self.covered = set()       # functions whose bodies were analysed
        self.opaque = {}           # opaque callee -> count
        self.sites = 0
        self.const_globals = {}

    # ------------------------------------------------------------ entry
    def run(self, fn, args=None, st=None, r=None):
        if st is None:
            st = State(r=self.rule.initial(self) if r is None else r)
        if args is None:
            args = [('s', 'P', p['n'] or str(i)) for i, p in enumerate(fn.params)]
        return self.call(fn, args, st, None, None)

    # ------------------------------------------------------------ function
    def call(self, fn, args, st, up, node):
        fr = Frame(fn, up.depth + 1 if up else 0, (up.ctx + (node,)) if up else (fn.id,), up, args, node)
        self.covered.add(fn.id)
        st = st.copy()
        for i, p in enumerate(fn.params):
            if i < len(args):
                st.mem[('v', fr.depth, p['id'])] = args[i]
        self.rule.on_enter(self, st, fn, args, fr)
        if not fn.cfg:
            return [(st, ('s', 'ret', fr.ctx))]
        B, R, L = build_blocks(fn), rpo(fn), loops(fn)
        live, addrtaken = live_in(fn)
        loopinfo = {h: self._loopinfo(fn, h, body) for h, body in L.items()}
        pend = {}
        done = {}
        visits = {}
        heads = {}
        exits = {}
        entry = fn.cfg['entry']
        EXIT = fn.cfg['exit']

        cnt = counters(fn) if not self.unroll else set()
        exact = self.rule.exact

        def key(b, s):
            lv = live.get(b, ())
            k = []
            for loc, v in s.mem.items():
                if loc[0] == 'v':
                    if v[0] in ('c', 'fn') or exact or self.unroll and v[0] == '&' and v[1][0] == 'e' and v[1][2][0] == 'c':
                        if loc[1] < fr.depth or (loc[2] in lv or loc[2] in addrtaken) and loc[2] not in cnt:
                            k.append((loc, v))
                elif loc[0] == 't' and (v[0] == 'c' or exact):
                    k.append((loc, v))
                elif loc[0] == 'r' and (v[0] in ('c', 'fn') or exact):
                    k.append((loc, v))
            k.sort(key=repr if exact else None)
            return (s.r, tuple(k), self.rule.key_extra(self, s))

        def push(b, s):
            if b in L:
                if self.unroll and heads.get(b, 0) < self.unroll:
                    heads[b] = heads.get(b, 0) + 1
                else:
                    self._head(s, fn, fr, b, L[b], loopinfo[b], visits.setdefault(b, {}))
            k = key(b, s)
            d = pend.setdefault(b, {})
            if k in d:
                d[k] = self.join(d[k], s)
                return
            if len(d) >= self.maxstates:
                # widen: merge with a state of equal rule state, and of equal constants if there is one
                same = [k2 for k2 in d if k2[0] == k[0]]
                if same:
                    k2 = next((k2 for k2 in same if k2[1] == k[1]), same[0])
                    self.widened += 1
                    d[k2] = self.join(d[k2], s)
                    return
            d[k] = s
        push(entry, st)
        while pend:
            b = min(pend, key=lambda x: R.get(x, 1 << 30))
            states = pend.pop(b)
            dn = done.setdefault(b, {})
            for k, s in states.items():
                if b in L or True:
                    old = dn.get(k)
                    if old is not None:
                        j = self.join(old, s)
                        if j.mem == old.mem and j.facts == old.facts:
                            continue
                        s = j
                    dn[k] = State(dict(s.mem), dict(s.facts), s.r)
                if b == EXIT:
                    continue
                for s2, nb in self._block(fn, fr, B[b], s):
                    if nb == EXIT:
                        self._exit(fn, fr, s2, exits)
                    elif nb is not None and nb >= 0:
                        push(nb, s2)
        out = []
        for s, v in exits.values():
            self.rule.on_leave(self, s, fn, v, fr)
            out.append((s, v))
        return out

    def _exit(self, fn, fr, s, exits):
        v = s.mem.get(('r', fr.depth), ('s', 'ret', fr.ctx))
        if v[0] == 'obj' and fr.up is not None and self._rooted_at_depth(v[1], fr.depth):
            # a record returned by value lives on in the caller
            dst = ('v', fr.up.depth, 'rv%s' % fr.callnode)
            src = v[1]
            sub = [(l, x) for l, x in s.mem.items() if l != src and l[0] in ('f', 'e') and contains_loc(src, l)]
            self.havoc_under(s, dst)

            def rebase(l):
                return dst if l == src else (l[0], rebase(l[1])) + l[2:]
            for l, x in sub:
                s.mem[rebase(l)] = x
            v = ('obj', dst)
        # drop locals of the callee
        dead = [l for l in s.mem if l[0] in ('v', 't', 'r') and l[1] >= fr.depth or (l[0] in ('f', 'e') and self._rooted_at_depth(l, fr.depth))]
        for l in dead:
            del s.mem[l]
        kk = []
        for loc, x in s.mem.items():
            if loc[0] == 'v' and (x[0] in ('c', 'fn') or self.rule.exact):
                kk.append((loc, x))
        kk.sort(key=repr if self.rule.exact else None)
        vk = v if v[0] in ('c', 'fn', '&', 'str') or self.rule.exact else 'x'
        k = (s.r, tuple(kk), vk, self.rule.key_extra(self, s))
        if k in exits:
            o, ov = exits[k]
            exits[k] = (self.join(o, s), v if v == ov else ('s', 'ret', fr.ctx))
        else:
            exits[k] = (s, v)

    @staticmethod
    def _rooted_at_depth(l, d):
        r = root_of(l)
        return r[0] == 'v' and r[1] >= d

    def join(self, a, b):
        mem = {}
        bm = b.mem
        for l, v in a.mem.items():
            if bm.get(l) == v or l[0] == 'x' and l[1] == 'esc':
                mem[l] = v
        for l, v in bm.items():
            if l[0] == 'x' and l[1] == 'esc':
                mem[l] = v
        facts = {}
        for k, v in a.facts.items():
            if b.facts.get(k) == v or self.decide(b, k) == v:
                facts[k] = v
        for k, v in b.facts.items():
            if k not in facts and self.decide(a, k) == v:
                facts[k] = v
        return State(mem, facts, a.r)

    def _loopinfo(self, fn, head, body):
        """what the loop changes: (locals to forget, field/global mods, node ids)"""
        B = build_blocks(fn)
        nodes = set()
        for b in body:
            nodes.update(B[b]['e'])
        forget, mods = set(), set()
        simple = {}
        for e in nodes:
            n = fn.nodes[e]
            k = n['k']
            if k == 'BinaryOperator' and n['op'] == '=' or k == 'CompoundAssignOperator' or k == 'UnaryOperator' and n['op'] in ('++', '--'):
                x = strip(fn, n['ch'][0])
                xn = fn.nodes[x]
                if xn['k'] == 'DeclRefExpr' and xn['d']['k'] in ('var', 'parm'):
                    if k == 'BinaryOperator':
                        rhs = n['ch'][1]
                        if not self._finite(fn, rhs) and any(fn.nodes[y]['k'] == 'DeclRefExpr' and fn.nodes[y]['d']['id'] == xn['d']['id'] for y in walk(fn, rhs)):
                            forget.add(xn['d']['id'])
                    else:
                        forget.add(xn['d']['id'])
                else:
                    self._modpath(fn, x, mods, forget)
            elif k == 'AtomicExpr':
                for y in [n['ptr']] + ([n['val1']] if 'compare_exchange' in n['op'] and 'val1' in n else []):
                    y = strip(fn, y)
                    yn = fn.nodes[y]
                    if yn['k'] == 'UnaryOperator' and yn['op'] == '&':
                        self._modpath(fn, yn['ch'][0], mods, forget)
                    elif fn.types[yn['t']].get('k') == 'ptr':
                        mods.add(('*', fn.types[fn.types[yn['t']]['p']]['c']))
            elif k == 'CallExpr':
                fid = n.get('fn')
                if fid in self.P.fns:
                    mods |= self.mods(fid)
                for a in n['ch'][1:]:
                    x = strip(fn, a)
                    xn = fn.nodes[x]
                    if xn['k'] == 'UnaryOperator' and xn['op'] == '&':
                        self._modpath(fn, xn['ch'][0], mods, forget, True)
                    elif fn.types[xn['t']].get('k') == 'arr':
                        self._modpath(fn, x, mods, forget, True)
        return (forget, mods, nodes)

    def _modpath(self, fn, x, mods, forget, byaddr=False):
        x = strip(fn, x)
        n = fn.nodes[x]
        if n['k'] == 'MemberExpr':
            mods.add(('f', n.get('r'), n['m']))
        elif n['k'] == 'DeclRefExpr':
            if n['d']['k'] in ('var', 'parm'):
                forget.add(n['d']['id'])
            else:
                mods.add(('g', n['d']['id']))
        elif n['k'] == 'ArraySubscriptExpr':
            b = fn.nodes[strip(fn, n['ch'][0])]
            if fn.types[b['t']].get('k') == 'ptr':      # an element, not the pointer
                mods.add(('*', fn.types[n['t']]['c']))
                mods.add(('[]',))
                if b['k'] != 'DeclRefExpr':
                    self._modpath(fn, n['ch'][0], mods, set())
            else:
                self._modpath(fn, n['ch'][0], mods, forget)
        elif n['k'] == 'UnaryOperator':
            if n['op'] == '*':
                mods.add(('*', fn.types[n['t']]['c']))
            self._modpath(fn, n['ch'][0], mods, set() if n['op'] == '*' else forget)

    def _head(self, s, fn, fr, head, body, info, seen):
        forget, mods, nodes = info
        clen = len(fr.ctx)

        def inloop(sym):
            c = sym[-1]
            if not (isinstance(c, tuple) and len(c) > clen and c[:clen] == fr.ctx):
                return False
            return c[clen] in nodes
        for l in list(s.mem):
            v = s.mem[l]
            if l[0] == 'v' and l[1] == fr.depth and l[2] in forget:
                del s.mem[l]
            elif l[0] in ('f', 'e', 'd', 'g') and self._hit(l, mods, fr, forget) and not self._unreached(s, root_of(l), fr):
                del s.mem[l]
            elif mentions(v, inloop) or mentions(l, inloop):
                del s.mem[l]
        for k in list(s.facts):
            if mentions(k, inloop):
                del s.facts[k]
        # facts on memory-valued symbols stay; widen if this head is visited too often
        kk = s.r
        seen[kk] = seen.get(kk, 0) + 1
        if seen[kk] > 12:
            keep = self.rule.keepconst and seen[kk] < 400
            for l in list(s.mem):
                if keep and s.mem[l][0] == 'c':
                    continue
                if l[0] == 'v' and l[1] == fr.depth and self._assigned(fn, l[2], nodes):
                    del s.mem[l]

    def _finite(self, fn, x):
        """the expression is one of a few constants"""
        y = fn.nodes[strip(fn, x)]
        if y['k'] == 'ConditionalOperator':
            return self._finite(fn, y['ch'][1]) and self._finite(fn, y['ch'][2])
        return y['k'] in ('IntegerLiteral', 'CXXBoolLiteralExpr', 'CharacterLiteral') or y['k'] == 'DeclRefExpr' and y['d']['k'] == 'enum'

    def _assigned(self, fn, did, nodes):
        for e in nodes:
            n = fn.nodes[e]
            if n['k'] == 'BinaryOperator' and n['op'] == '=':
                x = fn.nodes[strip(fn, n['ch'][0])]
                if x['k'] == 'DeclRefExpr' and x['d']['id'] == did:
                    if self._finite(fn, n['ch'][1]):
                        continue            # one of finitely many values: no need to forget it
                    return True
        return False

    def _hit(self, l, mods, fr=None, forget=()):
        """may location l be one of the modified paths"""
        x = l
        while True:
            if x[0] == 'f':
                if ('f', x[3], x[2]) in mods:
                    return True
                x = x[1]
            elif x[0] == 'e':
                if ('[]',) in mods:
                    return True
                x = x[1]
            elif x[0] == 'g':
                return ('g', x[1]) in mods
            elif x[0] == 'v':
                return fr is not None and x[1] == fr.depth and x[2] in forget
            elif x[0] == 'd':
                return x is l and any(m[0] == '*' and m[1].replace('struct ', '') not in self.P.records for m in mods)
            else:
                return False

    # ------------------------------------------------------------ block
    def _block(self, fn, fr, blk, st):
        """yields (state, successor)"""
        states = [st]
        d = fr.depth
        if blk.get('case'):
            pass
        for e in blk['e']:
            nxt = []
            for s in states:
                self.steps += 1
                if self.steps > self.budget:
                    raise AnalysisError('analysis budget exceeded in %s' % fn.name)
                nxt += self._elem(fn, fr, e, s)
            states = nxt
            if not states:
                return []
            if len(states) > 400:
                states = self._squash(states)
        out = []
        succ = blk['s']
        term = blk.get('term')
        if blk.get('noret'):
            return []
        if not term or len(succ) < 2:
            for s in states:
                self._clear_tmp(s, fn, d)
                for nb in succ[:1]:
                    out.append((s, nb))
            return out
        cond = blk.get('last', blk.get('cond'))
        if term == 'SwitchStmt':
            cond = blk.get('cond')
            B = build_blocks(fn)
            for s in states:
                v = self.val(fn, fr, s, cond)
                self._clear_tmp(s, fn, d)
                cases, dflt, allc = [], None, []
                for nb in succ:
                    if nb < 0:
                        continue
                    cb = B[nb]
                    if cb.get('case'):
                        cases.append((cb['case'], nb))
                        allc += cb['case'][:1]
                    else:
                        dflt = nb
                # fallthrough labels: "case A: case B:" give separate blocks, as successors of the switch
                for cv, nb in cases:
                    if len(cv) == 2:
                        out.append((s.copy(), nb))
                        continue
                    t = self.assume(s, ('==', v, ('c', cv[0])), True)
                    if t is not None:
                        self.rule.on_branch(self, t, cond, cv[0], fr)
                        out.append((t, nb))
                if dflt is not None:
                    t = s
                    for cv, nb in cases:
                        if t is not None and len(cv) == 1:
                            t = self.assume(t, ('==', v, ('c', cv[0])), False)
                    if t is not None:
                        self.rule.on_branch(self, t, cond, 'default', fr)
                        out.append((t, dflt))
            return out
        tn = fn.nodes[blk['tid']]
        if term in ('IndirectGotoStmt', 'GCCAsmStmt', 'CXXTryStmt'):
            return [(s.copy(), nb) for s in states for nb in succ if nb >= 0]
        logical = tn['k'] == 'BinaryOperator' and tn['op'] in ('&&', '||')
        if cond is None:
            for s in states:
                self._clear_tmp(s, fn, d)
                for nb in succ:
                    if nb >= 0:
                        out.append((s.copy(), nb))
            return out
        for s in states:
            v = self.val(fn, fr, s, cond)
            keep = {l: x for l, x in s.mem.items() if l[0] == 't' and l[1] == d}
            for truth, nb in ((True, succ[0]), (False, succ[1])):
                if nb is None or nb < 0:
                    # pruned edge (constant condition): skip
                    continue
                t = self.assume_val(s, v, truth)
                if t is None:
                    continue
                t.mem.pop(('t', d, cond), None)
                if logical:
                    if tn['op'] == '&&' and not truth:
                        t.mem[('t', d, blk['tid'])] = C0
                    elif tn['op'] == '||' and truth:
                        t.mem[('t', d, blk['tid'])] = C1
                    else:
                        t.mem.pop(('t', d, blk['tid']), None)
                self.rule.on_branch(self, t, cond, truth, fr)
                out.append((t, nb))
        return out

    def _clear_tmp(self, s, fn, d):
        """drop the values of expressions whose full statement is over"""
        p = parents(fn)
        for l in [l for l in s.mem if l[0] == 't' and l[1] == d]:
            if l[2] not in p:
                del s.mem[l]

    def _squash(self, states):
        g = {}
        for s in states:
            if s.r in g:
                g[s.r] = self.join(g[s.r], s)
                self.widened += 1
            else:
                g[s.r] = s
        return list(g.values())

    # ------------------------------------------------------------ values
    def val(self, fn, fr, s, i):
        """value of an already evaluated (or pure) expression node"""
        k = ('t', fr.depth, i)
        v = s.mem.get(k)
        if v is not None:
            return v
        return self.pure(fn, fr, s, i)

    def pure(self, fn, fr, s, i):
        """recompute a side-effect free node (constants, reloads)"""
        n = fn.nodes[i]
        if 'v' in n:
            return ('c', n['v'])
        r = self._expr(fn, fr, i, s, peek=True)
        return r

    def truthv(self, v):
        if v[0] == 'c':
            return v[1] != 0
        if v[0] in ('&', 'fn', 'str'):
            return True
        return None

    def atom(self, op, a, b):
        """canonical comparison: returns (atom, polarity) or bool"""
        if is_c(a) and is_c(b):
            return cmp_c(op, a[1], b[1])
        if a == b:
            return op in ('==', '<=', '>=')
        pa, pb = elem_of(a), elem_of(b)
        if pa and pb and pa[0] == pb[0] and (a[0] == '&' or b[0] == '&'):
            return self.atom(op, pa[1], pb[1])      # two places of one array: the places decide
        if op == '!=':
            r = self.atom('==', a, b)
            return (not r) if isinstance(r, bool) else (r[0], not r[1])
        if op == '>':
            return self.atom('<', b, a)
        if op == '>=':
            r = self.atom('<', a, b)
            return (not r) if isinstance(r, bool) else (r[0], not r[1])
        if op == '<=':
            r = self.atom('<', b, a)
            return (not r) if isinstance(r, bool) else (r[0], not r[1])
        if op == '==':
            if is_c(a):
                a, b = b, a
            if is_c(b):
                if b[1] == 0 and a[0] in ('&', 'fn', 'str'):
                    return False
                # (x op y) == 0 on comparison values
                if a[0] == 'cmp' and b[1] in (0, 1):
                    r = self.atom(a[1], a[2], a[3])
                    if isinstance(r, bool):
                        return r == bool(b[1])
                    return (r[0], r[1] == bool(b[1]))
                if a[0] == 'op' and a[1] == '+' and is_c(a[3]):
                    return self.atom('==', a[2], ('c', b[1] - a[3][1]))
                if a[0] == 'op' and a[1] == '-' and b[1] == 0 and not is_c(a[3]):
                    return self.atom('==', a[2], a[3])
            elif a[0] in ('&', 'fn') and b[0] in ('&', 'fn') and a != b:
                if a[0] != b[0] or a[0] == 'fn':
                    return False
                la, lb = a[1], b[1]
                if la[0] in ('v', 'g') and lb[0] in ('v', 'g'):
                    return False
            if repr(a) > repr(b) and not is_c(b):
                a, b = b, a
        return (('==' if op == '==' else '<', a, b), True)

    def bounds(self, st, t):
        """(lo, hi, excluded) of term t from the facts"""
        lo = hi = None
        ex = set()
        for (op, a, b), v in st.facts.items():
            if op == '==':
                if a == t and is_c(b):
                    if v:
                        return (b[1], b[1], ex)
                    ex.add(b[1])
            elif op == '<':
                if a == t and is_c(b):
                    if v:
                        hi = b[1] - 1 if hi is None else min(hi, b[1] - 1)
                    else:
                        lo = b[1] if lo is None else max(lo, b[1])
                elif b == t and is_c(a):
                    if v:
                        lo = a[1] + 1 if lo is None else max(lo, a[1] + 1)
                    else:
                        hi = a[1] if hi is None else min(hi, a[1])
        if t[0] == 's' and len(t) > 2 and t[1] == 'uns':
            lo = 0 if lo is None else max(lo, 0)
        while lo is not None and lo in ex:
            lo += 1
        while hi is not None and hi in ex:
            hi -= 1
        return lo, hi, ex

    def decide(self, st, at):
        v = st.facts.get(at)
        if v is not None:
            return v
        op, a, b = at
        if is_c(a) or is_c(b):
            t, c = (a, b[1]) if is_c(b) else (b, a[1])
            lo, hi, ex = self.bounds(st, t)
            if op == '==':
                if c in ex or (lo is not None and c < lo) or (hi is not None and c > hi):
                    return False
                if lo is not None and lo == hi:
                    return lo == c
            else:
                if is_c(b):       # t < c
                    if hi is not None and hi < c:
                        return True
                    if lo is not None and lo >= c:
                        return False
                else:             # c < t
                    if lo is not None and lo > c:
                        return True
                    if hi is not None and hi <= c:
                        return False
        else:
            if op == '==':
                if st.facts.get(('<', a, b)) or st.facts.get(('<', b, a)):
                    return False
            elif op == '<':
                if st.facts.get(('<', b, a)) or st.facts.get(('==', a, b)) or st.facts.get(('==', b, a)):
                    return False
        return None

    def assume(self, st, cmp, truth):
        r = self.atom(*cmp)
        if isinstance(r, bool):
            return st.copy() if r == truth else None
        at, pol = r
        want = truth == pol
        d = self.decide(st, at)
        if d is not None:
            return st.copy() if d == want else None
        t = st.copy()
        t.facts[at] = want
        return t

    def assume_val(self, st, v, truth):
        if v[0] == 'c':
            return st.copy() if (v[1] != 0) == truth else None
        if v[0] == 'cmp':
            return self.assume(st, v[1:], truth)
        if v[0] == 'not':
            return self.assume_val(st, v[1], not truth)
        if v[0] == 'and':
            if truth:
                t = self.assume_val(st, v[1], True)
                return self.assume_val(t, v[2], True) if t is not None else None
            # false: if one side is decided true the other is false
            a = self.known(st, v[1])
            b = self.known(st, v[2])
            if a is True and b is True:
                return None
            if a is True:
                return self.assume_val(st, v[2], False)
            if b is True:
                return self.assume_val(st, v[1], False)
            return st.copy()
        if v[0] == 'or':
            if not truth:
                t = self.assume_val(st, v[1], False)
                return self.assume_val(t, v[2], False) if t is not None else None
            a = self.known(st, v[1])
            b = self.known(st, v[2])
            if a is False and b is False:
                return None
            if a is False:
                return self.assume_val(st, v[2], True)
            if b is False:
                return self.assume_val(st, v[1], True)
            return st.copy()
        if v[0] in ('&', 'fn', 'str'):
            return st.copy() if truth else None
        return self.assume(st, ('==', v, C0), not truth)

    def known(self, st, v):
        """truth of v in st: True/False/None"""
        if v[0] == 'c':
            return v[1] != 0
        if v[0] in ('&', 'fn', 'str'):
            return True
        if v[0] == 'not':
            k = self.known(st, v[1])
            return None if k is None else not k
        if v[0] == 'and':
            a, b = self.known(st, v[1]), self.known(st, v[2])
            if a is False or b is False:
                return False
            return True if a and b else None
        if v[0] == 'or':
            a, b = self.known(st, v[1]), self.known(st, v[2])
            if a or b:
                return True
            return False if a is False and b is False else None
        if v[0] == 'cmp':
            return self.known_cmp(st, *v[1:])
        r = self.known_cmp(st, '==', v, C0)
        return None if r is None else not r

    def known_cmp(self, st, op, a, b):
        r = self.atom(op, a, b)
        if isinstance(r, bool):
            return r
        d = self.decide(st, r[0])
        return None if d is None else d == r[1]

    def simp(self, op, a, b):
        if is_c(a) and is_c(b):
            x, y = a[1], b[1]
            try:
                return ('c', {'+': x + y, '-': x - y, '*': x * y, '&': x & y, '|': x | y, '^': x ^ y,
                              '/': int(x / y) if y else 0, '%': x - y * int(x / y) if y else 0,
                              '<<': x << y if 0 <= y < 64 else 0, '>>': x >> y if 0 <= y < 64 else 0}[op])
            except KeyError:
                return None
        if op in ('+', '-', '|', '^', '<<', '>>') and b == C0:
            return a
        if op in ('+', '|', '^') and a == C0:
            return b
        if op == '*' and a == C1:
            return b
        if op in ('*', '/') and b == C1:
            return a
        if op == '*' and (a == C0 or b == C0) or op == '&' and (a == C0 or b == C0):
            return C0
        if op == '-' and a == b:
            return C0
        if op == '-' and is_c(b):
            return self.simp('+', a, ('c', -b[1])) or ('op', '+', a, ('c', -b[1]))
        if op == '+' and is_c(a) and not is_c(b):
            a, b = b, a
        if op == '+' and is_c(b) and a[0] == 'op' and a[1] == '+' and is_c(a[3]):
            return self.simp('+', a[2], ('c', a[3][1] + b[1])) or ('op', '+', a[2], ('c', a[3][1] + b[1]))
        return ('op', op, a, b)

    # ------------------------------------------------------------ memory
    def load(self, st, loc, fr, i, ty=None):
        v = st.mem.get(loc)
        if v is None:
            v = self._const_load(loc)
            if v is None:
                tag = 'uns' if ty and ty.get('u') else 'ld'
                v = ('s', tag, clip(loc, 8, fr.ctx + (i,)), fr.ctx + (i,))
                if ty and ty.get('k') == 'arr':
                    v = ('&', self._elem0(loc))
            st.mem[loc] = v
        return v

    def _elem0(self, loc):
        return ('e', loc, C0)

    def _const_load(self, loc):
        path, x = [], loc
        while x[0] in ('f', 'e'):
            if x[0] == 'e':
                if not is_c(x[2]):
                    return None
                path.append(x[2][1])
            else:
                path.append(x[2])
            x = x[1]
        if x[0] != 'g':
            return None
        g = self.P.globals.get(x[1])
        if not g or 'init' not in g or not g['types'][g['t']].get('const') and not self._const_elem(g):
            return None
        nodes, i = g['nodes'], g['init']

        class F:
            pass
        f = F()
        f.nodes, f.types = nodes, g['types']
        for p in reversed(path):
            i = strip(f, i)
            n = nodes[i]
            if n['k'] != 'InitListExpr':
                return None
            if isinstance(p, str):
                if p not in n['fields']:
                    return None
                p = n['fields'].index(p)
            if p < 0:
                return None
            if p >= len(n['ch']):
                return C0 if not n['fields'] else None
            i = n['ch'][p]
        n = nodes[i]
        if 'v' in n:
            return ('c', n['v'])
        n = nodes[strip(f, i)]
        if 'v' in n:
            return ('c', n['v'])
        if n['k'] == 'StringLiteral':
            return ('str', n.get('str'))
        if n['k'] == 'DeclRefExpr' and n['d']['k'] == 'func':
            return ('fn', n['d']['id'])
        if n['k'] == 'UnaryOperator' and n['op'] == '&' and nodes[strip(f, n['ch'][0])]['k'] == 'DeclRefExpr':
            m = nodes[strip(f, n['ch'][0])]
            return ('fn', m['d']['id']) if m['d']['k'] == 'func' else ('&', ('g', m['d']['id']))
        if n['k'] == 'DeclRefExpr' and n['d']['k'] == 'gvar' and g['types'][n['t']].get('k') == 'arr':
            return ('&', ('e', ('g', n['d']['id']), C0))
        return None

    def _const_elem(self, g):
        t = g['types'][g['t']]
        while t.get('k') == 'arr':
            t = g['types'][t['p']]
        return bool(t.get('const'))

    def store(self, st, loc, val, fr, i):
        self.rule.on_store(self, st, loc, val, i, fr)
        self.invalidate(st, loc)
        st.mem[loc] = val

    def invalidate(self, st, loc):
        """forget what may alias loc"""
        k = loc[0]
        if k == 'v':
            for l in [l for l in st.mem if l[0] in ('f', 'e') and root_of(l) == loc]:
                del st.mem[l]
            return
        sel = loc[2:] if k == 'f' else None
        for l in list(st.mem):
            if l == loc:
                continue
            if l[0] in ('v', 't', 'r', 'x'):
                continue
            if contains_loc(loc, l):
                del st.mem[l]
            elif k == 'f':
                if l[0] == 'f' and l[2:] == sel and not self._distinct(l[1], loc[1]):
                    del st.mem[l]
                elif l[0] == 'd' and False:
                    del st.mem[l]
            elif k == 'e':
                if l[0] == 'e' and not self._distinct(l, loc):
                    del st.mem[l]
            elif k == 'd':
                pass

    def _distinct(self, a, b):
        """provably different objects?"""
        if a == b:
            return False
        if a[0] == 'e' and b[0] == 'e':
            if is_c(a[2]) and is_c(b[2]) and a[2] != b[2] and a[1] == b[1]:
                return True
            return a[1] != b[1] and self._distinct(a[1], b[1])
        if a[0] == 'f' and b[0] == 'f':
            if a[2:] != b[2:]:
                return True
            return self._distinct(a[1], b[1])
        if a[0] in ('v', 'g') and b[0] in ('v', 'g'):
            return True
        if (a[0] == 'v') != (b[0] == 'v'):
            return True     # locals are not aliased by unknown pointers here (address tracked as '&')
        if a[0] in ('f', 'e') and b[0] in ('v', 'g'):
            r = root_of(a)
            return r[0] in ('v', 'g') and r != b
        if b[0] in ('f', 'e') and a[0] in ('v', 'g'):
            r = root_of(b)
            return r[0] in ('v', 'g') and r != a
        return False

    def havoc_under(self, st, loc):
        for l in [l for l in st.mem if l[0] not in ('t', 'r', 'x') and contains_loc(loc, l)]:
            del st.mem[l]

    def havoc_mods(self, st, mods):
        if not mods:
            return
        own = {}
        for l in list(st.mem):
            if l[0] in ('f', 'e', 'g', 'd') and self._hit(l, mods):
                r = root_of(l)
                if r[0] == 'd' and r[1][0] == 's' and r[1][1] == 'ret' and r[1][2] in ('malloc', 'calloc'):
                    if r[1] not in own:
                        own[r[1]] = self._private(st, r[1])
                    if own[r[1]]:
                        continue
                if r[0] != 'v':
                    del st.mem[l]

    def _unreached(self, st, r, fr):
        """a block allocated by a caller that the function of frame fr has no pointer to"""
        if not (r[0] == 'd' and r[1][0] == 's' and r[1][1] == 'ret' and r[1][2] in ('malloc', 'calloc') and len(r[1][3]) <= fr.depth + 1) or fr.depth == 0:
            return False
        if len(r[1][3]) - 2 >= fr.depth or not self._private(st, r[1]):
            return False
        return not any(l[0] == 'v' and l[1] == fr.depth and mentions(v, lambda x: x == r[1]) for l, v in st.mem.items())

    def _private(self, st, p):
        """no other function can know the block p just allocated"""
        if ('x', 'esc', p) in st.mem:
            return False
        return not any(l[0] in ('g', 'f', 'e', 'd') and (v == p or v[0] == '&' and root_of(v[1]) == ('d', p)) and root_of(l)[0] != 'v'
                       for l, v in st.mem.items())

    def copy_obj(self, st, dst, src, fr, i):
        sub = [(l, v) for l, v in st.mem.items() if l != src and l[0] in ('f', 'e') and contains_loc(src, l)]
        self.rule.on_store(self, st, dst, ('obj', src), i, fr)
        self.invalidate(st, dst)
        self.havoc_under(st, dst)

        def rebase(l):
            if l == src:
                return dst
            return (l[0], rebase(l[1])) + l[2:]
        for l, v in sub:
            st.mem[rebase(l)] = v

    # ------------------------------------------------------------ elements
    def _elem(self, fn, fr, i, st):
        n = fn.nodes[i]
        k = n['k']
        if k == 'CallExpr':
            return self._callexpr(fn, fr, i, n, st)
        v = self._expr(fn, fr, i, st)
        if v is not None:
            d = fr.depth
            for c in n['ch']:
                st.mem.pop(('t', d, c), None)
            st.mem[('t', d, i)] = v
        return [st]

    def _lv(self, fn, fr, st, i):
        """location of an lvalue node (its tmp is ('&',loc))"""
        return deref(self.val(fn, fr, st, i))

    def _expr(self, fn, fr, i, st, peek=False):
        n = fn.nodes[i]
        k = n['k']
        d = fr.depth
        ch = n['ch']
        if 'v' in n and k not in ('BinaryOperator', 'UnaryOperator', 'CompoundAssignOperator'):
            return ('c', n['v'])
        if k in ('BinaryOperator', 'UnaryOperator') and 'v' in n and n.get('op') not in ('=', ',', '++', '--'):
            return ('c', n['v'])
        if k == 'DeclRefExpr':
            dd = n['d']
            if dd['k'] == 'func':
                return ('fn', dd['id'])
            if dd['k'] == 'enum':
                return ('c', dd['v'])
            if dd['k'] == 'gvar':
                return ('&', ('g', dd['id']))
            return ('&', ('v', d, dd['id']))
        if k == 'ParenExpr' or k == 'ConstantExpr' or k == 'GenericSelectionExpr' or k == 'PredefinedExpr':
            if k == 'PredefinedExpr':
                return ('str', '__func__')
            return self.val(fn, fr, st, ch[-1]) if ch else ('s', 'x', fr.ctx + (i,))
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            ck = n['ck']
            v = self.val(fn, fr, st, ch[0])
            if ck in ('LValueToRValue', 'AtomicToNonAtomic'):
                if fn.types[fn.nodes[ch[0]]['t']].get('k') != 'ptr' and not fn.nodes[ch[0]].get('lv') and ck == 'AtomicToNonAtomic':
                    return v
                if ck == 'AtomicToNonAtomic':
                    return v
                loc = deref(v)
                ty = fn.types[n['t']]
                if ty.get('k') == 'rec':
                    if not peek:
                        self.rule.on_load(self, st, loc, ('obj', loc), i, fr)
                    return ('obj', loc)
                x = self.load(st, loc, fr, i, ty)
                if not peek:
                    y = self.rule.on_load(self, st, loc, x, i, fr)
                    if y is not None:
                        return y
                return x
            if ck == 'ArrayToPointerDecay':
                if v[0] == 'str':
                    return v
                loc = deref(v)
                return ('&', ('e', loc, C0))
            if ck in ('PointerToBoolean', 'IntegralToBoolean', 'FloatingToBoolean'):
                t = self.truthv(v)
                if t is not None:
                    return ('c', int(t))
                return v if v[0] in ('cmp', 'not', 'and', 'or') else ('cmp', '!=', v, C0)
            if ck == 'NullToPointer':
                return C0
            if ck == 'ToVoid':
                return C0
            if ck == 'IntegralCast' and is_c(v):
                ty = fn.types[n['t']]
                sz = ty.get('size')
                if sz and ty.get('k') in ('int', 'enum', 'bool'):
                    m = v[1] & ((1 << (8 * sz)) - 1)
                    if not ty.get('u') and m >> (8 * sz - 1):
                        m -= 1 << (8 * sz)
                    return ('c', m)
            return v
        if k == 'UnaryOperator':
            op = n['op']
            if op == '&':
                v = self.val(fn, fr, st, ch[0])
                return v
            if op == '*':
                return self.val(fn, fr, st, ch[0])
            if op in ('++', '--'):
                loc = self._lv(fn, fr, st, ch[0])
                ty = fn.types[n['t']]
                old = self.load(st, loc, fr, i, ty)
                if peek:
                    return old
                if ty.get('k') == 'ptr':
                    new = self._ptradd(old, ('c', 1 if op == '++' else -1))
                else:
                    new = self.simp('+', old, ('c', 1 if op == '++' else -1))
                if new is None or vdepth(new) > MAXDEPTH:
                    new = ('s', 'inc', fr.ctx + (i,))
                self.store(st, loc, new, fr, i)
                return old if n['post'] else new
            v = self.val(fn, fr, st, ch[0])
            if op == '!':
                t = self.truthv(v)
                if t is not None:
                    return ('c', int(not t))
                return v[1] if v[0] == 'not' and v[1][0] in ('cmp', 'not', 'and', 'or') else ('not', v)
            if op == '-':
                return ('c', -v[1]) if is_c(v) else self._limit(('op', 'neg', v), fr, i)
            if op == '~':
                return ('c', ~v[1]) if is_c(v) else self._limit(('op', '~', v), fr, i)
            return v
        if k == 'BinaryOperator':
            op = n['op']
            if op == '=':
                rv = self.val(fn, fr, st, ch[1])
                loc = self._lv(fn, fr, st, ch[0])
                if peek:
                    return rv
                self._assign(st, loc, rv, fr, i)
                return rv if rv[0] != 'obj' else rv
            if op == ',':
                return self.val(fn, fr, st, ch[1])
            if op in ('&&', '||'):
                v = st.mem.get(('t', d, i))
                if v is not None and is_c(v):
                    return v
                # (a && b) && c: a false leaves the whole chain, only the innermost operator was decided
                x, y = i, None
                while True:
                    x = strip(fn, fn.nodes[x]['ch'][0])
                    if fn.nodes[x]['k'] != 'BinaryOperator' or fn.nodes[x].get('op') != op:
                        break
                    y = st.mem.get(('t', d, x))
                    if y is not None and is_c(y) and bool(y[1]) == (op == '||'):
                        return y
                # the RHS was evaluated on this path
                a = self.val(fn, fr, st, ch[1])
                if self._shortcut_seen(fn, fr, st, i, ch, op):
                    pass
                t = self.known(st, a)
                if t is not None:
                    # LHS had the non-shortcut truth if control came through the RHS block
                    return ('c', int(t))
                return a if a[0] in ('cmp', 'not', 'and', 'or') else ('cmp', '!=', a, C0)
            a, b = self.val(fn, fr, st, ch[0]), self.val(fn, fr, st, ch[1])
            if op in NEG:
                r = self.atom(op, a, b)
                if isinstance(r, bool):
                    return ('c', int(r))
                return ('cmp', op, a, b)
            if op in ('/', '%') and not peek:
                self.rule.on_div(self, st, b, i, fr)
            ty = fn.types[n['t']]
            if ty.get('k') == 'ptr':
                pa = fn.types[fn.nodes[ch[0]]['t']].get('k') in ('ptr', 'arr')
                p, x = (a, b) if pa else (b, a)
                if op == '-':
                    x = ('c', -x[1]) if is_c(x) else ('op', 'neg', x)
                return self._limit(self._ptradd(p, x), fr, i)
            a, b = (('c', int(t)) if x[0] in ('cmp', 'not', 'and', 'or') and t is not None else x
                    for x, t in ((x, self.known(st, x) if x[0] in ('cmp', 'not', 'and', 'or') else None) for x in (a, b)))
            v = self.simp(op, a, b)
            return self._limit(v, fr, i)
        if k == 'CompoundAssignOperator':
            loc = self._lv(fn, fr, st, ch[0])
            b = self.val(fn, fr, st, ch[1])
            ty = fn.types[n['t']]
            a = self.load(st, loc, fr, i, ty)
            if peek:
                return a
            op = n['op'][:-1]
            if op in ('/', '%'):
                self.rule.on_div(self, st, b, i, fr)
            v = self._ptradd(a, b) if ty.get('k') == 'ptr' and op == '+' else self.simp(op, a, b)
            v = self._limit(v, fr, i)
            self.store(st, loc, v, fr, i)
            return v
        if k == 'MemberExpr':
            b = self.val(fn, fr, st, ch[0])
            if b[0] == 'obj':
                loc = b[1]
            else:
                loc = deref(b)
            return ('&', ('f', loc, n['m'], n.get('r')))
        if k == 'ArraySubscriptExpr':
            a, b = self.val(fn, fr, st, ch[0]), self.val(fn, fr, st, ch[1])
            if fn.types[fn.nodes[ch[0]]['t']].get('k') not in ('ptr', 'arr'):
                a, b = b, a
            if not peek:
                self.rule.on_index(self, st, a, b, i, fr)
            return self._ptradd(a, b, True)
        if k == 'StringLiteral':
            return ('str', n.get('str'))
        if k in ('ConditionalOperator', 'BinaryConditionalOperator'):
            # the arm evaluated on this path left its value
            for c in ch[1:]:
                v = st.mem.get(('t', d, c))
                if v is not None:
                    return v
            return self._limit(('s', 'cond', fr.ctx + (i,)), fr, i)
        if k == 'InitListExpr':
            return ('init', i, tuple(self.val(fn, fr, st, c) for c in ch), tuple(n['fields']))
        if k == 'ImplicitValueInitExpr':
            return ('zero',) if fn.types[n['t']].get('k') in ('rec', 'arr') else C0
        if k == 'CompoundLiteralExpr':
            loc = ('v', d, 'cl%d' % i)
            if not peek:
                self._init(st, loc, self.val(fn, fr, st, ch[0]), fr, i)
            return ('&', loc)
        if k == 'DeclStmt':
            for q in n['decls']:
                if q.get('static'):
                    continue
                loc = ('v', d, q['id'])
                self.havoc_under(st, loc)
                self.rule.on_decl(self, st, loc, q, i, fr)
                if 'init' in q:
                    self._init(st, loc, self.val(fn, fr, st, q['init']), fr, i)
                    st.mem.pop(('t', d, q['init']), None)
            return None
        if k == 'ReturnStmt':
            if ch:
                st.mem[('r', d)] = self.val(fn, fr, st, ch[0])
                st.mem.pop(('t', d, ch[0]), None)
            return None
        if k == 'AtomicExpr':
            return self._atomic(fn, fr, i, n, st)
        if k == 'UnaryExprOrTypeTraitExpr':
            return ('s', 'sizeof', fr.ctx + (i,))
        if k == 'StmtExpr':
            # value of the last expression statement
            b = fn.nodes[ch[0]]['ch']
            if b:
                v = st.mem.get(('t', d, b[-1]))
                if v is not None:
                    return v
            return ('s', 'x', fr.ctx + (i,))
        if k == 'VAArgExpr':
            return ('s', 'va', fr.ctx + (i,))
        if n.get('t') is not None:
            return ('s', 'x', fr.ctx + (i,))
        return None

    def _shortcut_seen(self, *a):
        return False

    def _limit(self, v, fr, i):
        if v is None or vdepth(v) > MAXDEPTH:
            return ('s', 'big', fr.ctx + (i,))
        return v

    def _ptradd(self, p, x, sub=False):
        if p[0] == '&':
            l = p[1]
            if l[0] == 'e':
                if x == C0:
                    return p
                idx = self.simp('+', l[2], x) or ('op', '+', l[2], x)
                return ('&', ('e', l[1], idx))
            if x == C0:
                return p
            return ('&', ('e', l, x))
        if x == C0:
            return p
        if p[0] == 'str':
            return ('op', '+', p, x)
        return ('&', ('e', ('d', p), x))

    def _assign(self, st, loc, rv, fr, i):
        if rv[0] == 'obj':
            self.copy_obj(st, loc, rv[1], fr, i)
        elif rv[0] in ('init', 'zero'):
            self._init(st, loc, rv, fr, i)
        else:
            self.store(st, loc, rv, fr, i)

    def _init(self, st, loc, v, fr, i):
        if v[0] == 'init':
            fields = v[3]
            self.rule.on_store(self, st, loc, ('agg',), i, fr)
            rec = self._rec_of(fr.fn, v[1])
            for j, x in enumerate(v[2]):
                if fields:
                    if j < len(fields):
                        self._init(st, ('f', loc, fields[j], rec), x, fr, i)
                else:
                    self._init(st, ('e', loc, ('c', j)), x, fr, i)
        elif v[0] == 'zero':
            self.rule.on_store(self, st, loc, ('agg',), i, fr)
        elif v[0] == 'obj':
            self.copy_obj(st, loc, v[1], fr, i)
        else:
            self.store(st, loc, v, fr, i)

    def _rec_of(self, fn, i):
        t = fn.types[fn.nodes[i]['t']]
        return t.get('r')

    def _atomic(self, fn, fr, i, n, st):
        op = n['op']
        p = self.val(fn, fr, st, n['ptr'])
        loc = deref(p)
        self.rule.on_atomic(self, st, op, loc, i, fr)
        short = op.replace('__c11_atomic_', '').replace('__atomic_', '')
        ty = fn.types[n['t']]
        if short.startswith('load'):
            v = ('s', 'at', loc if vdepth(loc) < 12 else None, fr.ctx + (i,))
            self.rule.on_load(self, st, loc, v, i, fr)
            return v
        if short.startswith(('store', 'init')):
            v = self.val(fn, fr, st, n['val1']) if 'val1' in n else ('s', 'x', fr.ctx + (i,))
            self.store(st, loc, v, fr, i)
            st.mem.pop(loc, None)
            return C0
        if short.startswith('compare_exchange'):
            new = self.val(fn, fr, st, n['val2']) if 'val2' in n else ('s', 'x', fr.ctx + (i,))
            self.rule.on_store(self, st, loc, ('atomic', short, new), i, fr)
            st.mem.pop(loc, None)
            e = self.val(fn, fr, st, n['val1']) if 'val1' in n else None
            if e is not None:
                self.havoc_under(st, deref(e))
            return ('s', 'cas', fr.ctx + (i,))
        v1 = self.val(fn, fr, st, n['val1']) if 'val1' in n else C0
        self.rule.on_store(self, st, loc, ('atomic', short, v1), i, fr)
        st.mem.pop(loc, None)
        return ('s', 'rmw', fr.ctx + (i,))

    # ------------------------------------------------------------ calls
    def _callexpr(self, fn, fr, i, n, st):
        self.sites += 1
        d = fr.depth
        ch = n['ch']
        args = [self.val(fn, fr, st, a) for a in ch[1:]]
        fid = n.get('fn')
        target = None
        if not fid:
            target = self.val(fn, fr, st, ch[0])
            x = target
            if x[0] == '&' and x[1][0] == 'd' and x[1][1][0] == 'fn':
                x = x[1][1]
            if x[0] == 'd' and x[1][0] == 'fn':
                x = x[1]
            if x[0] == 'fn':
                fid = x[1]
        res = None
        if fid is None:
            res = self.rule.on_indirect(self, st, target, args, i, fr)
        if fid is not None:
            fid = self.P.resolve(fid)
            res = self.rule.on_call(self, st, fid, args, i, fr)
        if res is None:
            res = self.default_call(st, fid, args, i, n, fr)
        out = []
        for s, v in res:
            for c in ch:
                s.mem.pop(('t', d, c), None)
            s.mem[('t', d, i)] = v
            out.append(s)
        return out

    def default_call(self, st, fid, args, i, n, fr):
        callee = self.P.fns.get(fid) if fid else None
        if callee is not None and callee.cfg and not any(f.fn is callee for f in fr.stack()) and fr.depth < self.maxinline \
                and self.rule.inline(self, fid):
            return self.call(callee, args, st, fr, i)
        if n.get('nr'):
            self.rule.on_noret(self, st, fid, i, fr)
            return []
        v = self.model(st, fid, args, i, fr)
        if v is not None:
            return [(st, v)]
        if callee is not None and any(m[0] in ('g', 'f', '[]') for m in self.mods(fid)) or callee is None and (not fid or fid.startswith('pthread_')):
            for a in args:                                  # a block allocated here that the callee gets to know
                r = ('d', a) if a[0] == 's' else root_of(a[1]) if a[0] == '&' else None
                if r is not None and r[0] == 'd' and r[1][0] == 's' and r[1][1] == 'ret' and r[1][2] in ('malloc', 'calloc'):
                    st.mem[('x', 'esc', r[1])] = C1
        if fid:
            self.opaque[fid] = self.opaque.get(fid, 0) + 1
        if callee is not None:
            mods = self.mods(fid)
            self.havoc_mods(st, mods)
            for a in args:
                if a[0] == '&':
                    l = a[1]
                    r = root_of(l)
                    if r[0] == 'v':
                        self.havoc_arg(st, l, mods)
        else:
            ptys = fr.fn.nodes[i]['ch'][1:]
            for a, pn in zip(args, ptys):
                if a[0] == '&':
                    t = fr.fn.types[fr.fn.nodes[pn]['t']]
                    if t.get('k') == 'ptr' and fr.fn.types[t['p']].get('const'):
                        continue
                    self.havoc_under(st, self._whole(a[1]))
        ty = fr.fn.types[fr.fn.nodes[i]['t']]
        return [(st, ('s', 'uns' if ty.get('u') and ty.get('k') == 'int' else 'ret', fid, fr.ctx + (i,)))]

    def mods(self, fid):
        return self.P.mods(fid)

    def _whole(self, l):
        return l[1] if l[0] == 'e' else l

    def havoc_arg(self, st, l, mods):
        self.havoc_under(st, self._whole(l))

    def model(self, st, fid, args, i, fr):
        if fid in ('memcpy', '__builtin_memcpy', 'memmove') and len(args) == 3:
            # whole-object copy
            d, s = args[0], args[1]
            self.copy_obj(st, self._whole(deref(d)) if d[0] == '&' else deref(d), deref(s), fr, i)
            return d
        if fid in ('memset', 'CPU_ZERO', '__builtin_memset') and args:
            l = deref(args[0])
            self.rule.on_store(self, st, l, ('agg',), i, fr)
            self.havoc_under(st, l)
            return args[0]
        if fid in ('__builtin_expect',):
            return args[0]
        if fid in ('CPU_SET', 'CPU_CLR'):
            l = deref(args[1])
            self.rule.on_store(self, st, l, ('mask', fid, args[0]), i, fr)
            self.havoc_under(st, l)
            return C0
        if fid in ('CPU_AND', 'CPU_OR', 'CPU_XOR'):
            l = deref(args[0])
            self.rule.on_store(self, st, l, ('mask', fid, args[1], args[2]), i, fr)
            self.havoc_under(st, l)
            return C0
        return None

    # ------------------------------------------------------------ reporting helpers
    def where(self, node, fr):
        n = fr.fn.nodes[node]
        return '%s:%d (%s)' % (n['f'].split('/repo/')[-1] if '/repo/' in n['f'] else n['f'].split('/')[-1], n['l'], fr.fn.name)
