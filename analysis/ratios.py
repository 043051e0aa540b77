"""Divisions (C35)."""
from flow import *
from names import *
from program import walk

# Relations between measured quantities that the accounting establishes (see DESIGN.md, C35): in a record of the first
# type, the quantities on the right are positive whenever the one on the left is.
INVARIANT = {
    'dlb_monitor_t': (('elapsed_time', 'useful_time'), ('num_cpus',)),
    'pop_base_metrics_t': (('useful_time',), ('useful_normd_app', 'max_useful_normd_proc', 'max_useful_normd_node', 'num_cpus')),
}


def rname(P, r):
    return (r or '').split('@')[0]


def member(loc):
    """(object, member, record) with anonymous members skipped"""
    base, name, rec = loc[1], loc[2], loc[3]
    while base[0] == 'f' and not base[2]:
        rec = base[3]
        base = base[1]
    return base, name, rec


class DivEngine(Engine):
    def _limit(self, v, fr, i):
        if v is not None and v[0] == 'op' and vdepth(v) <= 16:
            return v
        return Engine._limit(self, v, fr, i)


class DivRule(Rule):
    def __init__(self, P, inl, sites):
        self.P, self.inl, self.sites = P, inl, sites

    def initial(self, E):
        return ()

    def inline(self, E, fid):
        return fid in self.inl

    def fact(self, E, st, k):
        if k[0] == '==' and is_c(k[1]) and is_c(k[2]):
            return k[1] == k[2]
        v = st.facts.get(k)
        if v is None and k[0] == '==':
            v = st.facts.get(('==', k[2], k[1]))
        return v

    def nonneg(self, E, st, v, d=0):
        if is_c(v):
            return v[1] >= 0
        if v[0] == 'fc':
            return v[1] >= 0
        if v[0] == 's':
            return True          # a measured quantity or a count
        if v[0] == 'op' and v[1] in '+*/' and d < 12:
            return self.nonneg(E, st, v[2], d + 1) and self.nonneg(E, st, v[3], d + 1)
        if v[0] == 'cmp':
            return True
        return self.pos(E, st, v, d + 1) if d < 12 else False

    def pos(self, E, st, v, d=0):
        if d > 12:
            return False
        if is_c(v):
            return v[1] > 0
        if v[0] == 'fc':
            return v[1] > 0
        for k, want in ((('<', C0, v), True), (('<', v, C1), False)):
            if self.fact(E, st, k) is want:
                return True
        if self.fact(E, st, ('==', v, C0)) is False and self.nonneg(E, st, v, d + 1):
            return True
        for k, t in st.facts.items():
            # a < v with a >= 0, or not v < a with a > 0
            if k[0] == '<' and t is True and k[2] == v and k[1] != C0 and is_c(k[1]) and k[1][1] >= 0:
                return True
            if k[0] == '<' and t is False and k[1] == v and is_c(k[2]) and k[2][1] > 0:
                return True
        if v[0] == 'op':
            a, b = v[2], v[3]
            if v[1] == '+':
                if self.nonneg(E, st, a, d + 1) and self.pos(E, st, b, d + 1) or self.pos(E, st, a, d + 1) and self.nonneg(E, st, b, d + 1):
                    return True
            if v[1] in '*/':
                if self.pos(E, st, a, d + 1) and self.pos(E, st, b, d + 1):
                    return True
        if v[0] == 's' and v[1] == 'ld' and v[2] and v[2][0] == 'f':
            base, name, rec = member(v[2])
            inv = INVARIANT.get(rname(self.P, rec))
            if inv and name in inv[1]:
                known = [(l, x) for l, x in st.mem.items() if l[0] == 'f']
                known += [(y[2], y) for k in st.facts for y in k[1:] if y[0] == 's' and y[1] == 'ld' and y[2] and y[2][0] == 'f']
                for l, x in known:
                    b, q, r = member(l)
                    if b == base and r == rec and q in inv[0] and self.pos(E, st, x, d + 1):
                        return True
        # the quotient of two measured quantities is positive only if the dividend is
        for k, t in st.facts.items():
            if k[0] == '<' and t is True and k[1] == C0 and k[2][0] == 'op' and k[2][1] == '/' and k[2][2] == v and self.nonneg(E, st, k[2][3], d + 1):
                return True
        return False

    def nonzero(self, E, st, v):
        if is_c(v):
            return v[1] != 0
        return self.fact(E, st, ('==', v, C0)) is False or self.pos(E, st, v)

    def on_div(self, E, st, den, node, fr):
        key = (fr.fn.id, node)
        if key not in self.sites:
            return
        ok = self.nonzero(E, st, den)
        self.sites[key].append((ok, den, E.where(node, fr)))
        if not is_c(den):
            # the following code only runs with a divisor that did not trap; nothing is assumed for floating point
            pass


def in_scope(f, i):
    """floating-point results and 64-bit quantities"""
    n = f.nodes[i]
    if n['k'] not in ('BinaryOperator', 'CompoundAssignOperator') or n.get('op') not in ('/', '%', '/=', '%='):
        return False
    d = f.nodes[n['ch'][1]]
    if 'v' in d:
        return False
    for y in [n['ch'][1]] + list(walk(f, n['ch'][1])):
        if f.nodes[y]['k'] in ('DeclRefExpr', 'MemberExpr', 'CallExpr', 'ArraySubscriptExpr'):
            break
    else:
        return False
    t = f.types[n['t']]
    return t['k'] == 'fp' or t['k'] == 'int' and t.get('size') == 8 and not t.get('u')


def check_c35(rep, progs, ex):
    rep.rule('Every division that produces a floating-point or a 64-bit value from non-constant data is reached by abstract interpretation (helpers of '
             'the same file inlined); on every path the divisor must be known to be non-zero: by a test on that path, as a sum of non-negative terms with a '
             'positive one, or by one of the declared relations between measured quantities.  A division that its own function does not protect must be '
             'protected in every caller.')
    for cfg, P in progs.items():
        callers = {}
        for f in P.fns.values():
            for c in f.calls:
                fn = f.nodes[c].get('fn')
                if fn:
                    callers.setdefault(P.resolve(fn), set()).add(f.id)
        todo = {}
        for f in P.fns.values():
            if f.static and not callers.get(f.id):
                continue            # never executed
            for i in f.nodes:
                if in_scope(f, i):
                    todo.setdefault(f.id, []).append(i)
        for fid in sorted(todo):
            f = P.fns[fid]
            open_sites = set(todo[fid])
            for i in open_sites:
                n = f.nodes[i]
                rep.count('division', '%s %s:%d' % (f.name, f.file.split('/')[-1], i))
            bad = {}
            roots = [(fid, {fid})]
            for depth in range(4):
                nxt, bad = [], {}
                for root, chain in roots:
                    r = P.fns[root]
                    # helpers of the file called from the function itself
                    inl = (chain - {root}) | {g.id for g in P.fns.values() if g.static and g.id in {P.resolve(f.nodes[c].get("fn") or "") for c in f.calls} and len(g.nodes) < 400}
                    sites = {(fid, i): [] for i in open_sites}
                    R = DivRule(P, inl, sites)
                    E = DivEngine(P, R, maxstates=200)
                    E.run(r)
                    rep.analysed(E.covered)
                    for (_, i), v in sites.items():
                        for ok, den, w in v:
                            if not ok:
                                bad.setdefault(i, (root, w, den))
                    if any(not ok for v in sites.values() for ok, _, _ in v):
                        up = callers.get(root, set())
                        if P.fns[root].static and up:
                            nxt += [(u, chain | {u}) for u in sorted(up) if u not in chain]
                        else:
                            nxt = None
                            break
                if not bad or nxt is None or not nxt:
                    break
                open_sites = set(bad)
                roots = nxt
            k = {}
            for i, (root, w, den) in sorted(bad.items()):
                m = divisor_name(f, f.nodes[i]['ch'][1])
                rep.v('%s:%s' % (f.name, m), w, 'division by %s, which is not known to be non-zero on every path%s' % (m, '' if root == fid else ' (called from %s)' % P.fns[root].name))
    rep.need('division', 10)


def divisor_name(f, i):
    out = []
    for y in [i] + list(walk(f, i)):
        n = f.nodes[y]
        if n['k'] == 'MemberExpr':
            out.append(n['m'])
        elif n['k'] == 'DeclRefExpr' and n['d']['k'] in ('var', 'parm', 'gvar') and not any(f.nodes[z]['k'] == 'MemberExpr' and y in set(walk(f, z)) for z in f.nodes if f.nodes[z]['k'] == 'MemberExpr'):
            out.append(n['d']['n'])
        elif n['k'] == 'CallExpr' and n.get('fn'):
            out.append(n['fn'])
    return '+'.join(dict.fromkeys(out)) or '?'
