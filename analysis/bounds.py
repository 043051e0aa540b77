"""Rules about indices, capacities and divisors."""
from flow import Engine, Rule, State, is_c, C0, deref, root_of
from names import loc_name, val_name
from program import AnalysisError, strip, walk, loops
import api


def leaf(P, fid, blocks=8):
    f = P.fns.get(fid)
    return f is not None and f.cfg and len(f.cfg) <= blocks and not loops(f)


ITERATORS = ('mu_get_first_cpu', 'mu_get_next_cpu', 'mu_get_last_cpu')


class IdxRule(Rule):
    """Obligations: integer parameters that select an element, with the ends not checked on the way."""

    def __init__(self, S, fn):
        self.S, self.fn = S, fn
        self.owed = {}          # (param index) -> {end: where}
        self.sites = set()
        self.vars, self.members, self.direct = {}, set(), {}

    def inline(self, E, fid):
        return leaf(self.S.P, fid)

    def params(self):
        return {('s', 'P', p['n'] or str(i)): i for i, p in enumerate(self.fn.params)}

    def ends(self, E, st, idx, base=None):
        miss = set()
        if E.known_cmp(st, '<', idx, C0) is not False:
            miss.add('low')
        ok = False
        for (op, a, b), v in st.facts.items():
            if op == '<' and a == idx and v and self.S.limit(b):
                ok = True
        if not ok:
            miss.add('high')
        return miss

    def owe(self, E, st, idx, where, ends=('low', 'high')):
        ps = self.params()
        if idx[0] == 'op' and idx[1] == '+' and is_c(idx[3]):
            idx = idx[2]
        if idx in ps:
            for e in self.ends(E, st, idx) & set(ends):
                self.owed.setdefault(ps[idx], {}).setdefault(e, where)
            return True
        return False

    def on_index(self, E, st, base, idx, node, fr):
        if is_c(idx):
            return
        self.sites.add((fr.fn.id, node))
        m = self.mask_of(idx)
        if m is not None:
            self.owe_mask(E, st, idx, m, E.where(node, fr))
            return
        if self.owe(E, st, idx, E.where(node, fr)):
            if fr.up is None:
                k = self.params()[idx[2] if idx[0] == 'op' else idx]
                self.direct.setdefault(k, set()).update(self.owed.get(k, {}))
        else:
            self.S.other(self, E, st, base, idx, node, fr)

    # ---- members of a CPU mask
    def mask_of(self, v):
        """the mask a CPU number was taken from"""
        if v[0] == 's' and v[1] == 'member':
            return v[2]
        if v[0] == 's' and v[1] == 'ld' and v[2][0] == 'v':
            return self.vars.get(v[2])
        return None

    def owe_mask(self, E, st, idx, mask, where):
        self.members.add(where)
        if 'high' not in self.ends(E, st, idx):
            return
        ps = self.params()
        if mask in ps:
            self.owed.setdefault(ps[mask], {}).setdefault('member', where)
        else:
            self.S.masks.setdefault((self.fn.id, where), []).append(mask)

    def on_store(self, E, st, loc, val, node, fr):
        if val[0] == 's' and val[1] == 'member' and loc[0] == 'v':
            self.vars[loc] = val[2]

    def pass_on(self, E, st, fid, args, node, fr):
        s = self.S.summary(fid)
        for k, ends in s.items():
            if k >= len(args) or is_c(args[k]):
                continue
            for e, w in ends.items():
                ps = self.params()
                if e == 'member':
                    if args[k] in ps:
                        self.owed.setdefault(ps[args[k]], {}).setdefault(e, w)
                    else:
                        self.S.masks.setdefault((self.fn.id, w), []).append(args[k])
                elif self.mask_of(args[k]) is not None:
                    self.owe_mask(E, st, args[k], self.mask_of(args[k]), w)
                elif not self.owe(E, st, args[k], w, (e,)):
                    self.S.unresolved += 1

    def on_call(self, E, st, fid, args, node, fr):
        if fid in ITERATORS:
            return [(st, ('s', 'member', args[0], fr.ctx + (node,)))]
        if fid in self.S.P.fns and not self.inline(E, fid):
            self.pass_on(E, st, fid, args, node, fr)
        return None

    def on_indirect(self, E, st, target, args, node, fr):
        for fid in self.S.slot_targets(fr.fn, node):
            self.pass_on(E, st, fid, args, node, fr)
        return None


class Indices:
    def __init__(self, P):
        self.P = P
        self.A = api.Anchors(P)
        self.sums, self.active = {}, set()
        self.unresolved = 0
        self.masks, self.members, self.direct = {}, set(), {}
        self.recs = None
        self.sites = set()
        self.others = {}
        self.covered = set()
        self._slots = None
        self._scope = self.scope()

    def fill(self):
        for f in list(self.P.fns.values()):
            self.summary(f.id)

    def shared(self, loc):
        if self.recs is None:
            import shared
            self.recs = shared.shared_records(self.P)
        while loc[0] in ('f', 'e'):
            if loc[0] == 'f' and loc[3] in self.recs:
                return True
            loc = loc[1]
        return False

    def limit(self, v):
        """an upper limit that does not come from the caller: a constant or something loaded"""
        return is_c(v) or not _mentions_param(v)

    def other(self, R, E, st, base, idx, node, fr):
        self.others.setdefault((fr.fn.id, node), []).append((base, idx, R.ends(E, st, idx)))

    def slot_targets(self, fn, node):
        n = fn.nodes[node]
        x = fn.nodes[strip(fn, n['ch'][0])]
        if x['k'] == 'UnaryOperator' and x['op'] == '*':
            x = fn.nodes[strip(fn, x['ch'][0])]
        if x['k'] != 'MemberExpr' or x.get('r') != self.A.lbf:
            return ()
        return self.slots().get(x['m'], ())

    def slots(self):
        if self._slots is None:
            import dispatch
            self._slots = {}
            for pol, tab in dispatch.policy_table(self.P).items():
                for m, fid in tab.items():
                    self._slots.setdefault(m, set()).add(fid)
        return self._slots

    def scope(self):
        """functions with an integer parameter that may end up as an index (over-approximation on the syntax)"""
        P = self.P
        used = {}

        def mask_or_int(f, p):
            t = f.types[p['t']]
            if t.get('k') == 'ptr':
                t = f.types[t['p']]
                return t.get('k') == 'void' or 'cpu_set' in str(t.get('n', t.get('s', '')))
            return t.get('k') in ('int', 'enum')

        def params_in(f, i):
            ids = {p['id']: k for k, p in enumerate(f.params) if mask_or_int(f, p)}
            return {ids[f.nodes[x]['d']['id']] for x in walk(f, i)
                    if f.nodes[x]['k'] == 'DeclRefExpr' and f.nodes[x]['d'].get('id') in ids}
        sc = {}
        flows = []
        for f in P.fns.values():
            for i in f.calls:
                if f.nodes[i].get('fn') in ITERATORS:
                    sc.setdefault(f.id, set())
                    for k in params_in(f, f.nodes[i]['ch'][1]):
                        sc[f.id].add(k)
        for f in P.fns.values():
            for i, n in f.nodes.items() if isinstance(f.nodes, dict) else enumerate(f.nodes):
                if n and n['k'] == 'ArraySubscriptExpr':
                    for k in params_in(f, n['ch'][1]):
                        sc.setdefault(f.id, set()).add(k)
                if n and n['k'] == 'CallExpr':
                    ts = [P.resolve(n['fn'])] if n.get('fn') else self.slot_targets(f, i)
                    for t in ts:
                        for a, x in enumerate(n['ch'][1:]):
                            for k in params_in(f, x):
                                flows.append((f.id, k, t, a))
        ch = True
        while ch:
            ch = False
            for f, k, t, a in flows:
                if a in sc.get(t, ()) and k not in sc.get(f, ()):
                    sc.setdefault(f, set()).add(k)
                    ch = True
        return sc

    def summary(self, fid):
        if fid in self.sums:
            return self.sums[fid]
        if fid in self.active or fid not in self._scope:
            return {}
        f = self.P.fns.get(fid)
        if f is None or not f.cfg:
            return {}
        self.active.add(fid)
        R = IdxRule(self, f)
        E = Engine(self.P, R, maxstates=12)
        E.run(f)
        self.active.discard(fid)
        self.sums[fid] = R.owed
        self.sites |= R.sites
        self.members |= R.members
        self.covered |= E.covered
        if R.direct:
            self.direct[fid] = R.direct
        return R.owed


def _mentions_param(v):
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if len(x) > 1 and x[0] == 's' and x[1] == 'P':
                return True
            st.extend(y for y in x if isinstance(y, tuple))
    return False


def api_roots(P):
    """functions of the installed headers (dlb*.h) that the library defines"""
    out = {}
    for d in P.decls.values():
        for x in d:
            h = x['file'].split('/')[-1]
            if h.startswith('dlb') and h.endswith('.h') and x['n'] in P.fns:
                out[x['n']] = P.fns[x['n']]
    return out


def check_c13(rep, progs, ex):
    rep.rule('Bottom-up summaries over the whole program: an integer parameter that reaches an array subscript without a test against zero and without a '
             'test against a limit that the caller does not choose is an obligation of the function, discharged by the tests on the path at the call or '
             'passed on to the caller, through the policy table too.  CPU numbers taken from a mask parameter need the upper test.  No obligation may '
             'reach a function of the public headers.  A lookup that tests one end of a signed number and not the other is reported at once.')
    for cfg, P in progs.items():
        S = Indices(P)
        S.fill()
        pub = api_roots(P)
        for name, f in sorted(pub.items()):
            ints = [p for p in f.params if f.types[p['t']].get('k') == 'int']
            for p in ints:
                rep.count('public_number', '%s(%s)' % (f.name, p['n']))
            for k, ends in sorted(S.summary(f.id).items()):
                for e, w in sorted(ends.items()):
                    pn = f.params[k]['n']
                    if e == 'member':
                        rep.v('mask:%s:%s' % (f.name, pn), w, 'the CPUs of %s, given to %s, select a record without being compared with the node size' % (pn, f.name))
                    else:
                        rep.v('range:%s:%s:%s' % (f.name, pn, e), w, '%s, given to %s, selects an element without a test of its %s end' % (pn, f.name, 'lower' if e == 'low' else 'upper'))
        for (fid, w), ms in sorted(S.masks.items(), key=repr):
            for m in set(ms):
                # a mask inside an object of the process (its own mask, given by the user)
                if m[0] == '&' and m[1][0] == 'f' and root_of(m[1])[0] in ('d', 'g') and not S.shared(m[1]):
                    if root_of(m[1])[0] == 'd':
                        rep.v('mask:%s:%s' % (P.fns[fid].name, m[1][2]), w, 'the CPUs of %s, given by the user, select a record without being compared with the node size' % loc_name(m[1]))
        for fid in sorted(S.direct):
            f = P.fns[fid]
            for k, ends in S.sums[fid].items():
                t = f.types[f.params[k]['t']] if isinstance(f.params[k]['t'], int) else {}
                ends = {e: w for e, w in ends.items() if e in S.direct[fid].get(k, ())}
                if not f.static and len(ends) == 1 and t.get('k') == 'int' and not t.get('u'):
                    e, w = next(iter(ends.items()))
                    rep.v('half:%s:%s' % (f.name, f.params[k]['n']), w, '%s tests one end of %s only: the %s end is missing' % (f.name, f.params[k]['n'], 'lower' if e == 'low' else 'upper'))
        for s in S.sites:
            rep.count('index', '%s:%s' % s)
        for w in S.members:
            rep.count('mask_member', w)
        for f in S.sums:
            rep.count('summary', f)
        rep.analysed(S.covered)
        rep.need('public_number', 10)
        rep.need('index', 40)
        rep.need('mask_member', 5)


# ---------------------------------------------------------------- C12: capacity of result lists

def leq(st, a, b, strict):
    """a < b (strict) or a <= b follows from the facts (paths of <= and < edges)"""
    if a == b:
        return not strict
    if a[0] == 'op' and a[1] == '+' and is_c(a[3]) and a[3][1] == 1 and not strict:
        return leq(st, a[2], b, True)
    adj = {}
    for (op, x, y), v in st.facts.items():
        if op == '<':
            if v:
                adj.setdefault(x, []).append((y, True))
            else:
                adj.setdefault(y, []).append((x, False))
        elif v:
            adj.setdefault(x, []).append((y, False))
            adj.setdefault(y, []).append((x, False))
    seen, todo = set(), [(a, False)]
    while todo:
        x, s = todo.pop()
        if (x, s) in seen:
            continue
        seen.add((x, s))
        if x == b and (s or not strict):
            return True
        for y, t in adj.get(x, ()):
            todo.append((y, s or t))
    return False


class CapRule(Rule):
    def __init__(self, S, fn):
        self.S, self.fn = S, fn
        self.ps = {('s', 'P', p['n'] or str(i)): i for i, p in enumerate(fn.params)}
        self.ints = {v: i for v, i in self.ps.items() if fn.types[fn.params[i]['t']].get('k') == 'int'}
        self.fill = {}        # array param -> list of (set of capacity params, where)
        self.counts = {}      # count param -> list of (set of capacity params, where)
        self.local = []
        self.incs, self.inits = {}, {}     # local counters: limits at each increment / at each other store

    def inline(self, E, fid):
        return leaf(self.S.P, fid)

    def key_extra(self, E, st):
        return tuple(st.mem.get(('v', 0, self.fn.params[i]['id'])) for i in self.ints.values())

    def counter(self, v):
        """limits of a local counter that only grows while below them"""
        if v[0] == 's' and v[1] == 'ld' and v[2] in self.incs:
            sets = self.incs[v[2]] + self.inits.get(v[2], [])
            return frozenset.intersection(*sets)
        return frozenset()

    def element(self, loc):
        """a whole element of an array parameter (fields of an element already there are not new results)"""
        while loc[0] == 'e':
            if loc[1][0] == 'd' and loc[1][1] in self.ps:
                return self.ps[loc[1][1]], loc[2]
            loc = loc[1]
        return None

    def caps(self, st, idx, strict=True):
        return {i for v, i in self.ints.items() if leq(st, idx, v, strict)}

    def on_store(self, E, st, loc, val, node, fr):
        e = self.element(loc)
        if e is not None:
            k, idx = e
            if idx[0] != 'c' and E.bounds(st, idx)[1] is not None:
                return
            self.fill.setdefault(k, []).append((frozenset(self.caps(st, idx)), E.where(node, fr)))
            self.S.stores.add((fr.fn.id, node))
        if loc[0] == 'd' and loc[1] in self.ps:
            m = self.ps[loc[1]]
            if val != C0:
                self.counts.setdefault(m, []).append((frozenset(self.caps(st, val, False)), E.where(node, fr), val))
        if loc[0] == 'v' and val != C0 and val[0] != '&':
            if val[0] == 'op' and val[1] == '+' and val[3] == ('c', 1):
                self.incs.setdefault(loc, []).append(frozenset(self.caps(st, val[2])))
            elif loc in self.incs or val[0] in ('s', 'op', 'c'):
                self.inits.setdefault(loc, []).append(frozenset(self.caps(st, val, False)))

    def on_call(self, E, st, fid, args, node, fr):
        if fid not in self.S.P.fns or self.inline(E, fid):
            return None
        s = self.S.summary(fid)
        if not s:
            return None
        for k, lst in s['fill'].items():
            if k >= len(args):
                continue
            for caps, w in lst:
                self.S.calls.add((fr.fn.id, node))
                mine = set()
                for c in caps:
                    if c < len(args):
                        mine |= {i for v, i in self.ints.items() if leq(st, args[c], v, False)}
                if args[k] in self.ps:
                    self.fill.setdefault(self.ps[args[k]], []).append((frozenset(mine), w if not caps else E.where(node, fr)))
                elif not caps:
                    self.local.append((fid, w))
        if s['fill'] and s['counts']:
            outs = Engine.default_call(E, st, fid, args, node, fr.fn.nodes[node], fr)
            for t, v in outs:
                for m, caps in s['counts'].items():
                    if m < len(args):
                        l = deref(args[m])
                        x = ('s', 'ret', fid + '#count', fr.ctx + (node,))
                        t.mem[l] = x
                        for c in caps:
                            if c < len(args) and args[c] != x:
                                t.facts[('<', args[c], x)] = False
                        if args[m] in self.ps:
                            mine = set()
                            for c in caps:
                                if c < len(args):
                                    mine |= {i for v2, i in self.ints.items() if leq(st, args[c], v2, False)}
                            self.counts.setdefault(self.ps[args[m]], []).append((frozenset(mine), E.where(node, fr), C0))
            return outs
        return None


class Capacities:
    def __init__(self, P):
        self.P = P
        self.sums, self.active = {}, set()
        self.stores, self.calls, self.covered = set(), set(), set()
        self.locals = []
        self.scope = self._scope()

    def _scope(self):
        """functions with a pointer parameter whose elements may be stored to"""
        P = self.P

        def ptr_params(f):
            out = {}
            for k, p in enumerate(f.params):
                t = f.types[p['t']]
                if t.get('k') == 'ptr':
                    e = f.types[t['p']]
                    if not e.get('const') and not (e.get('k') == 'int' and e.get('size') == 1) and e.get('k') != 'void':
                        out[p['id']] = k
            return out
        sc, flows = {}, []
        for f in P.fns.values():
            pp = ptr_params(f)
            if not pp:
                continue
            for i, n in enumerate(f.nodes) if isinstance(f.nodes, list) else f.nodes.items():
                if not n:
                    continue
                if n['k'] == 'ArraySubscriptExpr':
                    b = f.nodes[strip(f, n['ch'][0])]
                    if b['k'] == 'DeclRefExpr' and b['d'].get('id') in pp and 'v' not in f.nodes[strip(f, n['ch'][1])]:
                        sc.setdefault(f.id, set()).add(pp[b['d']['id']])
                if n['k'] == 'CallExpr' and n.get('fn'):
                    for a, x in enumerate(n['ch'][1:]):
                        b = f.nodes[strip(f, x)]
                        if b['k'] == 'DeclRefExpr' and b['d'].get('id') in pp:
                            flows.append((f.id, pp[b['d']['id']], P.resolve(n['fn']), a))
        ch = True
        while ch:
            ch = False
            for f, k, t, a in flows:
                if a in sc.get(t, ()) and k not in sc.get(f, ()):
                    sc.setdefault(f, set()).add(k)
                    ch = True
        # only functions that can report how many they filled matter: a pointer to an integer besides the array
        for fid in list(sc):
            f = P.fns[fid]
            if not any(f.types[p['t']].get('k') == 'ptr' and f.types[f.types[p['t']]['p']].get('k') == 'int'
                       and not f.types[f.types[p['t']]['p']].get('const') and k not in sc[fid] for k, p in enumerate(f.params)):
                del sc[fid]
        self.listed = set(sc)
        for f in P.fns.values():
            if any(P.resolve(f.nodes[c]['fn']) in self.listed for c in f.calls if f.nodes[c].get('fn')):
                sc.setdefault(f.id, set())
        return sc

    def summary(self, fid):
        if fid in self.sums:
            return self.sums[fid]
        f = self.P.fns.get(fid)
        if fid in self.active or fid not in self.scope or not f or not f.cfg:
            return {}
        self.active.add(fid)
        R = CapRule(self, f)
        E = Engine(self.P, R, maxstates=12)
        E.run(f)
        self.active.discard(fid)
        counts = {}
        for m, lst in R.counts.items():
            lst = R.counts[m] = [(c | R.counter(v), w, v) for c, w, v in lst]
            ok = frozenset.intersection(*[c for c, w, v in lst])
            if ok:
                counts[m] = ok
        self.sums[fid] = {'fill': R.fill, 'counts': counts, 'allcounts': R.counts}
        self.covered |= E.covered
        self.locals += [(f, x) for x in R.local]
        return self.sums[fid]


def check_c12(rep, progs, ex):
    rep.rule('Bottom-up summaries: every whole-element store through an array parameter, and every call that hands the array on, must be dominated by '
             'tests that put the index below an integer parameter (chains of <, <= and clamping assignments are followed; a callee contributes "count <= '
             'capacity").  At a function of the public headers every array filled in this way must be bounded by the same one of its parameters; at a call '
             'that passes an array of its own the callee must bound it.  A count reported through a pointer must be an increment made below the limit, or '
             'come from a callee that keeps it.')
    for cfg, P in progs.items():
        S = Capacities(P)
        for f in list(P.fns.values()):
            S.summary(f.id)
        called = {P.resolve(g.nodes[c]['fn']) for g in P.fns.values() for c in g.calls if g.nodes[c].get('fn')}
        # also entry points that nothing of the library calls (used by the tools or other clients) and that are given a capacity
        pub = set(api_roots(P)) | {x for x in S.listed if x not in called and '@' not in x and
                                   any(P.fns[x].types[p['t']].get('k') == 'int' for p in P.fns[x].params)}
        for fid, s in sorted(S.sums.items()):
            f = P.fns[fid]
            for k, lst in sorted(s['fill'].items()):
                an = f.params[k]['n']
                rep.count('filled_array', '%s(%s)' % (f.name, an))
                if fid not in pub:
                    continue
                rep.count('public_array', '%s(%s)' % (f.name, an))
                common = frozenset.intersection(*[c for c, w in lst])
                if not common:
                    w = next((w for c, w in lst if not c), lst[0][1])
                    rep.v('capacity:%s:%s' % (f.name, an), w, 'an element of %s is written without its index being below the capacity given to %s' % (an, f.name))
                    continue
                for m, cl in sorted(s['allcounts'].items()):
                    rep.count('reported_count', '%s(%s)' % (f.name, f.params[m]['n']))
                    for c, w, v in cl:
                        if not c & common:
                            rep.v('count:%s:%s' % (f.name, f.params[m]['n']), w, 'the count %s reported by %s is not bounded by the capacity' % (f.params[m]['n'], f.name))
        for f, (fid, w) in S.locals:
            c = P.fns[fid]
            if fid not in S.listed:
                continue        # does not report how many it filled: not a result list
            rep.v('local:%s:%s' % (f.name, c.name), w, '%s fills an array of %s without a capacity' % (c.name, f.name))
        for x in S.stores:
            rep.count('store', '%s:%s' % x)
        rep.analysed(S.covered)
        rep.need('filled_array', 4)
        rep.need('public_array', 3)
        rep.need('store', 3)
