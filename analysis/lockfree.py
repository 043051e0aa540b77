"""Lock-free updates (C19)."""
import random
import re

from flow import *
from names import *
from program import strip
from shared import shmem_modules

CASB = re.compile(r'^__sync_bool_compare_and_swap')
CASV = re.compile(r'^__sync_val_compare_and_swap')
RMW = re.compile(r'^__sync_(fetch_and_(add|sub|or|and|xor)|(add|sub|or|and|xor)_and_fetch|lock_test_and_set)')


def lkey(loc):
    if loc[0] == 'f':
        return ('f', loc[3], loc[2])
    if loc[0] == 'g':
        return loc
    if loc[0] == 'e':
        return ('[]', lkey(loc[1]))
    if loc[0] == 'd':
        return ('d', lkey(loc[1][1])) if loc[1][0] == '&' else ('d', loc[1]) if loc[1][0] == 's' and loc[1][1] == 'P' else None
    return None


def show(k):
    return '.'.join(str(x) for x in k[1:]) if k[0] in ('f', 'g') else show(k[1]) + '[]' if k[0] == '[]' else '*' + str(k[1][2]) if k[1][0] == 's' else str(k[1])


def subterms(v):
    if isinstance(v, tuple):
        yield v
        for x in v:
            yield from subterms(x)


def reads_of(v, loc):
    """values read from the location loc that v contains"""
    return {x for x in subterms(v) if len(x) > 2 and x[0] == 's' and x[1] in ('ld', 'uns', 'at') and x[2] == loc}


class Collect(Rule):
    """which locations are updated atomically"""
    def __init__(self, P, inl):
        self.P, self.inl = P, inl
        self.keys, self.expected = set(), {}
        self.swapped, self.additive = set(), set()

    def inline(self, E, fid):
        return fid in self.inl

    def on_call(self, E, st, fid, args, node, fr):
        if CASB.match(fid) or CASV.match(fid) or RMW.match(fid):
            k = lkey(deref(args[0]))
            if k is not None:
                self.keys.add(k)
                (self.additive if RMW.match(fid) else self.swapped).add(k)
                self.expected.setdefault(k, set()).add(args[1][1] if is_c(args[1]) and not RMW.match(fid) else None)
        return None

    def on_atomic(self, E, st, op, loc, node, fr):
        s = op.replace('__c11_atomic_', '').replace('__atomic_', '')
        if not s.startswith(('load', 'store', 'init', 'thread', 'signal')):
            k = lkey(loc)
            if k is not None:
                self.keys.add(k)
                (self.swapped if 'compare_exchange' in s else self.additive).add(k)
                self.expected.setdefault(k, set()).add(None)


class Update(Rule):
    """r = (locations that this path updated atomically, [(location, change)], values of failed exchanges that were used as the next expectation)"""
    def __init__(self, P, inl, keys, expected, counters):
        self.P, self.inl, self.keys, self.expected, self.counters = P, inl, keys, expected, counters
        self.bad, self.sites = {}, set()

    def initial(self, E):
        return (frozenset(), (), frozenset())

    def inline(self, E, fid):
        return fid in self.inl

    def shared(self, loc):
        k = lkey(loc)
        return k if k is not None and k in self.keys else None

    def v(self, kind, k, E, node, fr, msg):
        self.bad[(kind, show(k), fr.fn.name)] = (E.where(node, fr), msg)

    def forget(self, st, loc, e):
        """earlier reads say nothing any more, except about the value that was expected"""
        keep = reads_of(e, loc)
        for a in [a for a in st.facts if any(reads_of(x, loc) - keep for x in a[1:])]:
            del st.facts[a]

    def on_load(self, E, st, loc, val, node, fr):
        k = self.shared(loc)
        if k is None or val[0] == 'obj':
            return None
        new = ('s', 'at', loc, fr.ctx + (node,))
        for a in [a for a in st.facts if any(new in set(subterms(x)) for x in a[1:])]:
            del st.facts[a]
        st.mem.pop(loc, None)
        if k in self.additive:
            done, d, ok = st.r
            st.r = (done | {('rd', loc)}, d, ok)
        return new

    def rmw(self, E, st, loc, op, val, node, fr):
        k = self.shared(loc)
        if k is None:
            return
        self.sites.add((show(k), E.where(node, fr)))
        if reads_of(val, loc):
            self.v('operand', k, E, node, fr, 'the operand of the atomic update of %s was read from it before: an update in between is lost or counted twice' % show(k))
        if op in ('add', 'sub') and k[0] == 'f' and k[1] in self.counters and any(reads_of(x, loc) for a in st.facts for x in a[1:]):
            self.v('condition', k, E, node, fr, 'the atomic update of %s depends on an earlier read of it: another update in between is not seen' % show(k))
        done, d, ok = st.r
        if op in ('add', 'sub') and k[0] == 'f' and k[1] in self.counters and not is_c(val):
            d = d + ((loc, val if op == 'add' else ('op', 'neg', val)),)
        if op in ('add', 'sub') and not any(x[0] == 'e' and not is_c(x[2]) for x in subterms(loc) if len(x) == 3):
            done = done | {loc}
        st.r = (done, d[-6:], ok)

    def on_call(self, E, st, fid, args, node, fr):
        m = RMW.match(fid)
        if m:
            loc = deref(args[0])
            op = m.group(2) or m.group(3) or 'exch'
            self.rmw(E, st, loc, op, args[1], node, fr)
            st.mem.pop(loc, None)
            old = ('s', 'rmw', fr.ctx + (node,))
            if m.group(3):
                v = E.simp('+' if op == 'add' else '-', old, args[1]) if op in ('add', 'sub') else None
                return [(st, v or ('s', 'rmwnew', fr.ctx + (node,)))]
            return [(st, old)]
        if CASB.match(fid) or CASV.match(fid):
            loc, e, d = deref(args[0]), args[1], args[2]
            self.cas(E, st, loc, e, d, node, fr)
            st.mem.pop(loc, None)
            self.forget(st, loc, e)
            done, ch, ok = st.r
            fails = {x for x in subterms(e) if x[:2] == ('s', 'casfail')}
            s1, s2 = st, st.copy()
            delta = E.simp('-', d, e) or ('op', '-', d, e)
            k = self.shared(loc) or ('?',)
            s1.r = (done, (ch + ((loc, delta),))[-6:] if k[0] == 'f' and k[1] in self.counters and not is_c(delta) else ch, ok | fails)
            s2.r = (done, ch, ok | {('failed', loc)})
            if CASB.match(fid):
                if self.discarded(fr.fn, node):
                    self.v('ignored', self.shared(loc) or ('g', '?'), E, node, fr, 'the result of the compare-and-swap is ignored: the update may not have taken place')
                return [(s1, C1), (s2, C0)]
            f = ('s', 'casfail', loc, fr.ctx + (node,))
            r = E.atom('==', f, e)
            if not isinstance(r, bool):
                s2.facts[r[0]] = not r[1]
            return [(s1, e), (s2, f)]
        return None

    def discarded(self, fn, node):
        p = {c: i for i, n in fn.nodes.items() for c in n['ch']}
        x = node
        while x in p and (fn.nodes[p[x]]['k'] in ('ParenExpr', 'ExprWithCleanups') or fn.nodes[p[x]].get('ck') == 'ToVoid'):
            x = p[x]
        return x in p and fn.nodes[p[x]]['k'] == 'CompoundStmt'

    def cas(self, E, st, loc, e, d, node, fr):
        k = self.shared(loc)
        if k is None:
            return
        self.sites.add((show(k), E.where(node, fr)))
        re_, rd = reads_of(e, loc), reads_of(d, loc)
        if rd - re_ or (rd and not re_):
            self.v('desired', k, E, node, fr, 'the new value of %s is computed from a different read of it than the one the exchange is conditional on' % show(k))
        if re_:
            for a in st.facts:
                if any(reads_of(x, loc) - re_ for x in a[1:]):
                    self.v('decision', k, E, node, fr, 'the exchange of %s was decided on a different read of it than the one it is conditional on' % show(k))
                    break

    def on_store(self, E, st, loc, val, node, fr):
        k = self.shared(loc)
        if k is None:
            return
        if isinstance(val, tuple) and val and val[0] == 'atomic':
            s, v = val[1], val[2]
            if s.startswith('compare_exchange'):
                n = fr.fn.nodes[node]
                e = E.val(fr.fn, fr, st, n['val1']) if 'val1' in n else None
                ev = st.mem.get(deref(e)) if e is not None else None
                if ev is None:
                    ev = ('s', 'exp', fr.ctx + (node,))
                self.cas(E, st, loc, ev, v, node, fr)
                self.forget(st, loc, ev)
                if self.discarded(fr.fn, node):
                    self.v('ignored', k, E, node, fr, 'the result of the compare-and-swap is ignored: the update may not have taken place')
            else:
                op = 'add' if 'fetch_add' in s else 'sub' if 'fetch_sub' in s else 'exch'
                self.rmw(E, st, loc, op, v, node, fr)
            return
        n = fr.fn.nodes[node]
        if n['k'] in ('CompoundAssignOperator', 'UnaryOperator'):
            t = fr.fn.types[fr.fn.nodes[n['ch'][0]]['t']]
            if '_Atomic' in t.get('s', '') or t.get('k') == 'atomic':
                return
            self.v('plain', k, E, node, fr, '%s is updated elsewhere by atomic operations; here it is read, changed and stored back: an update in between is lost' % show(k))
            return
        self.sites.add((show(k), E.where(node, fr)))
        if isinstance(val, tuple) and reads_of(val, loc):
            self.v('plain', k, E, node, fr, '%s is updated elsewhere by atomic operations; here it is read, changed and stored back: an update in between is lost' % show(k))
        if ('rd', loc) in st.r[0]:
            self.v('plain', k, E, node, fr, '%s is updated elsewhere by atomic operations; here it is read and then overwritten: an update in between is lost' % show(k))
        exp = self.expected.get(k, set())
        for (op, a, b), truth in st.facts.items():
            for x, y in ((a, b), (b, a)):
                if reads_of(x, loc) and op == '==' and truth and is_c(y) and (y[1] in exp or None in exp):
                    self.v('checked', k, E, node, fr, '%s was read as the value from which another thread may exchange it, and is then overwritten without a '
                           'compare-and-swap: that exchange is lost' % show(k))
        st.mem.pop(loc, None)

    def on_branch(self, E, st, node, taken, fr):
        cond = E.val(fr.fn, fr, st, node)
        for loc in st.r[0]:
            if loc[0] != 'rd' and lkey(loc) in self.keys and reads_of(cond, loc) and lkey(loc) not in self.swapped:
                self.v('reread', lkey(loc), E, node, fr, 'a decision is taken on a new read of %s after its atomic update, not on the result of the update' % show(lkey(loc)))


def closest(P, f):
    return any(n['k'] == 'AtomicExpr' for n in f.nodes.values()) or \
        any(re.match(r'__sync_(bool|val|fetch|add|sub|or|and|lock)', f.nodes[c].get('fn') or '') for c in f.calls)


def ev_term(v, env):
    if v[0] == 'c':
        return v[1]
    if v[0] == 'op':
        if v[1] == 'neg':
            return -ev_term(v[2], env)
        if v[1] in ('+', '-', '*') and len(v) == 4:
            a, b = ev_term(v[2], env), ev_term(v[3], env)
            return a + b if v[1] == '+' else a - b if v[1] == '-' else a * b
    if v not in env:
        env[v] = random.Random(repr(v)).randrange(1, 10 ** 6)
    return env[v]


def check_c19(rep, progs, ex):
    rep.rule('every location that is the target of an atomic read-modify-write or compare-and-swap anywhere is treated as volatile (each read gives a new value) '
             'and every function that updates it is interpreted: the value stored by a compare-and-swap and the decision to perform it come from the very read '
             'it is conditional on, its result is used, the value it returns when it failed is not used as if it had taken place, the operand of an atomic '
             'addition and the decision to perform it do not depend on an earlier read, decisions after an update use its result and not a new read, and no '
             'plain store overwrites the location with something computed from, or decided on, a separate read; what a function takes out of a counter of free '
             'CPUs is exactly what it hands to its caller')
    for cfg, P in progs.items():
        direct = {f.id for f in P.fns.values() if closest(P, f)}
        # helpers: statics whose target comes in through a parameter, or of the same file
        inl = {x for x in direct if P.fns[x].static}
        inl = {x for x in inl if len(P.fns[x].nodes) < 130}
        small = {f.id for f in P.fns.values() if f.static and len(f.nodes) < 60 and f.file.endswith('.h')} | \
                {f.id for f in P.fns.values() if f.name in ('min_int', 'max_int')}
        C = Collect(P, inl | small)
        helped = {f.id for f in P.fns.values() if any(P.resolve(f.nodes[c].get('fn') or '') in inl for c in f.calls)}
        for x in sorted(direct | helped):
            E = Engine(P, C, maxstates=60)
            E.run(P.fns[x])
        keys = C.keys
        callers = {P.resolve(f.nodes[c].get('fn') or '') for f in P.fns.values() for c in f.calls}
        names = {k[2] for k in keys if k[0] == 'f'} | {k[1][2] for k in keys if k[0] == '[]' and k[1][0] == 'f'}
        gl = {k[1] for k in keys if k[0] == 'g'}
        todo = set(direct)
        for f in P.fns.values():
            for n in f.nodes.values():
                if n['k'] in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator') and n.get('op') in ('=', '+=', '-=', '|=', '&=', '++', '--', '&'):
                    l = f.nodes[strip(f, n['ch'][0])]
                    if l['k'] == 'MemberExpr' and ('f', l.get('r'), l['m']) in keys or l['k'] == 'DeclRefExpr' and l['d']['id'] in gl:
                        todo.add(f.id)
            if any(P.resolve(f.nodes[c].get('fn') or '') in inl for c in f.calls):
                todo.add(f.id)
        for k in keys:
            rep.count('location', show(k))
        counters = {m['record'] for m in shmem_modules(P)}
        for x in sorted(todo):
            f = P.fns[x]
            L = Collect(P, inl | small)
            Engine(P, L, maxstates=60).run(f)
            R = Update(P, inl | small, keys, C.expected, counters)
            R.swapped = L.swapped
            R.additive = C.additive
            E = Engine(P, R, maxstates=300)
            outs = E.run(f)
            rep.analysed(E.covered)
            for s in R.sites:
                rep.count('update', s)
            for (kind, k, fn), (w, msg) in sorted(R.bad.items()):
                rep.v('%s:%s:%s' % (kind, fn, k), w, msg)
            for st, v in outs:
                if v is None:
                    continue
                for t in subterms(v):
                    if t[:2] == ('s', 'casfail') and t not in st.r[2]:
                        rep.v('failed:%s' % f.name, f.file, '%s returns the value of an exchange of %s that did not take place' % (f.name, show(lkey(t[2]))))
            balance(rep, P, f, outs)
    rep.need('location', 10)
    rep.need('update', 30)
    rep.need('balance', 3)


def balance(rep, P, f, outs):
    """change of a counter of free CPUs + what is returned = what was passed"""
    if f.ret is None:
        return
    ints = [('s', 'P', p['n']) for p in f.params if f.types[p['t']].get('k') == 'int']
    for st, v in outs:
        ch = st.r[1]
        if not ch and not any(st2.r[1] for st2, v2 in outs):
            continue
        if v is None or not ints:
            continue
        env = {}
        total = sum(ev_term(d, env) for l, d in ch) + (0 if is_c(v) else ev_term(v, env))
        rep.count('balance', '%s:%s' % (f.name, len(ch)))
        if not any(total == ev_term(p, env) for p in ints):
            rep.v('balance:%s' % f.name, f.file, '%s: on some path the change of the counter of idle CPUs does not match the CPUs it hands over (change %s, result %s)'
                  % (f.name, [d for l, d in ch][:2], v))
            return
