"""Accounting of measured time (C25, C26, C27) and efficiency formulas (C52)."""
import random
from fractions import Fraction
from flow import *
from names import *
from program import walk, strip
from ratios import member, DivEngine

SAMPLE, MACRO, MONITOR = 'talp_sample_t', 'talp_macrosample_t', 'dlb_monitor_t'
# where each accumulated quantity ends up
TO_MONITOR = {'useful': 'useful_time', 'not_useful_mpi': 'mpi_time', 'not_useful_omp_in_lb': 'omp_load_imbalance_time',
              'not_useful_omp_in_sched': 'omp_scheduling_time', 'not_useful_omp_out': 'omp_serialization_time', 'cycles': 'cycles',
              'instructions': 'instructions', 'num_mpi_calls': 'num_mpi_calls', 'num_omp_parallels': 'num_omp_parallels', 'num_omp_tasks': 'num_omp_tasks'}


def bare(r):
    return (r or '').split('@')[0]


def loads(v, out=None):
    """members read by a value: [(object, member, record)]"""
    if out is None:
        out = []
    if v[0] == 's' and len(v) > 2 and v[1] in ('ld', 'at', 'uns') and v[2] and v[2][0] == 'f':
        out.append(member(v[2]))
    elif v[0] in ('op', 'cmp'):
        for x in v[2:]:
            loads(x, out)
    return out


def leaf_fields(P, rec):
    """numeric members of a record, with those of nested records"""
    out = []
    for x in P.record(rec)['fields']:
        t = x['ty']
        if t['k'] == 'rec':
            out += leaf_fields(P, t['r'])
        elif t['k'] in ('int', 'fp', 'bool', 'enum'):
            out.append(x['n'])
    return out


def nested(P, rec):
    """the record and the records nested in it"""
    out = {rec}
    for x in P.record(rec)['fields']:
        if x['ty']['k'] == 'rec':
            out |= nested(P, x['ty']['r'])
    return out


def talp_files(P):
    """files that handle samples or regions"""
    fs = set()
    recs = {r for r in P.records if {'mpi_time', 'useful_time'} <= all_fields(P, r)} | {SAMPLE}
    for f in P.fns.values():
        for n in f.nodes.values():
            if n['k'] == 'MemberExpr' and n.get('r') in recs:
                fs.add(f.file)
                break
    return fs


# ------------------------------------------------------------------------------------------------------------------ C25
class XferRule(Rule):
    """records every store into a member: (record, member, loaded members, pure copy?, where)"""
    def __init__(self, P, inl=()):
        self.P, self.inl = P, set(inl)
        self.out = {}
        self.atomics = {}
        self.calls = []

    def inline(self, E, fid):
        return fid in self.inl

    def on_store(self, E, st, loc, v, node, fr):
        if loc[0] != 'f':
            return
        b, n, r = member(loc)
        if v and v[0] in ('s', 'op', 'c', 'cond'):
            self.out.setdefault((fr.fn.id, r, n), []).append((b, v, node, E.where(node, fr), tuple(sorted(str(x) for x in st.facts.items()))[:0]))

    def on_atomic(self, E, st, op, loc, node, fr):
        if loc[0] == 'f':
            b, n, r = member(loc)
            self.atomics.setdefault((r, n), []).append((fr.fn.id, op, node, E.where(node, fr)))

    def on_call(self, E, st, fid, args, node, fr):
        self.calls.append((fr.fn.id, fid, tuple(args), E.where(node, fr)))
        return None


def stat_inl(P, f, limit=500):
    """static helpers the function reaches"""
    out, todo = set(), [f]
    while todo:
        g = todo.pop()
        for c in g.calls:
            h = P.fns.get(P.resolve(g.nodes[c].get('fn') or ''))
            if h is not None and h.static and h.id not in out and h.id != f.id and len(h.nodes) < limit:
                out.add(h.id)
                todo.append(h)
    return out


def check_c25(rep, progs, ex):
    rep.rule('The paths of each measured quantity are followed through the source: (1) the functions that empty the samples must exchange every accumulator with zero '
             'and add the result to the quantity of the same name; (2) the update of the open regions must add each quantity, once, to the quantity of the region it '
             'belongs to and visit the whole list; (3) the reduction operators must combine each member only with the same member and cover all of them; (4) every '
             'copy between measurement records must connect members of the same name, and a record filled from another must receive every member they share; '
             '(5) arguments named after a quantity receive that quantity.')
    for cfg, P in progs.items():
        SN, MN = nested(P, SAMPLE), nested(P, MACRO)
        acc = [x for r in SN if r != SAMPLE for x in leaf_fields(P, r)]
        mac = [x for r in MN if r != MACRO for x in leaf_fields(P, r)]
        files = talp_files(P)
        measured = set(acc) | set(mac) | set(leaf_fields(P, MONITOR)) | set(leaf_fields(P, 'pop_base_metrics_t'))
        fns = [f for f in P.fns.values() if f.file in files]
        # ---- (1) functions that build a macrosample: a local variable of that record handed to the function that updates the regions
        builders = []
        for f in fns:
            for n in f.nodes.values():
                if n['k'] == 'DeclStmt' and any('t' in q and f.types[q['t']].get('r') in MN and f.types[q['t']].get('r') == MACRO for q in n['decls']):
                    builders.append(f)
                    break
        for f in builders:
            inl = {g for g in stat_inl(P, f) if P.fns[g].file == f.file}
            # do not inline the consumer
            inl = {g for g in inl if not any(P.fns[g].types[p['t']]['k'] == 'ptr' and P.fns[g].types[P.fns[g].types[p['t']]['p']].get('const') and
                                             P.fns[g].types[P.fns[g].types[p['t']]['p']].get('r') == MACRO for p in P.fns[g].params)}
            flows = {}
            plain = {}
            R = FlowRule(P, inl, SN, MN)
            E = DivEngine(P, R, maxstates=200)
            E.run(f)
            rep.analysed(E.covered)
            got = R.flows
            for q in acc:
                rep.count('accumulator', '%s %s' % (f.name, q))
                ex_ = R.exch.get(q, [])
                if q in mac or q == 'not_useful_omp_in':
                    if q == 'not_useful_omp_in' and not R.exch.get(q):
                        if not any(x.startswith('not_useful_omp_in') for x in R.stored):
                            continue        # not this function's business: nothing derived from it is filled either
                        rep.v('kept:%s:%s' % (f.name, q), f.name, 'the time in %s is used but the accumulator is not emptied' % q)
                        continue
                    if not ex_:
                        rep.v('dropped:%s:%s' % (f.name, q), f.name, 'accumulator %s is not collected' % q)
                        continue
                    if any(v != C0 for v, _ in ex_):
                        rep.v('kept:%s:%s' % (f.name, q), ex_[0][1], 'accumulator %s is read but not emptied' % q)
                    if len({w for _, w in ex_}) > 1:
                        rep.v('twice:%s:%s' % (f.name, q), ex_[0][1], 'accumulator %s is collected at several places of one collection' % q)
                    if q in mac:
                        dst = {d for s, d, _ in got if s == q}
                        if dst != {q}:
                            rep.v('misplaced:%s:%s' % (f.name, q), ex_[0][1], 'accumulator %s is added to %s' % (q, ', '.join(sorted(dst)) or 'nothing'))
            for q, w in R.unread:
                rep.v('not-exchange:%s:%s' % (f.name, q), w, 'accumulator %s is added without being emptied by the same atomic operation' % q)
            for q, (w, v) in R.overwritten.items():
                rep.v('overwritten:%s:%s' % (f.name, q), w, 'the value collected from %s replaces what was collected from other threads instead of being added' % q)
            # derived quantities come with the accumulator they derive from
            der = {x for x in R.stored if x in mac and x not in acc}
            if R.exch.get('not_useful_omp_in'):
                for q in mac:
                    if q not in acc and q not in der:
                        rep.v('dropped:%s:%s' % (f.name, q), f.name, 'the quantity %s is not filled' % q)
            if not R.consumer:
                rep.v('not-delivered:%s' % f.name, f.name, 'the collected quantities are not delivered to the open regions')
            elif any(n != 1 for n in R.paths):
                rep.v('delivered:%s' % f.name, f.name, 'on some path the collected quantities are not delivered exactly once')
            # every sample is collected: three samples given, three collected
            R = FlowRule(P, inl, SN, MN)
            R.n = 3
            E = DivEngine(P, R, maxstates=200, unroll=200)
            E.run(f, [('c', 3) if f.types[p['t']]['k'] == 'int' else ('s', 'P', p['n']) for p in f.params])
            for q, idx in sorted(R.index.items()):
                if None not in idx:
                    rep.count('sample_range', '%s %s' % (f.name, q))
                    if idx != {0, 1, 2}:
                        rep.v('range:%s:%s' % (f.name, q), f.name, 'of three samples, those collected for %s are %s' % (q, sorted(idx)))
            for q, w in R.early.items():
                rep.v('early:%s:%s' % (f.name, q), w, 'the %s of a thread is collected before the time since its last update is charged' % q)
        # ---- (2) consumers: functions with a const macrosample parameter that store into regions
        cons = [f for f in fns if any(f.types[p['t']]['k'] == 'ptr' and f.types[f.types[p['t']]['p']].get('r') == MACRO for p in f.params)]
        parts = {g for f in cons for g in stat_inl(P, f, 400) if g != f.id and P.fns[g].file == f.file}
        for f in cons:
            if f.id in parts:
                continue            # judged with the function it is a part of
            R = XferRule(P, {g for g in stat_inl(P, f, 400) if P.fns[g].file == f.file})
            E = DivEngine(P, R, maxstates=200)
            E.run(f)
            rep.analysed(E.covered)
            stores = {(r, n): v for (_, r, n), v in R.out.items() if r == MONITOR or bare(r).startswith('anon')}
            if not any(r == MONITOR for r, _ in stores):
                continue
            use = {}
            for (r, n), vs in stores.items():
                for b, v, node, w, _ in vs:
                    for ob, on, orr in loads(v):
                        if orr in MN:
                            use.setdefault(on, set()).add((n, w))
                            rest = [x for x in (v[2:] if v[0] == 'op' and v[1] == '+' else ()) if not any(y[2] in MN for y in loads(x))]
                            if len(rest) != 1 or any(x != n for _, x, _ in loads(rest[0])) or is_c(rest[0]):
                                rep.v('not-added:%s' % n, w, 'the region quantity %s is not increased by the collected %s' % (n, on))
                            elif v[0] == 'op' and len([1 for z in loads(v) if z[2] in MN]) > 1:
                                rep.v('twice:%s' % n, w, 'several collected quantities are added to %s' % n)
            for q in mac:
                rep.count('region_quantity', '%s %s' % (f.name, q))
                want = TO_MONITOR.get(q)
                got = {n for n, _ in use.get(q, ())}
                if want is None:
                    continue
                if not got:
                    rep.v('dropped:%s' % q, f.name, 'the collected quantity %s reaches no region' % q)
                elif got != {want}:
                    rep.v('misplaced:%s' % q, sorted(use[q])[0][1], 'the collected quantity %s is added to %s' % (q, ', '.join(sorted(got))))
                elif len(use[q]) > 1:
                    rep.v('twice:%s' % q, sorted(use[q])[0][1], 'the collected quantity %s is added at several places' % q)
            # the whole list of open regions is visited: no way to leave the loop early
            for why, w in early_exits(P, f):
                rep.v('partial:%s' % f.name, w, why)
        # ---- (3) reduction operators
        ops = set()
        for f in fns:
            for c in f.calls:
                if (f.nodes[c].get('fn') or '').endswith('MPI_Op_create'):
                    for y in walk(f, f.nodes[c]['ch'][1]):
                        n = f.nodes[y]
                        if n['k'] == 'DeclRefExpr' and n['d']['k'] == 'func':
                            ops.add(P.resolve(n['d']['id']))
                    n = f.nodes[strip(f, f.nodes[c]['ch'][1])]
                    if n['k'] == 'DeclRefExpr' and n['d']['k'] == 'func':
                        ops.add(P.resolve(n['d']['id']))
        for o in sorted(ops):
            f = P.fns.get(o)
            if f is None:
                continue
            R = XferRule(P, stat_inl(P, f, 200))
            E = DivEngine(P, R, maxstates=200)
            E.run(f)
            rep.analysed(E.covered)
            recs = {}
            for (_, r, n), vs in R.out.items():
                recs.setdefault(r, {}).setdefault(n, []).extend(vs)
            for r, fl in sorted(recs.items()):
                for q in leaf_fields(P, r):
                    rep.count('reduced_member', '%s %s' % (f.name, q))
                    if q not in fl:
                        rep.v('not-reduced:%s.%s' % (bare(r), q), f.name, 'the reduction leaves out member %s' % q)
                        continue
                    for b, v, node, w, _ in fl[q]:
                        other = {x for _, x, rr in loads(v) if rr == r and x != q}
                        if other:
                            rep.v('reduced:%s.%s' % (bare(r), q), w, 'member %s is combined with %s' % (q, ', '.join(sorted(other))))
                        elif v[0] == 'c' and member_kind(P, r, q) != 'bool':
                            rep.v('reduced:%s.%s' % (bare(r), q), w, 'member %s is set to a constant' % q)
            for c in narrowed(P, f):
                rep.v('narrowed:%s:%s' % (f.name, c[0]), c[1], 'the real member %s passes through an integer function' % c[0])
        # ---- (4) copies between records, (5) arguments
        for f in sorted(fns, key=lambda x: x.id):
            R = XferRule(P)
            E = DivEngine(P, R, maxstates=80)
            try:
                E.run(f)
            except RecursionError:
                continue
            rep.analysed(E.covered)
            groups = {}
            for (_, r, n), vs in R.out.items():
                for b, v, node, w, _ in vs:
                    if v[0] == 's':
                        for ob, on, orr in loads(v):
                            if orr and orr != r and n in measured and on in measured:
                                rep.count('copy', '%s %s.%s' % (f.name, bare(r), n))
                                if n != on and (n in all_fields(P, orr) or on in all_fields(P, r)):
                                    rep.v('crossed:%s:%s.%s' % (f.name, bare(r), n), w, 'member %s of %s is filled with %s' % (n, bare(r), on))
                                if n == on:
                                    groups.setdefault((r, orr), {})[n] = w
            for (r, orr), got in groups.items():
                shared = [x for x in all_fields(P, r) if x in all_fields(P, orr) and x in measured]
                stored = {n for (_, rr, n), vs in R.out.items() if (rr == r or bare(rr).startswith('anon')) and any(not is_c(x[1]) for x in vs)}
                if len(got) >= 4:
                    for x in shared:
                        if x not in got and x not in stored:
                            rep.v('omitted:%s:%s.%s' % (f.name, bare(r), x), f.name, 'member %s of %s is not copied from %s' % (x, bare(r), bare(orr)))
            for (_, r, n), vs in R.out.items():
                pre = next((x for x in PREFIX if n.startswith(x) and n[len(x):] in measured), None)
                for b, v, node, w, _ in vs if pre else ():
                    if v[0] == 'op' and v[1] == '+':
                        for ob, on, orr in loads(v):
                            if orr != r and on in measured and on != n[len(pre):] and pre + on in all_fields(P, r):
                                rep.v('crossed:%s:%s.%s' % (f.name, bare(r), n), w, 'member %s of %s accumulates %s' % (n, bare(r), on))
            for c in f.calls:
                g = P.fns.get(P.resolve(f.nodes[c].get('fn') or ''))
                for p, a in zip(g.params, f.nodes[c]['ch'][1:]) if g else ():
                    m = f.nodes[strip(f, a)]
                    while m['k'] in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr'):
                        m = f.nodes[strip(f, m['ch'][0])]
                    if p['n'] in measured and m['k'] == 'MemberExpr' and m['m'] in measured:
                        rep.count('argument', '%s %s %s' % (f.name, g.name, p['n']))
                        if m['m'] != p['n'] and p['n'] in all_fields(P, m.get('r')) | {x['n'] for x in P.record(MONITOR)['fields']} | all_fields(P, MONITOR):
                            rep.v('argument:%s:%s:%s' % (f.name, g.name, p['n']), '%s:%s (%s)' % (f.file.replace('/repo/', ''), f.nodes[c].get('l'), f.name),
                                  'the argument %s of %s is given %s' % (p['n'], g.name, m['m']))
            for caller, fid, args, w in R.calls:
                g = P.fns.get(fid)
                if g is None:
                    continue
                for p, a in zip(g.params, args):
                    if p['n'] in measured and a[0] == 's':
                        for ob, on, orr in loads(a):
                            if on in measured:
                                rep.count('argument', '%s %s %s' % (f.name, g.name, p['n']))
                                if on != p['n'] and p['n'] in all_fields(P, orr):
                                    rep.v('argument:%s:%s:%s' % (f.name, g.name, p['n']), w, 'the argument %s of %s is given %s' % (p['n'], g.name, on))
            # stores from parameters named after a quantity
            for (_, r, n), vs in R.out.items():
                for b, v, node, w, _ in vs:
                    if v[0] == 's' and v[1] == 'P' and n in measured and v[2] in measured:
                        rep.count('parameter', '%s %s' % (f.name, n))
                        if v[2] != n and n in {p['n'] for p in f.params}:
                            rep.v('crossed:%s:%s.%s' % (f.name, bare(r), n), w, 'member %s is filled with the argument %s' % (n, v[2]))
                    elif v[0] == 'op' and n in measured and n in {p['n'] for p in f.params} and mentions(v, lambda x: x[:2] == ('s', 'P') and x[2:] and x[2] in measured) \
                            and not (v[1] == '+' and any(x == n for _, x, _ in loads(v))):
                        rep.v('altered:%s:%s.%s' % (f.name, bare(r), n), w, 'member %s is not filled with the value given for it' % n)
        # ---- (6) the list of open regions, followed node by node
        for f in fns:
            if not any(n['k'] == 'MemberExpr' and n['m'] == 'open_regions' for n in f.nodes.values()):
                continue
            R = ListedRule(P, {g for g in stat_inl(P, f, 400) if P.fns[g].file == f.file})
            E = DivEngine(P, R, maxstates=200, unroll=40)
            E.run(f)
            for (n, since), (idx, w) in sorted(R.hit.items()):
                want = {1, 2} if since else {0, 1, 2}
                if None in idx or n not in measured:
                    continue
                rep.count('open_region', '%s %s' % (f.name, n))
                if idx != want:
                    rep.v('regions:%s:%s' % (f.name, n), w, 'of three open regions, %s grows in %s%s' % (n, sorted(idx), ', the innermost included, which is charged already' if since and 0 in idx else ''))
    rep.need('open_region', 5)
    rep.need('accumulator', 5)
    rep.need('region_quantity', 5)
    rep.need('reduced_member', 5)
    rep.need('copy', 30)


_af = {}


def all_fields(P, rec):
    k = (id(P), rec)
    if k not in _af:
        out = set()
        try:
            for r in nested(P, rec):
                out |= set(leaf_fields(P, r))
        except (KeyError, TypeError, AttributeError):
            pass
        _af[k] = out
    return _af[k]


def member_kind(P, rec, name):
    for r in nested(P, rec):
        for x in P.record(r)['fields']:
            if x['n'] == name:
                return x['ty']['k']
    return None


def narrowed(P, f):
    """floating-point members converted to integers on the way"""
    for i, n in sorted(f.nodes.items()):
        if n['k'] == 'ImplicitCastExpr' and n.get('ck') == 'FloatingToIntegral':
            for y in [n['ch'][0]] + list(walk(f, n['ch'][0])):
                m = f.nodes[y]
                if m['k'] == 'MemberExpr':
                    yield m['m'], '%s:%s (%s)' % (f.file.replace('/repo/', ''), n.get('l'), f.name)
                    break


def index_of(b):
    """number of the sample an object belongs to"""
    while isinstance(b, tuple) and b and b[0] in ('f', 'd', '&'):
        b = b[1]
    if isinstance(b, tuple) and len(b) > 2 and b[:2] == ('s', 'P') and b[2].startswith('sample') and b[2][6:].isdigit():
        return int(b[2][6:])
    return None


def early_exits(P, f):
    """loops over the list of open regions that can be left before the end of the list"""
    for i, n in f.nodes.items():
        if n['k'] not in ('ForStmt', 'WhileStmt'):
            continue
        for y in walk(f, i):
            m = f.nodes[y]
            if m['k'] == 'BreakStmt' and not any(f.nodes[z]['k'] in ('SwitchStmt', 'ForStmt', 'WhileStmt', 'DoStmt') and z != i and y in set(walk(f, z)) for z in walk(f, i)):
                yield 'the update of the open regions stops before the last one', '%s:%s (%s)' % (f.file.replace('/repo/', ''), m.get('l'), f.name)
            if m['k'] == 'ReturnStmt':
                yield 'the update of the open regions stops before the last one', '%s:%s (%s)' % (f.file.replace('/repo/', ''), m.get('l'), f.name)


NODE0 = 0x5000000      # stands for the address of the first node


class ListedRule(Rule):
    """three open regions"""
    def __init__(self, P, inl):
        self.P, self.inl, self.hit = P, inl, {}

    def inline(self, E, fid):
        return fid in self.inl

    def on_load(self, E, st, loc, val, node, fr):
        if loc[0] != 'f':
            return None
        if loc[2] == 'open_regions':
            return ('c', NODE0)
        b = loc[1]
        if b[0] == 'd' and b[1][0] == 'c' and NODE0 <= b[1][1] < NODE0 + 3:
            k = b[1][1] - NODE0
            return ('s', 'P', 'region%d' % k) if loc[2] == 'data' else ('c', NODE0 + k + 1) if loc[2] == 'next' and k < 2 else C0 if loc[2] == 'next' else N
        return None

    def on_store(self, E, st, loc, v, node, fr):
        if loc[0] != 'f' or not v or v[0] != 'op':
            return
        b, n, r = member(loc)
        if r != MONITOR and not bare(r).startswith('anon') or n in ('elapsed_time', 'num_measurements', 'num_resets'):
            return
        since = any(x == 'start_time' for _, x, _ in loads(v))
        x = loc
        while x[0] == 'f':
            x = x[1]
        i = int(x[1][2][6:]) if x[0] == 'd' and x[1][:2] == ('s', 'P') and str(x[1][2]).startswith('region') else None
        if root_of(loc)[0] == 'v':
            return
        idx, w = self.hit.setdefault((n, since), (set(), E.where(node, fr)))
        idx.add(i)


PREFIX = ('avg_', 'max_', 'total_', 'sum_', 'node_')


class FlowRule(Rule):
    """one collection of samples"""
    def __init__(self, P, inl, SN, MN):
        self.P, self.inl, self.SN, self.MN = P, set(inl), SN, MN
        self.flows, self.exch, self.stored, self.unread, self.overwritten = set(), {}, set(), set(), {}
        self.consumer, self.paths = False, set()
        self.src = {}
        self.n, self.index, self.early = None, {}, {}

    def initial(self, E):
        return 0

    def inline(self, E, fid):
        return fid in self.inl

    def on_atomic(self, E, st, op, loc, node, fr):
        if loc[0] != 'f':
            return
        b, n, r = member(loc)
        if r in self.SN:
            self.src[fr.ctx + (node,)] = n
            if 'exchange' in op and 'compare' not in op:
                i = index_of(b)
                self.index.setdefault(n, set()).add(i)
                if i is not None and ('x', 'charged', i) not in st.mem:
                    self.early.setdefault(n, E.where(node, fr))

    def on_load(self, E, st, loc, val, node, fr):
        if self.n is None:
            return None
        t = fr.fn.types[fr.fn.nodes[node]['t']]
        if loc[0] == 'f' and bare(loc[3]) == 'talp_info_t' and val[0] == 's' and t['k'] == 'int':
            return ('c', self.n)
        if t['k'] == 'ptr' and fr.fn.types[t['p']].get('r') in self.SN and (loc[0] == 'd' or loc[0] == 'e' and loc[2][0] == 'c'):
            return ('s', 'P', 'sample%d' % (loc[2][1] if loc[0] == 'e' else 0))

    def on_store(self, E, st, loc, v, node, fr):
        if loc[0] != 'f':
            return
        b, n, r = member(loc)
        if r == SAMPLE and n == 'last_updated_timestamp':
            st.mem[('x', 'charged', index_of(b))] = C0
        if r in self.SN and v and v[0] == 'atomic' and 'exchange' in v[1] and 'compare' not in v[1]:
            self.exch.setdefault(n, []).append((v[2], E.where(node, fr)))
        if r in self.MN and v and v[0] in ('s', 'op'):
            self.stored.add(n)
            srcs = []
            self.find(v, srcs)
            for kind, s in srcs:
                self.flows.add((s, n, kind))
                if kind == 'load':
                    self.unread.add((s, E.where(node, fr)))
                if not (v[0] == 'op' and v[1] == '+'):
                    self.overwritten[s] = (E.where(node, fr), v)

    def find(self, v, out):
        if v[0] == 's':
            if v[1] == 'rmw' and v[2] in self.src:
                out.append(('exch', self.src[v[2]]))
            elif v[1] in ('at', 'ld', 'uns') and v[2] and v[2][0] == 'f' and member(v[2])[2] in self.SN:
                out.append(('load', member(v[2])[1]))
        elif v[0] in ('op', 'cmp'):
            for x in v[2:]:
                self.find(x, out)

    def on_call(self, E, st, fid, args, node, fr):
        g = self.P.fns.get(fid)
        if g is not None and ('f', SAMPLE, 'last_updated_timestamp') in self.P.mods(fid):
            for p, a in zip(g.params, args):
                t = g.types[p['t']]
                if t['k'] == 'ptr' and g.types[t['p']].get('r') == SAMPLE:
                    st.mem[('x', 'charged', index_of(deref(a)))] = C0
        if g is not None and fid not in self.inl:
            for p, a in zip(g.params, args):
                t = g.types[p['t']]
                if t['k'] == 'ptr' and g.types[t['p']].get('r') in self.MN:
                    self.consumer = True
                    st.r = min(st.r + 1, 3)
        return None

    def on_leave(self, E, st, fn, v, fr):
        if fr.up is None:
            self.paths.add(st.r)


# ------------------------------------------------------------------------------------------------------------ C26 and C27
from collections import namedtuple
Reg = namedtuple('Reg', 'lock tested ins rem opens closes agg elapsed start stop wiped fresh pend')
REG0 = Reg(frozenset(), frozenset(), 0, 0, 0, 0, 0, 0, 0, 0, False, False, None)
LIST_INS, LIST_REM, LIST_FREE = ('g_slist_prepend', 'g_slist_append', 'g_slist_insert', 'g_slist_insert_before', 'g_slist_insert_sorted'), \
    ('g_slist_remove', 'g_slist_remove_link', 'g_slist_delete_link', 'g_slist_remove_all'), ('g_slist_free', 'g_slist_free_full')


def builders_of(P, fns):
    """functions that collect the samples: a local aggregate record that others consume"""
    out = set()
    for f in fns:
        for n in f.nodes.values():
            if n['k'] == 'DeclStmt' and any('t' in q and f.types[q['t']].get('r') == MACRO for q in n['decls']):
                out.add(f.id)
    return out


class RegionRule(Rule):
    def __init__(self, P, inl, agg):
        self.P, self.inl, self.agg = P, set(inl), set(agg)
        self.events = []                # (kind, where, state facts)
        self.exits = []
        self.listlocks = {}

    def initial(self, E):
        return REG0

    def inline(self, E, fid):
        return fid in self.inl

    def lockname(self, a):
        return a[1][2] if a[0] == '&' and a[1][0] == 'f' else (a[1][1] if a[0] == '&' and a[1][0] in ('g', 'v') else str(a)[:40])

    def on_call(self, E, st, fid, args, node, fr):
        r = st.r
        if fid == 'pthread_mutex_lock' and args:
            for l in [l for l in st.mem if l[0] == 'f' and l[2] in ('started', 'open_regions')]:
                del st.mem[l]
            st.r = r._replace(lock=r.lock | {self.lockname(args[0])}, tested=frozenset())
            return [(st, ('c', 0))]
        if fid == 'pthread_mutex_unlock' and args:
            for l in [l for l in st.mem if l[0] == 'f' and l[2] in ('started', 'open_regions')]:
                del st.mem[l]
            st.r = r._replace(lock=r.lock - {self.lockname(args[0])}, tested=frozenset())
            return [(st, ('c', 0))]
        if fid in LIST_INS or fid in LIST_REM or fid in LIST_FREE:
            w = E.where(node, fr)
            src = args[0] if args else None
            if not (src and src[0] == 's' and (src[2] is None or src[2] and src[2][0] == 'f' and src[2][2] == 'open_regions') and self.names_list(fr, node)):
                return None
            if fid in LIST_INS:
                self.events.append(('ins', w, r, fid))
                st.r = r._replace(ins=min(r.ins + 1, 2), pend=w)
                return [(st, ('s', 'ret', 'OPENLIST', fr.ctx + (node,)))]
            if fid in LIST_REM:
                self.events.append(('rem', w, r, fid))
                st.r = r._replace(rem=min(r.rem + 1, 2), pend=w)
                return [(st, ('s', 'ret', 'OPENLIST', fr.ctx + (node,)))]
            st.r = r._replace(wiped=True)
            return [(st, ('s', 'ret', fid, fr.ctx + (node,)))]
        if fid in self.agg:
            st.r = r._replace(agg=min(r.agg + 1, 2))
        if fid in ('malloc', 'calloc') and fr.up is None:
            st.r = st.r._replace(fresh=True)
        return None

    def names_list(self, fr, node):
        """the first argument reads the list of open regions"""
        f = fr.fn
        a = f.nodes[node]['ch'][1]
        for y in [a] + list(walk(f, a)):
            if f.nodes[y]['k'] == 'MemberExpr' and f.nodes[y]['m'] == 'open_regions':
                return True
        return False

    def on_load(self, E, st, loc, val, node, fr):
        if loc[0] == 'f' and loc[2] == 'started' and st.r.lock and val[0] == 's':
            st.r = st.r._replace(tested=st.r.tested | {val})

    def on_store(self, E, st, loc, v, node, fr):
        if loc[0] != 'f':
            return
        r = st.r
        n, w = loc[2], E.where(node, fr)
        if n == 'started':
            k = {E.known(st, t) for t in r.tested}
            if v == C0:
                self.events.append(('close', w, r, False if False in k else True if True in k else None))
                st.r = r._replace(closes=min(r.closes + 1, 2))
            elif v[0] == 'c':
                self.events.append(('open', w, r, True if True in k else False if False in k else None))
                st.r = r._replace(opens=min(r.opens + 1, 2))
            else:
                self.events.append(('odd', w, r, None))
        elif n == 'open_regions':
            self.listlocks.setdefault(r.lock, []).append(w)
            st.r = r._replace(pend=None)
            if not (v[0] == 's' and v[1] == 'ret' and v[2] == 'OPENLIST' or v == C0 and r.wiped):
                self.events.append(('lost', w, r, None))
        elif member(loc)[2] == MONITOR and n == 'elapsed_time':
            if v[0] == 'c':
                return
            k = {E.known(st, t) for t in r.tested}
            self.events.append(('elapsed', w, r, v))
            if True not in k:
                self.events.append(('unchecked', w, r, None))
            st.r = r._replace(elapsed=min(r.elapsed + 1, 2))
        elif member(loc)[2] == MONITOR and n == 'start_time' and v[0] != 'c':
            st.r = r._replace(start=min(r.start + 1, 2))
        elif member(loc)[2] == MONITOR and n == 'stop_time' and v[0] != 'c':
            st.r = r._replace(stop=min(r.stop + 1, 2))

    def on_leave(self, E, st, fn, v, fr):
        if fr.up is None:
            self.exits.append((st.r, v))


def talp_core(P):
    """functions of the files that access the open regions, and their entry points"""
    files = set()
    for f in P.fns.values():
        if any(n['k'] == 'MemberExpr' and n['m'] == 'open_regions' for n in f.nodes.values()):
            files.add(f.file)
    return [f for f in P.fns.values() if f.file in files]


def check_c27(rep, progs, ex):
    rep.rule('Every path of every entry point that touches a region\'s started flag or the list of open regions is analysed: marking and insertion (unmarking and removal) come '
             'together, under the same lock, after the flag was read as the opposite under that lock; elapsed time grows by stop minus start exactly when a region is '
             'closed by being stopped; the result says whether anything changed; a reset closes the region and keeps what registration set.')
    for cfg, P in progs.items():
        fns = talp_core(P)
        agg = builders_of(P, fns)
        roots = []
        for f in fns:
            if f.static:
                continue
            reachable = {f.id} | stat_inl(P, f)
            if any(writes_region(P.fns[g]) for g in reachable if g not in agg):
                roots.append(f)
        alllocks = None
        lists = {}
        for f in sorted(roots, key=lambda x: x.id):
            inl = {g for g in stat_inl(P, f, 200) if P.fns[g].file == f.file and g not in agg}
            R = RegionRule(P, inl, agg)
            E = Engine(P, R, maxstates=400)
            E.run(f)
            rep.analysed(E.covered)
            rep.count('entry', f.name)
            lists.update(R.listlocks)
            for kind, w, r, x in R.events:
                rep.count('change', '%s %s %s' % (f.name, kind, w))
                if kind == 'odd':
                    rep.v('value:%s' % f.name, w, 'the started flag is given a value that is not a constant')
                elif kind == 'open' and x is not False and not r.fresh:
                    rep.v('unchecked-open:%s' % f.name, w, 'a region is marked started without having been found closed under the lock that is held: two starts insert it twice')
                elif kind == 'unchecked':
                    rep.v('unchecked-close:%s' % f.name, w, 'elapsed time is added to a region that was not found open under the lock that is held: two stops add it twice')
                elif kind in ('open', 'close', 'ins', 'rem', 'elapsed') and not r.lock:
                    rep.v('unlocked:%s:%s' % (kind, f.name), w, {'open': 'a region is marked started', 'close': 'a region is marked closed', 'ins': 'a region is inserted',
                                                               'rem': 'a region is removed', 'elapsed': 'elapsed time is added'}[kind] + ' without the lock of the registry')
                elif kind == 'lost':
                    rep.v('lost:%s' % f.name, w, 'the list of open regions is replaced by something else than its updated self')
                if kind == 'ins' and x != 'g_slist_prepend':
                    rep.v('order:%s' % f.name, w, 'a region is not inserted at the head of the open regions, where the last opened one is looked for')
                if kind in ('ins', 'rem') and x in LIST_INS + LIST_REM and not r.agg and (kind == 'ins' or f.name not in ()):
                    pass
                if kind == 'elapsed':
                    m = loads(x)
                    names_ = [y[1] for y in m]
                    ok = x[0] == 'op' and x[1] == '+' and any(y == 'elapsed_time' for y in names_)
                    diff = [y for y in x[2:] if y[0] == 'op' and y[1] == '-'] if ok else []
                    if not diff or 'start_time' not in [y[1] for y in loads(diff[0][3])] or 'start_time' in [y[1] for y in loads(diff[0][2])]:
                        rep.v('elapsed:%s' % f.name, w, 'elapsed time does not grow by the difference between stop and start')
            timed = any(k == 'elapsed' for k, *_ in R.events)
            for r, v in R.exits:
                if r.pend:
                    rep.v('lost:%s' % f.name, r.pend, 'the updated list of open regions is not kept')
                if r.ins != r.opens and not r.fresh:
                    rep.v('insert:%s' % f.name, f.name, 'on some path a region is %s' % ('marked started without entering the open regions' if r.opens > r.ins else 'inserted in the open regions without being marked started'))
                if r.rem != r.closes and not r.fresh:
                    rep.v('remove:%s' % f.name, f.name, 'on some path a region is %s' % ('marked closed without leaving the open regions' if r.closes > r.rem else 'removed from the open regions without being marked closed'))
                if timed and r.elapsed != r.closes:
                    rep.v('measure:%s' % f.name, f.name, 'on some path a region is %s' % ('closed without its elapsed time being added' if r.closes else 'charged elapsed time without being closed'))
                if timed and r.elapsed and not r.stop:
                    rep.v('measure:%s' % f.name, f.name, 'on some path elapsed time is added without recording the stop time')
                if r.opens and not r.start:
                    rep.v('start-time:%s' % f.name, f.name, 'on some path a region is opened without recording its start time')
                if (timed or any(k == 'ins' for k, *_ in R.events)) and f.types[f.ret]['k'] == 'int' and v is not None:
                    changed = bool(r.opens or r.closes)
                    if v[0] == 'c' and (v[1] == 0) != changed:
                        rep.v('result:%s' % f.name, f.name, 'on some path the region is %s but the result is %d' % ('changed' if changed else 'not changed', v[1]))
            # finalisation: nothing of the list survives its regions
        held = [s for s in lists if lists[s]]
        if held:
            common = frozenset.intersection(*held)
            if not common:
                for s in held:
                    if not s:
                        rep.v('list-unlocked', lists[s][0], 'the list of open regions is written without the lock of the registry')
        # reset keeps what registration sets
        init, reset = literal_of(P, fns, True), literal_of(P, fns, False)
        for f, fields, w in reset:
            for q in sorted({x for _, fl, _ in init for x, v in fl.items() if v}):
                rep.count('kept_member', q)
                if not fields.get(q):
                    rep.v('reset:%s' % q, w, 'a reset loses %s, which only registration sets' % q)
    rep.need('entry', 3)
    rep.need('change', 4)


def writes_region(f):
    from program import walk as w
    for n in f.nodes.values():
        if n['k'] in ('BinaryOperator', 'CompoundAssignOperator') and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
            m = f.nodes[strip(f, n['ch'][0])]
            if m['k'] == 'MemberExpr' and m['m'] in ('started', 'open_regions'):
                return True
    return False


def literal_of(P, fns, registering):
    """compound literals of a whole region: those of a region being created or those of one being reset"""
    out = []
    for f in fns:
        for i, n in f.nodes.items():
            if n['k'] != 'CompoundLiteralExpr' or f.types[n['t']].get('r') != MONITOR:
                continue
            il = [y for y in walk(f, i) if f.nodes[y]['k'] == 'InitListExpr']
            if not il:
                continue
            fields = {}
            own = False
            for fd, ch in zip(P.record(MONITOR)['fields'], f.nodes[il[0]]['ch']):
                sub = [ch] + list(walk(f, ch))
                zero = f.nodes[ch]['k'] == 'ImplicitValueInitExpr' or f.nodes[ch].get('v') == 0
                fields[fd['n']] = not zero
                if any(f.nodes[y]['k'] == 'MemberExpr' and f.nodes[y].get('r') in nested(P, MONITOR) for y in sub):
                    own = True
            if own != registering:
                out.append((f, fields, '%s:%s (%s)' % (f.file.replace('/repo/', ''), n.get('l'), f.name)))
    return out


Smp = namedtuple('Smp', 'upd every array own disabled agg seen')
SMP0 = Smp(frozenset(), False, False, None, frozenset(), False, frozenset())


class StateRule(Rule):
    """accounting before each change of state"""
    def __init__(self, P, inl, every, array):
        self.P, self.inl, self.every, self.array = P, set(inl), set(every), set(array)
        self.bad, self.n, self.exits, self.regions, self.good = [], 0, [], [], set()

    def initial(self, E):
        return SMP0

    def inline(self, E, fid):
        return fid in self.inl

    def on_call(self, E, st, fid, args, node, fr):
        if fid in self.every:
            st.r = st.r._replace(every=True, agg=True)
        elif fid in self.array:
            st.r = st.r._replace(array=True)
        elif fid in LIST_INS or fid in LIST_REM:
            self.regions.append((fid, E.where(node, fr), st.r.agg, fr.fn.name))
        return None

    def on_load(self, E, st, loc, val, node, fr):
        if loc[0] == 'f' and loc[2] == 'state' and bare(loc[3]) == SAMPLE and val[0] in ('s', 'c'):
            st.r = st.r._replace(seen=st.r.seen | {(loc[1], val)})

    def on_store(self, E, st, loc, v, node, fr):
        if v and v[0] == 'obj':         # a sample is set up
            st.r = st.r._replace(upd=st.r.upd | {loc}, disabled=st.r.disabled | {loc})
            return
        if loc[0] != 'f' or bare(loc[3]) != SAMPLE:
            return
        o = loc[1]
        if loc[2] == 'last_updated_timestamp':
            st.r = st.r._replace(upd=st.r.upd | {o})
        elif loc[2] == 'state':
            self.n += 1
            if o[0] == 'd' and E.known(st, o[1]) is False:
                return                  # there is no sample
            worker = o[0] == 'd' and o[1][0] == 's' and o[1][1] in ('ld', 'uns') and not (o[1][2] and root_of(o[1][2])[0] in ('g', 'v'))
            if root_of(o)[0] == 'v':
                return                  # an initialiser
            z = self.P.enumconst['disabled']
            dis = any(val == ('c', z) or val[0] != 'c' and E.known(st, ('cmp', '==', val, ('c', z))) is True for ob, val in st.r.seen if ob == o)
            w = E.where(node, fr)
            if o in st.r.upd or st.r.every or st.r.array and worker or dis:
                self.good.add(w)
            else:
                self.bad.append((w, fr.fn.name, worker))
            st.r = st.r._replace(upd=st.r.upd - {o}, seen=frozenset(x for x in st.r.seen if x[0] != o), disabled=st.r.disabled - {o}, own=st.r.own if worker or o in st.r.disabled else (v[1] if v[0] == 'c' else 'other'))

    def on_leave(self, E, st, fn, v, fr):
        if fr.up is None:
            self.exits.append(st.r)


# the state each event leaves the thread in
AFTER = {'talp_into_sync_call': {'not_useful_mpi'}, 'talp_out_of_sync_call': {'useful'}, 'talp_openmp_thread_begin': {'not_useful_omp_out'},
         'talp_openmp_thread_end': {'disabled'}, 'talp_openmp_parallel_end': {'useful'}, 'talp_openmp_into_parallel_function': {'useful'},
         'talp_openmp_into_parallel_implicit_barrier': {'not_useful_omp_in'}, 'talp_openmp_into_parallel_sync': {'not_useful_omp_in'},
         'talp_openmp_outof_parallel_sync': {'useful'}, 'talp_openmp_task_complete': {'not_useful_omp_in'}, 'talp_openmp_task_switch': {'useful'},
         'talp_openmp_init': {'useful'}, 'talp_mpi_init': {'useful'}, 'talp_openmp_task_create': set(), 'talp_openmp_parallel_begin': set()}


class ChargeRule(Rule):
    """one update of a sample in a given state"""
    def __init__(self, P, inl, value):
        self.P, self.inl, self.value = P, set(inl), value
        self.adds, self.stamps = [], []

    def inline(self, E, fid):
        return fid in self.inl

    def initial(self, E):
        return (0, 0)

    def on_load(self, E, st, loc, val, node, fr):
        if loc[0] == 'f' and loc[2] == 'state' and bare(loc[3]) == SAMPLE:
            return ('c', self.value)

    def on_store(self, E, st, loc, v, node, fr):
        if loc[0] != 'f':
            return
        if v and v[0] == 'atomic':
            b, n, r = member(loc)
            if r in self.timers:
                self.adds.append((n, v[1], v[2], E.where(node, fr)))
                st.r = (min(st.r[0] + 1, 2), st.r[1])
        elif loc[2] == 'last_updated_timestamp':
            self.stamps.append((v, E.where(node, fr)))
            st.r = (st.r[0], min(st.r[1] + 1, 2))

    def on_leave(self, E, st, fn, v, fr):
        if fr.up is None:
            self.ends.append((st.r, any(E.known(st, ('s', 'P', p['n'] or str(i))) is False for i, p in enumerate(fn.params))))


def check_c26(rep, progs, ex):
    from procs import reach
    rep.rule('(1) the update of a sample is run for each state: the time since the last update is added once, to the timer of that state, and the time of the update is '
             'recorded; (2) on every path of every entry point a store to a sample\'s state follows an update of that sample; (3) regions enter and leave the open regions only '
             'after all samples were collected; (4) each event leaves the thread in the state that event means.')
    for cfg, P in progs.items():
        fns = talp_core(P)
        agg = builders_of(P, fns)
        array = {g for g in agg if any(P.fns[g].types[p['t']]['k'] == 'ptr' and P.fns[g].types[P.fns[g].types[p['t']]['p']]['k'] == 'ptr' for p in P.fns[g].params)}
        every = agg - array
        timers = {x['ty']['r'] for x in P.record(SAMPLE)['fields'] if x['n'] == 'timers'}
        tnames = {x['n'] for r in timers for x in P.record(r)['fields']}
        states = [(n, v) for e in P.enums.values() for n, v in e['consts'] if any(x == 'not_useful_mpi' for x, _ in e['consts'])]
        states = sorted(set(states))
        # ---- (1)
        ups = []
        for f in fns:
            direct = {f.nodes[strip(f, n['ch'][0])]['m'] for n in f.nodes.values() if n['k'] == 'BinaryOperator' and n['op'] == '=' and f.nodes[strip(f, n['ch'][0])]['k'] == 'MemberExpr'}
            if 'last_updated_timestamp' in direct:
                ups.append(f)
        for f in ups:
            for name, val in states:
                R = ChargeRule(P, {g for g in stat_inl(P, f, 200) if P.fns[g].file == f.file}, val)
                R.timers, R.ends = timers, []
                E = DivEngine(P, R, maxstates=100)
                E.run(f)
                rep.analysed(E.covered)
                rep.count('charge', '%s %s' % (f.name, name))
                got = {n for n, *_ in R.adds}
                want = {name} if name in tnames else set()
                if got - want:
                    rep.v('charge:%s' % name, R.adds[0][3], 'time spent in state %s is charged to %s' % (name, ', '.join(sorted(got - want))))
                elif want - got:
                    rep.v('charge:%s' % name, f.name, 'time spent in state %s is not charged' % name)
                for n, op, v, w in R.adds:
                    if 'add' not in op:
                        rep.v('charge-op:%s' % name, w, 'the time spent in state %s replaces the accumulated one' % name)
                for (adds, stamps), absent in R.ends:
                    if not stamps and not adds and not absent:
                        rep.v('charge-stamp:%s' % name, f.name, 'on some path the time of the update is not recorded')
                    if stamps > 1 or adds > 1:
                        rep.v('charge-twice:%s' % name, f.name, 'on some path one update charges the time twice')
                    if stamps == 0 and adds or stamps and not adds and want:
                        rep.v('charge-stamp:%s' % name, f.name, 'on some path the time is %s' % ('charged but the time of the update is not recorded' if adds else 'not charged although the time of the update is recorded'))
                for n, op, v, w in R.adds:
                    new = v[3] if v[0] == 'op' and v[1] == '+' and op == 'x' else v
                    ok = any(t[0] == 'op' and t[1] == '-' and any(x[1] == 'last_updated_timestamp' for x in loads(t[3])) and
                             all(t[2] == s for s, _ in R.stamps) for t in subterms(v))
                    if not ok:
                        rep.v('interval:%s' % name, w, 'the time charged is not the one between the last update and the new one')
        # ---- (2) (3) (4)
        credit = reach(P, every)
        for f in sorted(fns, key=lambda x: x.id):
            if f.static or f.id in agg:
                continue
            inl = {g for g in stat_inl(P, f, 300) if P.fns[g].file == f.file and g not in agg}
            touched = {f.id} | inl
            if not any(n['k'] == 'MemberExpr' and (n['m'] == 'state' and bare(n.get('r')) == SAMPLE or n['m'] == 'open_regions') for g in touched for n in P.fns[g].nodes.values()):
                continue
            R = StateRule(P, inl, every | {g for g in credit if g not in inl and g != f.id}, array)
            E = Engine(P, R, maxstates=400)
            E.run(f)
            rep.analysed(E.covered)
            if R.n:
                rep.count('state_change', f.name)
            for w, g, worker in R.bad:
                if worker and w in R.good:
                    continue            # a team without parallel level has no workers
                rep.v('unaccounted:%s' % f.name, w, 'the state changes without the time spent in the previous one having been charged (entry point %s)' % f.name)
            for fid, w, a, g in R.regions:
                rep.count('region_change', '%s %s' % (f.name, fid))
                if not a and any(c.endswith('elapsed_time') or c == 'start_time' for c in member_stores(P, touched)):
                    rep.v('uncollected:%s:%s' % (f.name, fid), w, 'the set of open regions changes before the samples of all threads were collected')
            if f.name in AFTER:
                rep.count('event', f.name)
                names_ = {dict((v, n) for n, v in states).get(r.own, r.own) for r in R.exits if r.own is not None}
                if names_ - AFTER[f.name]:
                    rep.v('event:%s' % f.name, f.name, 'the event can leave the thread in state %s' % ', '.join(sorted(str(x) for x in names_ - AFTER[f.name])))
                elif AFTER[f.name] and not names_:
                    rep.v('event:%s' % f.name, f.name, 'the event never changes the state of the thread')
    rep.need('charge', 4)
    rep.need('state_change', 5)
    rep.need('region_change', 2)


def member_stores(P, fids):
    out = set()
    MON = nested(P, MONITOR)
    for g in fids:
        f = P.fns[g]
        for n in f.nodes.values():
            if n['k'] in ('BinaryOperator', 'CompoundAssignOperator') and n['op'] in ('=', '+='):
                m = f.nodes[strip(f, n['ch'][0])]
                if m['k'] == 'MemberExpr' and m.get('r') in MON:
                    out.add(m['m'])
    return out


def subterms(v):
    yield v
    if v[0] in ('op', 'cmp'):
        for x in v[2:]:
            if isinstance(x, tuple):
                yield from subterms(x)
