"""Interception of MPI (C29)."""
import re
from flow import *
from names import *
from program import strip, walk

# routines whose kind the MPI standard fixes (only those the property is about: the rest may be classified freely)
BLOCKING = set('''Send Bsend Ssend Rsend Recv Sendrecv Sendrecv_replace Wait Waitall Waitany Waitsome Barrier Bcast Gather Gatherv Scatter Scatterv
    Allgather Allgatherv Alltoall Alltoallv Alltoallw Reduce Allreduce Reduce_scatter Reduce_scatter_block Scan Exscan'''.split())
COLL = set('''Barrier Bcast Gather Gatherv Scatter Scatterv Allgather Allgatherv Alltoall Alltoallv Alltoallw Reduce Allreduce Reduce_scatter
    Reduce_scatter_block Scan Exscan'''.split())
NONBLOCKING = {'I' + x[0].lower() + x[1:] for x in BLOCKING if not x.startswith('Wait')} | \
    set('Irecv Isend Ibsend Issend Irsend Iprobe Improbe Imrecv Test Testall Testany Testsome Start Startall Send_init Bsend_init Ssend_init Rsend_init Recv_init'.split())
POINT = set('Send Bsend Ssend Rsend Recv Sendrecv Sendrecv_replace Wait Waitall Waitany Waitsome'.split())


class WrapRule(Rule):
    def __init__(self, P, real, enter, leave):
        self.P, self.real, self.enter, self.leave = P, real, enter, leave
        self.mine = {real, enter, leave}

    def initial(self, E):
        return ()

    def inline(self, E, fid):
        return self.P.fns[fid].static

    def on_call(self, E, st, fid, args, node, fr):
        if fid in self.mine or fid in self.P.fns and self.P.fns[fid].name in self.mine or re.match(r'(?i)p?mpi_', fid) or re.match(r'DLB_MPI_\w+_(enter|leave)$', fid):
            st.r = st.r + ((fid, tuple(args)),)
        return None


class EnterRule(Rule):
    """calls made by the entry/exit functions"""
    def __init__(self, P):
        self.P = P

    def initial(self, E):
        return ()

    def inline(self, E, fid):
        return self.P.fns[fid].static

    def on_call(self, E, st, fid, args, node, fr):
        if fid in self.P.fns and not self.inline(E, fid) and not self.P.fns[fid].file.endswith(('support/debug.c', 'support/tracing.c')):
            n = fr.fn.nodes[node]
            names = tuple(sorted({fr.fn.nodes[y]['d']['n'] for a in n['ch'][1:] for y in walk(fr.fn, a)
                                  if fr.fn.nodes[y]['k'] == 'DeclRefExpr' and fr.fn.nodes[y]['d']['k'] == 'enum'}))
            if ('call', fid, tuple(args), names) not in st.r:
                st.r = st.r + (('call', fid, tuple(args), names),)
        return None


def flag_args(E, st, args, rec, fields):
    for a in args:
        if a[0] == 'obj':
            return tuple(st.mem.get(('f', a[1], f, rec), ('s', '?', f)) for f in fields)
    return None


class FlagRule(Rule):
    def __init__(self, P, takers, rec, fields, inl):
        self.P, self.takers, self.rec, self.fields, self.inl = P, takers, rec, fields, inl

    def initial(self, E):
        return ()

    def inline(self, E, fid):
        return fid in self.inl

    def on_call(self, E, st, fid, args, node, fr):
        if fid in self.takers:
            st.r = st.r + ((fid, flag_args(E, st, args, self.rec, self.fields), E.where(node, fr)),)
        return None


class SyncRule(Rule):
    def __init__(self, P, inl):
        self.P, self.inl = P, inl

    def initial(self, E):
        return frozenset()

    def inline(self, E, fid):
        return fid in self.inl

    def on_call(self, E, st, fid, args, node, fr):
        if fid in self.P.fns and not self.inline(E, fid) and not self.P.fns[fid].file.endswith(('support/debug.c', 'support/tracing.c')):
            k, b = into_kind(fid)
            c = ','.join(str(a[1]) if is_c(a) else '_' for a in args)
            st.r = st.r | {(k, '%s(%s)' % (b, c))}
        return None

    def on_indirect(self, E, st, target, args, node, fr):
        if target and target[0] == 's' and target[1] == 'ld' and target[2] and target[2][0] == 'f':
            st.r = st.r | {into_kind('->' + target[2][2])}
        return None


def into_kind(n):
    n = n.split('@')[0]
    n2 = re.sub(r'out_?of_', 'OUT_', n)
    if n2 != n:
        return 'out', n2.replace('OUT_', '*')
    n2 = re.sub(r'into_', 'IN_', n)
    if n2 != n:
        return 'into', n2.replace('IN_', '*')
    return None, n


# ------------------------------------------------------------------------------------------------------------------ data types
PRE = {'int': ('int', 4), 'char': ('int', 1), 'signed_char': ('int', 1), 'unsigned_char': ('int', 1), 'byte': ('any', 1), 'short': ('int', 2),
       'unsigned': ('int', 4), 'long': ('int', 8), 'unsigned_long': ('int', 8), 'long_long_int': ('int', 8), 'unsigned_long_long': ('int', 8),
       'float': ('fp', 4), 'double': ('fp', 8), 'c_bool': ('bool', 1), 'cxx_bool': ('bool', 1), 'int8_t': ('int', 1), 'int16_t': ('int', 2), 'int32_t': ('int', 4),
       'int64_t': ('int', 8), 'uint8_t': ('int', 1), 'uint16_t': ('int', 2), 'uint32_t': ('int', 4), 'uint64_t': ('int', 8)}


def var_of(f, i):
    x = f.nodes[strip(f, i)]
    while x['k'] in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr') or x['k'] == 'UnaryOperator' and x.get('op') == '&':
        x = f.nodes[strip(f, x['ch'][0])]
    return x['d'] if x['k'] == 'DeclRefExpr' else None


class Types:
    """what each MPI_Datatype variable stands for, from its definitions"""
    def __init__(self, P):
        self.P = P
        self.defs = {}        # (function or None, var id) -> set of descriptions
        self.structs = []     # (function, call node, result var)
        for f in P.fns.values():
            for c in f.calls:
                n = f.nodes[c]
                fn = n.get('fn') or ''
                a = n['ch'][1:]
                if fn.endswith('MPI_Type_match_size') and len(a) == 3:
                    sz = f.nodes[a[1]].get('v')
                    cls = f.nodes[a[0]].get('v')
                    d = var_of(f, a[2])
                    if d and sz:
                        self.add(f, d, ('prim', 'fp' if cls == P.enumconst.get('MPI_TYPECLASS_REAL', -99) else 'int', sz))
                elif fn.endswith('MPI_Type_create_struct') and len(a) == 5:
                    d = var_of(f, a[4])
                    self.structs.append((f, c, d))
                    if d:
                        self.add(f, d, ('struct', f.id, c))
                elif fn.endswith('MPI_Type_create_resized') and len(a) == 4:
                    s, d = var_of(f, a[0]), var_of(f, a[3])
                    if s and d:
                        self.add(f, d, ('resized', (None if s['k'] == 'gvar' else f.id, s['id']), f.nodes[a[1]].get('v'), f.nodes[a[2]].get('v')))
            for i, n in f.nodes.items():
                if n['k'] == 'BinaryOperator' and n['op'] == '=':
                    l = f.nodes[strip(f, n['ch'][0])]
                    if l['k'] == 'DeclRefExpr':
                        r = var_of(f, n['ch'][1])
                        if r and r['n'].startswith('ompi_mpi_'):
                            self.add(f, l['d'], ('prim',) + PRE.get(r['n'][9:], ('?', 0)))

    def add(self, f, d, x):
        self.defs.setdefault((None if d['k'] == 'gvar' else f.id, d['id']), set()).add(x)

    def of(self, f, i):
        d = var_of(f, i)
        if d is None:
            return set()
        if d['n'].startswith('ompi_mpi_'):
            return {('prim',) + PRE.get(d['n'][9:], ('?', 0))}
        return self.resolve((None if d['k'] == 'gvar' else f.id, d['id']), 0)

    def resolve(self, key, depth):
        out = set()
        for x in self.defs.get(key, ()):
            if x[0] == 'resized':
                for y in self.resolve(x[1], depth + 1) if depth < 5 else ():
                    out.add(y[:3] + (x[2], x[3]))
            else:
                out.add(x)
        return out


def init_list(f, i):
    """elements of the constant local array an argument decays from"""
    d = var_of(f, i)
    if not d:
        return None
    for n in f.nodes.values():
        if n['k'] == 'DeclStmt':
            for q in n['decls']:
                if q['id'] == d['id'] and 'init' in q:
                    x = f.nodes[strip(f, q['init'])]
                    if x['k'] == 'InitListExpr':
                        return x['ch']
    return None


def const_of(f, i):
    n = f.nodes[strip(f, i)]
    if 'v' in f.nodes[i]:
        return f.nodes[i]['v']
    if 'v' in n:
        return n['v']
    d = var_of(f, i)
    if d:
        for m in f.nodes.values():
            if m['k'] == 'DeclStmt':
                for q in m['decls']:
                    if q['id'] == d['id'] and 'init' in q and 'v' in f.nodes[q['init']]:
                        return f.nodes[q['init']]['v']
    return None


def offset_node(f, i):
    for y in [i] + list(walk(f, i)):
        if f.nodes[y]['k'] == 'OffsetOfExpr':
            return f.nodes[y]
    return None


def flat_fields(P, R, base=0):
    """fields of a record with those of its anonymous members, with their offset in the record"""
    out = []
    for x in R['fields']:
        if not x['n'] and x['ty']['k'] == 'rec':
            out += flat_fields(P, P.record(x['ty']['r']), base + x['off'])
        else:
            out.append(dict(x, off=base + x['off']))
    return out


def check_types(rep, P):
    T = Types(P)
    recs = {}
    for f, c, d in T.structs:
        rep.analysed([f.id])
        n = f.nodes[c]
        a = n['ch'][1:]
        name = d['n'] if d else '?'
        w = '%s:%s (%s)' % (f.file.replace('/repo/', ''), n.get('l'), f.name)
        cnt, bl, dp, ty = const_of(f, a[0]), init_list(f, a[1]), init_list(f, a[2]), init_list(f, a[3])
        if bl is None or dp is None or ty is None:
            rep.notes.append('a data type of %s is not built from constant tables and is not decided.' % f.name)
            continue
        off = [offset_node(f, x) for x in dp]
        rn = {o['r'] for o in off if o}
        key = '%s' % (sorted(rn)[0].split('@')[0] if rn else f.name)
        rep.count('data_type', '%s %s' % (f.name, key))
        if cnt is not None and not (cnt == len(bl) == len(dp) == len(ty)):
            rep.v('type-count:' + key, w, 'a data type with %s members is built from tables of %d lengths, %d displacements and %d types' % (cnt, len(bl), len(dp), len(ty)))
            continue
        if len(rn) != 1 or not all(off):
            if len(rn) > 1:
                rep.v('type-record:' + key, w, 'the displacements of one data type belong to different records: %s' % sorted(rn))
            continue
        r = rn.pop()
        R = P.record(r)
        recs[(f.id, c)] = r
        seen = {}
        fields = {x['n']: x for x in flat_fields(P, R)}
        for k, o in enumerate(off):
            path = [x for x in o['of'] if x]
            fld = fields.get(path[0]) if path else None
            if fld is None or len(path) > 1:
                continue
            rep.count('data_type_member', '%s.%s' % (key, fld['n']))
            if fld['n'] in seen:
                rep.v('type-twice:%s.%s' % (key, fld['n']), w, 'member %s is sent twice' % fld['n'])
            seen[fld['n']] = k
            ft = fld['ty']
            length = const_of(f, bl[k])
            elem = ft
            if ft['k'] == 'arr':
                elem = ft.get('elem') or (P.rec_types(r)[ft['p']] if hasattr(P, 'rec_types') else None) or ft.get('el')
            for t in T.of(f, ty[k]):
                bad = None
                if t[0] == 'prim' and t[1] != '?':
                    if ft['k'] == 'arr':
                        size = ft.get('size')
                        if size and length is not None and length * t[2] != size:
                            bad = 'array %s has %d bytes, described as %d elements of %d bytes' % (fld['n'], size, length, t[2])
                    else:
                        kind = {'enum': 'int', 'ptr': 'int'}.get(ft['k'], ft['k'])
                        if length is not None and length != 1:
                            bad = 'member %s is described as %d elements' % (fld['n'], length)
                        elif ft.get('size') != t[2] or t[1] not in ('any', kind) and {t[1], kind} != {'int', 'bool'}:
                            bad = 'member %s (%s, %s bytes) is described as %s of %d bytes' % (fld['n'], ft.get('s'), ft.get('size'), {'fp': 'floating point', 'int': 'integer'}.get(t[1], t[1]), t[2])
                elif t[0] == 'struct':
                    sub = recs.get((t[1], t[2]))
                    if sub and ft['k'] == 'rec' and ft['r'] != sub:
                        bad = 'member %s is described as another record' % fld['n']
                    elif ft['k'] not in ('rec', 'arr'):
                        bad = 'member %s (%s) is described as a record' % (fld['n'], ft.get('s'))
                if bad:
                    rep.v('type-member:%s.%s' % (key, fld['n']), w, bad)
        sent = {fields[x]['off'] for x in seen}
        for fn_, fld in fields.items():
            if fld['off'] not in sent:
                rep.v('type-missing:%s.%s' % (key, fn_), w, 'member %s of the record is not part of the data type that describes it' % fn_)
        for kk, ds in T.defs.items():
            for x in ds:
                if x[0] == 'resized' and ('struct', f.id, c) in T.resolve(x[1], 0):
                    if x[2] not in (None, 0) or x[3] is not None and x[3] != R['size']:
                        rep.v('type-extent:' + key, w, 'the extent of the data type is %s, the record has %s bytes' % (x[3], R['size']))
    # buffers sent with these types
    for f in P.fns.values():
        for c in f.calls:
            n = f.nodes[c]
            fn = n.get('fn') or ''
            a = n['ch'][1:]
            if not re.match(r'P?MPI_', fn):
                continue
            pairs = {'Gather': [(0, 2), (3, 5)], 'Allgather': [(0, 2), (3, 5)], 'Reduce': [(0, 3), (1, 3)], 'Allreduce': [(0, 3), (1, 3)],
                     'Bcast': [(0, 2)], 'Send': [(0, 2)], 'Recv': [(0, 2)], 'Scatter': [(0, 2), (3, 5)], 'Allgatherv': [(0, 2), (3, 6)]}.get(fn.split('MPI_')[1])
            if not pairs or re.match(r'(?i)mpi_', f.name):
                continue
            for b, t in pairs:
                if t >= len(a):
                    continue
                x = strip(f, a[b])
                while f.nodes[x]['k'] in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr') and f.nodes[x]['ch']:
                    x = strip(f, f.nodes[x]['ch'][0])
                ty = f.types[f.nodes[x]['t']] if 't' in f.nodes[x] else None
                pt = f.types[ty['p']] if ty and ty['k'] == 'ptr' else None
                if ty and ty['k'] == 'arr':
                    pt = f.types[ty['p']] if 'p' in ty else None
                if pt is None or pt['k'] == 'void':
                    continue
                for d in T.of(f, a[t]):
                    w = '%s:%s (%s)' % (f.file.replace('/repo/', ''), n.get('l'), f.name)
                    rep.count('message', '%s %s' % (f.name, fn))
                    if d[0] == 'struct':
                        r = recs.get((d[1], d[2]))
                        if r and (pt['k'] != 'rec' or pt['r'] != r):
                            rep.v('message:%s:%d' % (f.name, b), w, 'a buffer of %s is sent with the data type of %s' % (pt.get('s'), r.split('@')[0]))
                    elif d[0] == 'prim' and d[1] != '?' and pt['k'] in ('int', 'fp', 'bool', 'enum'):
                        kind = {'enum': 'int'}.get(pt['k'], pt['k'])
                        if pt['size'] != d[2] or d[1] not in ('any', kind):
                            rep.v('message:%s:%d' % (f.name, b), w, 'a buffer of %s is sent as %s of %d bytes' % (pt.get('s'), d[1], d[2]))


def check_c29(rep, progs, ex):
    rep.rule('Every generated wrapper (C and Fortran) is interpreted: on every path it must enter the library, call the real routine of the same name once '
             'with its own parameters in order, leave the library, and return the real result; the entry and exit functions must set the thread\'s process '
             'descriptor and hand the identifier of that very routine to the before/after hooks.  The hooks are interpreted for every routine and every '
             'lending mode: the flags at entry and at exit must be equal and follow the kind of the routine, which must agree with the MPI standard; '
             'the functions that act on the flags must lend and recover under the same conditions.  The tables that build MPI data types are compared '
             'with the records they describe.  No library code outside the wrappers calls the intercepted name.')
    for cfg, P in progs.items():
        cset = sorted({m.group(1) for m in (re.match(r'DLB_(MPI_\w+?)_enter$', x) for x in P.fns) if m and not m.group(1).endswith('_F')})
        if len(cset) < 50:
            rep.count('wrapper', 0)
            rep.need('wrapper', 50)
        hooks = {}
        const_of_routine = {}
        for X in cset:
            for F, real, en, lv in ((X, 'P' + X, 'DLB_%s_enter' % X, 'DLB_%s_leave' % X), (X.lower(), 'p' + X.lower(), 'DLB_%s_F_enter' % X, 'DLB_%s_F_leave' % X)):
                if F not in P.fns:
                    rep.v('wrapper:' + F, F, 'the routine is known to the library but not intercepted under this name')
                    continue
                f = P.fns[F]
                rep.count('wrapper', F)
                own = tuple(('s', 'P', p['n']) for p in f.params)
                R = WrapRule(P, real, en, lv)
                E = Engine(P, R, maxstates=100)
                rep.analysed([F, en, lv])
                for st, v in E.run(f):
                    seq = [e[0] for e in st.r]
                    if seq != [en, real, lv]:
                        rep.v('wrapper:' + F, F, 'the wrapper performs %s, expected %s' % (seq, [en, real, lv]))
                        continue
                    if st.r[1][1] != own:
                        rep.v('wrapper-args:' + F, F, 'the real routine is not called with the parameters of the wrapper in their order')
                    if st.r[0][1] != own:
                        rep.v('wrapper-enter-args:' + F, F, 'the library is not told the parameters of the call')
                    if f.types[f.ret]['k'] != 'void' if isinstance(f.ret, int) else False:
                        if not (v[0] == 's' and v[1] in ('ret', 'uns') and v[2] == real):
                            rep.v('wrapper-result:' + F, F, 'the result of the real routine is not what the wrapper returns')
                # entry / exit functions
                ev = {}
                for side, fn in (('enter', en), ('leave', lv)):
                    g = P.fns.get(fn)
                    if g is None:
                        rep.v('wrapper:' + fn, F, '%s does not exist' % fn)
                        continue
                    R = EnterRule(P)
                    E = Engine(P, R, maxstates=60)
                    for st, v in E.run(g):
                        calls = list(st.r)
                        if side == 'enter':
                            if not calls or calls[0][1] != 'spd_enter_dlb':
                                rep.v('entry:' + fn, fn, 'the entry of an MPI call does not set the descriptor of the process first')
                            calls = [c for c in calls if c[1] != 'spd_enter_dlb']
                        if len(calls) != 1:
                            rep.v('hook:' + fn, fn, 'the %s of an MPI call runs %d hooks, expected one' % (side, len(calls)))
                            continue
                        ev[side] = calls[0]
                if len(ev) == 2:
                    a, b = ev['enter'], ev['leave']
                    short = X[4:]
                    for side, e in ev.items():
                        hooks.setdefault((side, e[1], len(e[2])), set()).add(X)
                        if e[3] and e[3] != (short,):
                            rep.v('hook-id:%s:%s' % (F, side), F, 'the %s hook of %s is given the identifier of %s' % (side, X, ', '.join(e[3])))
                    ha, hb = re.sub('before|enter', '*', a[1]), re.sub('after|leave', '*', b[1])
                    if ha != hb:
                        rep.v('hook-pair:' + F, F, 'entry runs %s, exit runs %s' % (a[1], b[1]))
                    if a[2] != b[2]:
                        rep.v('hook-args:' + F, F, 'entry and exit classify the call differently')
                    if a[2] and is_c(a[2][0]):
                        const_of_routine[short] = (a[1], b[1], a[2][0][1])
        # C and Fortran agree by construction of hooks on X; classification of the routines
        gens = {(a, b) for a, b, _ in const_of_routine.values()}
        takers = {}
        for f in P.fns.values():
            for p in f.params:
                t = f.types[p['t']]
                if t['k'] == 'rec' and {'is_blocking', 'is_collective'} <= {x['n'] for x in P.record(t['r'])['fields']}:
                    takers[f.id] = t['r']
        if not takers:
            rep.need('flag_function', 1)
        rec = sorted(takers.values())[0]
        fields = [x['n'] for x in P.record(rec)['fields']]
        modes = {n: v for n, v in P.enumconst.items() if n.startswith('MPISET_')}
        modeg = [g for g, d in P.globals.items() if d['types'][d['t']]['k'] == 'enum' and
                 set(modes) <= {n for n, _ in P.enums.get(d['types'][d['t']]['e'], {'consts': []})['consts']}]
        result = {}
        for ba, bb in sorted(gens):
            fa, fb = P.fns[ba], P.fns[bb]
            inl = {f.id for f in P.fns.values() if f.static and f.file in (fa.file, fb.file)} | {x for x in P.fns if x.split('@')[0].startswith('is_mpi_')}
            for short, (x, y, v) in sorted(const_of_routine.items()):
                if (x, y) != (ba, bb):
                    continue
                for mn, mv in sorted(modes.items()):
                    key = (ba, bb, v if v not in (const_of_routine.get('Barrier', (0, 0, None))[2],) else ('B', v), mv)
                    if key not in result:
                        sides = []
                        for f in (fa, fb):
                            R = FlagRule(P, takers, rec, fields, inl)
                            E = Engine(P, R, maxstates=100)
                            st = State({('g', g): ('c', mv) for g in modeg}, {}, ())
                            outs = E.run(f, [('c', v)], st)
                            rep.analysed(E.covered)
                            sides.append({(e[0], e[1]) for s, _ in outs for e in s.r} | ({'twice'} if any(len(s.r) > 1 for s, _ in outs) else set()))
                        result[key] = sides
                    sa, sb = result[key]
                    rep.count('classification', '%s/%s' % (short, mn))
                    if 'twice' in sa or 'twice' in sb or len(sa) != 1 or len(sb) != 1:
                        rep.v('flags:%s:%s' % (short, mn), ba, 'MPI_%s is not announced exactly once at entry and at exit' % short)
                        continue
                    (ta, A), (tb, B) = list(sa)[0], list(sb)[0]
                    if (into_kind(ta)[0], into_kind(tb)[0]) != ('into', 'out') or into_kind(ta)[1] != into_kind(tb)[1]:
                        rep.v('flags-function', ba, 'entry calls %s and exit calls %s' % (ta, tb))
                    if A is None or B is None:
                        continue
                    if A != B:
                        rep.v('flags-differ:%s:%s' % (short, mn), bb, 'MPI_%s with %s is announced with %s at entry and %s at exit' % (
                            short, mn, show(fields, A), show(fields, B)))
                    fl = dict(zip(fields, A))
                    isb, isc, lend = fl['is_blocking'] != C0, fl['is_collective'] != C0, fl.get('do_lewi', C0) != C0
                    if fl.get('is_mpi', C1) == C0:
                        rep.v('flags-mpi:%s' % short, ba, 'an MPI call is not announced as such')
                    want = isb and (mn == 'MPISET_ALL' or mn == 'MPISET_BARRIER' and short == 'Barrier' or mn == 'MPISET_COLLECTIVES' and isc)
                    if lend != want:
                        rep.v('flags-lend:%s:%s' % (short, mn), ba, 'MPI_%s with %s %s CPUs' % (short, mn, 'lends' if lend else 'does not lend'))
                    if short in BLOCKING and not isb:
                        rep.v('kind:%s' % short, ba, 'MPI_%s blocks but is treated as non-blocking' % short)
                    if (short in NONBLOCKING) and isb:
                        rep.v('kind:%s' % short, ba, 'MPI_%s does not block but is treated as blocking' % short)
                    if short in COLL and not isc:
                        rep.v('kind-coll:%s' % short, ba, 'MPI_%s is collective but not treated as such' % short)
                    if short in POINT and isc:
                        rep.v('kind-coll:%s' % short, ba, 'MPI_%s is not collective but treated as such' % short)
            # whatever the state of the file's flags, both sides announce the call or neither does
            flags = sorted({n['d']['id'] for f in (fa, fb) for n in f.nodes.values() if n['k'] == 'DeclRefExpr' and n['d']['k'] == 'gvar' and
                            ('G:' + n['d']['id'] in P.globals or n['d']['id'] in P.globals)})
            flags = [g for g in (x if x in P.globals else 'G:' + x for x in flags) if g not in modeg and P.globals[g]['types'][P.globals[g]['t']]['k'] in ('int', 'bool')][:6]
            anyv = sorted(const_of_routine.values())[0][2]
            for bits in range(1 << len(flags)):
                got = []
                for f in (fa, fb):
                    R = FlagRule(P, takers, rec, fields, inl)
                    mem = {('g', g): ('c', mv) for g in modeg for mv in sorted(modes.values())[:1]}
                    mem.update({('g', g): ('c', bits >> k & 1) for k, g in enumerate(flags)})
                    got.append({len(s.r) for s, _ in Engine(P, R, maxstates=100).run(f, [('c', anyv)], State(mem, {}, ()))})
                rep.count('flag_state', '%s %d' % (ba, bits))
                if got[0] != got[1]:
                    rep.v('one-sided:%s' % bb, bb, 'with %s the call is announced %s time(s) at entry and %s at exit' % (
                        ', '.join('%s=%d' % (g.split(':')[-1].split('@')[0], bits >> k & 1) for k, g in enumerate(flags)) or 'no flag', sorted(got[0]), sorted(got[1])))
        # every other pair of announcements (the library's own barrier)
        for f in sorted(P.fns.values(), key=lambda x: x.id):
            called = {f.nodes[c].get('fn') for c in f.calls} & set(takers)
            if f.id in {h for g in gens for h in g} or not called or f.id in takers:
                continue
            R = FlagRule(P, takers, rec, fields, {g.id for g in P.fns.values() if g.static and g.file == f.file and {g.nodes[c].get('fn') for c in g.calls} & set(takers)})
            E = Engine(P, R, maxstates=150)
            for s, _ in E.run(f):
                rep.analysed(E.covered)
                if f.static and len(s.r) == 1:
                    continue
                rep.count('own_blocking_path')
                for k in range(0, len(s.r), 2):
                    pair = s.r[k:k + 2]
                    if len(pair) == 2 and into_kind(pair[0][0])[0] == 'into' and into_kind(pair[1][0])[0] == 'out':
                        if pair[0][1] != pair[1][1]:
                            rep.v('own-flags:' + f.name, pair[1][2], 'a blocking call of the library is announced differently at entry and at exit')
        # the functions that act on the flags
        act = {}
        for t in sorted(takers):
            k, base = into_kind(t)
            if k:
                act.setdefault(base, {})[k] = t
        for base, d in sorted(act.items()):
            if len(d) != 2:
                continue
            sp = ('s', 'P', 'spd')
            spdg = [g for g, q in P.globals.items() if q['types'][q['t']]['k'] == 'ptr' and 'subprocess_descriptor' in q['types'][q['t']].get('s', '')]
            srec = None
            for g in spdg:
                q = P.globals[g]
                srec = q['types'][q['types'][q['t']]['p']].get('r')
            R0 = P.record(srec)
            orec = [x for x in R0['fields'] if x['n'] == 'options'][0]['ty']['r']
            combos = 0
            for lewi in (0, 1):
                for talp in (0, 1):
                    for en in (0, 1):
                        for bits in range(1 << len(fields)):
                            sets = {}
                            for k, t in d.items():
                                f = P.fns[t]
                                mem = {('g', g): ('&', ('d', sp)) for g in spdg}
                                o = ('f', ('d', sp), 'options', srec)
                                mem[('f', o, 'lewi', orec)] = ('c', lewi)
                                mem[('f', o, 'talp', orec)] = ('c', talp)
                                mem[('f', ('d', sp), 'lewi_enabled', srec)] = ('c', en)
                                arg = ('v', 0, f.params[0]['id'])
                                for n, fl in enumerate(fields):
                                    mem[('f', arg, fl, rec)] = ('c', bits >> n & 1)
                                R = SyncRule(P, {g.id for g in P.fns.values() if g.static and g.file == f.file})
                                E = Engine(P, R, maxstates=60)
                                st = State(mem, {('==', sp, C0): False}, frozenset())
                                outs = E.run(f, [('obj', arg)], st)
                                sets[k] = frozenset(frozenset(c[1] for c in s.r) for s, _ in outs)
                                wrong = [c[1] for s, _ in outs for c in s.r if c[0] not in (None, k)]
                                if wrong:
                                    rep.v('act-direction:%s' % f.name, f.name, '%s calls %s' % (f.name, wrong[0]))
                            combos += 1
                            if sets['into'] != sets['out']:
                                rep.v('act:%s' % base, d['out'], 'entry and exit of a blocking call do not act alike (lewi=%d talp=%d enabled=%d, %s): %s / %s' % (
                                    lewi, talp, en, show(fields, [('c', bits >> n & 1) for n in range(len(fields))]),
                                    sorted(map(sorted, sets['into'])), sorted(map(sorted, sets['out']))))
            rep.count('condition', combos)
        # the intercepted names are not called by the library itself
        for f in P.fns.values():
            for c in f.calls:
                fn = f.nodes[c].get('fn') or ''
                if re.match(r'MPI_\w+$', fn) and fn in P.fns and not re.match(r'(?i)mpi_', f.name):
                    rep.v('own-call:%s:%s' % (f.name, fn), '%s:%s (%s)' % (f.file.replace('/repo/', ''), f.nodes[c].get('l'), f.name),
                          'the library calls the intercepted %s, which is counted and handled as a call of the program' % fn)
                elif re.match(r'PMPI_\w+$', fn):
                    rep.count('real_call', '%s %s' % (f.name, fn))
        check_types(rep, P)
    rep.need('wrapper', 100)
    rep.need('classification', 100)
    rep.need('condition', 10)
    rep.need('data_type', 3)


def show(fields, vals):
    return '{' + ', '.join(f for f, v in zip(fields, vals) if v != C0) + '}'
