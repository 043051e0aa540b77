"""Options and their symbolic values (C09, C10), error table (C24)."""
import re
from flow import *
from names import *
from program import strip, walk
from api import rec_of


def const_value(P, g, i):
    """python value of a constant initialiser"""
    class F:
        nodes, types = g['nodes'], g['types']
    n = g['nodes'][i]
    if 'v' in n:
        return n['v']
    j = strip(F, i)
    n = g['nodes'][j]
    if 'v' in n:
        return n['v']
    if n['k'] == 'StringLiteral':
        return n.get('str')
    if n['k'] == 'InitListExpr':
        if n['fields']:
            return {f: const_value(P, g, c) for f, c in zip(n['fields'], n['ch'])}
        return [const_value(P, g, c) for c in n['ch']]
    if n['k'] == 'DeclRefExpr':
        return ('ref', n['d']['id'])
    return None


def const_table(P, gid):
    g = P.globals[gid]
    return const_value(P, g, g['init']) if g.get('init') is not None else None


CMP = {'strcmp', 'strcasecmp', 'strncmp', 'strncasecmp'}


class WordRule(Rule):
    """constant propagation through a parser or a printer of symbolic values"""

    def __init__(self, P, out=None):
        self.P, self.out = P, out
        self.map = []          # (word, value)
        self.default = set()
        self.words = set()

    def initial(self, E):
        return (None, ())

    def inline(self, E, fid):
        f = self.P.fns[fid]
        return not f.file.endswith('/debug.c')

    def text(self, st, v):
        if v[0] == 'str':
            return v[1]
        if v[0] == '&' and v[1][0] == 'e' and v[1][2] == C0 and v[1][1][0] == 'g':
            g = self.P.globals.get(v[1][1][1])
            if g and g.get('init') is not None:
                x = const_table(self.P, v[1][1][1])
                return x if isinstance(x, str) else None
        return None

    def on_call(self, E, st, fid, args, node, fr):
        if fid in CMP or fid == 'strstr':
            lit = self.text(st, args[1])
            if lit is None:
                lit = self.text(st, args[0])
            if lit is None:
                return None
            self.words.add(lit)
            a, b = st.copy(), st.copy()
            a.r = (lit, st.r[1])
            b.r = (None, st.r[1])
            if fid == 'strstr':
                return [(a, ('&', ('g', 'matched'))), (b, C0)]
            return [(a, C0), (b, C1)]
        if fid in ('sprintf', 'snprintf', 'strcpy', 'strcat', 'strncpy'):
            w = [self.text(st, x) for x in args[1:]]
            w = [x for x in w if x is not None and not x.startswith('%')]
            t = st.copy()
            t.r = (st.r[0], st.r[1] + ((args[0] if fid not in ('strcat',) else None, w[-1] if w else None),))
            return [(t, ('s', 'ret', fid, fr.ctx + (node,)))]
        return None

    def on_store(self, E, st, loc, val, node, fr):
        if self.out is not None and loc == self.out:
            n = fr.fn.nodes[node]
            if n['k'] == 'CompoundAssignOperator' and n['op'] == '|=':
                old = st.mem.get(loc)
                if val == old:
                    val = C0
                elif val[0] == 'op' and val[1] == '|':
                    val = val[3] if is_c(val[3]) else val[2]
                elif not (is_c(val) and old == C0):
                    return
            self.map.append((st.r[0], val))
        elif root_of(loc)[0] in ('g', 'd') or loc[0] == 'd':
            if val == C0:
                st.r = (st.r[0], st.r[1] + ((('&', loc), ''),))


def parser_map(P, fn):
    """word -> value stored on success, for a parser (const char *, T *)"""
    ps = fn.params
    out = ('d', ('s', 'P', ps[1]['n']))
    R = WordRule(P, out)
    E = Engine(P, R, unroll=80, maxstates=120)
    outs = E.run(fn)
    m, special = {}, {}
    for w, v in R.map:
        x = None
        if is_c(v):
            x = v[1]
        if w is not None and x is not None:
            m.setdefault(w, set()).add(x)
        elif w is not None:
            m.setdefault(w, set()).add(None)
    return m, R.words


def printer(P, fn, value):
    """(words printed or None, stale?) for a constant value"""
    R = WordRule(P)
    E = Engine(P, R, unroll=80, maxstates=200)
    outs = E.run(fn, [('c', value)])
    res = []
    for s, v in outs:
        if v is None:
            continue
        t = R.text(s, v) if v[0] == 'str' else None
        if t is None and v[0] == 's' and v[1] in ('ld',):
            t = None
        if t is not None:
            res.append(((t,), False))
            continue
        loc = v[1] if v[0] == '&' else None
        words = tuple(w for d, w in s.r[1] if w)
        base = root_of(loc) if loc is not None else None
        static = base is not None and base[0] == 'g'
        fresh = any(d is not None and d[0] == '&' and root_of(d[1]) == base for d, w in s.r[1])
        res.append((words, static and not fresh))
    return res


def enum_of(ty):
    c = ty.get('c', '')
    return c.replace('const ', '').replace('enum ', '').strip()


class Kinds:
    """per option type: how it is set, printed, compared and copied"""

    def __init__(self, P):
        self.P = P
        names = [n for n, e in P.enums.items() if any(c[0] == 'OPT_BOOL_T' for c in e['consts'])]
        if not names:
            raise AnalysisError('enumeration of option types not found')
        self.types = {b: a for a, b in P.enums[names[0]]['consts']}
        ename = names[0]
        self.opt = rec_of(P, ('lewi', 'drom', 'shm_key'))
        dic = [k for k, g in P.globals.items() if g.get('init') is not None and isinstance(const_value(P, g, g['init']), list)
               and const_value(P, g, g['init']) and isinstance(const_value(P, g, g['init'])[0], dict)
               and {'arg_name', 'offset', 'type'} <= set(const_value(P, g, g['init'])[0])] if False else \
            [k for k in P.globals if k.startswith('G:options_dictionary')]
        if not dic:
            dic = []
            for k, g in P.globals.items():
                t = g['types'][g['t']]
                if t.get('k') == 'arr':
                    e = g['types'][t['p']]
                    r = P.records.get(e.get('r'))
                    if r and {'arg_name', 'offset', 'type'} <= {f['n'] for f in r['fields']}:
                        dic.append(k)
        if not dic:
            raise AnalysisError('table of options not found')
        self.dic = dic[0]
        g = P.globals[self.dic]
        self.entry = g['types'][g['types'][g['t']]['p']].get('r')
        self.entries = const_table(P, self.dic)
        self.roles = {}
        for f in P.fns.values():
            et = [i for i, p in enumerate(f.params) if enum_of(f.types[p['t']]) == ename]
            if not et:
                continue
            rt = f.types[f.ret] if f.ret is not None else {}
            others = [p for i, p in enumerate(f.params) if i != et[0]]
            ptr = [f.types[f.types[p['t']]['p']].get('c', '') if f.types[p['t']].get('k') == 'ptr' else '' for p in others]
            role = None
            if len(others) == 2 and rt.get('k') == 'int' and any(x == 'void' for x in ptr):
                role = 'set'
            elif len(others) == 1 and rt.get('k') == 'ptr':
                role = 'get'
            elif len(others) == 2 and rt.get('k') == 'bool':
                role = 'equal'
            elif len(others) == 2 and rt.get('c') == 'void':
                role = 'copy'
            if role:
                self.roles[role] = (f, et[0])
        for r in ('set', 'get', 'equal', 'copy'):
            if r not in self.roles:
                raise AnalysisError('the %s function of option values was not found' % r)


class CallsRule(Rule):
    def __init__(self, P, inline=()):
        self.P, self.calls, self.inl = P, [], inline

    def inline(self, E, fid):
        return fid in self.inl

    def on_call(self, E, st, fid, args, node, fr):
        f = self.P.fns.get(fid)
        if f is not None and f.file.endswith('/debug.c'):
            return [(st, C0)]
        self.calls.append((fid, tuple(args), E.where(node, fr), node, fr.fn))
        return None


def pointee(fn, i):
    t = fn.types[fn.params[i]['t']]
    return fn.types[t['p']] if t.get('k') == 'ptr' else None


def check_c09(rep, progs, ex):
    rep.rule('The option table is read from the initialiser: names are distinct, each entry\'s type is the type of the record field at its offset, '
             'entries of one field are aliases (all but one deprecated), each default is a value its parser accepts.  The set, get, compare and copy '
             'functions are interpreted for every option type: each must use the parser, printer and size of that same type, the comparison must '
             'parse both strings with that parser and compare the results.  Every use of them must take type and offset from the same entry, and '
             'options_set_variable must return DLB_ERR_PERM without storing for a read-only entry.')
    for cfg, P in progs.items():
        K = Kinds(P)
        opt = P.record(K.opt)
        byoff = {f['off'] // 8: f for f in opt['fields']}
        RO, DEP, UNUSED = P.const('OPT_READONLY'), P.const('OPT_DEPRECATED'), P.const('OPT_UNUSED')
        tname = {}
        parse = {}
        where = 'src/support/options.c'
        # ---- per type
        for t, tn in sorted(K.types.items()):
            used = [e for e in K.entries if e['type'] == t]
            rep.count('option_type', tn)
            got = {}
            for role in ('set', 'get', 'equal', 'copy'):
                f, ei = K.roles[role]
                rep.analysed([f.id])
                R = CallsRule(P)
                args = [('s', 'P', p['n']) for p in f.params]
                args[ei] = ('c', t)
                outs = Engine(P, R).run(f, args)
                got[role] = (f, [a for i, a in enumerate(args) if i != ei], R.calls, outs)
            f, a, calls, outs = got['set']
            pc = [c for c in calls if c[0] in P.fns]
            T = None
            if not outs:
                rep.v('type:%s:set' % tn, f.name, 'type %s is not handled when an option is stored' % tn)
                continue
            if len(pc) == 1:
                q = P.fns[pc[0][0]]
                if set(pc[0][1]) != set(a):
                    rep.v('type:%s:setargs' % tn, pc[0][2], '%s is not called with the option and its text' % q.name)
                opts = [i for i, x in enumerate(pc[0][1]) if x == a[0]]
                if opts and opts[0] < len(q.params):
                    T = pointee(q, opts[0])
                    if T is not None and T.get('c') not in ('void',):
                        parse[t] = q
                        tname[t] = (T.get('c'), T.get('size'))
            elif pc:
                rep.v('type:%s:set' % tn, f.name, 'type %s is stored by several parsers' % tn)
            if t in parse and tname[t][0] != 'cpu_set_t':
                for s, v in outs:
                    if not (v is not None and v[0] == 's' and v[1] == 'ret' and v[2] == parse[t].id):
                        rt = parse[t].types[parse[t].ret] if parse[t].ret is not None else {}
                        if rt.get('k') == 'int':
                            rep.v('type:%s:code' % tn, f.name, 'the result of %s is not returned for type %s' % (parse[t].name, tn))
            # printing
            f, a, calls, outs = got['get']
            pc = [c for c in calls if c[0] in P.fns]
            if not outs:
                rep.v('type:%s:get' % tn, f.name, 'type %s is not handled when an option is printed' % tn)
            if t in tname and pc:
                q = P.fns[pc[0][0]]
                pt = q.types[q.params[0]['t']]
                if pt.get('k') == 'ptr':
                    pt = q.types[pt['p']]
                if pt.get('c', '').replace('const ', '') != tname[t][0].replace('const ', ''):
                    rep.v('type:%s:getter' % tn, pc[0][2], 'type %s (%s) is printed with %s, for %s' % (tn, tname[t][0], q.name, pt.get('c')))
            # equality
            f, a, calls, outs = got['equal']
            pc = [c for c in calls if c[0] in P.fns]
            if not outs:
                rep.v('type:%s:equal' % tn, f.name, 'type %s is not handled when options are compared' % tn)
            if pc:
                q = P.fns[pc[0][0]]
                if set(pc[0][1]) != set(a):
                    rep.v('type:%s:equalargs' % tn, pc[0][2], '%s does not compare the two texts' % q.name)
                if t in parse:
                    inner = [c for c in P.callees(q) if c in P.fns]
                    if parse[t].id not in P.reach([q.id]):
                        rep.v('type:%s:equal' % tn, pc[0][2], 'type %s is compared with %s, which does not use %s' % (tn, q.name, parse[t].name))
                    else:
                        check_equal(rep, P, q, parse[t], tn)
            elif t in parse or any(e['type'] == t for e in K.entries):
                sc = [c for c in calls if c[0] in ('strcmp', 'strcasecmp')]
                if sc and set(sc[0][1]) != set(a):
                    rep.v('type:%s:equal' % tn, sc[0][2], 'values of type %s are compared through (%s, %s) instead of the two texts'
                          % (tn, val_name(sc[0][1][0]), val_name(sc[0][1][1])))
                if not sc and t in parse:
                    rep.v('type:%s:equal' % tn, f.name, 'values of type %s are not compared' % tn)
            # copying
            f, a, calls, outs = got['copy']
            mc = [c for c in calls if c[0] in ('memcpy', '__builtin_memcpy', 'memmove')]
            if mc and t in tname:
                n = mc[0][1][2]
                want = tname[t][1]
                if tname[t][0] == 'char':
                    want = None
                if want and is_c(n) and n[1] != want:
                    rep.v('type:%s:copy' % tn, mc[0][2], 'copying a value of type %s moves %d bytes of %d' % (tn, n[1], want))
        # ---- entries
        names, fields = {}, {}
        for e in K.entries:
            nm = e['arg_name']
            rep.count('option', nm)
            if nm in names:
                rep.v('name:' + nm, where, 'two options are called %s' % nm)
            names[nm] = e
            if e['flags'] & UNUSED:
                continue
            f = byoff.get(e['offset'])
            tn = K.types.get(e['type'])
            if f is None:
                rep.v('offset:' + nm, where, '%s is stored at an offset that is no field' % nm)
                continue
            ft = f['ty']
            want = tname.get(e['type'])
            fc = ft.get('c', '').replace('const ', '')
            ok = True
            if want and want[0] not in ('void',):
                ok = fc == want[0].replace('const ', '') or (tn == 'OPT_MASK_T' and 'cpu_set' in fc)
            elif tn == 'OPT_STR_T':
                ok = ft.get('k') == 'arr' and ft.get('size', 0) >= 64
            elif tn == 'OPT_PTR_PATH_T':
                ok = ft.get('k') == 'ptr'
            if not ok:
                rep.v('field:' + nm, where, 'option %s of type %s is stored in field %s of type %s' % (nm, tn, f['n'], fc))
            fields.setdefault(f['n'], []).append(e)
            # default
            d = e['default_value']
            if e['type'] in parse:
                q = parse[e['type']]
                if ft.get('k') == 'int' and ft.get('c') == 'int':
                    if not re.match(r'^-?(0x[0-9a-f]+|\d+)$', d, re.I):
                        rep.v('default:' + nm, where, 'default %r of %s is no number' % (d, nm))
                elif 'cpu_set' not in tname[e['type']][0]:
                    m, words = parser_map(P, q)
                    bad = [w for w in d.split(':') if w and w not in words]
                    if bad:
                        rep.v('default:' + nm, where, 'default %r of %s is not accepted by %s' % (d, nm, q.name))
                    if not words:
                        raise AnalysisError('no words found in parser ' + q.name)
                rep.count('default', nm)
            if len(nm) >= 64 or len(d) >= 64:
                rep.v('length:' + nm, where, 'name or default of %s does not fit' % nm)
        for fn_, es in fields.items():
            main = [e for e in es if not e['flags'] & DEP]
            if len(main) > 1:
                rep.v('shared:' + fn_, where, 'options %s all store into %s' % (', '.join(e['arg_name'] for e in main), fn_))
            if len(es) > 1 and main:
                for e in es:
                    if e['flags'] & DEP and K.entries.index(e) < K.entries.index(main[0]):
                        rep.v('order:' + e['arg_name'], where, 'deprecated alias %s is set before the default of %s overwrites it' % (e['arg_name'], main[0]['arg_name']))
        for f in opt['fields']:
            rep.count('field', f['n'])
            if f['n'] not in fields:
                rep.v('unset:' + f['n'], where, 'settings field %s is set by no option' % f['n'])
        # ---- read-only and same entry
        setv = P.fn('options_set_variable')

        class Perm(Rule):
            def __init__(self):
                self.n = 0

            def inline(self, E, fid):
                return P.fns[fid].static and P.fns[fid].file == setv.file

            def on_call(self, E, st, fid, args, node, fr):
                f = P.fns.get(fid)
                if f is None or f.file.endswith('/debug.c'):
                    return None
                if any(mentions(a, lambda y: y == ('s', 'P', setv.params[0]['n'])) for a in args):
                    self.n += 1
                    rep.count('guarded_set', fid)
                    ok = False
                    for (op, a, b), v in st.facts.items():
                        if op == '==' and b == C0 and a[0] == 'op' and a[1] == '&' and v and (a[3] == ('c', RO) or a[2] == ('c', RO)):
                            ok = True
                    if not ok:
                        rep.v('readonly:set', E.where(node, fr), '%s stores an option without knowing that it is not read-only' % setv.name)
                return None
        R = Perm()
        E = Engine(P, R)
        outs = E.run(setv)
        codes = returns_(outs)
        if P.const('DLB_ERR_PERM') not in codes:
            rep.v('readonly:code', setv.name, '%s never returns the permission error' % setv.name)
        for s, v in outs:
            ro = [x for (op, a, b), x in s.facts.items() if op == '==' and b == C0 and a[0] == 'op' and a[1] == '&' and ('c', RO) in a]
            if ro and ro[0] is False and v != ('c', P.const('DLB_ERR_PERM')):
                rep.v('readonly:path', setv.name, '%s does not return the permission error for a read-only option' % setv.name)
        roleids = {f.id: (r, ei) for r, (f, ei) in K.roles.items()}

        class Same(Rule):
            def inline(self, E, fid):
                f = P.fns[fid]
                return f.static and f.file == setv.file and fid not in roleids and any(c in roleids for c in P.reach([fid]))

            def on_call(self, E, st, fid, args, node, fr):
                if fid not in roleids:
                    return None
                role, ei = roleids[fid]
                t = args[ei]
                rep.count('use', '%s %s' % (fr.fn.name, fid))
                o = val_origin(t)
                if o is None or o[0] != 'f' or o[2] != 'type':
                    if not is_c(t):
                        rep.v('use:%s:%s' % (fr.fn.name, role), E.where(node, fr), 'the type passed to %s is not that of an entry' % fid)
                    return None
                ent = o[1]
                for i, a in enumerate(args):
                    offs = set()
                    st_ = [a]
                    while st_:
                        x = st_.pop()
                        if isinstance(x, tuple):
                            if x and x[0] == 'f' and len(x) == 4 and x[3] == K.entry and x[2] in ('offset', 'default_value'):
                                offs.add(x)
                            else:
                                st_.extend(y for y in x if isinstance(y, tuple))
                    for x in offs:
                        if x[1] != ent:
                            rep.v('use:%s:%s' % (fr.fn.name, role), E.where(node, fr), '%s is given the type of one entry and the place of another' % fid)
                return None
        for f in P.fns.values():
            if f.file == setv.file and (not f.static) and any(c in roleids for c in P.reach([f.id])):
                rep.analysed([f.id])
                Engine(P, Same(), maxstates=40).run(f)
    rep.need('option', 20)
    rep.need('option_type', 10)
    rep.need('use', 4)
    rep.need('guarded_set', 1)


def returns_(outs):
    return {v[1] for s, v in outs if v is not None and v[0] == 'c'}


def check_equal(rep, P, q, parser, tn):
    """q(str1, str2) parses each text into its own variable and compares the two"""
    R = CallsRule(P)
    seen = []
    compared = []

    class X(Rule):
        def inline(self, E, fid):
            return fid != parser.id

        def on_call(self, E, st, fid, args, node, fr):
            if fid == parser.id:
                seen.append((args[0], args[1]))
                t = st.copy()
                l = deref(args[1])
                E.havoc_under(t, l)
                t.mem[l] = ('s', 'P', 'parsed ' + val_name(args[0]))
                return [(t, ('s', 'ret', fid, fr.ctx + (node,)))]
            if len(args) >= 2 and len(seen) >= 2 and {args[0], args[1]} <= {o for s, o in seen} \
                    and args[0] != args[1]:
                compared.append(1)      # a library comparison of the two parsed variables
            return None
    outs = Engine(P, X()).run(q)
    rep.count('comparison', q.name)
    strs = {('s', 'P', p['n']) for p in q.params}
    if {s for s, o in seen} != strs:
        rep.v('equal:%s:texts' % tn, q.name, '%s does not parse both texts' % q.name)
        return
    if len({o for s, o in seen}) < 2:
        rep.v('equal:%s:place' % tn, q.name, '%s parses both texts into the same variable' % q.name)
        return
    p1, p2 = [('s', 'P', 'parsed ' + val_name(('s', 'P', p['n']))) for p in q.params]

    def has(v):
        st = [v]
        while st:
            x = st.pop()
            if isinstance(x, tuple):
                if x and x[0] == 'cmp' and x[1] == '==' and {x[2], x[3]} == {p1, p2}:
                    return True
                st.extend(y for y in x if isinstance(y, tuple))
        return False
    # some path returns the comparison, or true only under it
    ok = bool(compared)
    for s, v in outs:
        if v is None:
            continue
        if has(v):
            ok = True
        if v == C1:
            a, b = (p1, p2) if repr(p1) <= repr(p2) else (p2, p1)
            if s.facts.get(('==', a, b)) is True:
                ok = True
            else:
                rep.v('equal:%s:true' % tn, q.name, '%s can report different values as equal' % q.name)
    if not ok:
        rep.v('equal:%s:compare' % tn, q.name, '%s does not compare the two parsed values' % q.name)


def check_c10(rep, progs, ex):
    rep.rule('For every symbolic option type the parser is evaluated by constant propagation over its word tables, giving the value of each word; the '
             'printer is evaluated for each enumerator and each pair of words: the words printed must denote exactly that value, words and values must '
             'be distinct, every documented word must be accepted, and the text returned must have been written on that path (not left over from an '
             'earlier call).')
    for cfg, P in progs.items():
        K = Kinds(P)
        sf, ei = K.roles['set']
        gf, gi = K.roles['get']
        for t, tn in sorted(K.types.items()):
            def callee(role):
                f, i = K.roles[role]
                R = CallsRule(P)
                args = [('s', 'P', p['n']) for p in f.params]
                args[i] = ('c', t)
                Engine(P, R).run(f, args)
                l = [P.fns[c[0]] for c in R.calls if c[0] in P.fns]
                return l[0] if l else None
            pf, tf = callee('set'), callee('get')
            if pf is None or len(pf.params) < 2:
                continue
            T = pointee(pf, 1)
            if T is None or T.get('k') not in ('enum', 'bool'):
                continue
            m, words = parser_map(P, pf)
            rep.analysed([pf.id])
            rep.count('symbolic_type', tn)
            if not m:
                raise AnalysisError('no words found in %s' % pf.name)
            for w, vs in m.items():
                rep.count('word', '%s:%s' % (tn, w))
                if len(vs) > 1:
                    rep.v('word:%s:%s' % (tn, w), pf.name, 'the word %r of %s stands for several values %s' % (w, pf.name, sorted(map(str, vs))))
            val = {w: next(iter(vs)) for w, vs in m.items() if len(vs) == 1 and None not in vs}
            if T['k'] == 'bool':
                neg = 'negat' in pf.name or tn == 'OPT_NEG_BOOL_T'
                for w, x in (('1', 1), ('yes', 1), ('true', 1), ('0', 0), ('no', 0), ('false', 0)):
                    if w not in val or val[w] != (1 - x if neg else x):
                        rep.v('bool:%s:%s' % (tn, w), pf.name, 'the word %r of %s stands for %s' % (w, pf.name, val.get(w)))
                # printing
                f, i = K.roles['get']
                for b in (0, 1):
                    args = [('s', 'P', p['n']) for p in f.params]
                    args[i] = ('c', t)
                    o = [a for j, a in enumerate(args) if j != i][0]
                    R = WordRule(P)
                    outs = Engine(P, R).run(f, args, State({('d', o): ('c', b)}, {}, (None, ())))
                    rep.count('printed', '%s:%d' % (tn, b))
                    for s, v in outs:
                        w = R.text(s, v) if v is not None else None
                        if w is None or val.get(w) != b:
                            rep.v('boolprint:%s:%d' % (tn, b), f.name, 'a value %d of type %s prints as %r' % (b, tn, w))
                continue
            if tf is None:
                continue
            en = enum_of(T)
            consts = dict((a, b) for a, b in P.enums[en]['consts']) if en in P.enums else {}
            if not consts:
                raise AnalysisError('enumeration %s not found' % en)
            rep.analysed([tf.id])
            cand = {v: n for n, v in consts.items() if not n.endswith('_UNDEF')}
            table = {w: v for w, v in val.items()}
            bitmask = is_bitmask(P, pf)
            union = 0
            for v in table.values():
                union |= v
            todo = set(v for v in cand if bitmask or True)
            singles = [v for v in set(table.values()) if v and not v & (v - 1)]
            if bitmask:
                for i in range(len(singles)):
                    for j in range(i + 1, len(singles)):
                        todo.add(singles[i] | singles[j])
                todo.add(0)
            # a word that stands for 0 must be what 0 prints
            zero = [w for w, v in table.items() if v == 0]
            for v in sorted(todo):
                name = cand.get(v, hex(v))
                if v not in table.values() and bitmask and (v & ~union):
                    rep.v('noword:%s:%s' % (tn, name), pf.name, 'no word of %s stands for %s' % (pf.name, name))
                    continue
                if v not in table.values() and not bitmask:
                    rep.v('noword:%s:%s' % (tn, name), pf.name, 'no word of %s stands for %s' % (pf.name, name))
                    continue
                for ws, stale in printer(P, tf, v):
                    rep.count('printed', '%s:%s' % (tn, name))
                    if stale:
                        rep.v('stale:%s' % tn, tf.name, '%s returns the text of an earlier call for the value %s' % (tf.name, name))
                        continue
                    got = 0
                    unknown = [w for w in ws if w not in table]
                    for w in ws:
                        got |= table.get(w, 0)
                    if unknown or (got != v) or (v == 0 and zero and not ws):
                        rep.v('print:%s:%s' % (tn, name), tf.name, '%s prints %s as %r' % (tf.name, name, ':'.join(ws)))
            # documentation
            stem = re.sub(r'^parse_', '', pf.name)
            doc = P.fns.get('get_%s_choices' % stem)
            if doc is not None:
                R = WordRule(P)
                for s, v in Engine(P, R).run(doc):
                    txt = R.text(s, v) if v is not None else None
                    if txt:
                        for w in re.split(r'[\s:,{}|\[\]]+', txt):
                            if not w:
                                continue
                            rep.count('documented', '%s:%s' % (tn, w))
                            if w not in table:
                                rep.v('doc:%s:%s' % (tn, w), doc.name, 'documented word %r is not accepted by %s' % (w, pf.name))
        # the documentation printed for a type is that of its parser
        pv = P.fn('options_print_variables')
        parse_of = {}
        for t, tn in K.types.items():
            f, i = K.roles['set']
            R = CallsRule(P)
            args = [('s', 'P', p['n']) for p in f.params]
            args[i] = ('c', t)
            Engine(P, R).run(f, args)
            l = [c[0] for c in R.calls if c[0] in P.fns]
            if l:
                parse_of[t] = re.sub(r'^parse_', '', P.fns[l[0]].name)

        class Doc(Rule):
            def inline(self, E, fid):
                return P.fns[fid].static and P.fns[fid].file == pv.file and fid != gf.id

            def on_call(self, E, st, fid, args, node, fr):
                mm = re.match(r'get_(\w+)_choices$', fid)
                if mm:
                    for (op, a, b), v in st.facts.items():
                        if op == '==' and v and is_c(b):
                            o = val_origin(a)
                            if o is not None and o[0] == 'f' and o[2] == 'type' and o[3] == K.entry:
                                rep.count('documentation', '%d:%s' % (b[1], fid))
                                if parse_of.get(b[1]) and parse_of[b[1]] != mm.group(1):
                                    rep.v('docfor:%s' % K.types.get(b[1]), E.where(node, fr), 'options of type %s are documented with %s' % (K.types.get(b[1]), fid))
                return None
        Engine(P, Doc(), maxstates=60).run(pv)
    rep.need('word', 30)
    rep.need('printed', 30)


def is_bitmask(P, fn):
    return any(n['k'] == 'CompoundAssignOperator' and n['op'] == '|=' for n in fn.nodes.values())
