"""Text written into buffers of limited size (C11)."""
import re
from flow import *
from names import *
from program import AnalysisError, strip, walk
import tables
from lewiasync import add, scale, entails
import lewiasync
from outputs import pieces

INT = {'': 11, 'h': 6, 'hh': 4, 'l': 20, 'll': 20, 'j': 20, 'z': 20, 't': 20}
UNS = {'': 10, 'h': 5, 'hh': 3, 'l': 20, 'll': 20, 'j': 20, 'z': 20, 't': 20}
HEX = {'': 8, 'h': 4, 'hh': 2, 'l': 16, 'll': 16, 'j': 16, 'z': 16, 't': 16}
# destination, size and format arguments
SIZED = {'snprintf': (0, 1), 'vsnprintf': (0, 1), 'strftime': (0, 1), 'gethostname': (0, 1), 'fgets': (0, 1), 'strncpy': (0, 2), 'readlink': (0, 2), '__snprintf_chk': (0, 1)}
UNSIZED = {'sprintf': 1, 'vsprintf': 1, 'strcpy': 1, 'strcat': 1, 'stpcpy': 1, '__sprintf_chk': 3}


def norm_(v):
    """pointer differences inside one object as the difference of the offsets"""
    if isinstance(v, tuple) and v and v[0] == 'op' and len(v) == 4:
        a, b = norm_(v[2]), norm_(v[3])
        if v[1] == '-' and a[0] == '&' and b[0] == '&':
            ba, oa = split(a[1])
            bb, ob = split(b[1])
            if ba == bb:
                return ('op', '-', oa, ob)
        return ('op', v[1], a, b)
    return v


def split(l):
    return (l[1], l[2]) if l[0] == 'e' else (l, C0)


def lin(v):
    return lewiasync.lin(norm_(v))


def unstr(v):
    if v[0] == '&' and v[1][0] == 'd' and v[1][1][0] == 'str':
        return v[1][1]
    if v[0] == '&' and v[1][0] == 'e' and v[1][1] == ('d', v[1][1][1]) if v[0] == '&' and v[1][0] == 'e' and v[1][1][0] == 'd' else False:
        return v[1][1][1] if v[1][1][1][0] == 'str' and v[1][2] == C0 else v
    return v


class TextRule(Rule):
    """where text is written: room and need as linear forms over lengths"""
    exact = True

    def __init__(self, P, inl=(), bits=False):
        self.P, self.inl = P, set(inl)
        self.sites, self.bad, self.unknown, self.contracts, self.calls = {}, {}, {}, {}, []

    def initial(self, E):
        return ()

    def inline(self, E, fid):
        return fid in self.inl

    def key_extra(self, E, st):
        return frozenset(st.facts.items())

    # -------------------------------------------------------- room of a destination
    def room(self, E, st, fr, p):
        """linear form of the bytes from where p points to the end of the object, None = unknown"""
        if p[0] == '&':
            l = p[1]
            off = {None: 0}
            while l[0] == 'e' and l[1][0] in ('e',):
                l = l[1]
            if l[0] == 'e':
                off = lin(l[2])
                l = l[1]
            if l[0] == 'd':
                c = self.block(st, l[1])
                return None if c is None else add(c, off, -1)
            n = self.array(E, fr, l)
            return None if n is None else add({None: n}, off, -1)
        return self.block(st, p)

    def block(self, st, p):
        s = st.mem.get(('x', 'size', p))
        return None if s is None else lin(s)

    def array(self, E, fr, l):
        """bytes of a declared array of characters"""
        if l[0] == 'f':
            rec = self.P.records.get(l[3])
            for f in (rec or {'fields': ()})['fields']:
                if f['n'] == l[2]:
                    return self.bytes_(f['ty'].get('s'))
        if l[0] == 'v':
            for f in fr.stack():
                if f.depth == l[1]:
                    t = self.local(f.fn, l[2])
                    return t
        if l[0] == 'g':
            g = self.P.globals.get(l[1])
            if g and g.get('t') is not None and g.get('types'):
                t = g['types'][g['t']]
                return t.get('size') if t.get('k') == 'arr' and self.bytes_(t.get('s')) else self.bytes_(t.get('s'))
            if l[1].startswith('S:'):
                for f in fr.stack():
                    t = self.local(f.fn, l[1])
                    if t is not None:
                        return t
        return None

    def local(self, fn, did):
        for i, n in fn.nodes.items():
            if n['k'] == 'DeclStmt':
                for d in n.get('decls', ()):
                    if d['id'] == did and d.get('t') is not None and fn.types[d['t']]['k'] == 'arr':
                        return fn.types[d['t']].get('size') or self.bytes_(fn.types[d['t']].get('s'))
        return None

    def bytes_(self, s):
        m = re.match(r'^(?:const )?(?:unsigned |signed )?char ?\[(\d+)\]$', s or '')
        return int(m.group(1)) if m else None

    # -------------------------------------------------------- length of a string
    def strlen(self, E, st, fr, v, node=None):
        v = unstr(v)
        if v[0] == 'str':
            return {None: len(v[1].encode())}
        if v[0] == 'op' and v[1] == 'max':
            return None
        if v[0] == '&':
            l = E._whole(v[1])
            k = st.mem.get(('x', 'slen', l))
            if k is not None:
                return dict(k)
            if v[1][0] in ('v', 'g', 'f') or v[1][0] == 'e' and v[1][2] == C0:
                n = self.array(E, fr, l)
                if n is not None:
                    return {('s', 'uns', 'strlen', v): 1} if ('x', 'asked', v) in st.mem else {None: n - 1}
        k = st.mem.get(('x', 'slen', v))
        if k is not None:
            return dict(k)
        if v[0] == 's' and v[1] == 'ld' and v[2][0] == 'g' and v[2][1] not in self.written():
            g = self.P.globals.get(v[2][1])
            t = tables.const_table(self.P, v[2][1]) if g else None
            if isinstance(t, str):
                return {None: len(t.encode())}
            if isinstance(t, tuple) and t and t[0] == 'str':
                return {None: len(t[1].encode())}
        return {('s', 'uns', 'strlen', v): 1}

    def written(self):
        if not hasattr(self.P, 'written_globals'):
            self.P.written_globals = {m[1] for g in self.P.fns for m in self.P.mods(g) if m[0] == 'g'}
        return self.P.written_globals

    def arms(self, E, st, fr, i):
        """the literals a conditional expression chooses from"""
        f = fr.fn
        i = strip(f, i)
        n = f.nodes[i]
        if n['k'] == 'ConditionalOperator':
            a, b = self.arms(E, st, fr, n['ch'][1]), self.arms(E, st, fr, n['ch'][2])
            return None if a is None or b is None else a + b
        if n.get('str') is not None and n['k'] == 'StringLiteral':
            return [n['str']]
        return None

    def need(self, E, st, fr, fmt, args, argn):
        """upper bound of the length of the formatted text"""
        tot = {None: 0}
        args = list(args)
        argn = list(argn)
        for p in pieces(fmt):
            if p[0] == 'lit':
                tot = add(tot, {None: len(p[1].encode())})
                continue
            m = p[1]
            width = prec = None
            if m.group(3) == '*':
                width = lin(args.pop(0))
                argn.pop(0)
            elif m.group(3):
                width = {None: int(m.group(3))}
            if m.group(4) == '*':
                prec = lin(args.pop(0))
                argn.pop(0)
            elif m.group(4) is not None:
                prec = {None: int(m.group(4))}
            if not args:
                return None
            v = args.pop(0)
            an = argn.pop(0)
            c, ln = m.group(6), m.group(5) or ''
            if c == 's':
                w = prec
                if w is None:
                    a = self.arms(E, st, fr, an)
                    w = {None: max(len(x.encode()) for x in a)} if a else self.strlen(E, st, fr, v)
            elif c in 'di':
                lo, hi, _ = E.bounds(st, v) if v[0] != 'c' else (v[1], v[1], ())
                t = fr.fn.types[fr.fn.nodes[strip(fr.fn, an)]['t']]
                w = {None: max(len(str(x)) for x in (lo, hi)) if lo is not None and hi is not None else
                     UNS[''] if ln == '' and t.get('k') == 'int' and t.get('u') and (t.get('size') or 4) < 4 else INT[ln]}
            elif c in 'u':
                w = {None: UNS[ln]}
            elif c in 'xXo':
                w = {None: HEX[ln]}
                lo, hi, _ = E.bounds(st, v) if v[0] != 'c' else (v[1], v[1], ())
                if hi is not None and lo is not None and lo >= 0:
                    w = {None: len('%x' % hi)}
            elif c == 'c':
                w = {None: 1}
            else:
                return None
            if width is not None:
                if width.keys() <= {None} and w.keys() <= {None}:
                    w = {None: max(width.get(None, 0), w.get(None, 0))}
                else:
                    w = add(w, width)
            tot = add(tot, w)
        return tot

    # -------------------------------------------------------- calls
    def on_call(self, E, st, fid, args, node, fr):
        f = fr.fn
        if fid in ('malloc', 'calloc', 'realloc', 'alloca', '__builtin_alloca'):
            v = ('s', 'ret', fid, fr.ctx + (node,))
            st.mem[('x', 'size', v)] = args[-1] if fid != 'calloc' else (E.simp('*', args[0], args[1]) or ('op', '*', args[0], args[1]))
            st = E.assume(st, ('!=', v, C0), True) or st
            return [(st, v)]
        if fid in ('strdup', 'strndup'):
            v = ('s', 'ret', fid, fr.ctx + (node,))
            st.mem[('x', 'slen', v)] = tuple(sorted(self.strlen(E, st, fr, args[0]).items(), key=repr))
            return [(st, v)]
        if fid == 'strlen':
            a = unstr(args[0])
            if a[0] == 'str':
                return [(st, ('c', len(a[1].encode())))]
            k = st.mem.get(('x', 'slen', a)) or (a[0] == '&' and st.mem.get(('x', 'slen', E._whole(a[1]))))
            if k and len(dict(k)) == 1 and None in dict(k) and st.mem.get(('x', 'exact', a)):
                return [(st, ('c', dict(k)[None]))]
            st.mem[('x', 'asked', a)] = C1
            v = ('s', 'uns', 'strlen', a)
            if a[0] == '&' and a[1][0] in ('v', 'g', 'f', 'e'):
                n = self.array(E, fr, E._whole(a[1]))
                if n is not None and (a[1][0] != 'e' or a[1][2] == C0):
                    st = E.assume(st, ('<', v, ('c', n)), True) or st
            return [(st, v)]
        g = self.P.fns.get(fid)
        if fid in SIZED or fid in UNSIZED:
            return self.write(E, st, fid, args, node, fr)
        if g is not None and fid not in self.inl:
            self.calls.append((fid, self.sizes(E, st, fr, args), E.where(node, fr), f.name, node))
        return None

    def sizes(self, E, st, fr, args):
        return [(a, self.room(E, st, fr, a) if a[0] in ('&', 's') else None) for a in args]

    def write(self, E, st, fid, args, node, fr):
        f = fr.fn
        n = f.nodes[node]
        di, si = (SIZED[fid] if fid in SIZED else (0, None))
        dst = args[di]
        fi = {'snprintf': 2, 'sprintf': 1, 'vsnprintf': 2, 'vsprintf': 1}.get(fid)
        argn = n['ch'][1:]
        ret = ('s', 'uns', fid, fr.ctx + (node,))
        need = None
        if fi is not None:
            fm = unstr(args[fi])
            if fm[0] == 'str' and not fid.startswith('v'):
                need = self.need(E, st, fr, fm[1], args[fi + 1:], argn[fi + 1:])
        elif fid in ('strcpy', 'stpcpy', 'strcat'):
            need = self.strlen(E, st, fr, args[1])
            if fid == 'strcat':
                need = add(need, self.strlen(E, st, fr, dst))
        if dst == C0:
            key = ('s', 'uns', 'textlen', fm[1], tuple(args[fi + 1:]))
            if all(p[0] == 'lit' or p[1].group(6) in 'dixus' for p in pieces(fm[1])) and need is not None and need.keys() <= {None}:
                st = E.assume(st, ('<', key, ('c', need[None] + 1)), True) or st
            return [(st, key)]
        room = self.room(E, st, fr, dst)
        same = ('s', 'uns', 'textlen', fm[1], tuple(args[fi + 1:])) if fi is not None and fm[0] == 'str' else None
        site = (f.id, node)
        w = E.where(node, fr)
        if fid in SIZED:
            size = args[si]
            if room is None:
                self.sites.setdefault(site, 'foreign')
                if dst[0] == 's' and dst[1] == 'P' and fr.depth == 0:
                    self.contracts.setdefault(f.id, set()).add((dst[2], size))
                else:
                    self.unknown.setdefault(site, (w, fid, dst, size))
            else:
                ok = entails(st, E, add(room, lin(size), -1))
                self.sites[site] = 'sized'
                if not ok:
                    self.bad.setdefault(site, (f, fid, w, '%s may write %s bytes and only %s are left' % (fid, show(lin(size)), show(room))))
            self.after(E, st, dst, need if need is not None and need.keys() <= {None} and size[0] == 'c' and need[None] < size[1] else
                       {None: size[1] - 1} if size[0] == 'c' else None)
        else:
            if room is None:
                self.sites.setdefault(site, 'foreign')
                if dst[0] == 's' and dst[1] == 'P' and fr.depth == 0 and need is not None and need.keys() <= {None}:
                    self.contracts.setdefault(f.id, set()).add((dst[2], ('c', need[None] + 1)))
                else:
                    self.unknown.setdefault(site, (w, fid, dst, need))
            else:
                ok = False
                if need is not None:
                    ok = entails(st, E, add(add(room, need, -1), {None: -1}))
                if not ok and same is not None:
                    ok = entails(st, E, add(add(room, {same: 1}, -1), {None: -1}))
                self.sites[site] = 'unsized'
                if not ok:
                    self.bad.setdefault(site, (f, fid, w, '%s may need %s bytes and %s are there' % (fid, show(add(need, {None: 1})) if need is not None else '?', show(room))))
            self.after(E, st, dst, need)
        if need is not None and fi is not None:
            if need.keys() <= {None} and all(p[0] == 'lit' or p[1].group(6) == 's' for p in pieces(fm[1])) and all(unstr(a)[0] == 'str' for a in args[fi + 1:]) and fid in UNSIZED:
                return [(st, ('c', need[None]))]
            if fid in UNSIZED and need.keys() <= {None}:
                st = E.assume(st, ('<', ret, ('c', need[None] + 1)), True) or st
        if fi is None:
            ret = dst if fid not in ('gethostname',) else ('s', 'ret', fid, fr.ctx + (node,))
        return [(st, ret)]

    def after(self, E, st, dst, need):
        l = E._whole(dst[1]) if dst[0] == '&' else None
        E.havoc_under(st, l if l is not None else ('d', dst))
        for k in [k for k in st.mem if k[0] == 'x' and k[1] in ('slen', 'exact', 'asked') and (k[2] in (dst, l, ('&', l)))]:
            del st.mem[k]
        if need is not None and (dst[0] != '&' or dst[1][0] != 'e' or dst[1][2] == C0):
            st.mem[('x', 'slen', l if l is not None else dst)] = tuple(sorted(need.items(), key=repr))

    def on_store(self, E, st, loc, val, node, fr):
        # single characters put into an object of known size
        t = fr.fn.types[fr.fn.nodes[node]['t']] if fr.fn.nodes[node].get('t') is not None else {}
        if loc[0] == 'e' and t.get('size') == 1 and t['k'] == 'int':
            room = self.room(E, st, fr, ('&', loc))
            if room is not None and not any(x is not None and x[0] == 's' and x[1] in ('ld', 'ret') for x in room):
                site = (fr.fn.id, node)
                self.sites[site] = 'char'
                if not entails(st, E, add(room, {None: -1})):
                    self.bad.setdefault(site, (fr.fn, 'char', E.where(node, fr), 'a character is stored where %s bytes are left' % show(room)))


def show(d):
    def nm(x):
        if x[0] == 's' and x[2] == 'strlen':
            v = x[3]
            return 'strlen(%s)' % (v[2] if v[0] == 's' and isinstance(v[2], str) else v[1][2] if v[0] == '&' and isinstance(v[1][2], str) else '..')
        return str(x[2]) if len(x) > 2 else str(x)
    t = ['%s%s' % ('' if c == 1 else '%s*' % c, nm(x)) for x, c in d.items() if x is not None and c]
    if d.get(None) or not t:
        t.append(str(d.get(None, 0)))
    return ' + '.join(t)[:160]


class MaskRule(TextRule):
    """the same with a mask whose members are given"""

    def __init__(self, P, members, ncpus):
        TextRule.__init__(self, P)
        self.S, self.n = set(members), ncpus

    def key_extra(self, E, st):
        return None

    def on_call(self, E, st, fid, args, node, fr):
        S, n = self.S, self.n
        if fid == 'mu_get_first_cpu':
            return [(st, ('c', min(S) if S else -1))]
        if fid == 'mu_get_last_cpu':
            return [(st, ('c', max(S) if S else -1))]
        if fid in ('mu_get_next_cpu', 'mu_get_next_unset') and args[1][0] == 'c':
            p = args[1][1]
            c = [x for x in range(p + 1, n) if (x in S) == (fid == 'mu_get_next_cpu')] if p + 1 < n else []
            return [(st, ('c', c[0] if c else -1))]
        if fid in ('CPU_ISSET', '__CPU_ISSET_S') and args[0][0] == 'c':
            return [(st, ('c', int(args[0][1] in S)))]
        if fid in ('CPU_COUNT',):
            return [(st, ('c', len(S)))]
        if fid in ('mu_count', 'mu_count_cpus'):
            return [(st, ('c', len(S)))]
        r = TextRule.on_call(self, E, st, fid, args, node, fr)
        # exact lengths: numbers are known here
        if fid == 'sprintf' and r and args[1][0] != 'c':
            fm = unstr(args[1])
            if fm[0] == 'str' and all(x[0] == 'c' for x in args[2:]):
                try:
                    return [(r[0][0], ('c', exact_len(fm[1], args[2:])))]
                except (TypeError, ValueError):
                    pass
        if fid == 'snprintf' and r and all(x[0] == 'c' for x in args[3:]):
            fm = unstr(args[2])
            if fm[0] == 'str':
                try:
                    return [(r[0][0], ('c', exact_len(fm[1], args[3:])))]
                except (TypeError, ValueError):
                    pass
        return r


def exact_len(fmt, args):
    return len(re.sub(r'(hh|h|ll|l|j|z|t)([diouxX])', lambda m: m.group(2).replace('u', 'd'), fmt).replace('%u', '%d') % tuple(x[1] for x in args))


def patterns(n):
    """masks that make long lists: singles, pairs and runs of three, in both phases, and all or one"""
    out = [set(range(n)), {0}, {n - 1}, set()]
    for per in (2, 3, 4):
        for ph in range(per):
            out.append({x for x in range(n) if (x + ph) % per})
            out.append({x for x in range(n) if (x + ph) % per == 0})
    return [frozenset(x) for x in out]


def collect(rep, cfg, rule, bad, note=''):
    for s, k in rule.sites.items():
        rep.count('writes', (cfg,) + s)
    for s, (fn, what, w, m) in rule.bad.items():
        bad.setdefault((fn.id, what), (fn, what, w, m + note))


def enum_values(P, f):
    """values to try for the parameter of a function that spells out a set of flags: with more flags the text only gets longer"""
    t = f.types[f.params[0]['t']]
    consts = None
    for name, e in P.enums.items():
        if t.get('s', '').replace('enum ', '') in (name, e.get('typedef')) or t.get('e') == name:
            consts = e['consts']
    if consts is None:
        return None
    vals = [c['v'] if isinstance(c, dict) else c[1] for c in (consts if isinstance(consts, list) else [{'v': v} for v in consts.values()])]
    bits = sorted({1 << b for v in vals for b in range(0, 20) if v & (1 << b)})
    full = 0
    for v in vals:
        full |= v & 0xFFFFF
    single = [v for v in vals if v and v & (v - 1) == 0]
    allb = 0
    for v in single:
        allb |= v
    out = [allb, full, 0] + [allb & ~b for b in single] + single
    return sorted(set(out))


def check_c11(rep, progs, ex):
    for cfg, P in progs.items():
        bad, contracts, calls = {}, {}, []
        if hasattr(P, 'written_globals'):
            del P.written_globals
        if not hasattr(P, 'strglobals'):
            P.strglobals = True
        fns = [f for f in sorted(P.fns.values(), key=lambda f: f.id) if f.cfg and '/src/' in f.file and f.base() not in ('tracing.c',)]
        writers = [f for f in fns if any(P.resolve(c) in SIZED or P.resolve(c) in UNSIZED for c in P.callees(f))]
        pb = print_buffer(P)
        undecided = set()
        for f in writers:
            rule = TextRule(P)
            E = Engine(P, rule, maxstates=600, unroll=0, budget=3000000)
            st = State(r=rule.initial(E))
            args = None
            if pb and any(f.types[p['t']]['k'] == 'ptr' and f.types[f.types[p['t']]['p']].get('r') == pb[0] for p in f.params):
                st, args = with_buffer(P, f, pb, st)
            vals = None
            if len(f.params) == 1 and f.types[f.params[0]['t']]['k'] in ('enum', 'int'):
                vals = enum_values(P, f)
            if f.name in ('mu_to_str', 'mu_get_quoted_mask', 'mu_parse_to_slurm_format'):
                masks(rep, P, cfg, f, bad)
                rep.analysed({f.id})
                continue
            if vals is not None:
                for v in vals:
                    r2 = TextRule(P)
                    e2 = Engine(P, r2, maxstates=600, unroll=3000, budget=3000000)
                    e2.run(f, args=[('c', v)])
                    collect(rep, cfg, r2, bad, ' (for the value 0x%x)' % v)
                    rep.count('flag sets', (cfg, f.id, v))
                    rep.analysed(e2.covered)
                continue
            E.run(f, args=args, st=st)
            rep.analysed(E.covered)
            collect(rep, cfg, rule, bad)
            contracts.update(rule.contracts)
            calls += rule.calls
            for s, (w, fid, dst, size) in rule.unknown.items():
                if fid in SIZED and dst[0] in ('s', '&') and mentions(dst, lambda x: x[0] == 's' and x[1] == 'ld' and x[2][0] == 'v'):
                    bad.setdefault((f.id, fid + ':position'), (f, fid + ':position', w, '%s writes at a position that is advanced without regard to the end of the buffer (a truncated text '
                                                               'counts with its full length)' % fid))
                elif fid in UNSIZED and dst[0] == 's' and dst[1] == 'P' and not users_buffer(P, f, dst[2]):
                    bad.setdefault((f.id, fid + ':parameter'), (f, fid + ':parameter', w, '%s copies a text of any length to where the parameter %s points, with no limit' % (fid, dst[2])))
                else:
                    undecided.add((f.name, fid))
                    rep.count('undecided writes', (cfg,) + s)
        # what a function writes into the buffer of its caller
        for f in fns:
            if f in writers or not contracts or not any(P.resolve(c) in contracts for c in P.callees(f)):
                continue
            rule = TextRule(P)
            E = Engine(P, rule, maxstates=600, unroll=0, budget=3000000)
            E.run(f)
            calls += rule.calls
        for fid, sizes, w, caller, node in calls:
            g = P.fns[fid]
            names = [p['n'] for p in g.params]
            for bufp, size in contracts.get(fid, ()):
                i = names.index(bufp)
                room = sizes[i][1] if i < len(sizes) else None
                if room is None:
                    continue
                want = lin(size) if size[0] == 'c' else lin(sizes[names.index(size[2])][0]) if size[:2] == ('s', 'P') and size[2] in names else None
                if want is None:
                    continue
                rep.count('buffers handed over', (cfg, caller, node))
                d = add(room, want, -1)
                if not all(k is None for k in d) or d.get(None, 0) < 0:
                    bad.setdefault((caller, fid), (None, caller + ':' + g.name, w, '%s hands over %s bytes and %s writes up to %s' % (caller, show(room), g.name, show(want))))
        options_text(rep, P, cfg, bad)
        for (a, b), (fn, what, w, m) in sorted(bad.items(), key=repr):
            rep.v('%s:%s' % (fn.name, what) if fn is not None else what, w, m)
        if undecided:
            rep.notes.append('%s: not decided (buffer of the user, or position in a loop): %s' % (cfg, ', '.join(sorted('%s/%s' % x for x in undecided))))
    rep.need('writes', 40)
    rep.rule('every call that formats or copies text, on every path of its function: the limit given, or the longest text possible (digits of the type, lengths of literals, arrays and '
             'strlen terms), fits in what is left of the array or allocation it is written to; a position in a buffer is not advanced by the length of a truncated text; functions that '
             'spell out flag sets and masks are followed for the longest sets')


def users_buffer(P, f, name, depth=3):
    """the parameter is the caller's, up to a function of the interface"""
    if '/apis/' in f.file:
        return True
    i = [p['n'] for p in f.params].index(name)
    found = False
    for g in P.fns.values():
        for c in g.calls:
            n = g.nodes[c] if not isinstance(c, dict) else c
            if n.get('fn') is None or P.resolve(n['fn']) != f.id:
                continue
            a = strip(g, n['ch'][1 + i]) if len(n['ch']) > 1 + i else None
            d = g.nodes[a].get('d') if a is not None else None
            if not d or d['k'] != 'parm' or depth == 0 or not users_buffer(P, g, d['n'], depth - 1):
                return False
            found = True
    return found


def print_buffer(P):
    """the record of a growing text buffer: start, position and size"""
    for r, v in sorted(P.records.items()):
        by = {}
        for f in v['fields']:
            by.setdefault(f['ty'].get('s'), []).append(f['n'])
        if len(v['fields']) == 3 and len(by.get('char *', [])) == 2 and len(by.get('size_t', [])) == 1:
            size = by['size_t'][0]
            a, b = by['char *']
            return r, (a if 'off' not in a else b), (b if 'off' not in a else a), size
    return None


def with_buffer(P, f, pb, st):
    rec, addr, off, size = pb
    args = [('s', 'P', p['n'] or str(i)) for i, p in enumerate(f.params)]
    for i, p in enumerate(f.params):
        t = f.types[p['t']]
        if t['k'] == 'ptr' and f.types[t['p']].get('r') == rec:
            b = ('d', args[i])
            a0, o0, s0 = ('s', 'P', 'start'), ('s', 'P', 'position'), ('s', 'uns', 'size', ())
            st.mem[('f', b, addr, rec)] = a0
            st.mem[('f', b, off, rec)] = o0
            st.mem[('f', b, size, rec)] = s0
            st.mem[('x', 'size', a0)] = s0
            st.mem[('x', 'size', o0)] = ('op', '-', s0, ('s', 'uns', 'strlen', a0))
    return st, args


def masks(rep, P, cfg, f, bad):
    if f.name == 'mu_parse_to_slurm_format':
        g = 'G:mu_cpuset_setsize@' + f.base()
        for n in list(range(1, 21)) + [63, 64, 65, 1021, 1022, 1023, 1024]:
            for S in (set(range(n)), {n - 1}):
                rule = MaskRule(P, S, n)
                E = Engine(P, rule, maxstates=600, unroll=30000, budget=3000000)
                st = State(r=())
                if g in P.globals:
                    st.mem[('g', g)] = ('c', n)
                E.run(f, st=st)
                collect(rep, cfg, rule, bad, ' (%d CPUs in the system)' % n)
                rep.count('masks', (cfg, f.name, n, len(S)))
        return
    if f.name == 'mu_to_str':
        for n in (1024,):
            for S in patterns(n):
                rule = MaskRule(P, S, n)
                E = Engine(P, rule, maxstates=600, unroll=30000, budget=30000000)
                E.run(f)
                collect(rep, cfg, rule, bad, ' (a mask of %d of 1024 CPUs)' % len(S))
                rep.count('masks', (cfg, f.name, n, len(S)))
        return
    names = [p['n'] for p in f.params]
    buf = [i for i, p in enumerate(f.params) if f.types[p['t']]['k'] == 'ptr' and f.types[f.types[p['t']]['p']].get('size') == 1]
    lim = [i for i, p in enumerate(f.params) if f.types[p['t']]['k'] == 'int']
    if len(buf) != 1 or len(lim) != 1:
        return
    import itertools
    base = (8, 9, 10, 11, 12, 13)
    for k in range(0, 1 << len(base)):
        S = {c for j, c in enumerate(base) if k & (1 << j)}
        for size in range(0, 18):
            rule = MaskRule(P, S, 16)
            E = Engine(P, rule, maxstates=600, unroll=3000, budget=3000000)
            st = State(r=())
            args = [('s', 'P', n) for n in names]
            args[lim[0]] = ('c', size)
            st.mem[('x', 'size', args[buf[0]])] = ('c', size)
            E.run(f, args=args, st=st)
            collect(rep, cfg, rule, bad, ' (buffer of %d bytes, CPUs %s)' % (size, ','.join(map(str, sorted(S)))))
        rep.count('masks', (cfg, f.name, k))


def options_text(rep, P, cfg, bad):
    """string options are stored in fields as long as the parser's limit"""
    limit = P.enumconst.get('MAX_OPTION_LENGTH') if hasattr(P, 'enumconst') else None
    if isinstance(limit, tuple):
        limit = limit[-1]
    if not isinstance(limit, int):
        return
    for f in P.records.get('Options', {'fields': ()})['fields']:
        m = re.match(r'^char ?\[(\d+)\]$', f['ty'].get('s') or '')
        if m:
            rep.count('option fields', (cfg, f['n']))
            if int(m.group(1)) < limit:
                bad.setdefault(('Options', f['n']), (None, 'Options:' + f['n'], 'src/support/options.h', 'the option field %s has %s bytes and values of up to %d are stored' % (f['n'], m.group(1), limit)))
