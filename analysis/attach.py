"""Attaching to and detaching from shared segments (C17)."""
import itertools
import re

from flow import *
from names import *
from program import strip, walk
from errors import RetConsts
from shared import shmem_modules

FIN, ATT = re.compile('(^|_)finalize'), re.compile('init|^ConfigShMem$')
INTO = ('&', ('e', ('g', 'the mapped segment'), ('s', 'P', 'some')))
SEG, HND = ('&', ('g', 'the mapped segment')), ('&', ('g', 'the segment handler'))


def reach_in_file(P, f, targets, seen=None):
    """does f call one of targets, directly or through functions of the same file?"""
    seen = set() if seen is None else seen
    if f.id in seen:
        return False
    seen.add(f.id)
    for c in f.calls:
        n = f.nodes[c].get('fn')
        if n in targets:
            return True
        g = P.fns.get(P.resolve(n)) if n else None
        if g is not None and g.file == f.file and reach_in_file(P, g, targets, seen):
            return True
    return False


class AttachEngine(Engine):
    """functions that do not reach shmem_init or shmem_finalize in this module do not change the state of its attachment"""
    def mods(self, fid):
        m = self.P.mods(fid)
        if self.rule.inline(self, fid):
            return m
        return {x for x in m if not (x[0] == 'g' and x[1] in self.rule.gl)}


class AttachRule(Rule):
    """r = (maps, unmaps): calls of shmem_init and shmem_finalize on this path"""
    def __init__(self, P, mod, file, gl):
        self.P, self.mod, self.file, self.gl = P, mod, file, gl
        self.bad = []
        self.ret = RetConsts(P)

    def initial(self, E):
        return (0, 0)

    def inline(self, E, fid):
        f = self.P.fns.get(fid)
        return f is not None and f.file == self.file and self.P.reach_shm(f)

    def key_extra(self, E, st):
        return tuple(norm(st.mem.get(('g', g), ('?',))) for g in self.gl)

    def on_call(self, E, st, fid, args, node, fr):
        if fid == 'shmem_init':
            if args and args[0][0] == '&':
                E.havoc_under(st, args[0][1])
                st.mem[args[0][1]] = SEG
            st.r = (st.r[0] + 1, st.r[1])
            return [(st, HND)]
        if fid == 'shmem_finalize':
            if not args or args[0] != HND:
                self.bad.append((E.where(node, fr), 'shmem_finalize is called without the handler of a mapped segment', fr.chain()))
            st.r = (st.r[0], st.r[1] + 1)
            return [(st, C0)]
        f = self.P.fns.get(fid)
        if f is not None and f.static and f.file == self.file and not self.inline(E, fid):
            # the codes that the function returns
            vals = sorted(self.ret.of(fid))
            if 0 < len(vals) < 6:
                out = []
                for s, v in E.default_call(st, fid, args, node, fr.fn.nodes[node], fr):
                    out += [(s.copy(), ('c', x)) for x in vals]
                return out
        return None


def module_globals(P, file):
    out = {}
    for g, v in P.globals.items():
        if v.get('file') == file and v.get('static'):
            out[g] = v
    return out


def check_c17(rep, progs, ex):
    rep.rule('for every segment module, all sequences of up to 4 attach and detach calls of its public functions are interpreted with the contents of the '
             'segment unconstrained: the segment is mapped exactly while attaches outnumber detaches, never mapped twice, unmapped with the last detach, '
             'a failed attach counts nothing, and the pointers into it are cleared when it is unmapped')
    for cfg, P in progs.items():
        tolerant = modules(rep, P)
        sequences(rep, P, tolerant)
    rep.need('segment modules', 5)
    rep.need('transitions', 60)


def modules(rep, P):
    mods, tolerant = {}, set()
    for m in shmem_modules(P):
        if m['handler'] and m['shdata']:
            mods.setdefault(m['fn'].file, m)
    cache = {}

    def reach_shm(f):
        if f.id not in cache:
            cache[f.id] = reach_in_file(P, f, {'shmem_init', 'shmem_finalize'})
        return cache[f.id]
    P.reach_shm = reach_shm
    for file, m in sorted(mods.items()):
        hnd, seg = ('g', m['handler']), ('g', m['shdata'])
        rec = m['record']
        single = segment_name(P, m) in SINGLE
        callers = {}
        for f in P.fns.values():
            for c in f.calls:
                if f.nodes[c].get('fn'):
                    callers.setdefault(P.resolve(f.nodes[c]['fn']), set()).add(f.file)
        # operations: what the rest of the library calls (or nothing in the library does)
        pub = [f for f in P.fns.values() if f.file == file and not f.static and reach_shm(f) and callers.get(f.id) != {file}]
        det = [f for f in pub if FIN.search(f.name)]
        att = [f for f in pub if ATT.search(f.name) and f not in det]
        other = [f for f in pub if f not in att and f not in det]
        for f in pub:
            rep.count('attach/detach functions', f.id)
        for f in P.fns.values():
            if f.file == file and not f.static and FIN.search(f.name) and not reach_shm(f):
                rep.v('nodetach:' + f.name, fw(f), '%s never detaches from the segment' % f.name)
        if not att or not det:
            rep.v('unpaired:' + file, fw(m['fn']), 'the %s of this module has no counterpart' % ('attach' if att else 'detach'))
            continue
        gl = sorted(mglobals(P, file, m))
        init = {}
        for g in gl:
            init[('g', g)] = C0
        start = State(dict(init), {}, (0, 0))
        rule = AttachRule(P, m, file, gl)
        rep.analysed({f.id for f in pub})

        def project(st):
            return tuple((g, norm(st.mem.get(('g', g), ('?',)))) for g in gl)

        def step(f, pst):
            mem = {('g', g): v for g, v in pst if v != ('?',)}
            E = AttachEngine(P, rule, maxstates=400, budget=2000000)
            args = []
            for p in f.params:
                args.append(('s', 'P', p['n']))
            out = {}
            for st, ret in E.run(f, args, State(mem, {}, (0, 0))):
                ty = f.types[f.ret] if f.ret is not None else {'k': 'void'}
                err = None
                if ty['k'] == 'void':
                    err = False
                else:
                    k = E.known(st, ('cmp', '<', ret, C0))
                    err = k
                out.setdefault((project(st), st.r, err), 0)
            rep.analysed(E.covered)
            return sorted(out, key=repr)
        seen = {}
        work = [(project(start), 0, ())]
        trans = 0
        depth = 4 if rep.tier == 'quick' else 6
        stepc = {}
        while work:
            pst, n, hist = work.pop(0)
            if (pst, n) in seen or len(hist) >= depth:
                continue
            seen[(pst, n)] = hist
            for f in att + det + other:
                if f.name not in NOCOUNT and (f, pst) not in stepc:
                    stepc[(f, pst)] = step(f, pst)
                for q, (i, u), err in stepc[(f, pst)]:
                    trans += 1
                    rep.count('transitions', '%s/%s/%s/%s' % (f.name, hist, err, (i, u)))
                    h = hist + (f.name + {True: ' (error)', False: '', None: ' (any result)'}[err],)
                    txt = ' -> '.join(h)
                    d = dict(q)
                    before = dict(pst)[m['handler']] != C0
                    mapped = d[m['handler']] != C0
                    if i and before:
                        rep.v('remap:%s' % f.name, fw(f), 'after %s the segment is mapped again while it is still mapped: the first mapping is lost' % txt)
                        continue
                    if before + i - u != mapped:
                        rep.v('handler:%s' % f.name, fw(f), 'after %s the segment is %smapped but the handler says otherwise' % (txt, '' if before + i - u > 0 else 'not '))
                        continue
                    if mapped != (d[m['shdata']] != C0):
                        rep.v('pointer:%s' % f.name, fw(f), 'after %s the segment is %smapped and the pointer to it is %s' % (txt, '' if mapped else 'not ', 'null' if mapped else 'kept'))
                        continue
                    stale = [g for g in gl if g not in (m['handler'], m['shdata']) and not mapped and into_seg(d[g])]
                    if stale:
                        rep.v('stale:%s:%s' % (f.name, stale[0].split('@')[0]), fw(f), 'after %s the segment is not mapped and %s still points into it' % (txt, stale[0].split('@')[0]))
                        continue
                    if f in other:
                        n2s = [n]
                    elif f in att:
                        n2s = [n] if err is True else [n + 1] if err is False else [n] if q == pst or n == 0 and not mapped else [n + 1]
                    elif n == 0:
                        n2s = [0]
                    elif err is True:
                        if q == pst and not i and not u:
                            tolerant.add(segment_name(P, m))
                        n2s = [n] if q == pst else [n - 1]
                    elif err is False:
                        n2s = [n - 1]
                    else:
                        n2s = [n] if q == pst else [n - 1]
                    if single:
                        n2s = [min(x, 1) for x in n2s]
                    good = [x for x in n2s if (x > 0) == mapped]
                    if not good:
                        rep.v('balance:%s' % f.name, fw(f), 'after %s the process is attached %d time(s) but the segment is %smapped' % (txt, n2s[0], '' if mapped else 'not '))
                        continue
                    for x in good:
                        work.append((q, x, h))
        rep.count('segment modules', file)
    return tolerant



NOCOUNT = ()
# segments that do not support several subprocesses in one process: the first finalization unmaps them
SINGLE = {'barrier'}


def segment_name(P, m):
    f, i = m['fn'], m['props'].get('name')
    n = f.nodes[strip(f, i)] if i is not None else {}
    if n.get('k') == 'DeclRefExpr':
        g = P.globals.get(n['d']['id'], {})
        for x in (g.get('nodes') or {}).values() if isinstance(g.get('nodes'), dict) else g.get('nodes') or ():
            if x.get('k') == 'StringLiteral':
                return x.get('str')
    return n.get('str')


def into_seg(v):
    return v == INTO or v == SEG


def norm(v):
    if is_c(v) or v in (SEG, HND):
        return v
    if v != ('?',) and mentions(v, lambda x: x == SEG or x == SEG[1]):
        return INTO
    return ('?',)


def module_int_globals(P, file):
    """the integer variables of a module"""
    return {g for g, v in P.globals.items() if v.get('file') == file and v['types'][v['t']]['k'] == 'int'}


def mglobals(P, file, m):
    """static variables of the module that hold the state of the attachment"""
    out = set()
    for g, v in P.globals.items():
        if v.get('file') != file:
            continue
        t = v['types'][v['t']]
        if t.get('k') in ('int', 'bool', 'ptr', 'enum') and not t.get('const'):
            out.add(g)
    return out | {m['handler'], m['shdata']}


def fw(f):
    return '%s %s' % (f.file, f.name)


# --------------------------------------------------------------------------- start and end of a process

LB = {x: ('&', ('g', x + ' of the policy')) for x in ('init', 'finalize')}


def is_options(P, rec):
    return any(fl['n'] == 'lewi_affinity' for fl in P.records.get(rec, {}).get('fields', ()))


class Seq(Rule):
    """r = segments this process is attached to"""
    def __init__(self, P, att, det, ret):
        self.P, self.att, self.det, self.ret = P, att, det, ret
        self.extra = []

    def initial(self, E):
        return ()

    def inline(self, E, fid):
        f = self.P.fns.get(fid)
        return f is not None and f.static and 'DLB_kernel' in f.file

    def on_load(self, E, st, loc, val, node, fr):
        if loc[0] == 'f' and is_options(self.P, loc[3]) and loc[2] in self.opt:
            return self.opt[loc[2]]
        if loc[0] == 'f' and loc[2] in LB and len(self.P.records.get(loc[3], {}).get('fields', ())) > 10 and not is_options(self.P, loc[3]):
            return LB[loc[2]]

    def attach(self, E, st, tok, vals, node, fr):
        out = []
        for v in vals:
            s = st.copy()
            if v >= 0:
                s.r = tuple(sorted(s.r + (tok,)))
            out.append((s, ('c', v)))
        return out

    def detach(self, E, st, tok, node, fr):
        s = st.copy()
        if tok in s.r:
            x = list(s.r)
            x.remove(tok)
            s.r = tuple(x)
        else:
            self.extra.append((tok, E.where(node, fr), s))
        return [(s, C0)]

    def on_call(self, E, st, fid, args, node, fr):
        f = self.P.fns.get(fid)
        if fid in self.att:
            vals = sorted(self.ret.of(fid)) or [0]
            if f.types[f.ret]['k'] == 'void':
                vals = [0]
            return self.attach(E, st, self.att[fid], vals, node, fr)
        if fid in self.det:
            return self.detach(E, st, self.det[fid], node, fr)
        return None

    def on_indirect(self, E, st, target, args, node, fr):
        if target == LB['init']:
            return self.attach(E, st, 'LeWI', [0, -1], node, fr)
        if target == LB['finalize']:
            return self.detach(E, st, 'LeWI', node, fr)
        return None


def sequences(rep, P, tolerant):
    """Initialize followed by Finish, for every combination of options"""
    ini, fin = P.fn('Initialize'), P.fn('Finish')
    if not ini or not fin:
        return
    att, det = {}, {}
    for f in P.fns.values():
        if f.static:
            continue
        for m in shmem_modules(P):
            if f.file == m['fn'].file and reach_in_file(P, f, {'shmem_init', 'shmem_finalize'}):
                if FIN.search(f.name):
                    det[f.id] = segment_name(P, m)
                elif ATT.search(f.name):
                    att[f.id] = segment_name(P, m)
    att['talp_init'], det['talp_finalize'] = 'talp', 'talp'
    R = Seq(P, att, det, RetConsts(P))
    fields = option_fields(P, ini, fin)
    doms = []
    for n, ty in fields:
        if ty['k'] == 'enum':
            doms.append([('c', v) for _, v in P.enums[ty['e']]['consts']])
        elif ty['k'] == 'bool':
            doms.append([C0, C1])
        else:
            doms.append([C0, ('c', 7)])
    for combo in itertools.product(*doms):
        R.opt = {n: v for (n, _), v in zip(fields, combo)}
        E = SeqEngine(P, R, maxstates=600)
        states = E.run(ini)
        rep.analysed(E.covered)
        rep.count('option combinations')
        for st, ret in states:
            if E.known(st, ('cmp', '==', ret, C0)) is not True:
                continue
            got = st.r
            E2 = SeqEngine(P, R, maxstates=600)
            R.extra = []
            outs = E2.run(fin, [('s', 'P', ini.params[0]['n'])], st)
            rep.analysed(E2.covered)
            rep.count('attached sets', ','.join(got))
            for tok, w, s in R.extra:
                if tok not in tolerant and tok != 'LeWI' and tok not in got:
                    rep.v('extra:%s' % tok, w, 'a process attached to {%s} detaches from %s: the attach of another subprocess of the same process is undone' % (', '.join(got), tok))
            for s2, r2 in outs:
                for tok in s2.r:
                    rep.v('kept:%s' % tok, fw(fin), 'a process attached to {%s} by Initialize is still attached to %s after Finish' % (', '.join(got), tok))


def option_fields(P, *fns):
    """options that the start or the end of a subprocess branch on"""
    out = {}
    for f in fns:
        for i, n in f.nodes.items():
            if n['k'] == 'MemberExpr' and is_options(P, n.get('r')):
                ty = f.types[n['t']]
                if ty['k'] in ('bool', 'enum') or ty['k'] == 'int' and ty.get('size', 8) <= 4:
                    out[n['m']] = ty
    return sorted((n, t) for n, t in out.items() if not n.startswith('debug') and not n.startswith('verbose'))


class SeqEngine(Engine):
    def mods(self, fid):
        # neither the options nor the policy of the subprocess change between the start and the end
        return {x for x in self.P.mods(fid) if not (x[0] == 'f' and (is_options(self.P, x[1]) or x[2] in ('lb_policy', 'options')))} if fid not in ('options_init',) else self.P.mods(fid)
