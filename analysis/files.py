"""Removal of shared-memory files (C34)."""
import stat as _stat
from flow import *
from names import *
from program import strip, walk
from procs import reach

REMOVE = {'unlink': 0, 'remove': 0, 'rmdir': 0, 'shm_unlink': 0, 'unlinkat': 1}
STAT = {'lstat': (0, 1), 'stat': (0, 1), 'fstatat': (1, 2)}
MATCH = {'fnmatch': (0, 1), 'strncmp': (1, 0)}
FMT = {'snprintf': (0, 2), 'sprintf': (0, 1)}


def has_field(v, loc, name):
    return mentions(v, lambda x: isinstance(x, tuple) and len(x) >= 3 and x[0] == 's' and x[1] in ('ld', 'uns') and isinstance(x[2], tuple)
                    and x[2][0] == 'f' and x[2][2] == name and (loc is None or contains_loc(loc, x[2])))


def isfnptr(f, p):
    t = f.types[p['t']]
    return t['k'] == 'ptr' and f.types[t['p']]['k'] == 'fn'


class RemoveRule(Rule):
    def __init__(self, P, inl, root):
        self.P, self.inl = P, inl
        self.fnparams = {p['n'] for p in root.params if isfnptr(root, p)}
        self.sites, self.opened, self.asked = {}, set(), set()

    def inline(self, E, fid):
        return fid in self.inl and fid not in self.asked

    def initial(self, E):
        return frozenset()

    # what the path has established is kept in st.r, a set of ('kind', about): paths that know different things stay apart
    def key_extra(self, E, st):
        return tuple(sorted((k[:2], str(v)) for k, v in st.mem.items() if k[0] == 'x' and k[1] in ('stat', 'fmt')))

    def on_branch(self, E, st, node, taken, fr):
        out = set()
        s = st.mem.get(('x', 'stat'))
        if s:
            for k, t in st.facts.items():
                if len(k) != 3 or k[0] != '==' or t is not True:
                    continue
                for a, b in ((k[1], k[2]), (k[2], k[1])):
                    if has_field(a, s[1], 'st_mode') and b == ('c', _stat.S_IFREG):
                        out.add(('reg', s[2]))
                    if has_field(a, s[1], 'st_uid') and b[0] == 's' and b[2] in ('getuid', 'geteuid'):
                        out.add(('own', s[2]))
        for k, v in list(st.mem.items()):
            if k[:2] == ('x', 'match') and st.facts.get(('==', k[2], C0)) is True and v[0] and v[0].startswith(('DLB_', 'sem.DLB_')):
                out.add(('match', v[1]))
            if k[:2] in (('x', 'last'), ('x', 'empty')) and st.facts.get(('==', k[2], C0)) is False:
                out.add((k[1], ''))
        for k, t in st.facts.items():        # no function to ask was given
            if k[0] == '==' and t is True and C0 in k[1:] and any(x[:2] == ('s', 'P') and x[2] in self.fnparams for x in k[1:]):
                out.add(('empty', ''))
        if not out <= st.r:
            st.r = st.r | out

    def drop(self, st, sym):
        st.r = frozenset(c for c in st.r if not mentions(c[1], lambda x: x == sym))

    def on_call(self, E, st, fid, args, node, fr):
        ret = ('s', 'ret', fid, fr.ctx + (node,))
        if st.r:
            self.drop(st, ret)
        if fid in STAT:
            a, b = STAT[fid]
            outs = Engine.default_call(E, st, fid, args, node, fr.fn.nodes[node], fr)
            for t, v in outs:
                t.mem[('x', 'stat')] = (fid, deref(args[b]), args[a])
                # an earlier answer no longer describes this buffer
                for k in [k for k in t.facts if any(has_field(x, deref(args[b]), 'st_mode') or has_field(x, deref(args[b]), 'st_uid') for x in k[1:])]:
                    del t.facts[k]
                t.r = frozenset(c for c in t.r if c[0] != 'stat') | {('stat', (fid, args[a]))}
            return outs
        if fid in MATCH:
            p, s = MATCH[fid]
            pat = args[p]
            if pat[0] == '&' and pat[1][0] == 'e' and pat[1][1][0] == 'str':
                pat = pat[1][1]
            st.mem[('x', 'match', ret)] = (pat[1] if pat[0] == 'str' else None, args[s])
            return None
        if fid in FMT:
            d, f = FMT[fid]
            x = args[f]
            if x[0] == '&' and x[1][0] == 'e' and x[1][1][0] == 'str':
                x = x[1][1]
            outs = Engine.default_call(E, st, fid, args, node, fr.fn.nodes[node], fr)
            for t, v in outs:
                l = deref(args[d])
                t.mem[('x', 'fmt', l[1] if l[0] == 'e' else l)] = x[1] if x[0] == 'str' else None
            return outs
        if fid in ('shm_open', 'open') and args:
            l = deref(args[0])
            l = l[1] if l[0] == 'e' else l
            f = st.mem.get(('x', 'fmt', l))
            self.opened.add((E.where(node, fr), fid, l[2] if l[0] == 'f' else None, f))
            return None
        if fid in REMOVE and REMOVE[fid] < len(args):
            self.judge(E, st, fid, args[REMOVE[fid]], node, fr)
        if fid in self.P.fns and any(a[0] == '&' and loc_has(a[1], 'pidlist') or
                                                                 a[0] == 's' and a[1] == 'ld' and loc_has(a[2], 'pidlist') for a in args):
            st.mem[('x', 'last', ret)] = C1
            st.mem[('x', 'last', ('s', 'uns', fid, fr.ctx + (node,)))] = C1
            self.asked.add(fid)
            return Engine.default_call(E, st, fid, args, node, fr.fn.nodes[node], fr)
        return None

    def on_indirect(self, E, st, target, args, node, fr):
        for k in ('ret', 'uns'):
            st.mem[('x', 'empty', ('s', k, None, fr.ctx + (node,)))] = C1
        return None

    def judge(self, E, st, fid, name, node, fr):
        w = E.where(node, fr)
        rec = self.sites.setdefault((w, fid, fr.chain()[0] if fr.up else fr.fn.name), [])
        l = deref(name)
        l = l[1] if l[0] == 'e' else l
        miss = []
        if fid == 'shm_unlink':
            fmt = st.mem.get(('x', 'fmt', l))
            if fmt is not None and '/' in fmt.lstrip('/'):
                rec.append(('void', l, ()))       # POSIX: a name with an inner slash names no object, nothing is removed
                return
            if not (l[0] == 'f'):
                miss.append('it is not the name kept in the handler of the segment being closed')
            if ('last', '') not in st.r:
                miss.append('the process was not found to be the last one of the segment')
            if ('empty', '') not in st.r:
                miss.append('the module was not asked, or did not answer, that its segment holds no data')
            rec.append(('handler', l, tuple(miss)))
            return
        seen = [c[1] for c in st.r if c[0] == 'stat' and c[1][1] == name]
        if not seen:
            miss.append('the file was not examined before')
        elif seen[0][0] == 'stat':
            miss.append('a symbolic link is followed when the file is examined')
        if ('reg', name) not in st.r:
            miss.append('it is not known to be a regular file')
        if ('own', name) not in st.r:
            miss.append('it is not known to belong to the user')
        if ('match', name) not in st.r:
            miss.append('its name is not known to be that of a DLB segment')
        rec.append(('file', l, tuple(miss)))


class LastRule(Rule):
    """the answer whether the process is the last one: no entry of another process may have been seen"""
    def inline(self, E, fid):
        return E.P.fns[fid].static

    def initial(self, E):
        return frozenset()

    def on_branch(self, E, st, node, taken, fr):
        # a slot of the list known to hold a pid, and known not to hold the one that leaves
        for (k, t) in st.facts.items():
            if k[0] != '==' or t is not False or C0 not in k[1:]:
                continue
            v = k[1] if k[2] == C0 else k[2]
            if not (v[0] == 's' and v[1] == 'ld' and v[2] and v[2][0] in ('e', 'd')):
                continue
            for (k2, t2) in st.facts.items():
                if k2[0] == '==' and t2 is False and v in k2[1:] and any(x[:2] == ('s', 'P') for x in k2[1:]):
                    st.r = st.r | {'other'}


def check_last(rep, P, fid):
    f = P.fns[fid]
    R = LastRule()
    E = Engine(P, R, maxstates=80)
    for st, ret in E.run(f):
        rep.count('last_answer', '%s %s' % (f.name, sorted(st.r)))
        if 'other' in st.r and is_c(ret) and ret[1]:
            rep.v('last:%s' % f.name, '%s (%s)' % (f.file.replace('/repo/', ''), f.name), '%s can answer that the process is the last one of the segment after it met the entry of another process' % f.name)
            return


def loc_has(l, field):
    while isinstance(l, tuple) and l and l[0] in ('f', 'e', 'd'):
        if l[0] == 'f' and l[2] == field:
            return True
        l = l[1]
        if isinstance(l, tuple) and l and l[0] == 's' and l[1] == 'ld':
            l = l[2]
    return False


def check_c34(rep, progs, ex):
    rep.rule('Every call that removes a file is examined on every path.  In the tools the path must contain: lstat of that very name, the test that it is a '
             'regular file, the comparison of its owner with the user, and a match of its name with a pattern that starts with DLB_ (or sem.DLB_).  In the '
             'library a segment may only be removed by the name kept in the handler being closed, after the process was found to be the last one and the '
             'module reported its segment as empty.  Every name under which a segment is created starts with /DLB_, which those patterns cover.')
    for cfg, P in progs.items():
        direct = {f.id for f in P.fns.values() if any(f.nodes[c].get('fn') in REMOVE for c in f.calls)}
        opens = {f.id for f in P.fns.values() if any(f.nodes[c].get('fn') == 'shm_open' for c in f.calls)}
        removers = reach(P, set(REMOVE))
        tools = cfg == 'tools'
        matchers = {f.id for f in P.fns.values() if any(f.nodes[c].get('fn') in MATCH or f.nodes[c].get('fn') in STAT or f.nodes[c].get('fn') in FMT
                                                        for c in f.calls)}
        if tools:
            files = {P.fns[x].file for x in direct}
            # start where the names come from: the outermost functions of the tool below main
            roots = {x for x in removers if P.fns[x].file in files and any(f.nodes[c].get('fn') in ('readdir', 'scandir', 'glob', 'readdir64')
                     for f in [P.fns[x]] for c in f.calls)} or {x for x in removers if P.fns[x].name == 'main'}
            rest = {x for x in removers if P.fns[x].file in files}
            inl = rest | {x for x in reach(P, set(MATCH) | set(STAT)) if P.fns[x].file in files}
            covered = set()
        else:
            roots = direct | opens
            inl = {x for x in matchers if any(P.fns[x].file == P.fns[r].file for r in roots) and P.fns[x].static}
            inl |= {f.id for f in P.fns.values() if f.static and f.id in removers and any(f.file == P.fns[r].file for r in direct)}
        seen_sites, asked = {}, set()
        for fid in sorted(roots):
            R = RemoveRule(P, inl, P.fns[fid])
            E = Engine(P, R, maxstates=80)
            E.run(P.fns[fid])
            rep.analysed(E.covered)
            asked |= R.asked
            for w, fn, fld, fmt in R.opened:
                if fn != 'shm_open':
                    continue
                rep.count('created', w)
                if fmt is None or not fmt.startswith('/DLB_') or '/' in fmt[1:]:
                    rep.v('created:%s' % P.fns[fid].name, w, 'a segment is created under a name (format %s) that the cleaning tool does not recognise' % fmt)
            for (w, fn, ch), recs in R.sites.items():
                seen_sites.setdefault((w, fn), []).extend(recs)
        for a in sorted(asked):
            check_last(rep, P, a)
        for (w, fn), recs in sorted(seen_sites.items()):
            rep.count('removal', '%s %s' % (fn, w))
            for kind, l, miss in recs:
                rep.count('removal_path')
                for m in miss:
                    rep.v('remove:%s:%s' % (w.split('(')[-1].rstrip(')'), m.split(' ')[-1]), w, '%s removes a file although %s' % (fn, m))
    rep.need('removal', 2)
    rep.need('created', 1)
