"""Error codes, their messages and their bindings (C24)."""
import os
import re
from flow import *
from names import *
from program import strip, walk
import bounds
from dispatch import parse_fortran
from tables import const_table
from program import REPO


class PlainRule(Rule):
    def inline(self, E, fid):
        return True


def text_of(P, fid, v):
    """the text(s) that a message function returns for one code"""
    out = set()
    for st, r in Engine(P, PlainRule(), maxstates=20).run(P.fns[fid], [('c', v)]):
        if r is not None and r[0] == 'str':
            out.add(r[1])
        elif r is not None and r[0] == '&' and r[1][0] == 'e' and r[1][1][0] == 'str':
            out.add(r[1][1][1])
        elif r is not None and r[0] == 's' and r[1] == 'ld' and r[2] and r[2][0] == 'e' and r[2][1][0] == 'g' and is_c(r[2][2]):
            t = const_table(P, r[2][1][1])
            k = r[2][2][1]
            out.add(t[k] if isinstance(t, list) and 0 <= k < len(t) else None)
        else:
            out.add(None)
    return out


def error_enum(P):
    for e, x in P.enums.items():
        names = dict((a, b) for a, b in x['consts'])
        if 'DLB_SUCCESS' in names:
            return names
    raise AnalysisError('the enumeration of error codes (DLB_SUCCESS) was not found')


class RetConsts:
    """constants that a function may return, through locals and calls (flow-insensitive)"""

    def __init__(self, P):
        self.P, self.memo, self.active = P, {}, set()

    def of(self, fid):
        if fid in self.memo:
            return self.memo[fid]
        f = self.P.fns.get(fid)
        if not f or fid in self.active:
            return {}
        self.active.add(fid)
        out = {}
        for i, n in f.nodes.items():
            if n['k'] == 'ReturnStmt' and n['ch']:
                self.expr(f, n['ch'][0], out, set())
        self.active.discard(fid)
        self.memo[fid] = out
        return out

    def expr(self, f, i, out, seen):
        if i in seen:
            return
        seen.add(i)
        i = strip(f, i)
        n = f.nodes[i]
        if 'v' in n and n['k'] not in ('DeclRefExpr',) or 'v' in n and n.get('d', {}).get('k') != 'var':
            try:
                out.setdefault(int(n['v']), (f, i))
            except (TypeError, ValueError):
                pass
            return
        k = n['k']
        if k == 'ConditionalOperator':
            self.expr(f, n['ch'][1], out, seen)
            self.expr(f, n['ch'][2], out, seen)
        elif k in ('BinaryOperator',) and n['op'] in (',', '='):
            self.expr(f, n['ch'][1], out, seen)
        elif k == 'CallExpr' and n.get('fn'):
            for c, w in self.of(self.P.resolve(n['fn'])).items():
                out.setdefault(c, w)
        elif k == 'DeclRefExpr' and n['d']['k'] in ('var', 'local', 'lvar'):
            self.var(f, n['d']['id'], out, seen)

    def var(self, f, vid, out, seen):
        if ('v', vid) in seen:
            return
        seen.add(('v', vid))
        for i, n in f.nodes.items():
            if n['k'] == 'BinaryOperator' and n['op'] == '=':
                l = f.nodes[strip(f, n['ch'][0])]
                if l['k'] == 'DeclRefExpr' and l['d']['id'] == vid:
                    self.expr(f, n['ch'][1], out, seen)
            elif n['k'] == 'DeclStmt':
                for d in n['decls']:
                    if d['id'] == vid and 'init' in d:
                        self.expr(f, d['init'], out, seen)


def check_c24(rep, progs, ex):
    rep.rule('Constant propagation of every declared error code through the public message function: the text must name that code and its value and no '
             'other, texts are pairwise different, and values outside the declared range get a text that names none.  The Fortran constants are compared '
             'by name and value in both directions.  Every constant that a public function may return as a negative code is a declared one.')
    for cfg, P in progs.items():
        enum = error_enum(P)
        codes = {n: v for n, v in enum.items() if not n.startswith('_')}
        if len(set(codes.values())) != len(codes):
            vals = {}
            for n, v in codes.items():
                vals.setdefault(v, []).append(n)
            for v, ns in vals.items():
                if len(ns) > 1:
                    rep.v('value:' + '/'.join(sorted(ns)), 'src/apis/dlb_errors.h', '%s have the same value %d' % (' and '.join(sorted(ns)), v))
        # the public function that returns the message of a code
        msg = P.fns.get('DLB_Strerror') or P.fn('error_get_str')
        rep.analysed({msg.id})
        texts = {}
        where = '%s (%s)' % (msg.file, msg.name)
        for n, v in sorted(codes.items(), key=lambda x: -x[1]):
            rep.count('code', n)
            t = text_of(P, msg.id, v)
            if len(t) != 1 or None in t:
                rep.v('message:' + n, where, 'the message of %s (%d) is not one constant text' % (n, v))
                continue
            t = t.pop()
            named = set(re.findall(r'\bDLB_\w+', t))
            num = re.findall(r'\((-?\d+)\)', t)
            if named != {n}:
                rep.v('message:' + n, where, 'the message of %s (%d) is "%s"' % (n, v, t))
            elif num and num != [str(v)]:
                rep.v('number:' + n, where, 'the message of %s (%d) is "%s"' % (n, v, t))
            body = re.sub(r'^\W*DLB_\w+\W*(\(-?\d+\))?\W*', '', t)
            if not body.strip():
                rep.v('message:' + n, where, 'the message of %s (%d) has no text' % (n, v))
            if body in texts:
                rep.v('same:' + n, where, '%s and %s have the same message "%s"' % (texts[body], n, body))
            texts.setdefault(body, n)
        lo, hi = min(codes.values()), max(codes.values())
        for v in (lo - 1, lo - 2, -1000, hi + 1, hi + 2, 1000):
            rep.count('outside', str(v))
            for t in text_of(P, msg.id, v):
                if t is None or re.search(r'\bDLB_(ERR_)?[A-Z]', t):
                    rep.v('outside:%d' % v, where, 'the value %d, which is no code, has the message %s' % (v, t and '"%s"' % t))
        # constants returned by the public functions
        R = RetConsts(P)
        for fid in sorted(bounds.api_roots(P)):
            f = P.fns.get(fid)
            if f is None or f.ret is None or f.types[f.ret].get('k') != 'int' or f.types[f.ret].get('size') != 4:
                continue
            cs = R.of(fid)
            rep.count('returning', f.name)
            for c, (g, i) in cs.items():
                rep.count('returned_constant')
                if c < 0 and c not in codes.values():
                    rep.v('undeclared:%s:%d' % (f.name, c), '%s:%d (%s)' % (g.file, g.nodes[i]['l'], g.name), '%s may return %d, which is not a declared code' % (f.name, c))
        d = os.path.join(REPO, 'src', 'apis')
        fc = {}
        for fn in sorted(os.listdir(d)):
            if fn.startswith('dlbf') and fn.endswith('.h'):
                for n, v in parse_fortran(os.path.join(d, fn))[1].items():
                    n = n.upper()
                    if n in codes or n.startswith('DLB_ERR_'):
                        fc[n] = (v, fn)
        for n, v in codes.items():
            rep.count('fortran_code', n)
            if n not in fc:
                rep.v('fortran:' + n, 'src/apis', '%s has no Fortran constant' % n)
            elif fc[n][0] != v:
                rep.v('fortran:' + n, 'src/apis/' + fc[n][1], '%s is %d in C and %d in Fortran' % (n, v, fc[n][0]))
        for n, (v, fn) in fc.items():
            if n not in codes:
                rep.v('fortran:' + n, 'src/apis/' + fn, '%s is no code of the C interface' % n)
    rep.need('code', 10)
    rep.need('fortran_code', 10)
