"""What the TALP report writers emit, format by format (C28)."""
import csv
import io
import json
import re
import xml.etree.ElementTree as ET
from flow import *
from names import *
from program import AnalysisError, strip, walk

EMIT = {'fprintf': (0, 1), '__fprintf_chk': (0, 2), 'fputs': (1, 0), 'fputc': (1, 0), 'putc': (1, 0)}
PLAIN = {'fputs', 'fputc', 'putc'}
CONV = re.compile(r'%(?:(%)|([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|j|z|t|L)?([diouxXeEfFgGaAcspn]))')
STRUCT = ('json', 'xml', 'csv')
LISTS = ('pop', 'node', 'region')
# labels and column names that are not simply the words of the field's name
ALIAS = {'process': {'pid', 'hostname'}, 'processid': {'pid'}, 'notusefulmpi': {'mpitime'}, 'notusefulomploadimbalance': {'omploadimbalancetime'},
         'notusefulomploadbalance': {'omploadimbalancetime'}, 'notusefulompscheduling': {'ompschedulingtime'}, 'notusefulompserialization': {'ompserializationtime'},
         'ipc': {'instructions', 'cycles'}, 'averageipc': {'instructions', 'cycles'}, 'omploadimbalance': {'omploadimbalancetime'},
         'region': {'name'}, 'cpuset': {'cpuset', 'cpusetquoted'}, 'timestamp': {'timeofcreation'}, 'processusefultime': {'usefultime'}, 'processmpitime': {'mpitime'},
         'nodeavgusefultime': {'avgusefultime'}, 'nodeavgmpitime': {'avgmpitime'}, 'nodemaxusefultime': {'maxusefultime'}, 'nodemaxmpitime': {'maxmpitime'},
         'nummpiprocesses': {'nummpiranks'}, 'extendedreportnode': {'nodeid'}, 'avgipc': {'instructions', 'cycles'}, 'numompexplicittasks': {'numomptasks'},
         'numompparallelregions': {'numompparallels'}, 'maxusefultimeacrossnodes': {'maxusefulnormdnode'}, 'maxusefultimeacrossprocesses': {'maxusefulnormdproc'},
         'mpitimenormalizedtoapp': {'mpinormdapp'}, 'usefultimenormalizedtoapp': {'usefulnormdapp'}, 'theprocesswiththemaxusefultime': {'mpinormdofmaxuseful'},
         'mpitimenormalizedatnodelevelof': {'mpinormdofmaxuseful'}}


def norm(s):
    return re.sub(r'[^a-z0-9]', '', s.lower()).replace('openmp', 'omp')


def pieces(fmt):
    """the literal parts and conversions of a format"""
    out, at = [], 0
    for m in CONV.finditer(fmt):
        if m.start() > at:
            out.append(('lit', fmt[at:m.start()]))
        out.append(('lit', '%') if m.group(1) else ('conv', m))
        at = m.end()
    if at < len(fmt):
        out.append(('lit', fmt[at:]))
    return out


def fields_in(P, v, acc=None):
    """final field names (with their aliases) of the locations a value is read from"""
    acc = set() if acc is None else acc
    if isinstance(v, tuple):
        if len(v) >= 3 and v[0] == 's' and v[1] in ('ld', 'uns', 'at') or v[0] == '&' and len(v) == 2:
            loc = v[2] if v[0] == 's' else v[1]
            while loc[0] == 'e':
                loc = loc[1]
            if loc[0] == 'f':
                acc.add((loc[2], loc[3]))
                return acc
        for x in v:
            fields_in(P, x, acc)
    return acc


def names_of(P, v):
    out = {norm(v[2].replace('_str', ''))} if v[:2] == ('s', 'P') and '#' not in str(v[2]) else set()
    for n, r in fields_in(P, v):
        rec = P.records.get(r)
        sib = [n]
        if rec:
            off = [f['off'] for f in rec['fields'] if f['n'] == n]
            sib += [f['n'] for f in rec['fields'] if off and f['off'] == off[0] and f['n']]
        out |= {norm(x) for x in sib}
    return out


def roots(v, acc=None):
    acc = set() if acc is None else acc
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 's' and v[1] == 'P' and isinstance(v[2], str) and v[2].split('#')[0] in LISTS:
            acc.add(v[2])
        for x in v:
            roots(x, acc)
    return acc


def index_of(v):
    """the constant element indexes on the way to the object the value is a member of"""
    out = []
    if v[0] == '&':
        l = v[1]
        while l[0] == 'e':
            l = l[1]
        v = ('&', l)

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'e' and isinstance(x[2], tuple) and x[2][0] == 'c':
                out.append(x[2][1])
            for y in x:
                go(y)
    go(v)
    return tuple(out)


class OutRule(Rule):
    """r = events of the path: files opened, text written to each, locale in force, choices made"""
    exact = True
    print_ = False

    def __init__(self, P, inl):
        self.P, self.inl, self.unknown, self.types, self.sites = P, inl, {}, {}, set()

    def initial(self, E):
        return ()

    def inline(self, E, fid):
        return fid in self.inl

    def on_call(self, E, st, fid, args, node, fr):
        f = fr.fn
        if fid in EMIT:
            fi, si = EMIT[fid]
            if args[fi][0] == 's' and args[fi][1] != 'P' and 'std' in repr(args[fi]):
                return None
            s = args[si]
            if s[0] == '&' and s[1][0] == 'd' and s[1][1][0] == 'str':
                s = s[1][1]
            if fid in ('fputc', 'putc') and s[0] == 'c':
                s = ('str', chr(s[1]))
            self.sites.add((f.id, node))
            rest = args[si + 1:] if fid not in PLAIN else []
            if s[0] != 'str' and fid == 'fputs':
                s, rest = ('str', '%s'), [s]
            if s[0] != 'str':
                raise AnalysisError('the text written at %s is not a constant format' % E.where(node, fr))
            fmt = s[1].replace('%', '%%') if fid in PLAIN and not rest else s[1]
            self.check_types(E, f, node, fmt, si, fr)
            st.r = st.r + (('emit', args[fi], fmt, tuple(rest), f.name),)
            return [(st, ('c', 1))]
        c = self.P.fns.get(fid)
        if c is not None and self.print_ and fid not in self.inl and printer(c):
            s = args[0][1][1] if args[0][0] == '&' and args[0][1][0] == 'd' else args[0]
            if s[0] != 'str':
                raise AnalysisError('the text printed at %s is not a constant format' % E.where(node, fr))
            self.sites.add((f.id, node))
            self.check_types(E, f, node, s[1], 0, fr)
            st.r = st.r + (('print', s[1] + '\n', tuple(args[1:]), f.name),)
            return [(st, C0)]
        if fid in ('strcmp', 'strcasecmp', 'strncmp', 'strncasecmp'):
            lit = [a[1] for a in args[:2] if a[0] == 'str'] + [a[1][1][1] for a in args[:2] if a[0] == '&' and a[1][0] == 'd' and a[1][1][0] == 'str']
            if len(lit) == 1:
                t = st.copy()
                t.r = t.r + (('ext', lit[0].lstrip('.')),)
                return [(t, C0), (st, C1)]
        if fid == 'access':
            t = st.copy()
            t.r = t.r + (('exists', args[0], True),)
            st.r = st.r + (('exists', args[0], False),)
            return [(t, C0), (st, ('c', -1))]
        if fid in ('fopen', 'fopen64'):
            t = st.copy()
            m = args[1]
            m = m[1][1] if m[0] == '&' and m[1][0] == 'd' else m
            h = ('s', 'ret', fid, fr.ctx + (node,))
            st.r = st.r + (('open', h, m[1] if m[0] == 'str' else None, args[0]),)
            st = E.assume(st, ('!=', h, C0), True)
            return [(t, C0), (st, h)]
        if fid == 'fclose':
            st.r = st.r + (('close', args[0]),)
            return [(st, C0)]
        if fid == 'newlocale':
            s = args[1]
            s = s[1][1] if s[0] == '&' and s[1][0] == 'd' else s
            return [(st, ('s', 'ret', 'locale', s[1] if s[0] == 'str' else None))]
        if fid == 'uselocale':
            st.r = st.r + (('locale', args[0]),)
            return [(st, ('s', 'ret', 'callers locale', None))]
        if fid in ('g_slist_reverse',):
            st.r = st.r + (('reverse', args[0]),)
            return [(st, args[0])]
        c = self.P.fns.get(fid)
        if c is not None and fid not in self.inl and args and not any(mentions(a, lambda x: x[0] == 's' and x[1] == 'ret' and x[2] in ('fopen', 'fopen64')) for a in args):
            if c.types[c.ret]['k'] in ('fp', 'int') and 1 <= len(args) <= 2 and not self.P.mods(fid):
                return [(st, ('op', 'conv', args[0], args[-1]))]
            if args[0][0] == '&' and root_of(args[0][1])[0] == 'v' and len(args) > 1 and not args[0] == args[-1]:
                loc = E._whole(args[0][1])
                E.havoc_under(st, loc)
                st.mem[('x', 'text', loc)] = args[-1]
                return [(st, ('c', 1))]
        elif c is None and any(mentions(a, lambda x: x[0] == 's' and x[1] == 'ret' and x[2] in ('fopen', 'fopen64')) for a in args) and fid not in ('fflush', 'fileno', 'ferror', 'ftell', 'fseek'):
            raise AnalysisError('%s writes the report file in a way that is not understood (%s)' % (fid, E.where(node, fr)))
        return None

    def check_types(self, E, f, node, fmt, si, fr):
        n = f.nodes[node]
        argn = n['ch'][1 + si + 1:]
        convs = [p[1] for p in pieces(fmt) if p[0] == 'conv']
        k = 0
        bad = None
        for m in convs:
            k += (m.group(3) == '*') + (m.group(4) == '*')
            if k >= len(argn):
                bad = '%d values for %d conversions' % (len(argn), len(convs))
                break
            t = f.types[f.nodes[argn[k]]['t']]
            c, ln = m.group(6), m.group(5) or ''
            size = {'': 4, 'h': 4, 'hh': 4, 'l': 8, 'll': 8, 'j': 8, 'z': 8, 't': 8}.get(ln, 8)
            if c in 'diouxX' and (t['k'] not in ('int', 'bool', 'enum') or max(t.get('size') or 4, 4) != size):
                bad = 'conversion %d, %s, of a value of type %s' % (k + 1, m.group(0), t.get('s'))
            elif c in 'eEfFgGaA' and t['k'] != 'fp':
                bad = 'conversion %d, %s, of a value of type %s' % (k + 1, m.group(0), t.get('s'))
            elif c == 's' and t['k'] not in ('ptr', 'arr'):
                bad = 'conversion %d, %s, of a value of type %s' % (k + 1, m.group(0), t.get('s'))
            k += 1
        if bad is None and k < len(argn):
            bad = '%d values for %d conversions' % (len(argn), len(convs))
        if bad:
            self.types.setdefault((f.name, node), (E.where(node, fr), bad))


def printer(c):
    """a function of the library that takes a format and prints the text"""
    return getattr(c, 'variadic', False) or len(c.params) == 1 and c.name in ('info', 'verbose', 'warning') or c.name == 'info'


def printers(P, fin):
    """functions of the file that print records to the terminal"""
    hit = {g.id for g in P.fns.values() if g.file == fin.file and g.static and any(P.fns.get(P.resolve(c)) is not None and P.resolve(c) == 'info' for c in P.callees(g))}
    while True:
        more = {g.id for g in P.fns.values() if g.file == fin.file and g.static and g.id not in hit and any(P.resolve(c) in hit for c in P.callees(g))}
        if not more:
            return hit
        hit |= more


def emitters(P, fin):
    """functions of the file that write, print or finish the records"""
    hit = set()
    for g in P.fns.values():
        if g.file == fin.file and g.static and any(P.resolve(c) in set(EMIT) | {'fopen', 'fopen64', 'uselocale', 'strcmp', 'g_slist_reverse', 'access', 'strrchr'} for c in P.callees(g)):
            hit.add(g.id)
    while True:
        more = {g.id for g in P.fns.values() if g.file == fin.file and g.static and g.id not in hit and any(P.resolve(c) in hit for c in P.callees(g))}
        if not more:
            return hit
        hit |= more


def list_globals(P, fin):
    """kind of record -> the list of them"""
    out = {}
    recs = {'pop': 'dlb_pop_metrics_t', 'node': 'node_record_t', 'region': 'region_record_t'}
    fns = {'talp_output_record_pop_metrics': 'pop', 'talp_output_record_node': 'node', 'talp_output_record_process': 'region'}
    for fn, k in fns.items():
        f = P.fn(fn)
        work, seen = [f], {f.id}
        while work:
            g = work.pop()
            for s in P.stores(g) if hasattr(P, 'stores') else []:
                pass
            for i, n in g.nodes.items():
                if n.get('op') == '=' and n['k'] == 'BinaryOperator':
                    l = g.nodes[strip(g, n['ch'][0])]
                    if l['k'] == 'DeclRefExpr' and l.get('d', {}).get('k') == 'gvar' and '_GSList' in str(g.types[l['t']].get('s')) + str(g.types[l['t']].get('c')) + 'GSList' and g.types[l['t']]['k'] == 'ptr':
                        out[k] = ('g', l['d']['id'])
            for c in P.callees(g):
                h = P.fns.get(P.resolve(c))
                if h is not None and h.id not in seen and h.file == f.file:
                    seen.add(h.id)
                    work.append(h)
    if set(out) != set(LISTS):
        raise AnalysisError('lists of recorded data not found (%s)' % sorted(out))
    return out


def preset(E, P, rule, lists, counts, elems=2):
    """the state with so many records of each kind"""
    st = State(r=rule.initial(E))
    want = {}
    rec = {'node': [r for r in P.records if r.split('@')[0] == 'node_record_t'][0], 'region': [r for r in P.records if r.split('@')[0] == 'region_record_t'][0]}
    lrec = [r for r in P.records if {'data', 'next'} == {f['n'] for f in P.records[r]['fields']} and 'GSList' in r][0]
    for k in LISTS:
        cells = [('s', 'P', '%s#cell%d' % (k.upper(), i)) for i in range(counts[k])]
        st.mem[lists[k]] = cells[0] if cells else C0
        want[k] = []
        for i, c in enumerate(cells):
            d = ('s', 'P', '%s#%d' % (k, i))
            st.mem[('f', ('d', c), 'data', lrec)] = d
            st.mem[('f', ('d', c), 'next', lrec)] = cells[i + 1] if i + 1 < len(cells) else C0
            st = E.assume(E.assume(st, ('!=', d, C0), True), ('!=', c, C0), True)
            if k == 'node':
                st.mem[('f', ('d', d), 'nelems', rec['node'])] = ('c', elems)
            if k == 'region':
                st.mem[('f', ('d', d), 'num_mpi_ranks', rec['region'])] = ('c', elems)
            want[k].append(d[2])
    return st, want


class Doc:
    """one file written on one path"""

    def __init__(self, P, rule, ev):
        self.P, self.marks, self.text, self.vals = P, {}, '', []
        self.rule = rule
        self.fns = []

    def mark(self, v, conv, length):
        """a stand-in for a value, unique in the document"""
        i = len(self.vals)
        self.vals.append(v)
        if conv == 's':
            nm = names_of(self.P, v)
            t = 'T%dT' % i
            if 'cpusetquoted' in nm:
                t = '"0,%s"' % t
            elif 'name' in nm and self.quotable:
                t = 'a,%s' % t
            return t
        return str(100000000 + i)

    def emit(self, fmt, args, mem, kind, fn):
        self.quotable = kind == 'csv'
        args = list(args)
        for p in pieces(fmt):
            if p[0] == 'lit':
                self.text += p[1]
                continue
            m = p[1]
            for g in (3, 4):
                if m.group(g) == '*' and args:
                    args.pop(0)
            if not args:
                return
            v = args.pop(0)
            if v[0] == '&' and v[1][0] == 'd' and v[1][1][0] == 'str':
                v = v[1][1]
            if v[0] == 'str':
                self.text += v[1]
            elif v[0] == 'c':
                self.text += str(v[1])
            else:
                if v[0] == '&' and v[1][0] in ('v', 'e', 'f') and ('x', 'text', E_whole(v[1])) in mem:
                    v = mem[('x', 'text', E_whole(v[1]))]
                self.text += self.mark(v, m.group(6), m.group(5))

    def value(self, s):
        """the value a token stands for"""
        s = str(s)
        m = re.search(r'T(\d+)T', s) or re.match(r'\s*1(\d{8})(\.0*)?\s*$', s)
        return self.vals[int(m.group(1))] if m and int(m.group(1)) < len(self.vals) else None


def E_whole(l):
    return l[1] if l[0] == 'e' else l


def accept(P, label, v, ctx=()):
    """does a value belong under that name?"""
    n = norm(label)
    want = {n} | ALIAS.get(n, set())
    c = [norm(x) for x in ctx]
    if n == 'id':
        want = {'pid'} if c and c[-1] == 'process' else {'nodeid'}
    if c and c[-1] in ('nodeavg', 'nodemax'):
        want = {c[-1][4:] + n}
    return bool(names_of(P, v) & want), sorted(names_of(P, v))


def check_doc(rep, P, kind, text, doc, counts, want, bad, seen, append):
    """well-formed, every value under its own name, every record present"""
    def say(key, msg):
        bad.setdefault((kind, key), msg)
    got = []                     # (label path, value)
    objs = []                    # groups of values that belong to one object or row

    if kind == 'json':
        dup = []

        def pairs(ps):
            ks = [k for k, _ in ps]
            if len(set(ks)) != len(ks):
                dup.append([k for k in ks if ks.count(k) > 1][0])
            return ps
        try:
            tree = json.loads(text, object_pairs_hook=pairs)
        except ValueError as e:
            at = getattr(e, 'pos', 0)
            say('malformed', 'the JSON report cannot be parsed: %s, near %r' % (e.msg, text[max(0, at - 60):at + 20]))
            return
        if dup:
            say('duplicate:' + dup[0], 'the JSON report has the name %s twice in one object' % dup[0])

        def go(x, path):
            if isinstance(x, list) and x and all(isinstance(y, tuple) for y in x):
                grp = []
                for k, y in x:
                    kv = doc.value(k)
                    if kv is not None:
                        got.append((path + ('name',), kv))
                    if isinstance(y, list):
                        go(y, path + (('#' if kv is not None else k),))
                    else:
                        v = doc.value(y)
                        if v is not None:
                            got.append((path + (k,), v))
                            grp.append((k, v))
                objs.append((path, grp))
            elif isinstance(x, list):
                for y in x:
                    go(y, path)
        go(tree, ())
        def keys(x):
            if isinstance(x, list):
                for y in x:
                    if isinstance(y, tuple):
                        seen.setdefault('keys', set()).add(y[0])
                        keys(y[1])
                    else:
                        keys(y)
        keys(tree)
    elif kind == 'xml':
        try:
            root = ET.fromstring(text)
        except ET.ParseError as e:
            line = text.split('\n')[e.position[0] - 1] if text else ''
            say('malformed', 'the XML report cannot be parsed: %s, in %r' % (e, line[:80]))
            return

        def gox(x, path):
            grp = []
            for y in x:
                if len(y):
                    gox(y, path + (y.tag,))
                else:
                    v = doc.value((y.text or '').strip())
                    if v is not None:
                        got.append((path + (y.tag,), v))
                        grp.append((y.tag, v))
            objs.append((path, grp))
        gox(root, ())
    elif kind == 'csv':
        if text and not text.endswith('\n'):
            say('row-end', 'the last row of the CSV report does not end with a newline (it ends in %r)' % text[-20:])
        rows = list(csv.reader(io.StringIO(text)))
        rows = [r for r in rows if r]
        if not rows:
            return
        head = None
        if not append:
            head, rows = rows[0], rows[1:]
            if any(doc.value(c) is not None for c in head):
                say('header', 'a new CSV report does not start with a header row')
                return
            seen.setdefault('header', {})[doc.fns[0]] = head
        else:
            if not any(doc.value(c) is not None for c in rows[0]):
                say('header-again', 'a header row is written into a CSV report that already has one')
                return
            head = seen.get('header', {}).get(doc.fns[0])
        if head is None:
            return
        for r in rows:
            if len(r) != len(head):
                say('columns:' + head[0].lower() + '-' + head[1].lower(), 'a row has %d columns and the header has %d (%s)' % (len(r), len(head), ','.join(r)[:160]))
                return
            grp = []
            for h, c in zip(head, r):
                v = doc.value(c)
                if v is None:
                    say('column:' + h, 'column %s does not hold a recorded value' % h)
                    continue
                got.append((('row', h), v))
                grp.append((h, v))
            objs.append((('row',), grp))
    for path, v in got:
        ok, nm = accept(P, path[-1], v, path[:-1])
        if v[0] == 'op':
            say('changed:' + '/'.join(path), '%s report: the value under %s is computed, not the recorded one' % (kind.upper(), '/'.join(p for p in path if p != 'row')))
        rep.count('values', (kind, path, tuple(nm)))
        if not ok:
            say('field:' + '/'.join(path), '%s report: the value written under %s is %s' % (kind.upper(), '/'.join(p for p in path if p != 'row'), ' or '.join(nm) or 'not a field of the record'))
    # every record and every element once, each object from one record
    insts = {}
    for path, grp in objs:
        ids = set()
        for k, v in grp:
            for r in roots(v):
                insts.setdefault(r, set()).update({index_of(v)} if index_of(v) else set())
                ids.add((r, index_of(v)))
        rs = {r for r, _ in ids}
        ix = {i for _, i in ids if i}
        if len(rs) > 1 or len(ix) > 1:
            say('mixed:' + '/'.join(path), '%s report: one %s mixes values of different records' % (kind.upper(), path[-1] if path else 'object'))
    for k in LISTS:
        if not counts[k] or kind == 'csv' and not any(r.split('#')[0] == k for r in insts):
            continue
        for w in want[k]:
            if w not in insts:
                say('record:' + k, 'a %s record is missing from the %s report' % (k, kind.upper()))
            elif k != 'pop' and insts[w] < {(0,), (1,)}:
                say('element:' + k, 'a process of a %s record is missing from the %s report' % (k, kind.upper()))
        order = [r for r in insts if r.split('#')[0] == k]
        if order != sorted(order):
            say('order:' + k, 'the %s records are not written in the order of the list' % k)
    for path, v in got:
            for r in roots(v):
                seen.setdefault('fields', {}).setdefault(r.split('#')[0], {}).setdefault(kind, set()).update(n for n, _ in fields_in(P, v))


def check_table(rep, P, text, doc, bad, kind):
    """labelled lines and columns of the text report"""
    head = None
    for line in text.split('\n'):
        vals = [(m.start(), doc.value(m.group(0))) for m in re.finditer(r'T\d+T|\b1\d{8}\b', line)]
        if line.strip().startswith('|') and line.count('|') > 2:
            cells = [c.strip() for c in line.strip().strip('|').split('|')]
            if not vals:
                if not re.match(r'^[-|\s]*$', line.strip()):
                    head = cells
                continue
            if head and len(cells) == len(head):
                row = norm(cells[0]) if doc.value(cells[0]) is None else ''
                for h, c in list(zip(head, cells)):
                    v = doc.value(c.split()[0] if c.split() else '')
                    if v is None:
                        continue
                    want = norm(h)
                    if row.startswith('node'):
                        want = row[4:] + want
                    nm = names_of(P, v)
                    rep.count('labels', (kind, row, want))
                    if want not in nm and not nm & ALIAS.get(want, set()):
                        bad.setdefault((kind, 'label:' + (cells[0] + '/' if row else '') + h), 'the value in column %s%s is %s' % (h, ' of row ' + cells[0] if row else '', ' or '.join(sorted(nm))))
            continue
        if not vals:
            continue
        label = re.split(r'[:]', line, 1)[0] if ':' in line else line[:vals[0][0]]
        n = norm(re.sub(r'\(.*?\)', '', label.replace('Number of', 'num').replace('Average', 'avg').replace('Maximum', 'max')))
        if n in ('', 's'):
            continue
        want = {n} | ALIAS.get(n, set())
        for _, v in vals:
            nm = names_of(P, v)
            if not nm and n == 'ipc' and v[:2] == ('s', 'x'):
                continue                 # the quotient, or nothing, by a conditional expression
            rep.count('labels', (kind, n, tuple(sorted(nm))))
            if not nm & want:
                bad.setdefault((kind, 'label:' + n), 'the value on the line "%s" is %s' % (label.strip('# |-'), ' or '.join(sorted(nm)) or 'not a field of the record'))


def check_c28(rep, progs, ex):
    for cfg, P in progs.items():
        fin = P.fn('talp_output_finalize')
        lists = list_globals(P, fin)
        inl = emitters(P, fin) | {fin.id}
        rule = OutRule(P, inl)
        bad, seen = {}, {}
        covered = set()
        seen["header"] = {}
        scen = [dict(zip(LISTS, c)) for c in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 0, 0), (0, 2, 0), (0, 0, 2), (1, 1, 0), (0, 1, 1), (1, 0, 1), (1, 1, 1), (2, 2, 2), (0, 0, 0))]
        for counts in scen:
            E = Engine(P, rule, maxstates=4000, unroll=3000, budget=4000000)
            st, want = preset(E, P, rule, lists, counts)
            out = ('s', 'P', 'output_file')
            st = E.assume(st, ('!=', out, C0), True)
            paths = E.run(fin, args=[out] * len(fin.params), st=st)
            covered |= E.covered
            docs = set()
            for s, _ in paths:
                key = s.r
                if key in docs:
                    continue
                docs.add(key)
                judge(rep, P, rule, s, counts, want, bad, seen)
            rep.count('scenarios', (cfg, tuple(counts.values())))
            rep.count('reports', (cfg, tuple(counts.values()), len(docs)))
        # what is printed when no file is asked for
        rule.print_ = True
        rule.inl = inl | printers(P, fin)
        mon = P.fn('talp_output_print_monitoring_region')
        for k in LISTS + ('monitor',):
            E = Engine(P, rule, maxstates=4000, unroll=3000, budget=4000000)
            st, want = preset(E, P, rule, lists, {x: int(x == k) for x in LISTS}, 1)
            paths = E.run(fin, args=[C0] * len(fin.params), st=st) if k != 'monitor' else E.run(mon)
            covered |= E.covered
            shown = set()
            for s, _ in paths:
                d = Doc(P, rule, None)
                for e in s.r:
                    if e[0] == 'print':
                        d.emit(e[1], e[2], s.mem, 'print', e[3])
                shown |= {r.split('#')[0] for v in d.vals for r in roots(v)} | ({'monitor'} if k == 'monitor' and d.vals else set())
                check_table(rep, P, d.text, d, bad, 'print')
            if k not in shown:
                bad.setdefault(('print', 'none:' + k), 'the %s data is not printed' % k)
        records(rep, P, lists, bad, cfg)
        fields = seen.get('fields', {})
        for k, by in sorted(fields.items()):
            full = set().union(*by.values())
            for kind in STRUCT:
                if kind not in by:
                    bad.setdefault((kind, 'none:' + k), 'no %s report contains the %s records' % (kind.upper(), k))
                    continue
                for n in sorted(full - by[kind]):
                    if not (n in ('cpuset', 'cpuset_quoted') and by[kind] & {'cpuset', 'cpuset_quoted'}):
                        bad.setdefault((kind, 'missing:' + k + ':' + n), 'the %s report of the %s records leaves out %s, which another format has' % (kind.upper(), k, n))
            rep.count('quantities', (cfg, k, tuple(sorted(full))))
        consumers(rep, P, ex, seen, bad)
        for (fn, node), (w, m) in sorted(rule.types.items()):
            rep.v('%s:type' % fn, w, m)
        for (kind, key), m in sorted(bad.items()):
            rep.v('%s:%s' % (kind, key), 'src/support/talp_output.c', m)
        rep.analysed(covered)
        for s in rule.sites:
            rep.count('sites', (cfg,) + s)
    rep.need('copies', 3)
    rep.need('consumed', 3)
    rep.need('values', 80)
    rep.need('labels', 20)
    rep.need('sites', 20)
    rep.rule('the text of every report is followed on every path of the finalisation, for no, one and two records of each kind: JSON and XML parse, CSV rows have the columns of '
             'the header and end with a newline, a header is written exactly into new files; every value stands under the name of the field it is read from; every record and '
             'process appears once, in order; all structured formats carry the same quantities; conversions fit the types; numbers are written in the C locale')


def judge(rep, P, rule, s, counts, want, bad, seen):
    ext, docs, loc, exists = None, {}, None, {}
    rev = {}
    for e in s.r:
        if e[0] == 'ext' and ext is None:
            ext = e[1]
        elif e[0] == 'exists':
            exists[e[1]] = e[2]
        elif e[0] == 'locale':
            loc = e[1]
        elif e[0] == 'reverse':
            rev[e[1]] = rev.get(e[1], 0) + 1
        elif e[0] == 'open':
            kind = {'json': 'json', 'xml': 'xml', 'csv': 'csv'}.get(ext, 'txt')
            d = Doc(P, rule, None)
            d.mode, d.path, d.open, d.kind = e[2], e[3], True, kind
            docs[e[1]] = d
        elif e[0] == 'close':
            if e[1] in docs:
                docs[e[1]].open = False
        elif e[0] == 'emit':
            d = docs.get(e[1])
            if d is None or not d.open:
                bad.setdefault((ext or 'txt', 'closed'), 'text is written to a file that is not open')
                continue
            if loc != ('s', 'ret', 'locale', 'C') and loc != ('s', 'ret', 'locale', 'POSIX'):
                bad.setdefault((d.kind, 'locale'), 'numbers are written in the locale of the application (a decimal comma breaks the report)')
            d.emit(e[2], e[3], s.mem, d.kind, e[4])
            d.fns.append(e[4])
    if loc is not None and loc[2] == 'locale':
        bad.setdefault(('all', 'locale-kept'), 'the locale of the application is not restored')
    for h, d in docs.items():
        if d.open:
            bad.setdefault((d.kind, 'left-open'), 'the report file is not closed')
        ex = exists.get(d.path)
        if d.kind == 'csv':
            if ex is not None and d.mode is not None and ex != d.mode.startswith('a'):
                bad.setdefault(('csv', 'mode'), 'a CSV report that %s is opened with mode "%s"' % ('exists' if ex else 'does not exist', d.mode))
        if d.kind == 'txt':
            check_table(rep, P, d.text, d, bad, 'txt')
        else:
            check_doc(rep, P, d.kind, d.text, d, counts, want, bad, seen, bool(ex))
    if docs and next(iter(docs.values())).kind == 'csv':
        have = {r.split('#')[0] for d in docs.values() for v in d.vals for r in roots(v)}
        n = len([k for k in LISTS if counts[k]])
        if len(docs) >= n:
            for k in LISTS:
                if counts[k] and k not in have:
                    bad.setdefault(('csv', 'record:' + k), 'the %s records are not written to any CSV report' % k)
    elif not docs and False:
        pass


class RecordRule(Rule):
    """r = (whole copies made, ways the list grew); allocated sizes by block"""
    exact = True

    def __init__(self, P, f, g):
        self.P, self.f, self.g, self.bad = P, f, g, []

    def initial(self, E):
        return ()

    def inline(self, E, fid):
        g = self.P.fns.get(fid)
        return g is not None and g.static and g.file == self.f.file

    def key_extra(self, E, st):
        return frozenset(st.facts.items())

    def on_call(self, E, st, fid, args, node, fr):
        if fid in ('malloc', 'calloc', 'realloc'):
            v = ('s', 'ret', fid, fr.ctx + (node,))
            st.mem[('x', 'size', v)] = args[-1] if fid != 'calloc' else E.simp('*', args[0], args[1])
            return [(E.assume(st, ('!=', v, C0), True), v)]
        if fid in ('g_slist_prepend', 'g_slist_append', 'g_slist_insert'):
            st.r = st.r + (('grow', fid, args[0], args[1]),)
            return [(st, ('s', 'ret', fid, fr.ctx + (node,)))]
        if fid in ('memcpy', 'memmove', '__builtin_memcpy'):
            st.r = st.r + (('copy', args[0], args[1], args[2], st.mem.get(('x', 'size', args[0]))),)
            return None
        if fid == 'strcmp':
            t = st.copy()
            return [(t, C0), (st, C1)]
        return None

    def on_store(self, E, st, loc, val, node, fr):
        if val[0] == 'obj' and fr.fn.types[fr.fn.nodes[node]['t']]['k'] == 'rec':
            st.r = st.r + (('copy', ('&', loc), ('&', val[1]), None, st.mem.get(('x', 'size', loc[1])) if loc[0] == 'd' else None),)


def records(rep, P, lists, bad, cfg):
    """recording keeps the whole of what it is given, in the order the reports are written"""
    fin = P.fn('talp_output_finalize')
    rev = {k: 0 for k in LISTS}
    r = OutRule(P, emitters(P, fin))
    E = Engine(P, r, maxstates=4000, unroll=3000)
    st, _ = preset(E, P, r, lists, {'pop': 1, 'node': 1, 'region': 1}, 1)
    for s, _ in E.run(fin, args=[C0] * len(fin.params), st=st):
        for k in LISTS:
            rev[k] = max(rev[k], len([e for e in s.r if e[0] == 'reverse' and roots_cell(e[1], k)]))
    for fn, k, pi in (('talp_output_record_pop_metrics', 'pop', 0), ('talp_output_record_node', 'node', 0), ('talp_output_record_process', 'region', 1)):
        f = P.fn(fn)
        ps = [i for i, p in enumerate(f.params) if f.types[p['t']]['k'] == 'ptr' and f.types[f.types[p['t']]['p']]['k'] == 'rec']
        if len(ps) != 1:
            raise AnalysisError('%s does not take one record' % fn)
        rule = RecordRule(P, f, lists[k])
        E = Engine(P, rule, unroll=2)
        args = [('s', 'P', 'arg%d' % i) for i in range(len(f.params))]
        src = args[ps[0]]
        rt = f.types[f.types[f.params[ps[0]]['t']]['p']]
        for s, _ in E.run(f, args=args):
            grow = [e for e in s.r if e[0] == 'grow']
            copies = [e for e in s.r if e[0] == 'copy' and (e[2] == src or e[2] == ('&', ('d', src)))]
            rep.count('copies', (cfg, fn, len(copies)))
            if not copies:
                bad.setdefault(('record', fn), '%s: on some path the data is not copied' % fn)
            for c in copies:
                size = rt.get('size')
                if c[3] is None or c[3][0] == 'c':
                    if c[3] is not None and size and c[3][1] < size:
                        bad.setdefault(('record', fn + ':size'), '%s copies %d of the %d bytes of the record' % (fn, c[3][1], size))
                    if k == 'node':
                        bad.setdefault(('record', fn + ':size'), '%s does not copy the processes of the node' % fn)
                elif c[4] is None or c[3] != c[4]:
                    bad.setdefault(('record', fn + ':size'), '%s: the number of bytes copied is not the size of the new record' % fn)
                if k == 'region':
                    ix = [x for x in subterms(c[1]) if x[0] == 'e' and len(x) == 3]
                    if not ix or not any('rank' in {n for n, _ in fields_in(P, x[2])} for x in ix):
                        bad.setdefault(('record', fn + ':place'), '%s does not copy the data into the place of its rank' % fn)
            for g in grow:
                if (g[1] == 'g_slist_prepend') != (rev[k] == 1):
                    bad.setdefault(('record', fn + ':order'), 'the records added with %s are written in the opposite order' % g[1])
            if k != 'region' and len(grow) != 1:
                bad.setdefault(('record', fn + ':list'), '%s adds the record %d times to the list' % (fn, len(grow)))


def roots_cell(v, k):
    return v[:2] == ('s', 'P') and str(v[2]).startswith(k.upper())


def subterms(v):
    if isinstance(v, tuple):
        yield v
        for x in v:
            yield from subterms(x)


def consumers(rep, P, ex, seen, bad):
    """the names TALP-Pages reads are names the JSON writer writes"""
    import ast
    import glob
    import os
    import program
    base = os.path.join(program.REPO if hasattr(program, 'REPO') else '/repo', 'talp-pages/talp_pages')
    trees = {f: ast.parse(open(f).read()) for f in sorted(glob.glob(base + '/**/*.py', recursive=True))}
    if not trees:
        return
    const, made, read, optional = {}, set(), {}, {'metadata', 'gitCommit', 'gitTimestamp'}
    for f, t in trees.items():
        for n in ast.walk(t):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
                for x in n.targets:
                    if isinstance(x, ast.Name):
                        const[x.id] = n.value.value
    def key(n):
        return n.value if isinstance(n, ast.Constant) and isinstance(n.value, str) else const.get(n.id) if isinstance(n, ast.Name) else None
    loaders = [f for f, t in trees.items() if any(isinstance(n, ast.Attribute) and n.attr == 'load' and isinstance(n.value, ast.Name) and n.value.id == 'json' for n in ast.walk(t))]
    for f, t in trees.items():
        for n in ast.walk(t):
            if isinstance(n, ast.Subscript) and key(n.slice):
                if isinstance(n.ctx, ast.Store):
                    made.add(key(n.slice))
                elif f in loaders:
                    read.setdefault(key(n.slice), f)
    written = seen.get('keys', set())
    for k, f in sorted(read.items()):
        if k in made or k in optional:
            continue
        rep.count('consumed', k)
        if k not in written:
            bad.setdefault(('consumer', k), 'TALP-Pages reads "%s" (%s), which the JSON report does not contain' % (k, f.split('/repo/')[-1]))
