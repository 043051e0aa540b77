"""Extracts and loads the type-checked program of /repo (see tool/dlbfacts.cpp).

A Program is one linked configuration of the library:
  mpi    libdlb_mpi.so (+ libdlb_common.a), generated MPI sources included   [release flags]
  base   libdlb.so     (+ libdlb_common.a)                                   [release flags]
  dbg    libdlb.so     with -DDEBUG_VERSION
  instr  libdlb_instr.so / libdlb_mpi_instr.so (-DINSTRUMENTATION_VERSION)
  tools  dlb, dlb_run, dlb_shm, dlb_taskset, each with its own main
"""
import json, os, re, shlex, shutil, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
TOOLDIR = os.path.join(os.path.dirname(HERE), 'tool')


class AnalysisError(Exception):
    """The analysis could not be carried out (not a verdict)."""


def tool_path():
    src = os.path.join(TOOLDIR, 'dlbfacts.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:12]
    out = os.path.join(TOOLDIR, 'bin', 'dlbfacts-' + h)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        r = subprocess.run(['sh', os.path.join(TOOLDIR, 'build.sh'), out], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError('cannot build the fact exporter: ' + r.stderr[-400:])
    return out


def _run(cmd, cwd, env, timeout=300):
    r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    if r.returncode:
        raise AnalysisError('command failed: %s\n%s' % (' '.join(cmd), (r.stdout + r.stderr)[-1500:]))
    return r.stdout


class Extraction:
    """Configures a scratch meson build of /repo, generates sources, runs the exporter per TU."""

    def __init__(self, configs, keep=False):
        self.scratch = tempfile.mkdtemp(prefix='dlbverif.', dir=os.environ.get('TMPDIR', '/tmp'))
        # the path component /.dlbbuild/ marks generated sources as part of the program
        self.build = os.path.join(self.scratch, '.dlbbuild')
        self.configs = configs
        self.keep = keep
        self.programs = {}
        self.stats = {}

    def close(self):
        if not self.keep and self.scratch.startswith('/') and 'dlbverif.' in self.scratch:
            shutil.rmtree(self.scratch, ignore_errors=True)

    def env(self):
        e = {k: v for k, v in os.environ.items() if k not in ('CFLAGS', 'FCFLAGS', 'LDFLAGS', 'CPPFLAGS', 'PYTHONPATH')}
        e.update(HOME=os.environ.get('HOME') or '/root', CC='gcc', FC='gfortran', LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1',
                 PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
        return e

    def configure(self):
        t = time.time()
        env = self.env()
        _run(['meson', 'setup', self.build, REPO, '--buildtype=debugoptimized', '--wrap-mode=nodownload', '-Dwerror=false',
              '-Dc_args=-Wno-error', '-Dmpi=enabled', '-Dhwloc=enabled', '-Dpapi=enabled'], '/', env)
        tg = _run(['ninja', '-t', 'targets', 'all'], self.build, env)
        gen = [l.split(':')[0] for l in tg.splitlines() if re.match(r'libdlb_mpi(_instr)?\.so\.p/LB_MPI/.*: CUSTOM_COMMAND', l)]
        if not gen:
            raise AnalysisError('no generated MPI sources in the build description')
        _run(['ninja'] + gen, self.build, env)
        self.compdb = json.loads(_run(['ninja', '-t', 'compdb'], self.build, env))
        self.stats['configure_s'] = round(time.time() - t, 2)

    def units(self, config):
        """(file, flags) of each C translation unit of a configuration"""
        pick = {'mpi': ['libdlb_mpi.so.p', 'libdlb_common.a.p'], 'base': ['libdlb.so.p', 'libdlb_common.a.p'],
                'dbg': ['libdlb.so.p', 'libdlb_common.a.p'], 'instr': ['libdlb_mpi_instr.so.p', 'libdlb_instr.so.p', 'libdlb_common.a.p'],
                'tools': ['dlb.p', 'dlb_run.p', 'dlb_shm.p', 'dlb_taskset.p']}[config]
        out, seen = [], set()
        for want in pick:
            for c in self.compdb:
                tgt = c['output'].split('/')[0]
                f = os.path.normpath(os.path.join(c['directory'], c['file']))
                if tgt != want or not f.endswith('.c') or f in seen:
                    continue
                if config == 'instr' and want == 'libdlb_instr.so.p' and any(os.path.basename(s) == os.path.basename(f) for s in seen):
                    continue
                seen.add(f)
                a = shlex.split(c['command'])[1:]
                fl, i = [], 0
                while i < len(a):
                    x = a[i]
                    if x in ('-MQ', '-MF', '-o', '-c'):
                        i += 2
                        continue
                    if x.startswith(('-I', '-D')) or x in ('-fvisibility=hidden', '-pthread', '-fPIC'):
                        fl.append(x)
                    elif x in ('-isystem', '-include'):
                        fl += [x, a[i + 1]]
                        i += 1
                    i += 1
                if config == 'dbg':
                    fl.append('-DDEBUG_VERSION')
                out.append((f, fl))
        if not out:
            raise AnalysisError('no translation units for configuration ' + config)
        return out

    def extract(self):
        self.configure()
        tool = tool_path()
        jobs = []
        for cfg in self.configs:
            for i, (f, fl) in enumerate(self.units(cfg)):
                jobs.append((cfg, f, fl, os.path.join(self.scratch, '%s.%d.json' % (cfg, i))))

        def one(j):
            cfg, f, fl, out = j
            r = subprocess.run([tool, out, os.path.realpath(REPO) + '/', '--'] + fl + ['-w', '-include', os.path.join(HERE, 'cpuset_model.h'),
                               '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', f], cwd=self.build, capture_output=True, text=True)
            if r.returncode or not os.path.exists(out):
                return (j, r.stderr[-800:])
            return (j, None)
        t = time.time()
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, jobs))
        bad = [(j[1], e) for j, e in res if e]
        if bad:
            raise AnalysisError('cannot analyse %s: %s' % bad[0])
        self.stats['extract_s'] = round(time.time() - t, 2)
        self.stats['translation_units'] = len(jobs)
        t = time.time()
        for cfg in self.configs:
            p = Program(cfg)
            for j in jobs:
                if j[0] == cfg:
                    p.load(j[3])
            p.finish()
            self.programs[cfg] = p
        self.stats['load_s'] = round(time.time() - t, 2)
        return self.programs


class Fn:
    __slots__ = ('id', 'name', 'file', 'line', 'static', 'params', 'nodes', 'cfg', 'body', 'raw', 'types', 'tu', 'endline',
                 '_blocks', '_rpo', '_loops', '_live', 'parent', 'calls', 'ret')

    def __repr__(self):
        return '<fn %s>' % self.id

    def base(self):
        return os.path.basename(self.file)


class Program:
    def __init__(self, name):
        self.name = name
        self.fns, self.globals, self.records, self.enums, self.enumconst = {}, {}, {}, {}, {}
        self.decls, self.byname = {}, {}
        self.tus = []
        self.nfiles = 0

    def load(self, path):
        d = json.load(open(path))
        types = d['types']
        self.nfiles += 1
        tu = os.path.basename(d['file'])
        self.tus.append(d['file'])
        for f in d['functions']:
            o = Fn()
            o.id, o.name, o.file, o.line, o.static = f['id'], f['n'], f['file'], f['line'], f['static']
            if o.name == 'main':
                o.id = 'main@' + os.path.basename(f['file'])
            o.params, o.cfg, o.body, o.raw, o.types, o.tu = f['params'], f['cfg'], f['body'], f, types, tu
            o.nodes = {int(k): v for k, v in f['nodes'].items()}
            o.endline = f['endline']
            o._blocks = o._rpo = o._loops = o._live = None
            o.ret = types[f['t']].get('ret')
            o.parent = None
            f['nodes'] = None
            if o.id in self.fns:
                continue   # header inline seen in several TUs
            self.fns[o.id] = o
            self.byname.setdefault(o.name, []).append(o)
        for g in d['globals']:
            g['types'] = types
            if 'nodes' in g:
                g['nodes'] = {int(k): v for k, v in g['nodes'].items()}
            old = self.globals.get(g['id'])
            if old is None or (g.get('init') is not None) or (g['def'] and not old['def']):
                self.globals[g['id']] = g
        for r in d['records']:
            for fl in r['fields']:
                fl['ty'] = types[fl['t']]
            r['types'] = types
            self.records.setdefault(r['name'], r)
        for e in d['enums']:
            self.enums.setdefault(e['name'], e)
            for n, v in e['consts']:
                self.enumconst[n] = v
        for x in d['decls']:
            x['types'] = types
            self.decls.setdefault(x['id'], []).append(x)

    def finish(self):
        self._cg = None
        self.addr_taken = set()
        self._mod = None
        for f in self.fns.values():
            f.calls = []
            callee_nodes = set()
            for i, n in f.nodes.items():
                if n['k'] == 'CallExpr':
                    f.calls.append(i)
                    c = n['ch'][0]
                    while f.nodes[c]['k'] in ('ImplicitCastExpr', 'ParenExpr'):
                        c = f.nodes[c]['ch'][0]
                    callee_nodes.add(c)
            for i, n in f.nodes.items():
                if n['k'] == 'DeclRefExpr' and n['d']['k'] == 'func' and i not in callee_nodes:
                    self.addr_taken.add(self.resolve(n['d']['id']))
        for g in self.globals.values():
            for n in g.get('nodes', {}).values():
                if n['k'] == 'DeclRefExpr' and n['d']['k'] == 'func':
                    self.addr_taken.add(self.resolve(n['d']['id']))

        self._infer_noreturn()

    def _infer_noreturn(self):
        """functions whose end cannot be reached (they end in abort/exit/another such function)"""
        changed = True
        while changed:
            changed = False
            for f in self.fns.values():
                if f.raw.get('nr') or not f.cfg:
                    continue
                B = build_blocks(f)
                seen, todo = set(), [f.cfg['entry']]
                while todo:
                    b = todo.pop()
                    if b in seen or b < 0:
                        continue
                    seen.add(b)
                    if B[b].get('noret') or any(f.nodes[e].get('nr') for e in B[b]['e']):
                        continue
                    todo += B[b]['s']
                if f.cfg['exit'] not in seen:
                    f.raw['nr'] = True
                    changed = True
                    for g in self.fns.values():
                        for c in g.calls:
                            if g.nodes[c].get('fn') == f.id:
                                g.nodes[c]['nr'] = True

    def resolve(self, fid):
        return fid

    # ---- queries
    def fn(self, name, required=True):
        if name in self.fns:
            return self.fns[name]
        l = self.byname.get(name)
        if l:
            return l[0]
        if required:
            raise AnalysisError('anchor function %s not found in configuration %s' % (name, self.name))
        return None

    def callees(self, f):
        """direct callee ids, plus functions whose address is taken in f"""
        s = set()
        for i in f.calls:
            fid = f.nodes[i].get('fn')
            if fid:
                s.add(fid)
        return s

    def refs(self, f):
        s = set()
        for n in f.nodes.values():
            if n['k'] == 'DeclRefExpr' and n['d']['k'] == 'func':
                s.add(n['d']['id'])
        return s

    def closure(self, seed, use_refs=False):
        """ids of functions from which some function satisfying seed can be reached"""
        rev = {}
        for f in self.fns.values():
            for c in (self.refs(f) if use_refs else self.callees(f)):
                if c in self.fns and self.fns[c].raw.get('nr'):
                    continue      # control does not come back from it
                rev.setdefault(c, set()).add(f.id)
        todo = [f.id for f in self.fns.values() if seed(f)]
        out = set(todo)
        while todo:
            x = todo.pop()
            for y in rev.get(x, ()):
                if y not in out:
                    out.add(y)
                    todo.append(y)
        return out

    def reach(self, roots):
        out, todo = set(), list(roots)
        while todo:
            x = todo.pop()
            if x in out or x not in self.fns:
                continue
            out.add(x)
            todo += list(self.refs(self.fns[x]))
        return out

    def enum(self, name):
        if name not in self.enums:
            raise AnalysisError('enum %s not found' % name)
        return dict((a, b) for a, b in self.enums[name]['consts'])

    def const(self, name):
        if name not in self.enumconst:
            raise AnalysisError('constant %s not found' % name)
        return self.enumconst[name]

    def record(self, name):
        if name not in self.records:
            raise AnalysisError('record %s not found' % name)
        return self.records[name]

    # ---- mod summaries: (record,field) pairs, globals stored, transitively
    def mods(self, fid):
        if self._mod is None:
            direct = {f.id: self._direct_mods(f) for f in self.fns.values()}
            # fixpoint
            changed = True
            cal = {f.id: [c for c in self.callees(f) if c in self.fns] for f in self.fns.values()}
            while changed:
                changed = False
                for f in direct:
                    for c in cal[f]:
                        if not direct[c] <= direct[f]:
                            direct[f] |= direct[c]
                            changed = True
            self._mod = direct
        return self._mod.get(fid, set())

    def _direct_mods(self, f):
        s = set()

        def lv(i):
            n = f.nodes[i]
            k = n['k']
            if k in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr'):
                return lv(n['ch'][0])
            if k == 'MemberExpr':
                s.add(('f', n.get('r'), n['m']))
                if not n['arrow']:
                    lv(n['ch'][0])
                return
            if k == 'DeclRefExpr':
                if n['d']['k'] == 'gvar':
                    s.add(('g', n['d']['id']))
                return
            if k == 'ArraySubscriptExpr':
                return lv(n['ch'][0])
            if k == 'UnaryOperator':
                if n['op'] == '*':
                    t = f.types[n['t']]
                    s.add(('*', t['c']))
                    lv(n['ch'][0])
                elif n['op'] == '&':
                    lv(n['ch'][0])
                return
            if k == 'BinaryOperator':
                for c in n['ch']:
                    lv(c)
        for i, n in f.nodes.items():
            k = n['k']
            if k == 'BinaryOperator' and n['op'] == '=' or k == 'CompoundAssignOperator':
                lv(n['ch'][0])
            elif k == 'UnaryOperator' and n['op'] in ('++', '--'):
                lv(n['ch'][0])
            elif k == 'AtomicExpr' and not n['op'].endswith('load'):
                lv(n['ptr'])
            elif k == 'CallExpr':
                for a in n['ch'][1:]:
                    x = a
                    while f.nodes[x]['k'] in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr'):
                        x = f.nodes[x]['ch'][0]
                    xn = f.nodes[x]
                    ext = n.get('fn') not in self.fns
                    ty = f.types[f.nodes[a]['t']]
                    pconst = ty.get('k') == 'ptr' and f.types[ty['p']].get('const')
                    if (xn['k'] == 'UnaryOperator' and xn['op'] == '&' or f.types[xn['t']].get('k') == 'arr') and not pconst:
                        lv(x)
        return s


def build_blocks(f):
    if f._blocks is None:
        f._blocks = {b['id']: b for b in f.cfg['b']} if f.cfg else {}
    return f._blocks


def rpo(f):
    """reverse post order index of each block"""
    if f._rpo is None:
        B = build_blocks(f)
        seen, order = set(), []
        st = [(f.cfg['entry'], iter(B[f.cfg['entry']]['s']))]
        seen.add(f.cfg['entry'])
        while st:
            b, it = st[-1]
            for s in it:
                if s >= 0 and s not in seen:
                    seen.add(s)
                    st.append((s, iter(B[s]['s'])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        f._rpo = {b: i for i, b in enumerate(order)}
    return f._rpo


def loops(f):
    """loop head -> set of blocks (natural loops by back edges in RPO; the CFGs are reducible)"""
    if f._loops is None:
        B, R = build_blocks(f), rpo(f)
        preds = {}
        for b in R:
            for s in B[b]['s']:
                if s >= 0:
                    preds.setdefault(s, []).append(b)
        out = {}
        for b in R:
            for s in B[b]['s']:
                if s >= 0 and R[s] <= R[b]:
                    body = out.setdefault(s, {s})
                    todo = [b]
                    while todo:
                        x = todo.pop()
                        if x in body:
                            continue
                        body.add(x)
                        todo += preds.get(x, [])
        f._loops = out
    return f._loops


def live_in(f):
    """block -> set of live local decl ids (address-taken ones count as live everywhere)"""
    if f._live is None:
        B, R = build_blocks(f), rpo(f)
        addr = set()
        for n in f.nodes.values():
            if n['k'] == 'UnaryOperator' and n['op'] == '&':
                x = n['ch'][0]
                while f.nodes[x]['k'] in ('ParenExpr', 'ImplicitCastExpr') or (f.nodes[x]['k'] == 'MemberExpr' and not f.nodes[x]['arrow']):
                    x = f.nodes[x]['ch'][0]
                if f.nodes[x]['k'] == 'DeclRefExpr':
                    addr.add(f.nodes[x]['d']['id'])
        use, de = {}, {}
        for b in R:
            u, d = set(), set()
            lhs = set()
            for e in B[b]['e']:
                n = f.nodes[e]
                if n['k'] == 'BinaryOperator' and n['op'] == '=':
                    x = n['ch'][0]
                    while f.nodes[x]['k'] == 'ParenExpr':
                        x = f.nodes[x]['ch'][0]
                    if f.nodes[x]['k'] == 'DeclRefExpr':
                        lhs.add(x)
            for e in B[b]['e']:
                n = f.nodes[e]
                if n['k'] == 'DeclRefExpr' and n['d']['k'] in ('var', 'parm'):
                    if e not in lhs and n['d']['id'] not in d:
                        u.add(n['d']['id'])
                elif n['k'] == 'BinaryOperator' and n['op'] == '=':
                    x = n['ch'][0]
                    while f.nodes[x]['k'] == 'ParenExpr':
                        x = f.nodes[x]['ch'][0]
                    if x in lhs:
                        d.add(f.nodes[x]['d']['id'])
                elif n['k'] == 'DeclStmt':
                    for q in n['decls']:
                        d.add(q['id'])
            # conditions that are not elements (constants) need no care
            use[b], de[b] = u, d
        live = {b: set() for b in R}
        order = sorted(R, key=lambda b: -R[b])
        ch = True
        while ch:
            ch = False
            for b in order:
                out = set()
                for s in B[b]['s']:
                    if s >= 0:
                        out |= live[s]
                n = use[b] | (out - de[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        f._live = (live, addr)
    return f._live


def strip(f, i):
    """node id without parens and casts"""
    while f.nodes[i]['k'] in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr', 'ConstantExpr'):
        i = f.nodes[i]['ch'][0]
    return i


def walk(f, i):
    """all node ids of the subtree rooted at i"""
    st = [i]
    while st:
        x = st.pop()
        if x is None or x < 0:
            continue
        yield x
        st += list(reversed(f.nodes[x]['ch']))
