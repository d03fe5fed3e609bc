"""C28: the delta-debug search classifies runs by their status and loses none."""
import copy, functools, glob as _g, hashlib, itertools, math, multiprocessing, os, posixpath, re
from engine.pyabs import Interp, NS, Unk, Package
from engine.build import REPO

TECH = ('static analysis: abstract interpretation of the delta-debug driver over its syntax tree; processes and files are modelled, the outcome of every '
        'comparison is left open and the analysis is partitioned on it')
NOTE = ('complete over every outcome function for three program lines (deterministic) and over stochastic outcomes given by the first failing sample, for all search '
        'variants, sequential and parallel runs, and an interruption at every file or process event of a search followed by a second start. More than three '
        'lines and changes of the program between two starts are not covered.')
RULE = ('On every path: the reference run gets the IEEE backend and the generation file; each sample runs in its own directory with exactly the tested lines '
        'enabled and is compared with the reference only after it ended; a configuration is reported as failing only if one of its samples was rejected and '
        'as passing only if all required samples were accepted; the reported configurations fail, are minimal and disjoint, and what remains passes; an '
        'interrupted search started again ends with the same report.')
DIR = 'src/tools/ddebug'

class Stop(BaseException): pass

class World:
    def __init__(self, env, oracle, lines, fs=None, crash=None):
        self.env, self.oracle, self.lines = env, oracle, lines
        self.fs = fs if fs is not None else {'/cwd': None, '/cwd/run': '', '/cwd/cmp': ''}
        self.links, self.events, self.crash = {}, 0, crash
        self.log, self.bad, self.found = [], [], []
        self.run_inc, self.alive = {}, {}
        self.out = ''
    def ev(self, what):
        self.events += 1
        if self.crash is not None and self.events == self.crash: raise KeyboardInterrupt()
    def fault(self, key, msg): self.bad.append((key, msg, self.it.line))
    # ---- file system
    def isdir(self, p): return self.fs.get(p, 0) is None and p in self.fs
    def exists(self, p): return p in self.fs or (p in self.links and self.links[p] in self.fs)
    def mkdir(self, p, *a):
        p = posixpath.normpath(p)
        if p in self.fs: raise FileExistsError(p)
        if not self.isdir(posixpath.dirname(p)): raise FileNotFoundError(p)
        self.ev('mkdir'); self.fs[p] = None
    def makedirs(self, p, mode=0o777, exist_ok=False):
        p = posixpath.normpath(p)
        if p in self.fs:
            if exist_ok: return
            raise FileExistsError(p)
        if not self.isdir(posixpath.dirname(p)): self.makedirs(posixpath.dirname(p))
        self.ev('mkdir'); self.fs[p] = None
    def listdir(self, p='.'):
        if not self.isdir(p): raise FileNotFoundError(p)
        return sorted([posixpath.basename(x) for x in list(self.fs) + list(self.links) if posixpath.dirname(x) == p], reverse=True)
    def remove(self, p):
        if p in self.links: del self.links[p]; return
        if p not in self.fs: raise FileNotFoundError(p)
        self.ev('remove'); del self.fs[p]
    def rmtree(self, p, ignore_errors=False, **k):
        if p not in self.fs:
            if ignore_errors: return
            raise FileNotFoundError(p)
        self.ev('rmtree')
        for x in [x for x in self.fs if x == p or x.startswith(p + '/')]: del self.fs[x]
    def symlink(self, a, b, *r):
        if b in self.links or b in self.fs: raise FileExistsError(b)
        self.links[b] = a
    def rename(self, a, b):
        if a not in self.fs: raise FileNotFoundError(a)
        self.ev('rename'); self.fs[b] = self.fs.pop(a)
    def open(self, path, mode='r', *a, **k):
        me = self
        path = posixpath.normpath(posixpath.join('/cwd', path))
        class F:
            closed = False
            name = path
            def __enter__(s): return s
            def __exit__(s, *a): s.close(); return False
            def close(s): s.closed = True
            def flush(s): pass
            def write(s, t): me.ev('write'); me.fs[path] += t; return len(t)
            def writelines(s, ts):
                for t in ts: s.write(t)
            def fileno(s): return 9
            def read(s): t = ''.join(s.buf); s.buf = []; return t
            def readlines(s): t = s.buf; s.buf = []; return t
            def readline(s): return s.buf.pop(0) if s.buf else ''
            def __iter__(s): return iter(s.readlines())
        f = F()
        if 'w' in mode or 'a' in mode or 'x' in mode:
            if not me.isdir(posixpath.dirname(path)): raise FileNotFoundError(path)
            if 'x' in mode and path in me.fs: raise FileExistsError(path)
            me.ev('open')
            if 'a' not in mode or path not in me.fs: me.fs[path] = ''
            f.buf = []
        else:
            if path not in me.fs: raise FileNotFoundError(path)
            f.buf = me.fs[path].splitlines(True)
        return f
    # ---- processes
    def popen(self):
        me = self
        class Popen:
            def __init__(s, cmd, env=None, stdout=None, stderr=None, shell=False, **k):
                if not isinstance(cmd, (list, tuple)): raise Unk('command')
                me.ev('start')
                s.cmd, s.returncode, s.rc = list(cmd), None, me.start(list(cmd), env if env is not None else me.env, s)
            def wait(s, timeout=None):
                if s.returncode is None: me.ev('wait')
                s.returncode = s.rc; return s.rc
            def poll(s): raise Unk('poll')
            def communicate(s, *a, **k): s.wait(); return ('', '')
            def __enter__(s): return s
            def __exit__(s, *a): s.wait(); return False
        return Popen
    def start(self, cmd, env, proc):
        if cmd[0] == '/cwd/run' and len(cmd) == 2:
            d = cmd[1]
            if d == '/cwd/dd.line/ref':
                self.log.append(('ref',))
                if not re.match(r'libinterflop_ieee\.so(\s|$)', env.get('VFC_BACKENDS', '')) or ' libinterflop' in env.get('VFC_BACKENDS', '') or ';' in env.get('VFC_BACKENDS', ''):
                    self.fault('reference backend', 'the reference run executes with VFC_BACKENDS=%s' % env.get('VFC_BACKENDS'))
                if env.get('VFC_DDEBUG_INCLUDE') or env.get('VFC_DDEBUG_EXCLUDE'):
                    self.fault('reference filter', 'the reference run executes with a line filter')
                g = env.get('VFC_DDEBUG_GEN')
                if g: self.fs[g] = ''.join(self.lines)
                return 0
            inc, exc = env.get('VFC_DDEBUG_INCLUDE'), env.get('VFC_DDEBUG_EXCLUDE')
            if env.get('VFC_DDEBUG_GEN'): self.fault('sample generates', 'a sample run executes in generation mode')
            on = set(self.lines)
            if inc is not None and inc in self.fs: on &= set(self.fs[inc].splitlines(True))
            elif inc is not None: self.fault('inclusion file missing', 'the sample in %s runs with the missing inclusion file %s' % (d, inc))
            if exc is not None and exc in self.fs: on -= set(self.fs[exc].splitlines(True))
            if env.get('VFC_BACKENDS') != self.env.get('VFC_BACKENDS'):
                self.fault('sample backend', 'a sample run does not use the backend the user chose')
            if not self.isdir(d): self.fault('sample directory', 'the sample directory %s does not exist' % d)
            self.run_inc[d] = frozenset(on); self.alive[d] = proc
            self.log.append(('run', d, frozenset(on)))
            return 0
        if cmd[0] == '/cwd/cmp' and len(cmd) == 3:
            if cmd[1] != '/cwd/dd.line/ref': self.fault('compared with the reference', 'a run is compared with %s' % cmd[1])
            d = cmd[2]
            if d == '/cwd/dd.line/ref': return 0
            if d not in self.run_inc: self.fault('compared before run', 'the comparison reads %s where no run of this search took place' % d); return 0
            if self.alive[d].returncode is None: self.fault('compared before the end', 'the comparison of %s starts before its run ended' % d)
            m = re.search(r'(\d+)$', d)
            k = int(m.group(1)) if m else 1
            r = self.oracle(self.run_inc[d], k)
            self.log.append(('cmp', d, self.run_inc[d], r))
            return r
        self.fault('unexpected command', 'the driver runs %s' % cmd)
        return 0
    # ---- the program
    def go(self, texts):
        me = self
        path = NS('os.path', **{k: getattr(posixpath, k) for k in ('basename', 'dirname', 'splitext', 'join', 'split', 'normpath', 'isabs')}, exists=self.exists,
                  lexists=lambda p: p in me.fs or p in me.links, isfile=lambda p: isinstance(me.fs.get(posixpath.join('/cwd', p)), str), isdir=self.isdir, islink=lambda p: p in me.links,
                  abspath=lambda p: posixpath.normpath(posixpath.join('/cwd', p)), realpath=lambda p: posixpath.normpath(posixpath.join('/cwd', p)))
        class St: st_mtime = 0
        def scan(p):
            for n in me.listdir(p):
                yield NS('entry', **{'name': n, 'path': posixpath.join(p, n), 'is_dir': lambda x=posixpath.join(p, n): me.isdir(x), 'is_file': lambda x=posixpath.join(p, n): not me.isdir(x)})
        osm = NS('os', path=path, getcwd=lambda: '/cwd', mkdir=self.mkdir, makedirs=self.makedirs, listdir=self.listdir, remove=self.remove, unlink=self.remove, symlink=self.symlink,
                 environ=self.env, access=lambda p, m: True, X_OK=1, R_OK=4, sep='/', rename=self.rename, replace=self.rename, stat=lambda p: St(), getenv=self.env.get, scandir=scan, rmdir=self.remove)
        def exit(c=None): raise SystemExit(c)
        class Out:
            def write(self, s): return len(s)
            def flush(self): pass
        sysm = NS('sys', argv=['vfc_ddebug', '/cwd/run', '/cwd/cmp'], exit=exit, stdout=Out(), stderr=Out())
        sub = NS('subprocess', Popen=self.popen())
        def call(cmd, **k): return sub.Popen(cmd, **k).wait()
        class Completed:
            def __init__(s, r): s.returncode = r
        sub.call = call
        sub.run = lambda cmd, **k: Completed(call(cmd, **{a: b for a, b in k.items() if a != 'check'}))
        sub.PIPE, sub.STDOUT, sub.DEVNULL = -1, -2, -3
        ct = NS('ctypes', CDLL=lambda n: NS('libc', personality=lambda x: 0), util=NS('ctypes.util', find_library=lambda n: n), c_ulong=lambda x: x)
        pk = Package(texts)
        mods = {'os': osm, 'sys': sysm, 'subprocess': sub, 'shutil': NS('shutil', rmtree=self.rmtree, move=self.rename), 'hashlib': hashlib, 'copy': copy, 'math': math, 'time': NS('time', time=lambda: 1.0, sleep=lambda s: None),
                'glob': NS('glob', glob=lambda p: []), 'ctypes': ct, 'ctypes.util': ct.util, 'verificarlo.ddebug': pk, '.': pk, 'os.path': path, 're': re, 'itertools': itertools, 'functools': functools}
        def pr(*a, **k): me.out += k.get('sep', ' ').join(str(x) for x in a) + k.get('end', '\n')
        self.it = it = Interp(modules=mods, extra={'open': self.open, 'print': pr}, budget=400000)
        rec = {}
        g = it.module(texts['main'], 'main', 'main.py')
        cls = g.v.get('DDline')
        if cls is None or not hasattr(cls, 'configuration_found'): raise Unk('no class DDline with configuration_found')
        orig = cls.configuration_found
        def hook(s, kind, conf, *a, **k):
            me.found.append((kind, list(conf)))
            return orig(s, kind, conf, *a, **k)
        cls.configuration_found = hook
        try:
            g.v['main']()
            return 0
        except SystemExit as e: return e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except KeyboardInterrupt: return 'interrupted'
        except Exception as e: return 'crash %s: %s (line %d)' % (type(e).__name__, e, it.line)

def texts():
    r = {}
    for n in ('DD', 'DD_exec_stat', 'DD_stoch', 'dd_config', 'main'):
        p = os.path.join(REPO, DIR, n + '.py')
        if not os.path.exists(p): raise Unk('no ' + p)
        r[n] = open(p).read()
    for p in os.listdir(os.path.join(REPO, DIR)):
        if p.endswith('.py') and p[:-3] not in r and p != '__init__.py': r[p[:-3]] = open(os.path.join(REPO, DIR, p)).read()
    return r

L3 = ['0x1 a\n', '0x2 b\n', '0x3 c\n']
def subsets(l): return [frozenset(c) for k in range(len(l) + 1) for c in itertools.combinations(l, k)]
STAT = [1, 2, 255, -6, 42]

def det(bits, lines=None):
    """bits: outcome of each non-trivial subset of the lines"""
    ss = subsets(lines or L3)
    f = {ss[0]: 0, ss[-1]: 1}
    for i, s in enumerate(ss[1:-1]): f[s] = bits >> i & 1
    return lambda s, k: STAT[(len(s) + bits) % 5] if f.get(s, 0) else 0
L4 = L3 + ['0x4 d\n']
def monotone(lines=L4):
    """every family of minimal failing sets (antichain of non-empty sets, none empty)"""
    ss = [s for s in subsets(lines) if s]
    out = []
    def rec(i, fam):
        if i == len(ss):
            if fam: out.append(tuple(fam))
            return
        rec(i + 1, fam)
        if not any(a <= ss[i] or ss[i] <= a for a in fam): rec(i + 1, fam + [ss[i]])
    rec(0, [])
    return out
def mono(fam): return lambda s, k: 1 if any(a <= s for a in fam) else 0
def stoch(first):
    """first: subset -> first failing sample (None: never)"""
    return lambda s, k: 3 if first.get(s) is not None and k == first[s] else 0

VARIANTS = [{'INTERFLOP_DD_RDDMIN': v, 'INTERFLOP_DD_RDDMIN_TAB': t, 'INTERFLOP_DD_DICHO_TAB': d} for v, t, d in
            [('strict', 'exp', 'half'), ('s', 'exp', 'half'), ('s', 'all', 'half'), ('s', 'single', 'half'), ('d', 'exp', 'half'), ('d', 'single', 'single'), ('d', 'all', 'exp'), ('d', 'exp', 'all')]] \
           + [{}, {'INTERFLOP_DD_ALGO': 'ddmax'}]

def judge(w, rc, name, env, deterministic, f=None):
    out = [(k, m, l) for k, m, l in w.bad]
    def bad(k, m): out.append((k, '%s: %s' % (name, m), 0))
    if rc != 0:
        bad('search ends', 'the search ends with %s' % rc); return out
    n = int(env.get('INTERFLOP_DD_NRUNS', 5))
    # outcomes of executed samples, and of those a previous start left
    fails = {}
    for e in w.log:
        if e[0] == 'cmp': fails.setdefault(e[2], {})[e[1]] = e[3]
    fails.update({k: dict(w.prior.get(k, {}), **v) for k, v in fails.items()} if hasattr(w, 'prior') else {})
    if hasattr(w, 'prior'):
        for k, v in w.prior.items(): fails.setdefault(k, v)
    show = lambda c: '{' + ', '.join(sorted(x.split()[-1] for x in c)) + '}'
    mins = [c for k, c in w.found if re.match(r'ddmin\d+$', k)]
    for kind, c in w.found:
        s, st = frozenset(c), list(fails.get(frozenset(c), {}).values())
        if re.match(r'ddmin\d+$', kind) or kind == 'ddmax-cmp' and False:
            if not any(st): bad('reported configuration failed', '%s is reported as %s but none of its %d samples was rejected' % (show(s), kind, len(st)))
        if kind in ('rddmin-cmp', 'ddmax'):
            if any(st): bad('complement passed', '%s is reported as %s but one of its samples was rejected' % (show(s), kind))
            elif len(st) < n: bad('complement sampled', '%s is reported as %s after %d of %d samples' % (show(s), kind, len(st), n))
        # what the user reads: the files behind the link
        at = w.links.get('/cwd/dd.line/' + kind)
        inc, exc = (w.fs.get('%s/dd.line.%s' % (at, x)) for x in ('include', 'exclude'))
        if at is None or not isinstance(inc, str): bad('result stored', 'no %s/dd.line.include exists for the reported configuration' % kind)
        elif sorted(inc.splitlines(True)) != sorted(c): bad('result stored', '%s/dd.line.include lists %s for the reported configuration %s' % (kind, show(inc.splitlines(True)), show(c)))
        if isinstance(exc, str) and sorted(exc.splitlines(True)) != sorted(set(w.lines) - s): bad('result complement stored', '%s/dd.line.exclude lists %s for the reported configuration %s' % (kind, show(exc.splitlines(True)), show(c)))
    if env.get('INTERFLOP_DD_ALGO') == 'ddmax':
        m = [c for k, c in w.found if k == 'ddmax']
        if len(m) != 1: bad('ddmax reported', 'ddmax reports %d configurations' % len(m))
    else:
        if not mins: bad('something reported', 'a failing program yields no configuration')
        for a, b in itertools.combinations(mins, 2):
            if set(a) & set(b): bad('disjoint', '%s and %s are both reported' % (show(a), show(b)))
        cmp = [c for k, c in w.found if k == 'rddmin-cmp']
        if len(cmp) != 1 or set(cmp[0]) != set(w.lines) - {x for c in mins for x in c}:
            bad('complement reported', 'the complement of the reported configurations is not what is reported')
    if deterministic:
        for c in mins:
            for x in c:
                if f(frozenset(c) - {x}, 1): bad('minimal', '%s is reported but fails without %s' % (show(c), x.split()[-1]))
    # every sample executed at most once (no loss, no overwrite) is implied by mkdir; directories of one set must not serve another
    seen = {}
    for e in w.log:
        if e[0] == 'run' and seen.setdefault(posixpath.dirname(e[1]), e[2]) != e[2]:
            bad('one directory per configuration', 'the directory of %s is used for %s' % (show(seen[posixpath.dirname(e[1])]), show(e[2])))
    return out

def report(w): return sorted((k, tuple(sorted(c))) for k, c in w.found)

def job(a):
    kind, tx, var, extra, spec, crash = a
    env = dict(VARIANTS[var], VFC_BACKENDS='user-backend', **extra)
    name = '%s %s, %s' % (' '.join('%s=%s' % (k[13:], v) for k, v in env.items() if k.startswith('INTER')), kind, spec)
    try:
        if kind == 'det':
            f = det(spec)
            w = World(dict(env), f, L3)
            rc = w.go(tx)
            return judge(w, rc, name, env, True, f), None, len(w.log)
        if kind in ('mono', 'det4'):
            f = mono(spec) if kind == 'mono' else det(spec, L4)
            w = World(dict(env), f, L4)
            rc = w.go(tx)
            return judge(w, rc, name, env, True, f), None, len(w.log)
        if kind == 'stoch':
            ss = subsets(L3)
            f = stoch(dict(zip(ss[1:], spec)))
            w = World(dict(env), f, L3)
            rc = w.go(tx)
            return judge(w, rc, name, env, False), None, len(w.log)
        if kind == 'crash':
            f = det(spec)
            w0 = World(dict(env), f, L3); rc0 = w0.go(tx)
            res, n = [], 0
            for k in range(1, w0.events + 1):
                w1 = World(dict(env), f, L3, crash=k); w1.go(tx)
                w2 = World(dict(env), f, L3, fs=w1.fs); w2.links = dict(w1.links)
                if k == w0.events: w2.links.update({'/cwd/dd.line/' + x: '/cwd/dd.line/ref' for x in ('ddmin0', 'rddmin-cmp', 'ddmax', 'ddmax-cmp')})  # links of an earlier search
                w2.stale = k == w0.events
                w2.prior = {}
                for e in w1.log:
                    if e[0] == 'cmp': w2.prior.setdefault(e[2], {})[e[1]] = e[3]
                rc = w2.go(tx)
                n += len(w1.log) + len(w2.log)
                nm = name + ', interrupted at event %d of %d and started again' % (k, w0.events)
                if rc != 0: res.append(('resume', '%s: the second start ends with %s' % (nm, rc), w2.it.line)); continue
                res += [('resume: ' + b[0], b[1], b[2]) for b in w2.bad]
                if w2.stale:
                    res += [('second search: ' + b[0], b[1], b[2]) for b in judge(w2, rc, nm, env, True, f)]
                if rc0 == 0 and report(w2) != report(w0): res.append(('resume report', '%s: reports %s instead of %s' % (nm, report(w2), report(w0)), 0))
            return res, None, n
    except Unk as e:
        return [], '%s: %s' % (kind, e), 0

def jobs(tx, tier):
    full = tier == 'thorough'
    for v in range(len(VARIANTS)):
        for par in ((), (('INTERFLOP_DD_NUM_THREADS', '8'),)):
            for bits in range(64):
                if par and not full and (bits + v) % 4: continue
                yield ('det', tx, v, dict(par, INTERFLOP_DD_NRUNS='2'), bits, None)
            for bits in (3, 21, 40) if not full else (3, 21, 40, 13, 58):
                if not full and v not in (0, 1, 4, 9): continue
                yield ('crash', tx, v, dict(par, INTERFLOP_DD_NRUNS='2'), bits, None)
            k = 0
            for spec in itertools.product((None, 1, 3), repeat=6):
                k += 1
                if (k + v) % (61 if not full else 13): continue
                for last in (1, 3): yield ('stoch', tx, v, dict(par, INTERFLOP_DD_NRUNS='3'), spec + (last,), None)

SHAPE = {'minimal', 'disjoint', 'result stored', 'result complement stored', 'complement reported', 'something reported'}
def run(rep, tier, want=lambda k: k.split(': ')[-1] not in SHAPE, gen=None):
    rep.rule = RULE
    try: tx = texts()
    except Unk as e: rep.unknown('delta-debug driver', str(e)); return
    seen, dead = {}, set()
    with multiprocessing.Pool(8) as pool:
        for res, unk, n in pool.imap_unordered(job, list((gen or jobs)(tx, tier)), chunksize=4):
            rep.count('abstract searches'); rep.count('process events', n)
            if unk: dead.add(unk); continue
            res = [r for r in res if want(r[0])]
            if not res: rep.ok('search')
            for k, m, l in res:
                if k in seen: continue
                seen[k] = 1
                rep.bad(k, DIR + (':%d' % l if l else '/DD_stoch.py'), m)
    for d in dead: rep.unknown('delta-debug driver', d)
    rep.floor('abstract searches', 500)
