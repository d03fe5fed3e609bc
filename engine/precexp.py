"""Model of the world of the precision exploration tool (src/tools/optimize/precexp.py) for its abstract interpretation."""
import argparse, functools, itertools, math, os, posixpath, re, shlex
from .pyabs import Interp, NS, Unk, Unknown
from .build import REPO

TOOL = 'src/tools/optimize/precexp.py'

class Hang(BaseException): pass

class Series:
    def __init__(self, index, vals): self.index, self.vals = list(index), list(vals)
    def _b(self, o, op):
        if isinstance(o, Series): return Series(self.index, [op(a, b) for a, b in zip(self.vals, o.vals)])
        return Series(self.index, [op(a, o) for a in self.vals])
    def __eq__(self, o): return self._b(o, lambda a, b: a == b)
    def __ne__(self, o): return self._b(o, lambda a, b: a != b)
    def __gt__(self, o): return self._b(o, lambda a, b: a > b)
    def __lt__(self, o): return self._b(o, lambda a, b: a < b)
    def __ge__(self, o): return self._b(o, lambda a, b: a >= b)
    def __le__(self, o): return self._b(o, lambda a, b: a <= b)
    def __and__(self, o): return self._b(o, lambda a, b: bool(a) and bool(b))
    def __or__(self, o): return self._b(o, lambda a, b: bool(a) or bool(b))
    def __invert__(self): return Series(self.index, [not a for a in self.vals])
    def isin(self, xs): return Series(self.index, [a in xs for a in self.vals])
    def __iter__(self): return iter(self.vals)
    def __len__(self): return len(self.vals)
    def __getitem__(self, k): return self.vals[self.index.index(k)]
    def tolist(self): return list(self.vals)
    unique = tolist
    def __bool__(self): raise ValueError('truth value of a Series')
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        return Unknown('Series.' + k)
    __hash__ = None

class At:
    def __init__(self, df): self.df = df
    def __getitem__(self, k):
        i, c = k
        return self.df.rows[self.df.pos(i)][self.df.col(c)]
    def __setitem__(self, k, v):
        i, c = k
        self.df.rows[self.df.pos(i)][self.df.col(c)] = v

class Frame:
    def __init__(self, rows=(), columns=None, index=None):
        self.rows = [list(r) for r in rows]; self.columns = list(columns or [])
        self.index = list(index) if index is not None else list(range(len(self.rows)))
        self.at = self.loc = At(self)
    def col(self, c):
        if c not in self.columns: raise KeyError(c)
        return self.columns.index(c)
    def pos(self, i):
        if i not in self.index: raise KeyError(i)
        return self.index.index(i)
    def copy(self, deep=True): return Frame(self.rows, self.columns, self.index)
    def sort_values(self, by, ascending=True, **k):
        if k and set(k) - {'kind', 'ignore_index'}: raise Unk('sort_values')
        by = [by] if isinstance(by, str) else list(by)
        asc = ascending if isinstance(ascending, list) else [ascending] * len(by)
        o = list(range(len(self.rows)))
        for c, a in reversed(list(zip(by, asc))): o.sort(key=lambda j: self.rows[j][self.col(c)], reverse=not a) if a else o.sort(key=functools.cmp_to_key(lambda x, y, c=c: (self.rows[x][self.col(c)] < self.rows[y][self.col(c)]) - (self.rows[x][self.col(c)] > self.rows[y][self.col(c)])))
        return Frame([self.rows[j] for j in o], self.columns, None if k.get('ignore_index') else [self.index[j] for j in o])
    def reset_index(self, drop=False, **k):
        if not drop: raise Unk('reset_index')
        return Frame(self.rows, self.columns)
    def __getitem__(self, k):
        if isinstance(k, str): return Series(self.index, [r[self.col(k)] for r in self.rows])
        if isinstance(k, Series): return Frame([r for r, b in zip(self.rows, k.vals) if b], self.columns, [i for i, b in zip(self.index, k.vals) if b])
        if isinstance(k, list): return Frame([[r[self.col(c)] for c in k] for r in self.rows], k, self.index)
        raise Unk('frame subscript')
    def __setitem__(self, k, v): raise Unk('frame assignment')
    def __len__(self): return len(self.rows)
    def iterrows(self):
        for i, r in zip(self.index, self.rows): yield i, dict(zip(self.columns, r))
    def __getattr__(self, k):
        if k.startswith('__') or k == 'world': raise AttributeError(k)
        return Unknown('DataFrame.' + k)

class World:
    def __init__(self, text, argv, profile, oracle, slow=lambda c: False, hdr=12, arg=7, runrc=lambda c: 0):
        self.text, self.argv, self.profile, self.oracle, self.slow, self.hdr, self.arg, self.runrc = text, argv, profile, oracle, slow, hdr, arg, runrc
        self.fs = {'run.sh': '', 'cmp.sh': ''}
        self.dirs, self.bad, self.csv, self.cur, self.log, self.out = set(), [], {}, {}, [], ''
        self.timeouts = []
    def fault(self, k, msg): self.bad.append((k, msg, self.it.line))
    # a configuration: {id: (header values, [argument lines])}; None when the backend refuses the file
    def parse(self, text):
        ls = text.split('\n')
        if ls and ls[-1] == '': ls.pop()
        out, k = {}, 0
        def num(x): return re.match(r'\s*[-+]?\d+\s*$', x)
        while k < len(ls):
            h = [x for x in ls[k].split('\t') if x]
            if len(h) != self.hdr: return None if k == 0 else out, 'line %d has %d columns' % (k + 1, len(h))
            if not all(num(x) for x in h[1:]): return None, 'line %d is not numeric: %r' % (k + 1, ls[k])
            n = int(h[9]) + int(h[10])
            args = []
            for j in range(n):
                a = [x for x in ls[k + 1 + j].split('\t') if x] if k + 1 + j < len(ls) else []
                if len(a) != self.arg or not all(num(x) for x in a[2:]): return None, 'line %d has %d columns, %d are expected' % (k + 2 + j, len(a), self.arg)
                args.append(a)
            if h[0] in out: return None, '%s is listed twice' % h[0]
            out[h[0]] = (h, args); k += 1 + n
        return out, None
    def popen(self, PIPE):
        me = self
        class TimeoutExpired(Exception):
            def __init__(s, *a): pass
        me.TE = TimeoutExpired
        class Popen:
            def __init__(s, cmd, env=None, stdout=None, stderr=None, shell=False, **k):
                if isinstance(cmd, str): cmd = shlex.split(cmd)
                s.args, s.returncode, s.read = cmd, None, False
                s.pipe = stdout == PIPE or stderr == PIPE
                s.rc, s.slow = me.start(list(cmd), env if env is not None else me.env)
            def wait(s, timeout=None):
                if s.pipe and not s.read: me.fault('output read', 'the program is waited for while nobody reads its output: it never ends when it prints more than a pipe holds')
                me.timeouts.append((s.args[0], timeout))
                if s.slow and timeout is not None: raise TimeoutExpired(s.args, timeout)
                s.returncode = s.rc; return s.rc
            def communicate(s, input=None, timeout=None): s.read = True; s.wait(timeout); return b'', b''
            def terminate(s): s.returncode = -15; s.slow = False
            kill = terminate
            def poll(s): return s.returncode
            def __enter__(s): return s
            def __exit__(s, *a): s.read = True; s.slow = False; s.returncode = s.rc; return False
        return Popen
    def start(self, cmd, env):
        c0 = posixpath.normpath(cmd[0])
        if len(self.log) > 4000: raise Hang()
        if c0 == 'run.sh' and len(cmd) == 2:
            d = cmd[1]
            if d not in self.dirs: self.fault('output directory', 'the run writes into %s, which was not created' % d)
            b = env.get('VFC_BACKENDS', '')
            out = re.search(r'--prec-output-file=(\S+)', b); inp = re.search(r'--prec-input-file=(\S+)', b)
            if 'libinterflop_vprec.so' not in b: self.fault('backend', 'a run uses the backend %r' % b)
            if out: self.fs[out.group(1)] = self.profile
            if inp:
                t = self.fs.get(inp.group(1))
                c, why = self.parse(t) if t is not None else (None, 'no such file')
                if why: self.fault('configuration readable', 'the backend does not read the configuration: %s' % why)
                ins = re.search(r'--instrument=(\S+)', b)
                self.cur[d] = (c, ins.group(1) if ins else None, b); self.setting = self.cur[d][1:]
                self.log.append(('run', d, c))
                if c is None: return 1, False
                return self.runrc(c), self.slow(c)
            self.cur[d] = ('ref', None, b)
            self.log.append(('ref', d))
            return 0, False
        if c0 == 'cmp.sh' and len(cmd) == 3:
            r, d = cmd[1:]
            if self.cur.get(r, (0,))[0] != 'ref': self.fault('compared with the reference', 'the first argument of the comparison is %s' % r)
            c = self.cur.get(d, (None,))[0]
            if c in (None, 'ref'): self.fault('compared a run', 'the comparison reads %s where no configuration was run' % d); return 0, False
            self.log.append(('cmp', d, c))
            return (0 if self.oracle(c) else 1), False
        self.fault('unexpected command', str(cmd)); return 0, False
    def open(self, path, mode='r', *a, **k):
        me = self
        path = posixpath.normpath(path)
        class F:
            def __enter__(s): return s
            def __exit__(s, *a): return False
            def close(s): pass
            def write(s, t): me.fs[path] += t
            def writelines(s, ts):
                for t in ts: s.write(t)
            def flush(s): pass
            def readlines(s): return me.fs[path].splitlines(True)
            def read(s): return me.fs[path]
            def __iter__(s): return iter(me.fs[path].splitlines(True))
        if 'w' in mode: me.fs[path] = ''
        elif path not in me.fs: raise FileNotFoundError(path)
        return F()
    def go(self):
        me = self
        P = posixpath
        ex = lambda p: P.normpath(p) in me.fs or P.normpath(p) in me.dirs
        def mkdir(p, *a):
            if P.normpath(p) in me.dirs: raise FileExistsError(p)
            me.dirs.add(P.normpath(p))
        path = NS('os.path', exists=ex, isfile=lambda p: P.normpath(p) in me.fs, isdir=lambda p: P.normpath(p) in me.dirs, join=P.join, basename=P.basename, dirname=P.dirname, abspath=P.normpath)
        self.env = {'PATH': '/bin'}
        osm = NS('os', path=path, mkdir=mkdir, makedirs=lambda p, *a, **k: me.dirs.add(P.normpath(p)), environ=self.env, access=lambda p, m: True, X_OK=1, R_OK=4, getcwd=lambda: '.')
        def exit(c=None): raise SystemExit(c)
        sysm = NS('sys', argv=['vfc_precexp'] + self.argv, exit=exit, stderr=None)
        PIPE, DN = -1, -3
        po = self.popen(PIPE)
        class Completed:
            def __init__(s, r): s.returncode = r
        def run(cmd, env=None, timeout=None, stdout=None, stderr=None, check=False, **k):
            p = po(cmd, env, None, None); p.wait(timeout); return Completed(p.returncode)
        sub = NS('subprocess', Popen=po, PIPE=PIPE, DEVNULL=DN, STDOUT=-2, TimeoutExpired=self.TE, run=run, call=lambda cmd, **k: run(cmd, **k).returncode)
        class AP(argparse.ArgumentParser):
            def parse_known_args(s, args=None, namespace=None): return super().parse_known_args(me.argv if args is None else args, namespace)
            def error(s, m): raise SystemExit(2)
        class DF(Frame):
            def __init__(s, data=(), columns=None, **k):
                if k: raise Unk('DataFrame')
                super().__init__(data, columns)
        def to_csv(s, p, **k): me.csv[P.normpath(p)] = s.copy()
        Frame.to_csv = to_csv
        mods = {'argparse': NS('argparse', ArgumentParser=AP), 'math': math, 'os': osm, 'os.path': path, 'shlex': shlex, 'subprocess': sub, 'sys': sysm,
                'pandas': NS('pandas', DataFrame=DF), 're': re, 'itertools': itertools, 'functools': functools}
        self.it = it = Interp(modules=mods, extra={'open': self.open}, budget=4000000)
        g = it.module(self.text, 'precexp', 'precexp.py')
        try:
            g.v['main'](); return 0
        except SystemExit as e: return e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except Hang: return 'endless'
        except Exception as e: return 'crash %s: %s (line %d)' % (type(e).__name__, e, it.line)

def source():
    p = os.path.join(REPO, TOOL)
    if not os.path.exists(p): raise Unk('no ' + p)
    return open(p).read()

def profile(funcs):
    """funcs: list of (id, lib, intr, float, double, ncalls, [(io, name, type)])"""
    out = ''
    for id, lib, intr, fl, db, nc, args in funcs:
        ni = sum(a[0] == 'input:' for a in args)
        out += '\t'.join(map(str, (id, lib, intr, fl, db, 52, 11, 23, 8, ni, len(args) - ni, nc))) + '\n'
        for k, (io, n, ty) in enumerate(args): out += '\t'.join(map(str, (io, n, ty, 52 if ty in (1, 4) else 23, 11 if ty in (1, 4) else 8, -k - 1, 10 * k))) + '\n'
    return out
