"""Model of the world of the CI tool (src/tools/ci/test.py) for its abstract interpretation: programs that dump probe files, environment, tables."""
import csv, math, os, shlex
from . import frames as fr
from .pyabs import Interp, NS, Unk, Unknown
from .build import REPO

TEST = 'src/tools/ci/test.py'
PROC = 'src/tools/ci/test_data_processing.py'

def text(p):
    p = os.path.join(REPO, p)
    if not os.path.exists(p): raise Unk('no ' + p)
    return open(p).read()

HANG = object()

class Ci:
    """program(command, environment, number of the run) -> text of its probe file, or None when it dies before dumping"""
    def __init__(self, program=None, config=None, np=None):
        self.program, self.config = program, config
        self.fs, self.env, self.runs, self.tmp, self.out, self.procs = {}, {}, [], 0, [], []
        me = self
        class Timeout(Exception): pass
        class Blocked(Exception): pass
        class Popen:
            def __init__(s, cmd, env=None, shell=False, **k):
                if isinstance(cmd, str): cmd = shlex.split(cmd)
                e = dict(me.env if env is None else env)
                me.runs.append((list(cmd), e))
                t = me.program(list(cmd), e, len(me.runs))
                o = e.get('VFC_PROBES_OUTPUT')
                s.hang = t is HANG
                s.out = (o, t) if t is not None and not s.hang and o is not None else None
                me.procs.append(s)
                s.returncode = None if s.hang else 0 if t is not None else 139
            def wait(s, timeout=None):
                if s.hang:
                    if timeout is None: raise Blocked('waits for ever for a program that hangs')
                    raise Timeout('timed out')
                if s.out: me.fs[s.out[0]] = s.out[1]; s.out = None          # what it wrote is complete once it has ended
                return s.returncode
            def communicate(s, input=None, timeout=None): s.wait(timeout); return b'', b''
            def poll(s): return s.returncode
            def kill(s): s.hang = False; s.returncode = -9
            terminate = kill
            def __enter__(s): return s
            def __exit__(s, *a): return False
        class Tmp:
            def __init__(s, *a, **k):
                me.tmp += 1; s.name = '/tmp/vp%d' % me.tmp; me.fs[s.name] = ''
            def close(s): me.fs.pop(s.name, None)
            def __enter__(s): return s
            def __exit__(s, *a): s.close(); return False
        def read_csv(p, **k):
            p = p if isinstance(p, str) else p.name
            if p not in me.fs: raise FileNotFoundError(p)
            return fr.read_csv(me.fs[p], **k)
        envd = {}; self.env = envd
        class Environ(dict):                    # putenv does not change os.environ
            def __setitem__(s, k, v): dict.__setitem__(s, k, v); envd[k] = v
            def update(s, o=(), **k):
                for a, b in dict(o, **k).items(): s[a] = b
            def copy(s): return dict(s)
            def pop(s, k, *d): envd.pop(k, None); return dict.pop(s, k, *d)
            def __delitem__(s, k): envd.pop(k, None); dict.__delitem__(s, k)
        env_ = Environ()
        osm = NS('os', putenv=lambda k, v: envd.__setitem__(k, v), unsetenv=lambda k: envd.pop(k, None), environ=env_, getenv=lambda k, d=None: env_.get(k, d), system=lambda c: 0, remove=lambda p: me.fs.pop(p), unlink=lambda p: me.fs.pop(p),
                 path=NS('os.path', exists=lambda p: p in me.fs, isfile=lambda p: p in me.fs, join=os.path.join, getsize=lambda p: len(me.fs[p])))
        def run(cmd, timeout=None, check=False, **k):
            p = Popen(cmd, **{a: b for a, b in k.items() if a in ('env', 'shell')}); p.wait(timeout); return p
        sub = NS('subprocess', Popen=Popen, TimeoutExpired=Timeout, run=run, call=lambda c, **k: run(c, **k).returncode, PIPE=-1, DEVNULL=-3)
        def exit(c=None): raise SystemExit(c)
        pd = NS('pandas', read_csv=read_csv, DataFrame=fr.D, Series=fr.S, concat=fr.concat, errors=NS('errors', EmptyDataError=fr.EmptyDataError), NA=Unknown('pd.NA'),
                merge=lambda a, b, **k: a.merge(b, **k), isna=lambda x: x != x if not isinstance(x, (fr.S, fr.D)) else x.isna())
        class File:
            def read(s): return ''
            def close(s): pass
            def __enter__(s): return s
            def __exit__(s, *a): return False
        def opn(p, *a, **k):
            if p == 'vfc_tests_config.json' and me.config is not None: return File()
            raise FileNotFoundError(p)
        self.hdf = []
        class Author:
            email = 'me@here'
            def __str__(s): return 'A. U. Thor'
        class Commit:
            author, authored_date, message = Author(), 77, 'first line\nsecond line'
            def __str__(s): return '0123456789abcdef'
            hexsha = '0123456789abcdef'
        git = NS('git', Repo=lambda *a, **k: NS('repo', remotes=[NS('remote', config_reader=NS('cr', get=lambda k: 'the ' + k), url='the url')], active_branch=NS('branch', name='b'), head=NS('head', commit=Commit())))
        fr.D.to_hdf = lambda d, name, key=None, **k: me.hdf.append((d.copy(), name, key))
        self.np = np or NS('numpy', inf=math.inf, nan=math.nan, abs=abs, absolute=abs, fabs=abs, isnan=math.isnan, isinf=math.isinf, isfinite=math.isfinite)
        mods = {'pandas': pd, 'csv': csv, 'os': osm, 'os.path': osm.path, 'subprocess': sub, 'tempfile': NS('tempfile', NamedTemporaryFile=Tmp), 'sys': NS('sys', stderr=None, exit=exit), 'math': __import__('math'),
                'numpy': self.np, 'scipy': NS('scipy', stats=NS('stats')), 'scipy.stats': NS('stats'), 'pickle': NS('pickle'), 'json': NS('json', loads=lambda t: me.config, load=lambda f: me.config), 'shlex': NS('shlex', split=shlex.split), 'git': git,
                'calendar': NS('calendar', timegm=lambda t: 1234), 'time': NS('time', gmtime=lambda: 0, time=lambda: 1234.5), 'significantdigits': NS('significantdigits')}
        self.it = Interp(modules=mods, extra={'print': lambda *a, **k: me.out.append(' '.join(map(str, a))), 'open': opn}, budget=2000000)
        mods['.test_data_processing'] = text(PROC)
        self.test = self.it.module(text(TEST), 'test', 'test.py')
    def fn(self, name):
        f = self.test.v.get(name)
        if f is None: raise Unk('no function ' + name)
        return f
