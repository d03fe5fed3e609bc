"""Model of the world outside the compiler driver, for the abstract interpretation of verificarlo.in.in.

Commands are not run: each one is recorded, split into words as the shell does, and given an outcome chosen by the check.
Files are names with a provenance term (how this run produced them)."""
import argparse, contextlib, functools, collections, itertools, os, posixpath, re, shlex, types
from engine.pyabs import Interp, NS, Unk, Unknown
from engine.build import REPO

PATH = 'verificarlo.in.in'
TOOLS = {'CLANG_PATH': '/llvm/clang', 'CLANGXX_PATH': '/llvm/clang++', 'FLANG_PATH': '/llvm/flang', 'LLVM_LINK_PATH': '/llvm/llvm-link',
         'LLVM_BINDIR': '/llvm', 'LLVM_VERSION_MAJOR': '18', 'PACKAGE_STRING': 'pkg', 'MARCH_FLAG': '-march=native'}

def text(llvm=18):
    p = os.path.join(REPO, PATH)
    if not os.path.exists(p):
        raise Unk('no compiler driver ' + PATH)
    t = open(p).read()
    t = re.sub(r'@([A-Z_]+)@', lambda m: str(llvm) if m.group(1) == 'LLVM_VERSION_MAJOR' else TOOLS.get(m.group(1), '/sub/' + m.group(1)), t)
    return re.sub(r'%([A-Z]+)%', lambda m: '/sub/' + m.group(1), t)

class CalledProcessError(Exception):
    def __init__(self, returncode, cmd, output=None, stderr=None):
        self.returncode, self.cmd, self.output, self.stderr = returncode, cmd, output, stderr
class SubprocessError(Exception): pass

class Result:
    def __init__(self): self.cmds, self.exit, self.left, self.kept, self.lines, self.fs = [], None, [], [], [], {}

class Run:
    """one abstract run of the driver: argv, the outcome of every command (fail: index -> (status, keeps output))"""
    def __init__(self, argv, fail=None, user=(), llvm=18, tmpl=None):
        self.argv, self.fail = argv, fail or {}
        self.fs = set(user)                    # files that exist
        self.temps = collections.OrderedDict() # temporary files created: name -> delete flag
        self.n = 0
        self.cmds, self.where = [], []
        self.atexit = []
        self.text = tmpl or text(llvm)
    # ---- processes
    def words(self, cmd, shell):
        if isinstance(cmd, (list, tuple)):
            if shell: raise Unk('list given to a shell')
            return [str(x) for x in cmd]
        if not isinstance(cmd, str): raise Unk('command value')
        if not shell: raise Unk('string command without shell')
        lx = shlex.shlex(cmd, posix=True, punctuation_chars=';|&<>()')
        lx.whitespace_split = True
        try:
            ws = list(lx)
            plain = shlex.split(cmd)
        except ValueError:
            return ['<unterminated quote>', cmd]
        if ws != plain: raise Unk('shell operators in a command')
        return ws
    def command(self, cmd, shell=False):
        w = self.words(cmd, shell)
        k = len(self.cmds)
        self.cmds.append(w)
        self.where.append(self.it.line)
        bad = self.fail.get(k)
        out = w[w.index('-o') + 1] if '-o' in w[:-1] else None
        if bad is None:
            if out: self.fs.add(out)
            return 0
        st, keep = bad
        if out:
            if keep: self.fs.add(out)
            else: self.fs.discard(out)
        return st
    def subprocess(self):
        me = self
        def call(args, shell=False, **k): return me.command(args, shell)
        def check_call(args, shell=False, **k):
            r = me.command(args, shell)
            if r: raise CalledProcessError(r, args)
            return 0
        class Completed:
            def __init__(self, a, r): self.args, self.returncode, self.stdout, self.stderr = a, r, '', ''
            def check_returncode(self):
                if self.returncode: raise CalledProcessError(self.returncode, self.args)
        def run(args, shell=False, check=False, **k):
            r = me.command(args, shell)
            if check and r: raise CalledProcessError(r, args)
            return Completed(args, r)
        def check_output(args, shell=False, **k):
            r = me.command(args, shell)
            if r: raise CalledProcessError(r, args)
            return ''
        class Popen:
            def __init__(self, args, shell=False, **k):
                self.args, self.rc, self.returncode = args, me.command(args, shell), None
                self.stdout = self.stderr = None
            def wait(self, timeout=None): self.returncode = self.rc; return self.rc
            poll = wait
            def communicate(self, *a, **k): self.returncode = self.rc; return ('', '')
            def __enter__(self): return self
            def __exit__(self, *a): self.wait(); return False
        def getstatus(cmd): return (me.command(cmd, True), '')
        return NS('subprocess', call=call, check_call=check_call, run=run, Popen=Popen, check_output=check_output, getstatusoutput=getstatus,
                  CalledProcessError=CalledProcessError, SubprocessError=SubprocessError, PIPE=-1, STDOUT=-2, DEVNULL=-3, list2cmdline=lambda a: ' '.join(map(shlex.quote, a)))
    # ---- files
    def tempfile(self):
        me = self
        def fresh(prefix, suffix, dir=None, pad='tmp'):
            me.n += 1
            p = (prefix if prefix is not None else 'tmp') + '\ue0f0%d' % me.n + (suffix or '')
            return p if posixpath.isabs(p) else posixpath.join(dir or '/tmp', p)
        class Named:
            def __init__(self, mode='w+b', buffering=-1, encoding=None, newline=None, suffix=None, prefix=None, dir=None, delete=True, **k):
                self.name = fresh(prefix, suffix, dir)
                self.delete, self.closed = delete, False
                me.fs.add(self.name); me.temps[self.name] = self
            def close(self):
                if self.closed: return
                self.closed = True
                if self.delete:
                    if self.name not in me.fs: raise FileNotFoundError(self.name)
                    me.fs.discard(self.name)
            def write(self, *a): pass
            flush = seek = write
            def __enter__(self): return self
            def __exit__(self, *a): self.close(); return False
            def finalize(self):
                try: self.close()
                except FileNotFoundError: pass
        class Raw:
            def __init__(self, name): self.name, self.delete = name, False
            def finalize(self): pass
        def mkstemp(suffix=None, prefix=None, dir=None, text=False):
            n = fresh(prefix, suffix, dir)
            me.fs.add(n); me.temps[n] = Raw(n)
            return (99, n)
        def mktemp(suffix='', prefix='tmp', dir=None):
            n = fresh(prefix, suffix, dir); me.temps[n] = Raw(n); return n
        class TDir:
            def __init__(self, suffix=None, prefix=None, dir=None, **k):
                self.name = fresh(prefix, suffix, dir); self.closed = False; me.dirs.append(self)
            def cleanup(self):
                self.closed = True
                for f in list(me.fs):
                    if f.startswith(self.name + '/'): me.fs.discard(f)
            def __enter__(self): return self.name
            def __exit__(self, *a): self.cleanup(); return False
        me.dirs = []
        return NS('tempfile', NamedTemporaryFile=Named, mkstemp=mkstemp, mktemp=mktemp, TemporaryDirectory=TDir, gettempdir=lambda: '/tmp')
    def os(self):
        me = self
        def remove(p):
            if p not in me.fs: raise FileNotFoundError(p)
            me.fs.discard(p)
        ex = lambda p: p in me.fs
        path = NS('os.path', **{k: getattr(posixpath, k) for k in ('basename', 'dirname', 'splitext', 'join', 'split', 'normpath', 'isabs', 'commonprefix')},
                  realpath=posixpath.normpath, abspath=lambda p: posixpath.normpath(posixpath.join('/cwd', p)), exists=ex, isfile=ex, sep='/',
                  relpath=lambda p, s='/cwd': posixpath.relpath(posixpath.join('/cwd', p), s), isdir=lambda p: False, lexists=ex, expanduser=lambda p: p)
        def hard(c): raise SystemExit(c)
        return NS('os', path=path, getcwd=lambda: '/cwd', sep='/', remove=remove, unlink=remove, environ={}, getenv=lambda k, d=None: d,
                  close=lambda fd: None, system=lambda c: me.command(c, True), linesep='\n', pathsep=':', getpid=lambda: 1, _exit=hard, curdir='.',
                  devnull='/dev/null', name='posix', fspath=lambda p: p)
    def go(self):
        me = self
        r = Result()
        class Out:
            def write(self, s): return len(s)
            def flush(self): pass
        def exit(c=None): raise SystemExit(c)
        sysm = NS('sys', argv=['/bin/verificarlo'] + list(self.argv), exit=exit, stderr=Out(), stdout=Out(), version_info=(3, 12, 0), platform='linux',
                  executable='/usr/bin/python3')
        class Parser(argparse.ArgumentParser):
            def __init__(self, *a, **k):
                k.setdefault('prog', 'verificarlo'); super().__init__(*a, **k)
            def parse_known_args(self, args=None, namespace=None):
                return super().parse_known_args(list(me.argv) if args is None else args, namespace)
            def _print_message(self, message, file=None): pass
        ap = NS('argparse', **{k: getattr(argparse, k) for k in dir(argparse) if not k.startswith('_')})
        ap.ArgumentParser = Parser
        def register(f, *a, **k): me.atexit.append((f, a, k)); return f
        import pathlib, string
        mods = {'argparse': ap, 'os': self.os(), 'os.path': None, 'subprocess': self.subprocess(), 'sys': sysm, 'tempfile': self.tempfile(),
                'shlex': shlex, 're': re, 'itertools': itertools, 'functools': functools, 'collections': collections, 'string': string,
                'atexit': NS('atexit', register=register), 'typing': NS('typing', **{k: object for k in ('List', 'Optional', 'Tuple', 'Dict', 'Set', 'Any')}),
                'contextlib': contextlib, 'shutil': NS('shutil', which=lambda x: x)}
        mods['os.path'] = mods['os'].path
        self.it = Interp(modules=mods, budget=60000)
        try:
            self.it.module(self.text, '__main__', '/bin/verificarlo')
            code = 0
        except SystemExit as e:
            c = e.code
            code = 0 if c is None else (c & 0xff) if isinstance(c, int) else 1
        except Exception as e:
            code = 1; r.crash = '%s: %s (line %d)' % (type(e).__name__, e, self.it.line)
        for f, a, k in reversed(self.atexit):
            try: f(*a, **k)
            except Exception: pass
        r.live = set(self.fs)
        for t in self.temps.values(): t.finalize()
        for d in self.dirs:
            if not d.closed: d.cleanup()
        r.exit, r.cmds, r.where = code, self.cmds, self.where
        r.left = [t for t in self.temps if t in self.fs]
        r.temps = self.temps
        return r

# ------------------------------------------------------------------ meaning of the commands
WITHARG = {'-o', '-I', '-L', '-rpath', '-load', '-load-pass-plugin', '-x', '-include', '-isystem', '-D', '-U', '-MF', '-MT'}
SRCEXT = {'.c', '.cc', '.cp', '.cpp', '.cxx', '.c++', '.f', '.f90', '.f77', '.s', '.bc', '.ll', '.o'}

class Cmd:
    def __init__(self, w):
        self.w, self.tool = w, posixpath.basename(w[0]) if w else ''
        self.out, self.inputs, self.flags, self.defs = None, [], [], []
        self.passes, self.plugins, self.inst = [], [], []
        i = 1
        while i < len(w):
            t = w[i]
            if t in WITHARG and i + 1 < len(w):
                a = w[i + 1]; i += 2
                if t == '-o': self.out = a
                elif t in ('-load', '-load-pass-plugin'): self.plugins.append(a)
                elif t == '-D': self.defs.append(a)
                else: self.flags.append(t + a)
                continue
            if self.tool == 'opt' and re.match(r'--?vfclibinst-', t):
                k, s, v = t.lstrip('-').partition('=')
                if not s and k not in BOOL and i + 1 < len(w): v = w[i + 1]; i += 1
                self.inst.append((k, v))
            elif self.tool == 'opt' and re.match(r'--?passes=', t): self.passes += t.split('=', 1)[1].split(',')
            elif self.tool == 'opt' and t.lstrip('-') in ('vfclibinst', 'vfclibfunc') and t.startswith('-'): self.passes.append(t.lstrip('-'))
            elif self.tool == 'opt' and re.match(r'--?(load|load-pass-plugin)=', t): self.plugins.append(t.split('=', 1)[1])
            elif t.startswith('-D') and len(t) > 2: self.defs.append(t[2:]); self.flags.append(t)
            elif t.startswith('-') and t != '-': self.flags.append(t)
            else: self.inputs.append(t)
            i += 1

BOOL = {'vfclibinst-verbose', 'vfclibinst-inst-fcmp', 'vfclibinst-inst-fma', 'vfclibinst-inst-cast', 'vfclibinst-strict-abi', 'vfclibinst-debug',
        'vfclibinst-debug-getoperands', 'vfclibinst-debug-abi', 'vfclibinst-debug-targetfeatures'}
INSTMACROS = {'INST_FCMP', 'INST_FMA', 'INST_CAST', 'INST_FUNC', 'DDEBUG'}

def is_wrapper(s): return posixpath.basename(s) == 'vfcwrapper.c'
