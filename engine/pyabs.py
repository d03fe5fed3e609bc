"""Abstract interpretation of the project's Python programs over their syntax tree.

Words the user supplies are uninterpreted letters inside ordinary strings; everything outside the program
(processes, files, time) is replaced by a model supplied by the check, and an outcome the model leaves open is
decided by the check's choice so that every alternative is explored.  What has no model raises Unk.
"""
import ast, builtins, operator, functools, collections, types

class Unk(BaseException): pass
class _Ret(BaseException):
    def __init__(self, v): self.v = v
class _Brk(BaseException): pass
class _Cont(BaseException): pass
class Budget(Unk): pass

SAFE = ('abs all any bool bytes callable chr classmethod dict divmod enumerate filter float format frozenset getattr hasattr hash hex id int isinstance '
        'issubclass iter len list map max min next object oct ord pow property range repr reversed round set setattr slice sorted staticmethod str sum '
        'super tuple type zip Exception BaseException ValueError KeyError IndexError TypeError RuntimeError OSError IOError FileNotFoundError '
        'AttributeError NotImplementedError StopIteration AssertionError KeyboardInterrupt SystemExit ArithmeticError ZeroDivisionError '
        'PermissionError FileExistsError LookupError NameError ImportError True False None NotImplemented Ellipsis').split()
BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
       ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitOr: operator.or_, ast.BitAnd: operator.and_, ast.BitXor: operator.xor,
       ast.LShift: operator.lshift, ast.RShift: operator.rshift}
CMP = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge,
       ast.Is: operator.is_, ast.IsNot: operator.is_not, ast.In: lambda a, b: a in b, ast.NotIn: lambda a, b: a not in b}
UN = {ast.Not: operator.not_, ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}

class Unknown:
    """a name without model: any use is Unk"""
    def __init__(self, what): self.__dict__['_w'] = what
    def _u(self, *a, **k): raise Unk(self.__dict__['_w'])
    __call__ = __getattr__ = __setattr__ = __getitem__ = __iter__ = __bool__ = __len__ = __eq__ = __add__ = __radd__ = __str__ = __format__ = __contains__ = _u
    __hash__ = object.__hash__
    __lt__ = __gt__ = __sub__ = __mul__ = __mod__ = __enter__ = __exit__ = _u

class NS:
    """a modelled module"""
    def __init__(self, name, /, **kw):
        self.__dict__.update(kw); self.__dict__['_n'] = name
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        return Unknown('%s.%s' % (self.__dict__['_n'], k))

class Package:
    """a package of the project: submodules are interpreted on first use; mangling of private names as in the language"""
    def __init__(self, texts): self.texts, self.done = texts, {}
    def sub(self, it, n):
        if n not in self.done:
            if n not in self.texts: return Unknown('module ' + n)
            g = it.module(self.texts[n], n, n)
            self.done[n] = NS(n, **{k: v for k, v in g.v.items() if not k.startswith('__')})
        return self.done[n]

class Env:
    def __init__(self, up=None, vars=None): self.v, self.up, self.glob, self.nonl = vars if vars is not None else {}, up, set(), set()

def has_yield(s):
    todo = list(s.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): todo += list(ast.iter_child_nodes(n))
    return False

@functools.lru_cache(16)
def parse(text): return ast.parse(text)

class Interp:
    def __init__(self, modules=None, extra=None, budget=400000, path=''):
        self.modules, self.budget, self.steps, self.path = modules or {}, budget, 0, path
        self.b = {k: getattr(builtins, k) for k in SAFE if hasattr(builtins, k)}
        self.b.update(extra or {})
        self.b.setdefault('print', lambda *a, **k: None)
        self.loaded = {}
        self.line = 0
        self.depth = 0
        self.gens = []
        self.b['__import__'] = None
    # ------------------------------------------------ entry
    def module(self, text, name='__abs__', filename='?', env=None):
        t = parse(text)
        g = Env(None, {'__name__': name, '__file__': filename})
        g.g = g
        if env: g.v.update(env)
        self.block(t.body, g)
        return g
    # ------------------------------------------------ names
    def get(self, n, e):
        x = e
        while x is not None:
            if n in x.v: return x.v[n]
            x = x.up
            while x is not None and getattr(x, 'cls', False): x = x.up
        if n in self.b: return self.b[n]
        if hasattr(builtins, n): return Unknown(n)
        raise NameError("name '%s' is not defined" % n)
    def put(self, n, v, e):
        if n in e.glob: e.g.v[n] = v; return
        if n in e.nonl:
            x = e.up
            while x is not None:
                if n in x.v: x.v[n] = v; return
                x = x.up
        e.v[n] = v
    def assign(self, t, v, e):
        if isinstance(t, ast.Name): self.put(t.id, v, e)
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = list(v)
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                k = st[0]; r = len(t.elts) - k - 1
                if len(xs) < len(t.elts) - 1: raise ValueError('not enough values to unpack')
                for a, b in zip(t.elts[:k], xs[:k]): self.assign(a, b, e)
                self.assign(t.elts[k].value, xs[k:len(xs) - r], e)
                for a, b in zip(t.elts[k + 1:], xs[len(xs) - r:]): self.assign(a, b, e)
            else:
                if len(xs) != len(t.elts): raise ValueError('values to unpack')
                for a, b in zip(t.elts, xs): self.assign(a, b, e)
        elif isinstance(t, ast.Attribute): setattr(self.ev(t.value, e), t.attr, v)
        elif isinstance(t, ast.Subscript): self.ev(t.value, e)[self.ev(t.slice, e)] = v
        else: raise Unk('assignment target')
    # ------------------------------------------------ statements
    def block(self, ss, e):
        for s in ss: self.st(s, e)
    def st(self, s, e):
        self.steps += 1
        if self.steps > self.budget: raise Budget('analysis budget exhausted')
        self.line = getattr(s, 'lineno', self.line)
        k = type(s)
        if k is ast.Expr: self.ev(s.value, e)
        elif k is ast.Assign:
            v = self.ev(s.value, e)
            for t in s.targets: self.assign(t, v, e)
        elif k is ast.AnnAssign:
            if s.value is not None: self.assign(s.target, self.ev(s.value, e), e)
        elif k is ast.AugAssign:
            t = s.target
            if isinstance(t, ast.Name): cur, setter = self.get(t.id, e), (lambda v: self.put(t.id, v, e))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, e); cur, setter = getattr(o, t.attr), (lambda v: setattr(o, t.attr, v))
            else:
                o, i = self.ev(t.value, e), self.ev(t.slice, e); cur, setter = o[i], (lambda v: o.__setitem__(i, v))
            r = self.ev(s.value, e)
            if isinstance(s.op, ast.Add) and isinstance(cur, list): cur += list(r); setter(cur)
            else: setter(BIN[type(s.op)](cur, r))
        elif k is ast.If: self.block(s.body if self.ev(s.test, e) else s.orelse, e)
        elif k is ast.For:
            done = True
            for x in self.ev(s.iter, e):
                self.assign(s.target, x, e)
                try: self.block(s.body, e)
                except _Brk: done = False; break
                except _Cont: continue
            if done: self.block(s.orelse, e)
        elif k is ast.While:
            n, done = 0, True
            while self.ev(s.test, e):
                n += 1
                if n > 3000: raise Budget('loop does not settle')
                try: self.block(s.body, e)
                except _Brk: done = False; break
                except _Cont: continue
            if done: self.block(s.orelse, e)
        elif k is ast.Return: raise _Ret(self.ev(s.value, e) if s.value is not None else None)
        elif k is ast.Break: raise _Brk()
        elif k is ast.Continue: raise _Cont()
        elif k is ast.Pass: pass
        elif k is ast.FunctionDef:
            f = self.mkfn(s, e)
            for d in reversed(s.decorator_list): f = self.ev(d, e)(f)
            self.put(s.name, f, e)
        elif k is ast.ClassDef:
            ce = Env(e); ce.g = e.g; ce.cls = True
            cell = {}
            ce.cell = cell
            self.block(s.body, ce)
            bases = tuple(self.ev(b, e) for b in s.bases)
            if any(isinstance(b, Unknown) for b in bases): raise Unk('base class')
            c = type(s.name, bases or (object,), dict(ce.v))
            cell['c'] = c
            for d in reversed(s.decorator_list): c = self.ev(d, e)(c)
            self.put(s.name, c, e)
        elif k in (ast.Import, ast.ImportFrom): self.imp(s, e)
        elif k is ast.Global: e.glob |= set(s.names)
        elif k is ast.Nonlocal: e.nonl |= set(s.names)
        elif k is ast.Raise:
            if s.exc is None:
                raise e.exc if getattr(e, 'exc', None) is not None else Unk('bare raise')
            x = self.ev(s.exc, e)
            raise x
        elif k is ast.Try:
            self.trystmt(s, e)
        elif k is ast.With:
            self.withstmt(s.items, s.body, e)
        elif k is ast.Assert:
            if not self.ev(s.test, e): raise AssertionError(self.ev(s.msg, e) if s.msg else '')
        elif k is ast.Delete:
            for t in s.targets:
                if isinstance(t, ast.Name): del e.v[t.id]
                elif isinstance(t, ast.Subscript): del self.ev(t.value, e)[self.ev(t.slice, e)]
                elif isinstance(t, ast.Attribute): delattr(self.ev(t.value, e), t.attr)
        else: raise Unk('statement %s' % k.__name__)
    def trystmt(self, s, e):
        try:
            try:
                self.block(s.body, e)
            except (Unk, _Ret, _Brk, _Cont): raise
            except BaseException as x:
                for h in s.handlers:
                    t = self.ev(h.type, e) if h.type is not None else BaseException
                    if isinstance(x, t):
                        if h.name: e.v[h.name] = x
                        old = getattr(e, 'exc', None)
                        e.exc = x
                        try: self.block(h.body, e)
                        finally: e.exc = old
                        break
                else: raise
            else: self.block(s.orelse, e)
        except Unk: raise
        except BaseException:
            self.block(s.finalbody, e)
            raise
        self.block(s.finalbody, e)
    def withstmt(self, items, body, e):
        if not items: return self.block(body, e)
        m = self.ev(items[0].context_expr, e)
        v = m.__enter__()
        if items[0].optional_vars is not None: self.assign(items[0].optional_vars, v, e)
        try: self.withstmt(items[1:], body, e)
        except Unk: raise
        except (_Ret, _Brk, _Cont):
            m.__exit__(None, None, None); raise
        except BaseException as x:
            if not m.__exit__(type(x), x, None): raise
            return
        m.__exit__(None, None, None)
    def imp(self, s, e):
        def mod(n):
            if n in self.modules:
                m = self.modules[n]
                if isinstance(m, str):
                    g = self.module(m, n)
                    m = self.modules[n] = NS(n, **g.v)
                return m
            return Unknown('module ' + n)
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.asname: self.put(a.asname, mod(a.name), e)
                else: self.put(a.name.split('.')[0], mod(a.name.split('.')[0]), e)
        else:
            if s.module == '__future__': return
            m = mod(('.' * s.level) + (s.module or ''))
            if isinstance(m, Package):
                for a in s.names: self.put(a.asname or a.name, m.sub(self, a.name), e)
                return
            for a in s.names:
                if a.name == '*':
                    if isinstance(m, NS):
                        for k, v in vars(m).items():
                            if not k.startswith('_'): self.put(k, v, e)
                        continue
                    raise Unk('import *')
                if isinstance(m, Unknown): v = Unknown('%s.%s' % (s.module, a.name))
                else: v = getattr(m, a.name)
                self.put(a.asname or a.name, v, e)
    # ------------------------------------------------ functions
    def mkfn(self, s, e):
        a = s.args
        nd = [self.ev(d, e) for d in a.defaults]
        kd = [self.ev(d, e) if d is not None else None for d in a.kw_defaults]
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwo = [x.arg for x in a.kwonlyargs]
        me = self
        gen = has_yield(s) if not isinstance(s, ast.Lambda) else False
        cell = getattr(e, 'cell', None)
        name = getattr(s, 'name', '<lambda>')
        def f(*args, **kw):
            if gen and not kw.pop('\0body', False): return me.generator(f, args, kw)
            fe = Env(e); fe.g = e.g
            fe.cell = cell
            v = fe.v
            if len(args) > len(pos) and not a.vararg: raise TypeError('%s() takes %d positional arguments' % (name, len(pos)))
            for n, x in zip(pos, args): v[n] = x
            if a.vararg: v[a.vararg.arg] = tuple(args[len(pos):])
            rest = dict(kw)
            for n in pos + kwo:
                if n in rest:
                    if n in v: raise TypeError('multiple values for ' + n)
                    v[n] = rest.pop(n)
            if a.kwarg: v[a.kwarg.arg] = rest
            elif rest: raise TypeError('%s() got an unexpected keyword argument' % name)
            for n, d in zip(pos[len(pos) - len(nd):], nd): v.setdefault(n, d)
            for n, (d, has) in zip(kwo, [(x, y is not None) for x, y in zip(kd, a.kw_defaults)]):
                if has: v.setdefault(n, d)
            for n in pos + kwo:
                if n not in v: raise TypeError('%s() missing argument %s' % (name, n))
            if pos: fe.self0 = v[pos[0]]
            me.depth += 1
            if me.depth > 80: raise Budget('recursion too deep')
            ln = me.line
            try:
                if isinstance(s, ast.Lambda): return me.ev(s.body, fe)
                me.block(s.body, fe)
                return None
            except _Ret as r: return r.v
            finally:
                me.depth -= 1
                me.line = ln if False else me.line
        f.__name__ = name
        f.absnode = s
        return f
    def generator(self, f, args, kw):
        """the body runs in its own thread, one step at a time: a stack of its own is all a generator is"""
        import threading
        me, go, back, box = self, threading.Semaphore(0), threading.Semaphore(0), {}
        def body():
            go.acquire()
            me.gens.append(yielder)
            try: box['out'] = ('ret', f(*args, **dict(kw, **{'\0body': True})))
            except BaseException as x: box['out'] = ('exc', x)
            back.release()
        def yielder(v):
            box['out'] = ('yield', v)
            back.release(); go.acquire()
            if box['in'][0] == 'throw': raise box['in'][1]
            return box['in'][1]
        def stepper():
            t = None
            cmd = ('send', None)
            while True:
                box['in'] = cmd
                saved, me.gens = me.gens, [yielder]
                d = me.depth
                if t is None:
                    t = threading.Thread(target=body, daemon=True); t.start()
                go.release(); back.acquire()
                me.gens, me.depth = saved, d
                k, v = box['out']
                if k == 'ret': return v
                if k == 'exc': raise v
                try: cmd = ('send', (yield v))
                except GeneratorExit: return
                except BaseException as x: cmd = ('throw', x)
        return stepper()
    # ------------------------------------------------ expressions
    def ev(self, n, e):
        k = type(n)
        if k is ast.Constant: return n.value
        if k is ast.Name: return self.get(n.id, e)
        if k is ast.Attribute:
            o = self.ev(n.value, e)
            return getattr(o, n.attr)
        if k is ast.Call: return self.callx(n, e)
        if k is ast.BinOp: return BIN[type(n.op)](self.ev(n.left, e), self.ev(n.right, e))
        if k is ast.BoolOp:
            v = None
            for x in n.values:
                v = self.ev(x, e)
                if isinstance(n.op, ast.And) and not v or isinstance(n.op, ast.Or) and v: return v
            return v
        if k is ast.UnaryOp: return UN[type(n.op)](self.ev(n.operand, e))
        if k is ast.Compare:
            l = self.ev(n.left, e)
            if len(n.ops) == 1: return CMP[type(n.ops[0])](l, self.ev(n.comparators[0], e))
            for op, r in zip(n.ops, n.comparators):
                r = self.ev(r, e)
                if not CMP[type(op)](l, r): return False
                l = r
            return True
        if k is ast.IfExp: return self.ev(n.body if self.ev(n.test, e) else n.orelse, e)
        if k is ast.JoinedStr:
            out = ''
            for v in n.values:
                if isinstance(v, ast.Constant): out += v.value
                else:
                    x = self.ev(v.value, e)
                    if isinstance(x, Unknown): raise Unk('formatting of an unknown value')
                    if v.conversion == 114: x = repr(x)
                    elif v.conversion == 115: x = str(x)
                    out += format(x, self.ev(v.format_spec, e) if v.format_spec else '')
            return out
        if k is ast.List: return list(self.elts(n.elts, e))
        if k is ast.Tuple: return tuple(self.elts(n.elts, e))
        if k is ast.Set: return set(self.elts(n.elts, e))
        if k is ast.Dict:
            d = {}
            for a, b in zip(n.keys, n.values):
                if a is None: d.update(self.ev(b, e))
                else: d[self.ev(a, e)] = self.ev(b, e)
            return d
        if k is ast.Subscript: return self.ev(n.value, e)[self.ev(n.slice, e)]
        if k is ast.Slice:
            return slice(*[self.ev(x, e) if x is not None else None for x in (n.lower, n.upper, n.step)])
        if k in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            ce = Env(e); ce.g = e.g
            ce.cell = getattr(e, 'cell', None)
            if hasattr(e, 'self0'): ce.self0 = e.self0
            out = []
            def go(gs):
                if not gs:
                    out.append((self.ev(n.key, ce), self.ev(n.value, ce)) if k is ast.DictComp else self.ev(n.elt, ce)); return
                for x in self.ev(gs[0].iter, ce):
                    self.assign(gs[0].target, x, ce)
                    if all(self.ev(c, ce) for c in gs[0].ifs): go(gs[1:])
            go(n.generators)
            return dict(out) if k is ast.DictComp else set(out) if k is ast.SetComp else iter(out) if k is ast.GeneratorExp else out
        if k is ast.Lambda: return self.mkfn(n, e)
        if k is ast.Yield: return self.gens[-1](self.ev(n.value, e) if n.value is not None else None)
        if k is ast.YieldFrom:
            for x in self.ev(n.value, e): self.gens[-1](x)
            return None
        if k is ast.NamedExpr:
            v = self.ev(n.value, e); self.put(n.target.id, v, e); return v
        if k is ast.Starred: raise Unk('starred')
        raise Unk('expression %s' % k.__name__)
    def elts(self, xs, e):
        for x in xs:
            if isinstance(x, ast.Starred): yield from self.ev(x.value, e)
            else: yield self.ev(x, e)
    def callx(self, n, e):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            x = e
            while x is not None and not hasattr(x, 'self0'): x = x.up
            c = getattr(e, 'cell', None)
            if x is None or not c: raise Unk('super')
            return super(c['c'], x.self0)
        if isinstance(n.func, ast.Name) and n.func.id == 'exec' and len(n.args) == 1 and not n.keywords:
            self.block(parse(self.ev(n.args[0], e)).body, e); return None
        f = self.ev(n.func, e)
        args = list(self.elts(n.args, e))
        kw = {}
        for k in n.keywords:
            if k.arg is None: kw.update(self.ev(k.value, e))
            else: kw[k.arg] = self.ev(k.value, e)
        ln = getattr(n, 'lineno', self.line)
        self.line = ln
        self.calls = getattr(self, 'calls', 0) + 1
        if isinstance(f, Unknown): f()
        return f(*args, **kw)
