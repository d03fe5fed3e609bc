"""Abstract interpretation of the C++ of the instrumentation pass over its type-checked syntax tree.

The pass is a program over LLVM's object model; the domain here is that model reduced to what the pass
can observe: opcode, types, operands, callee, predicate, attributes, names.  Instructions, operand
values and names are abstract (an instruction stands for every instruction of its opcode and types);
anything the domain does not describe raises Unk and the obligation is left undecided.
"""
import json, os, re, subprocess, tempfile, shutil

LLVM = '/usr/lib/llvm-18/include'

class Unk(Exception): pass
class Fatal(Exception): pass
class Defect(Exception):
    def __init__(self, msg, where=None):
        Exception.__init__(self, msg)
        self.where = where
class Ret(Exception):
    def __init__(self, v): self.v = v
class Brk(Exception): pass
class Cont(Exception): pass

# ---------------------------------------------------------------- loading the tree
class Unit:
    def __init__(self, path, root):
        self.path = os.path.relpath(path, root)
        src = open(path).read()
        self.src = src
        incs = list(re.finditer(r'(?m)^[ \t]*#[ \t]*include.*$', src))
        if not incs:
            raise Unk('no include found in ' + self.path)
        self.cut = incs[-1].end()
        self.ins = '\nnamespace vfc_own_ {'
        text = src[:self.cut] + self.ins + src[self.cut:] + '\n}\n'
        d = tempfile.mkdtemp(prefix='vfcxx')
        try:
            p = os.path.join(d, self.path)
            os.makedirs(os.path.dirname(p))
            for h in os.listdir(os.path.dirname(path)):
                if h.endswith(('.h', '.hpp', '.hxx', '.def', '.inc')):
                    shutil.copy(os.path.join(os.path.dirname(path), h), os.path.dirname(p))
            open(p, 'w').write(text)
            open(os.path.join(d, 'config.h'), 'w').write('#define PACKAGE "verificarlo"\n')
            self.text = text
            r = subprocess.run(['clang++-18', '-fsyntax-only', '-std=c++17', '-I' + LLVM, '-I' + d, '-I' + root, '-D_GNU_SOURCE',
                                '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', '-fno-exceptions',
                                '-Wno-everything', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=vfc_own_', p],
                               capture_output=True, text=True, timeout=600)
            if r.returncode:
                raise Unk('the pass does not compile on its own: ' + r.stderr[-300:])
            s = r.stdout
        finally:
            shutil.rmtree(d, ignore_errors=True)
        self.docs, i, dec = [], 0, json.JSONDecoder()
        while True:
            i = s.find('{', i)
            if i < 0:
                break
            o, i = dec.raw_decode(s, i)
            self.docs.append(o)
        self.decls = {}
        self.kids = {}
        self.globals = []
        for o in self.docs:
            self._index(o, None, True)
        self.lines = {}
    def _index(self, n, parent, top):
        if not isinstance(n, dict):
            return
        k = n.get('kind', '')
        if k.endswith('Decl') and 'id' in n:
            self.decls[n['id']] = n
            n['_parent'] = parent
            if k == 'VarDecl' and top:
                self.globals.append(n)
        sub = top and k in ('NamespaceDecl', 'LinkageSpecDecl', 'TranslationUnitDecl', '')
        for c in n.get('inner', []):
            self._index(c, n if k.endswith('Decl') else parent, sub)
    def methods(self, name):
        return [d for d in self.decls.values() if d.get('name') == name and d['kind'] in ('CXXMethodDecl', 'FunctionDecl')
                and body(d) is not None]
    def line(self, n):
        r = n.get('range', {}).get('begin', {})
        r = r.get('expansionLoc', r)
        off = r.get('offset')
        if off is None:
            return 0
        if off > self.cut:
            off -= len(self.ins)
        return self.src.count('\n', 0, off) + 1
    def at(self, n):
        return '%s:%d' % (self.path, self.line(n))
    def snippet(self, n):
        b, e = n.get('range', {}).get('begin', {}), n.get('range', {}).get('end', {})
        b, e = b.get('spellingLoc', b), e.get('spellingLoc', e)
        if 'offset' not in b or 'offset' not in e:
            return ''
        return self.text[b['offset']: e['offset'] + e.get('tokLen', 1)]

def body(d):
    for c in d.get('inner', []):
        if c.get('kind') == 'CompoundStmt':
            return c
    return None

def qt(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType', '')

def cls(t):
    """class name of a type spelling"""
    t = re.sub(r'\b(const|class|struct|enum|volatile)\b', '', t)
    t = re.sub(r'\(anonymous namespace\)::', '', t)
    t = t.replace('&', '').replace('*', '').strip()
    t = re.sub(r'<.*>', '', t)
    return t.split('::')[-1].strip()

# ---------------------------------------------------------------- domain
class Box:
    __slots__ = ('v',)
    def __init__(self, v=None): self.v = v
    def get(self): return self.v
    def set(self, v): self.v = v
class Slot:
    """element of a container"""
    def __init__(self, c, k): self.c, self.k = c, k
    def get(self): return self.c[self.k]
    def set(self, v): self.c[self.k] = v
class Attrslot:
    def __init__(self, o, k): self.o, self.k = o, k
    def get(self): return getattr(self.o, self.k)
    def set(self, v): setattr(self.o, self.k, v)
class Ptr:
    def __init__(self, box): self.box = box

UNINIT = type('Uninit', (), {'__repr__': lambda s: 'uninitialised'})()

class Ty(tuple):
    """('float',) ('double',) ('half',) ('int',n) ('ptr',) ('void',) ('vec',n,elt) ('svec',n,elt)"""
    def __str__(self):
        if self[0] == 'int': return 'i%d' % self[1]
        if self[0] == 'vec': return '<%d x %s>' % (self[1], self[2])
        if self[0] == 'svec': return '<vscale x %d x %s>' % (self[1], self[2])
        return self[0]
def T(*a): return Ty(a)
FLOAT, DOUBLE, PTR, VOID = T('float'), T('double'), T('ptr'), T('void')
def INT(n): return T('int', n)
def VEC(n, e): return T('vec', n, e)
FPS = ('half', 'bfloat', 'float', 'double', 'x86_fp80', 'fp128', 'ppc_fp128')
BITS = {'half': 16, 'bfloat': 16, 'float': 32, 'double': 64, 'x86_fp80': 80, 'fp128': 128, 'ppc_fp128': 128}

def bits(t):
    if t[0] == 'int': return t[1]
    if t[0] in BITS: return BITS[t[0]]
    if t[0] == 'vec': return t[1] * bits(t[2])
    return 0

def bitcastable(a, b):
    if a == b: return True
    if a[0] == 'vec' and b[0] == 'vec' and a[1] == b[1]:
        a, b = a[2], b[2]
    if a[0] == 'ptr' or b[0] == 'ptr':
        return a == b
    return bits(a) != 0 and bits(a) == bits(b)

TYPEID = {}
OPC = {}
OPCLASS = {}
def _tables():
    s = open(LLVM + '/llvm/IR/Type.h').read()
    m = re.search(r'enum TypeID \{(.*?)\};', s, re.S)
    v = -1
    for x in re.finditer(r'^\s*(\w+TyID)\s*(?:=\s*(\d+))?\s*,?', re.sub(r'//.*', '', m.group(1)), re.M):
        v = int(x.group(2)) if x.group(2) else v + 1
        TYPEID[x.group(1)] = v
    for x in re.finditer(r'^HANDLE_(\w+)_INST\s*\(\s*(\d+)\s*,\s*(\w+)\s*,\s*(\w+)', open(LLVM + '/llvm/IR/Instruction.def').read(), re.M):
        OPC[x.group(3)] = int(x.group(2))
        OPCLASS[x.group(3)] = (x.group(1), x.group(4))
_tables()
PREDS = ['FCMP_FALSE', 'FCMP_OEQ', 'FCMP_OGT', 'FCMP_OGE', 'FCMP_OLT', 'FCMP_OLE', 'FCMP_ONE', 'FCMP_ORD', 'FCMP_UNO', 'FCMP_UEQ',
         'FCMP_UGT', 'FCMP_UGE', 'FCMP_ULT', 'FCMP_ULE', 'FCMP_UNE', 'FCMP_TRUE']
TID = {'half': 'HalfTyID', 'bfloat': 'BFloatTyID', 'float': 'FloatTyID', 'double': 'DoubleTyID', 'x86_fp80': 'X86_FP80TyID',
       'fp128': 'FP128TyID', 'ppc_fp128': 'PPC_FP128TyID', 'void': 'VoidTyID', 'int': 'IntegerTyID', 'ptr': 'PointerTyID',
       'vec': 'FixedVectorTyID', 'svec': 'ScalableVectorTyID'}

class Val:
    """an abstract operand: any value of its type"""
    kind = 'val'
    def __init__(self, ty, name): self.ty, self.name = ty, name
    def __repr__(self): return self.name
class Const(Val):
    kind = 'const'
    def __init__(self, ty, v): Val.__init__(self, ty, str(v)); self.v = v
class Inst(Val):
    kind = 'inst'
    def __init__(self, op, ty, ops, name='', **x):
        Val.__init__(self, ty, name or op)
        self.op, self.ops, self.x = op, list(ops), x
        self.block = None
        self.attrs = None
        self.erased = False
class Arg(Val):
    kind = 'arg'
    def __init__(self, ty, name, no, fn): Val.__init__(self, ty, name); self.no, self.fn = no, fn
class Block(Val):
    kind = 'block'
    def __init__(self, fn, name='bb'):
        Val.__init__(self, T('label'), name); self.fn, self.insts = fn, []
        fn.blocks.append(self)
    def add(self, i, before=None):
        i.block = self
        if before is None: self.insts.append(i)
        else: self.insts.insert(self.insts.index(before), i)
        return i
class Attr:
    def __init__(self, k, v=''): self.k, self.v = k, v
    def __eq__(self, o): return isinstance(o, Attr) and (self.k, self.v) == (o.k, o.v)
    def __hash__(self): return hash((self.k, self.v))
class AttrList:
    """function attributes, return attributes and per-parameter attributes"""
    def __init__(self, fn=None, params=None, ret=None):
        self.fn, self.params, self.ret = dict(fn or {}), {k: dict(v) for k, v in (params or {}).items()}, dict(ret or {})
    def copy(self): return AttrList(self.fn, self.params, self.ret)
class FnTy(tuple): pass
class Fn(Val):
    kind = 'fn'
    def __init__(self, name, ret, params, attrs=None, mod=None):
        Val.__init__(self, PTR, name)
        self.ret, self.params, self.attrs, self.blocks, self.mod = ret, list(params), attrs or AttrList(), [], mod
        self.args = [Arg(t, 'arg%d' % i, i, self) for i, t in enumerate(params)]
    def users(self): return [i for b in self.blocks for i in b.insts]
class Mod:
    def __init__(self, name, srcname=''):
        self.name, self.src, self.fns = name, srcname, []
    def get(self, n): return next((f for f in self.fns if f.name == n), None)
class Callee:
    def __init__(self, f): self.f = f
class Builder:
    def __init__(self, before=None, block=None): self.before, self.block = before, block
    def ins(self, i):
        if self.before is not None:
            if self.before.erased: raise Defect('instruction inserted at an erased position')
            self.before.block.add(i, self.before)
        elif self.block is not None:
            self.block.add(i)
        else:
            raise Unk('builder without position')
        return i
class Iter:
    """position in a list; seq() gives the current elements"""
    def __init__(self, cont, el, end=False): self.cont, self.el, self.end = cont, el, end
    def seq(self):
        c = self.cont
        return c.insts if isinstance(c, Block) else c.blocks if isinstance(c, Fn) else c.fns if isinstance(c, Mod) else c.elems()
    def key(self): return (id(self.cont), None if self.end else self.el if isinstance(self.el, int) else id(self.el))
    def intrusive(self): return isinstance(self.cont, (Block, Fn, Mod))
    def deref(self):
        if self.end: raise Defect('dereference of an end iterator')
        if self.intrusive():
            if isinstance(self.el, Inst) and self.el.erased: raise Defect('use of an erased instruction through an iterator')
            return self.el
        s = self.seq()
        return s[self.el]
    def step(self, d=1):
        s = self.seq()
        if self.intrusive():
            if self.end:
                if d == 1: raise Defect('iterator moved past the end')
                self.el, self.end = s[-1], False
                return
            if self.el not in s: raise Defect('iterator advanced after its element was erased')
            j = s.index(self.el) + d
            if j < 0: raise Defect('iterator moved before the beginning')
            self.el, self.end = (s[j], False) if j < len(s) else (None, True)
        else:
            j = (len(s) if self.end else self.el) + d
            self.el, self.end = (j, False) if j < len(s) else (None, True)
    def copy(self): return Iter(self.cont, self.el, self.end)
class Pair:
    def __init__(self, a, b): self.first, self.second = a, b
    def __eq__(self, o): return isinstance(o, Pair) and (self.first, self.second) == (o.first, o.second)
    def __hash__(self): return hash((self.first, self.second))
    def copy(self): return Pair(self.first, self.second)
class Tup:
    def __init__(self, xs): self.xs = list(xs)
    def __eq__(self, o): return isinstance(o, Tup) and self.xs == o.xs
    def __hash__(self): return hash(tuple(self.xs))
class Vec:
    def __init__(self, xs=()): self.xs = list(xs)
    def elems(self): return self.xs
    def copy(self): return Vec(self.xs)
    def __getitem__(self, k): return self.xs[k]
    def __setitem__(self, k, v): self.xs[k] = v
    def __eq__(self, o): return isinstance(o, Vec) and self.xs == o.xs
    __hash__ = None
def _plain(x):
    return isinstance(x, (int, str, bool)) or isinstance(x, Pair) and _plain(x.first) and _plain(x.second)
def _okey(x):
    return (_okey(x.first), _okey(x.second)) if isinstance(x, Pair) else x
class CSet:
    """ordered by value, or (pointers) in the order the run assumes"""
    rev = False
    def __init__(self, xs=(), ordered=True):
        self.xs = []
        for x in xs: self.add(x)
    def add(self, x):
        if x in self.xs: return False
        self.xs.append(x)
        if all(_plain(y) for y in self.xs):
            self.xs.sort(key=_okey)
        return True
    def elems(self):
        if CSet.rev and not all(_plain(y) for y in self.xs):
            return self.xs[::-1]
        return self.xs
    def copy(self): return CSet(self.xs)
class CMap:
    def __init__(self, prs=(), deflt=None):
        self.d = {}
        for p in prs: self.d.setdefault(p.first, p.second)
        self.deflt = deflt
    def elems(self):
        ks = list(self.d)
        if all(_plain(k) for k in ks): ks.sort(key=_okey)
        elif CSet.rev: ks = ks[::-1]
        return [Pair(k, self.d[k]) for k in ks]
    def copy(self):
        c = CMap((), self.deflt); c.d = dict(self.d); return c
class Opt:
    def __init__(self, name, v, isbool): self.name, self.v, self.isbool = name, v, isbool
class Obj:
    def __init__(self, rec): self.rec, self.f = rec, {}
class Stream:
    def __init__(self, lines=None, text=None, ok=True): self.data, self.ok, self.fail = (text if text is not None else ''), ok, False
    pos = 0
class Sink: pass
class Rso:
    def __init__(self, box): self.box = box
class Err:
    """std::error_code"""
    def __init__(self, bad): self.bad = bad
class Rgx:
    def __init__(self, pat): self.pat = pat
    def copy(self): return Rgx(self.pat)
class Opaque:
    def __init__(self, what): self.what = what
class Lam:
    def __init__(self, node, fr): self.node, self.fr = node, fr
class Fun:
    def __init__(self, decl, this=None): self.decl, self.this = decl, this
class Frame:
    def __init__(self, this=None, up=None): self.vars, self.this, self.up = {}, this, up
    def find(self, i):
        f = self
        while f:
            if i in f.vars: return f.vars[i]
            f = f.up
        return None

def classof(v, c):
    """isa<c>(v); raises Unk for a class the domain does not know"""
    if isinstance(v, Ty):
        t = {'Type': lambda: True, 'VectorType': lambda: v[0] in ('vec', 'svec'), 'FixedVectorType': lambda: v[0] == 'vec',
             'ScalableVectorType': lambda: v[0] == 'svec', 'IntegerType': lambda: v[0] == 'int', 'PointerType': lambda: v[0] == 'ptr',
             'StructType': lambda: v[0] == 'struct', 'ArrayType': lambda: v[0] == 'array', 'FunctionType': lambda: v[0] == 'fn'}
        if c in t: return t[c]()
        raise Unk('isa<%s> of a type' % c)
    if isinstance(v, Val):
        if c == 'Value': return True
        if c in ('Function', 'GlobalObject', 'GlobalValue'): return v.kind == 'fn'
        if c == 'Argument': return v.kind == 'arg'
        if c == 'BasicBlock': return v.kind == 'block'
        if c == 'Constant': return v.kind in ('const', 'fn')
        if c == 'ConstantInt': return v.kind == 'const' and isinstance(v.v, int)
        if c in ('ConstantFP', 'ConstantExpr', 'UndefValue', 'PoisonValue', 'ConstantData', 'ConstantAggregateZero', 'ConstantVector',
                 'ConstantDataVector'):
            if v.kind == 'const': raise Unk('isa<%s> of a constant' % c)
            return False
        if c == 'User': return v.kind in ('inst', 'const', 'fn')
        if c == 'Instruction': return v.kind == 'inst'
        if v.kind != 'inst':
            if any(c == k[1] for k in OPCLASS.values()) or c in ('CastInst', 'CmpInst', 'CallBase', 'UnaryInstruction', 'IntrinsicInst', 'FPMathOperator'):
                return False
            raise Unk('isa<%s>' % c)
        g, k = OPCLASS[v.op]
        if c == k: return True
        if c == 'CastInst': return g == 'CAST'
        if c == 'CmpInst': return v.op in ('FCmp', 'ICmp')
        if c == 'CallBase': return v.op in ('Call', 'Invoke', 'CallBr')
        if c == 'UnaryInstruction': return g in ('CAST', 'UNARY') or v.op in ('Alloca', 'Load', 'VAArg', 'ExtractValue')
        if c == 'IntrinsicInst': return v.op == 'Call' and v.x.get('callee') is not None and v.x['callee'].name.startswith('llvm.')
        if c == 'FPMathOperator':
            if v.op in ('FNeg', 'FAdd', 'FSub', 'FMul', 'FDiv', 'FRem', 'FCmp'): return True
            if v.op in ('PHI', 'Select', 'Call'):
                t = v.ty[2] if v.ty[0] in ('vec', 'svec') else v.ty
                return t[0] in FPS
            return False
        if any(c == x[1] for x in OPCLASS.values()) or c in ('BinaryOperator', 'UnaryOperator'):
            return False
    raise Unk('isa<%s>' % c)

STD_STR = ('basic_string', 'string', 'StringRef', 'SmallString', 'Twine', 'basic_string_view', 'string_view', 'path')

def cval(x):
    if isinstance(x, Opt): return x.v
    return x

class Interp:
    def __init__(self, unit, options=None, files=None, modules=None, choose=None):
        self.u, self.opts, self.files, self.modules = unit, options or {}, files or {}, modules or {}
        self.glob = {}
        self.steps = 0
        self.depth = 0
        self.choose = choose
        self.cwd = '/cwd'
        self.fr = Frame()
        self.here = None
        self.g = Frame()
        self.enum = {}
        for d in unit.decls.values():
            if d['kind'] == 'EnumDecl':
                n = -1
                for c in d.get('inner', []):
                    if c.get('kind') == 'EnumConstantDecl':
                        n += 1
                        if c.get('inner'):
                            n = self.num(self.ev(c['inner'][0]))
                        self.enum[c['id']] = n
        for v in unit.globals:
            try:
                self.declvar(v, self.g)
            except Unk as e:
                self.g.vars[v['id']] = Box(Opaque('global %s: %s' % (v.get('name'), e)))
    # ------------------------------------------------ helpers
    def num(self, v):
        v = cval(v)
        if isinstance(v, bool): return int(v)
        if isinstance(v, int): return v
        raise Unk('not a number: %r' % (v,))
    def truth(self, v):
        v = cval(v)
        if v is UNINIT: raise Defect('decision on an uninitialised value', self.here)
        if v is None: return False
        if isinstance(v, bool): return v
        if isinstance(v, int): return v != 0
        if isinstance(v, Err): return v.bad
        if isinstance(v, Stream): return v.ok and not v.fail
        if isinstance(v, Callee): return v.f is not None
        if isinstance(v, (Val, Mod, Ptr, Obj, Ty)): return True
        if isinstance(v, Attr): return v.k is not None
        if isinstance(v, str): return True
        raise Unk('truth of %s' % type(v).__name__)
    def s(self, v):
        v = cval(v)
        if isinstance(v, str): return v
        if isinstance(v, Ptr): return self.s(v.box.get())
        if v is UNINIT: raise Unk('uninitialised string')
        raise Unk('not a string: %s' % type(v).__name__)
    def lookup(self, i):
        b = self.fr.find(i)
        if b is None: b = self.g.vars.get(i)
        return b
    def nn(self, v, what='object'):
        if v is None: raise Defect('null %s dereferenced' % what, self.here)
        if v is UNINIT: raise Defect('uninitialised pointer used', self.here)
        if isinstance(v, Inst) and v.erased: raise Defect('an instruction is used after it was erased', self.here)
        return v
    def copy(self, v):
        return v.copy() if hasattr(v, 'copy') and not isinstance(v, AttrList) else v
    # ------------------------------------------------ declarations
    def declvar(self, n, fr):
        t = n.get('type', {}).get('qualType', '')
        inner = [c for c in n.get('inner', []) if c.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups')) or c.get('kind') in ('CXXStdInitializerListExpr',)]
        init = inner[0] if inner else None
        if n.get('storageClass') == 'static' and fr is not self.g:
            if n['id'] in self.g.vars:
                return
            save, fr = fr, self.g
        if n['kind'] == 'DecompositionDecl':
            src = self.ev(init)
            for b, x in zip([c for c in n.get('inner', []) if c.get('kind') == 'BindingDecl'],
                            [src.first, src.second] if isinstance(src, Pair) else src.xs if isinstance(src, (Tup, Vec)) else [None] * 9):
                fr.vars[b['id']] = Box(x)
            return
        if init is None:
            fr.vars[n['id']] = Box(self.default(qt(n)))
            return
        if t.rstrip().endswith('&'):
            fr.vars[n['id']] = self.lv(init)
            return
        v = self.ev(init)
        if '*' not in t:
            v = self.copy(v)
        fr.vars[n['id']] = Box(v)
    def default(self, t):
        c = cls(t)
        if '*' in t: return UNINIT
        if c in STD_STR: return ''
        if re.search(r'\[\d+\]$', t): return Vec([UNINIT] * int(re.search(r'\[(\d+)\]$', t).group(1)))
        if c in ('vector', 'SmallVector', 'SmallVectorImpl', 'deque', 'list', 'ArrayRef'): return Vec()
        if c in ('set', 'SmallPtrSet', 'SmallSet', 'unordered_set', 'DenseSet', 'SetVector', 'SmallSetVector', 'StringSet'): return CSet()
        if c in ('map', 'unordered_map', 'DenseMap', 'StringMap', 'MapVector'): return CMap((), self.mapdefault(t))
        if c == 'pair': return Pair(UNINIT, UNINIT)
        if c == 'SMDiagnostic': return Opaque('diag')
        if c == 'error_code': return Err(False)
        if c in ('ostringstream', 'stringstream', 'istringstream', 'basic_istringstream', 'basic_ifstream', 'ifstream'): return Stream()
        return UNINIT
    def mapdefault(self, t):
        m = re.search(r'map<(.*)>', t)
        if not m: return UNINIT
        d, parts, cur = 0, [], ''
        for ch in m.group(1):
            if ch == '<': d += 1
            if ch == '>': d -= 1
            if ch == ',' and d == 0:
                parts.append(cur); cur = ''
            else: cur += ch
        parts.append(cur)
        v = parts[1].strip() if len(parts) > 1 else parts[0]
        if '*' in v: return None
        c = cls(v)
        if c in STD_STR: return ''
        if c in ('int', 'unsigned int', 'unsigned', 'long', 'size_t', 'bool', 'unsigned long'): return 0
        if c in ('vector', 'SmallVector'): return 'VEC'
        return UNINIT
    # ------------------------------------------------ statements
    def run(self, n):
        if not n or 'kind' not in n: return
        self.steps += 1
        if self.steps > 400000: raise Unk('analysis budget exhausted')
        k = n['kind']
        self.here = self.u.at(n) if k.endswith('Stmt') and k != 'CompoundStmt' else self.here
        f = getattr(self, 'st_' + k, None)
        if f: return f(n)
        if k.endswith('Attr') or k == 'NullStmt': return
        self.ev(n)
    def st_CompoundStmt(self, n):
        for c in n.get('inner', []): self.run(c)
    def st_AttributedStmt(self, n):
        self.run(n['inner'][-1])
    def st_DeclStmt(self, n):
        for c in n.get('inner', []):
            if c.get('kind') in ('VarDecl', 'DecompositionDecl'): self.declvar(c, self.fr)
    def st_ReturnStmt(self, n):
        ch = n.get('inner', [])
        raise Ret(self.ev(ch[0], ref=True) if ch else None)
    def st_IfStmt(self, n):
        ch = list(n.get('inner', []))
        if n.get('hasInit'): self.run(ch.pop(0))
        if n.get('hasVar'): self.run(ch.pop(0))
        if n.get('isConstexpr'): pass
        if self.truth(self.ev(ch[0])): self.run(ch[1])
        elif n.get('hasElse'): self.run(ch[2])
    def loop(self, cond, inc, bd, post=False):
        it = 0
        while True:
            if not (post and it == 0) and cond is not None and not self.truth(self.ev(cond)): break
            it += 1
            if it > 5000: raise Unk('loop does not settle')
            try: self.run(bd)
            except Brk: break
            except Cont: pass
            if inc: self.ev(inc)
    def st_WhileStmt(self, n):
        ch = list(n['inner'])
        if n.get('hasVar'): raise Unk('while with a declaration')
        self.loop(ch[0], None, ch[1])
    def st_DoStmt(self, n):
        self.loop(n['inner'][1], None, n['inner'][0], post=True)
    def st_ForStmt(self, n):
        ch = n['inner']
        self.run(ch[0])
        self.loop(ch[2] or None, ch[3], ch[4])
    def st_CXXForRangeStmt(self, n):
        ch = n['inner']
        if ch[0]: self.run(ch[0])
        rng = self.ev(ch[1]['inner'][0]['inner'][0])
        var = ch[-2]['inner'][0]
        t = var.get('type', {}).get('qualType', '')
        cont, early = (rng.v, True) if isinstance(rng, tuple) else (rng, False)
        if early:
            its = list(self.seq(cont))
            pos = 0
            for x in its:
                if isinstance(x, Inst) and x.erased: raise Defect('the next instruction of an early-increment range was erased', self.here)
                if not self.iter1(var, x, ch[-1], t): break
            return
        if isinstance(cont, (Block, Fn, Mod)):
            it = self.begin(cont)
            while not it.end:
                if not self.iter1(var, it.deref(), ch[-1], t): break
                it.step()
            return
        if isinstance(cont, Vec):
            j = 0
            while j < len(cont.xs):
                if not self.iter1(var, cont.xs[j], ch[-1], t, Slot(cont, j)): break
                j += 1
            return
        if isinstance(cont, str):
            for x in cont:
                if not self.iter1(var, ord(x), ch[-1], t): break
            return
        for x in list(self.seq(cont)):
            if not self.iter1(var, x, ch[-1], t): break
    def iter1(self, var, x, bd, t, lv=None):
        if var['kind'] == 'DecompositionDecl':
            for b, y in zip([c for c in var.get('inner', []) if c.get('kind') == 'BindingDecl'],
                            [x.first, x.second] if isinstance(x, Pair) else x.xs):
                self.fr.vars[b['id']] = Box(y)
        elif lv is not None and t.rstrip().endswith('&'):
            self.fr.vars[var['id']] = lv
        else:
            self.fr.vars[var['id']] = Box(self.copy(x) if '&' not in t and '*' not in t else x)
        try: self.run(bd)
        except Brk: return False
        except Cont: pass
        return True
    def st_BreakStmt(self, n): raise Brk()
    def st_ContinueStmt(self, n): raise Cont()
    def st_SwitchStmt(self, n):
        ch = list(n['inner'])
        if n.get('hasInit'): self.run(ch.pop(0))
        if n.get('hasVar'): self.run(ch.pop(0))
        v = cval(self.ev(ch[0]))
        if v is UNINIT: raise Defect('switch on an uninitialised value', self.u.at(n))
        flat = []
        def flatten(s):
            if s.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if s['kind'] == 'CaseStmt':
                    if s.get('isGNURange'): raise Unk('case range')
                    flat.append(('case', s['inner'][0]))
                    flatten(s['inner'][-1])
                else:
                    flat.append(('default', None))
                    if s.get('inner'): flatten(s['inner'][-1])
            else:
                flat.append(('stmt', s))
        for c in ch[1].get('inner', []): flatten(c)
        start = None
        for i, (k, s) in enumerate(flat):
            if k == 'case' and cval(self.ev(s)) == v: start = i; break
        if start is None:
            start = next((i for i, (k, s) in enumerate(flat) if k == 'default'), None)
        if start is None: return
        try:
            for k, s in flat[start:]:
                if k == 'stmt': self.run(s)
        except Brk: pass
    # ------------------------------------------------ calling own code
    def call(self, decl, args, this=None, lams=None):
        """args: list of lvalue boxes"""
        b = body(decl)
        if b is None: raise Unk('no body: %s' % decl.get('name'))
        self.depth += 1
        if self.depth > 60: raise Unk('recursion too deep')
        save, sh = self.fr, self.here
        fr = Frame(this, lams)
        ps = [c for c in decl.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        for i, p in enumerate(ps):
            if i >= len(args): raise Unk('missing argument of %s' % decl.get('name'))
            t = p.get('type', {}).get('qualType', '')
            if args[i] is None:
                d = next((c for c in p.get('inner', [])), None)
                if d is None: raise Unk('default argument of %s' % decl.get('name'))
                fr.vars[p['id']] = Box(self.ev(d))
            elif '&' in t: fr.vars[p['id']] = args[i]
            else:
                v = args[i].get()
                fr.vars[p['id']] = Box(self.copy(v) if '*' not in t else v)
        self.fr = fr
        try:
            self.run(b)
            r = None
        except Ret as e:
            r = e.v
        finally:
            self.fr, self.here = save, sh
            self.depth -= 1
        rt = decl.get('type', {}).get('qualType', '').split('(')[0].strip()
        if isinstance(r, (Box, Slot, Attrslot)):
            return r if rt.endswith('&') else r.get()
        return r
    def callv(self, f, args):
        """call a value: lambda, function, std::function"""
        if isinstance(f, Lam):
            op = None
            for c in f.node.get('inner', []):
                if c.get('kind') == 'CXXRecordDecl':
                    for d in c.get('inner', []):
                        if d.get('kind') == 'CXXMethodDecl' and d.get('name') == 'operator()': op = d
                        if d.get('kind') == 'FunctionTemplateDecl':
                            raise Unk('generic lambda')
            if op is None: raise Unk('lambda')
            if body(op) is None:
                op = dict(op); op['inner'] = list(op.get('inner', [])) + [c for c in f.node['inner'] if c.get('kind') == 'CompoundStmt']
            return self.call(op, args, f.fr.this, f.fr)
        if isinstance(f, Fun): return self.call(f.decl, args, f.this)
        raise Unk('call of %s' % type(f).__name__)
    def rv(self, r):
        return r.get() if isinstance(r, (Box, Slot, Attrslot)) else r
    # ------------------------------------------------ lvalues
    def lv(self, n):
        k = n['kind']
        if k in ('ParenExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'ConstantExpr', 'FullExpr'):
            return self.lv(n['inner'][0])
        if k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CXXConstCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr') and \
           n.get('castKind') in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived'):
            return self.lv(n['inner'][0])
        if k == 'DeclRefExpr':
            b = self.lookup(n['referencedDecl']['id'])
            if b is not None: return b
            return Box(self.ev(n))
        if k == 'MaterializeTemporaryExpr':
            return Box(self.ev(n['inner'][0]))
        if k == 'MemberExpr':
            o = self.ev(n['inner'][0])
            if n.get('isArrow') : o = self.arrow(o)
            nm = n.get('name')
            if isinstance(o, Pair) and nm in ('first', 'second'): return Attrslot(o, nm)
            if isinstance(o, Obj): return o.f.setdefault(nm, Box(UNINIT))
            ref = self.lookup(n.get('referencedMemberDecl'))
            if ref is not None: return ref
            raise Unk('member %s of %s' % (nm, type(o).__name__))
        if k == 'ArraySubscriptExpr':
            a = self.ev(n['inner'][0]); i = self.num(self.ev(n['inner'][1]))
            if isinstance(a, Vec):
                if not 0 <= i < len(a.xs): raise Defect('array index %d out of bounds' % i, self.u.at(n))
                return Slot(a, i)
            if isinstance(a, str): return Box(ord((a + '\0')[i]))
            raise Unk('subscript of %s' % type(a).__name__)
        if k == 'UnaryOperator' and n['opcode'] == '*':
            v = self.ev(n['inner'][0])
            if isinstance(v, Ptr): return v.box
            return Box(self.deref(v))
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--') and not n.get('isPostfix'):
            self.ev(n); return self.lv(n['inner'][0])
        if k in ('BinaryOperator', 'CompoundAssignOperator') and '=' in n['opcode'] and n['opcode'] not in ('==', '!=', '<=', '>='):
            self.ev(n); return self.lv(n['inner'][0])
        if k == 'ConditionalOperator':
            return self.lv(n['inner'][1] if self.truth(self.ev(n['inner'][0])) else n['inner'][2])
        if k in ('CXXOperatorCallExpr', 'CXXMemberCallExpr', 'CallExpr'):
            r = getattr(self, 'ex_' + k)(n)
            return r if isinstance(r, (Box, Slot, Attrslot)) else Box(r)
        return Box(self.ev(n))
    def arrow(self, v):
        v = cval(v)
        if isinstance(v, Iter): return v.deref()
        if isinstance(v, Ptr): return v.box.get()
        return self.nn(v)
    def deref(self, v):
        if isinstance(v, Iter): return v.deref()
        if isinstance(v, Ptr): return v.box.get()
        if isinstance(v, str): return ord(v[0]) if v else 0
        return self.nn(v)
    # ------------------------------------------------ expressions
    def ev(self, n, ref=False):
        k = n.get('kind')
        f = getattr(self, 'ex_' + (k or ''), None)
        if f is None: raise Unk('%s at %s' % (k, self.u.at(n)))
        if ref:
            if n.get('valueCategory') == 'lvalue': return self.lv(n)
        r = f(n)
        return r.get() if isinstance(r, (Box, Slot, Attrslot)) else r
    def ex_pass(self, n): return self.ev(n['inner'][0])
    ex_ExprWithCleanups = ex_ParenExpr = ex_MaterializeTemporaryExpr = ex_CXXBindTemporaryExpr = ex_ConstantExpr = ex_pass
    ex_CXXStdInitializerListExpr = ex_SubstNonTypeTemplateParmExpr = ex_pass
    def ex_IntegerLiteral(self, n): return int(n['value'])
    def ex_CharacterLiteral(self, n): return int(n['value'])
    def ex_CXXBoolLiteralExpr(self, n): return bool(n['value'])
    def ex_CXXNullPtrLiteralExpr(self, n): return None
    def ex_GNUNullExpr(self, n): return None
    def ex_StringLiteral(self, n):
        try: return json.loads(n['value'])
        except ValueError: raise Unk('string literal')
    def ex_CXXThisExpr(self, n):
        fr = self.fr
        while fr and fr.this is None: fr = fr.up
        return fr.this if fr else Obj(None)
    def ex_InitListExpr(self, n):
        t = qt(n)
        xs = [self.ev(c) for c in n.get('inner', [])]
        c = cls(t)
        if c == 'pair' and len(xs) == 2 and not t.rstrip().endswith(']'): return Pair(*xs)
        if not t.rstrip().endswith(']'):
            rec = self.record(c)
            if rec:
                o = Obj(rec)
                for fd, x in zip([d for d in rec.get('inner', []) if d.get('kind') == 'FieldDecl'], xs): o.f[fd['name']] = Box(x)
                return o
            if len(xs) == 1 and '[' not in t and not isinstance(xs[0], Pair): return xs[0]
        return Vec(xs)
    def ex_CXXDefaultArgExpr(self, n): return None
    def ex_CXXDefaultInitExpr(self, n): raise Unk('default member initialiser')
    def ex_ImplicitValueInitExpr(self, n):
        d = self.default(qt(n))
        return 0 if d is UNINIT and '*' not in qt(n) else None if d is UNINIT else d
    ex_CXXScalarValueInitExpr = ex_ImplicitValueInitExpr
    def ex_LambdaExpr(self, n): return Lam(n, self.fr)
    def ex_ConditionalOperator(self, n):
        return self.ev(n['inner'][1] if self.truth(self.ev(n['inner'][0])) else n['inner'][2])
    def ex_DeclRefExpr(self, n):
        r = n['referencedDecl']
        b = self.lookup(r['id'])
        if b is not None: return b
        if r['kind'] == 'EnumConstantDecl':
            if r['id'] in self.enum: return self.enum[r['id']]
            nm = r['name']
            t = qt(n) + ' ' + r.get('type', {}).get('qualType', '')
            if nm in TYPEID: return TYPEID[nm]
            if 'Predicate' in t and nm in PREDS: return PREDS.index(nm)
            if re.search(r'(Binary|Unary|Cast|Other|Memory|Term|FuncletPad)Ops', t) and nm in OPC: return OPC[nm]
            if nm == 'not_intrinsic': return 0
            return 'enum:' + nm
        if r['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            d = self.u.decls.get(r['id'])
            if d is not None: return Fun(self.definition(d))
            return Fun({'name': r.get('name'), 'ext': True})
        if r.get('name') == 'npos': return (1 << 64) - 1
        if r.get('name') in ('ECMAScript', 'icase', 'nosubs', 'optimize', 'basic', 'extended'): return 'enum:' + r['name']
        raise Unk('variable %s' % r.get('name'))
    def definition(self, d):
        if body(d) is not None: return d
        for x in self.u.decls.values():
            if x.get('previousDecl') == d['id'] and body(x) is not None: return x
        return d
    def ex_MemberExpr(self, n):
        if n.get('name') == 'npos': return (1 << 64) - 1
        return self.lv(n)
    def ex_ArraySubscriptExpr(self, n): return self.lv(n)
    def ex_cast(self, n):
        ck = n.get('castKind')
        c = n['inner'][0]
        if ck in ('LValueToRValue', 'NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'FunctionToPointerDecay', 'ArrayToPointerDecay',
                  'ConstructorConversion', 'UserDefinedConversion', 'NullToPointer', 'BitCast', 'LValueBitCast', 'Dependent'):
            return self.ev(c)
        if ck == 'BaseToDerived':
            return self.ev(c)
        if ck in ('IntegralCast', 'IntegralToBoolean', 'PointerToBoolean', 'BooleanToSignedIntegral'):
            v = self.ev(c)
            if ck == 'IntegralToBoolean' or ck == 'PointerToBoolean': return self.truth(v)
            if isinstance(v, str) and v.startswith('enum:'): return v
            v = self.num(v) if not isinstance(v, bool) else int(v)
            t = qt(n)
            m = re.match(r'(unsigned )?(char|short|int|long long|long)$', t)
            if m and m.group(1):
                w = {'char': 8, 'short': 16, 'int': 32, 'long': 64, 'long long': 64}[m.group(2)]
                v &= (1 << w) - 1
            elif t in ('size_t', 'std::size_t', 'unsigned', 'uint64_t'):
                v &= (1 << (32 if t == 'unsigned' else 64)) - 1
            return v
        if ck == 'ToVoid':
            self.ev(c); return None
        raise Unk('cast %s' % ck)
    ex_ImplicitCastExpr = ex_CXXStaticCastExpr = ex_CStyleCastExpr = ex_CXXFunctionalCastExpr = ex_CXXReinterpretCastExpr = ex_CXXConstCastExpr = ex_cast
    def ex_UnaryOperator(self, n):
        op, c = n['opcode'], n['inner'][0]
        if op == '!': return not self.truth(self.ev(c))
        if op == '-': return -self.num(self.ev(c))
        if op == '+': return self.num(self.ev(c))
        if op == '~': return ~self.num(self.ev(c))
        if op == '*': return self.deref(self.ev(c))
        if op == '&':
            b = self.lv(c)
            v = b.get()
            if isinstance(v, (Val, Mod, Obj, Ty, Builder)): return v
            return Ptr(b)
        if op in ('++', '--'):
            b = self.lv(c)
            v = b.get()
            if isinstance(v, Iter):
                old = v.copy(); v.step(1 if op == '++' else -1)
                return old if n.get('isPostfix') else v
            b.set(self.num(v) + (1 if op == '++' else -1))
            return v if n.get('isPostfix') else b.get()
        raise Unk('operator ' + op)
    def ex_BinaryOperator(self, n):
        op = n['opcode']
        l, r = n['inner'][0], n['inner'][1]
        if op == '&&': return self.truth(self.ev(l)) and self.truth(self.ev(r))
        if op == '||': return self.truth(self.ev(l)) or self.truth(self.ev(r))
        if op == ',':
            self.ev(l); return self.ev(r)
        if op == '=':
            v = self.ev(r)
            b = self.lv(l)
            b.set(v)
            return v
        return self.binop(op, self.ev(l), self.ev(r))
    def binop(self, op, a, b):
        a, b = cval(a), cval(b)
        if op in ('==', '!='):
            e = self.same(a, b)
            return e if op == '==' else not e
        if isinstance(a, str) and isinstance(b, str) and not a.startswith('enum:'):
            if op == '<': return a < b
            if op == '>': return a > b
            if op == '+': return a + b
        if isinstance(a, str) and isinstance(b, int) and op == '+': return a[b:]
        a, b = self.num(a), self.num(b)
        if op == '+': return a + b
        if op == '-': return a - b
        if op == '*': return a * b
        if op in ('/', '%'):
            if b == 0: raise Defect('division by zero', self.here)
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return q if op == '/' else a - q * b
        if op == '<': return a < b
        if op == '>': return a > b
        if op == '<=': return a <= b
        if op == '>=': return a >= b
        if op == '&': return a & b
        if op == '|': return a | b
        if op == '^': return a ^ b
        if op == '<<': return a << b
        if op == '>>': return a >> b
        raise Unk('operator ' + op)
    def same(self, a, b):
        a, b = cval(a), cval(b)
        if a is UNINIT or b is UNINIT: raise Defect('comparison of an uninitialised value', self.here)
        if isinstance(a, Iter) and isinstance(b, Iter): return a.key() == b.key()
        if isinstance(a, Ptr) and isinstance(b, Ptr): return a.box is b.box
        if isinstance(a, (Val, Mod, Obj)) or isinstance(b, (Val, Mod, Obj)): return a is b
        if isinstance(a, (Opaque, Lam, Stream, Sink)) or isinstance(b, (Opaque, Lam, Stream, Sink)): raise Unk('comparison of opaque values')
        return a == b
    def ex_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        r = self.ev(n['inner'][1])
        b = self.lv(n['inner'][0])
        old = b.get()
        v = self.binop(op, old, r)
        if isinstance(old, bool) and op in ('|', '&', '^'): v = bool(v)
        b.set(v)
        return v
    # ------------------------------------------------ construction
    def record(self, name):
        for d in self.u.decls.values():
            if d['kind'] == 'CXXRecordDecl' and d.get('name') == name and d.get('completeDefinition'): return d
        return None
    def args(self, ch):
        out = []
        for c in ch:
            if c.get('kind') == 'CXXDefaultArgExpr': continue
            out.append(c)
        return out
    def ex_CXXConstructExpr(self, n):
        t = qt(n)
        c = cls(t)
        a = self.args(n.get('inner', []))
        if c == 'opt' and 'cl::' in t:
            vals = []
            for x in a:
                try: vals.append(self.ev(x))
                except Unk: vals.append(Opaque('?'))
            name = next((v for v in vals if isinstance(v, str)), None)
            dv = next((v[1] for v in vals if isinstance(v, list) and v[0] == 'init'), None)
            isb = 'opt<bool' in t
            if dv is None: dv = False if isb else ''
            return Opt(name, self.opts.get(name, dv), isb)
        rec = self.record(c)
        if rec is not None:
            if len(a) == 1:
                v = self.ev(a[0])
                if isinstance(v, Obj):
                    o = Obj(v.rec)
                    o.f = {k: Box(self.copy(b.get())) for k, b in v.f.items()}
                    return o
            return self.mkobj(rec, a)
        if c in ('raw_string_ostream', 'raw_svector_ostream'): return Rso(self.lv(a[0]))
        vs = [cval(self.ev(x)) for x in a]
        if c in STD_STR:
            if not vs: return ''
            if len(vs) == 1:
                v = vs[0]
                if v is None: return ''
                if isinstance(v, Ptr): v = v.box.get()
                if isinstance(v, int) and c == 'Twine': return str(v)
                return self.s(v)
            if len(vs) == 2 and isinstance(vs[0], int) and isinstance(vs[1], int): return chr(vs[1]) * vs[0]
            if len(vs) == 2 and isinstance(vs[0], str) and isinstance(vs[1], int): return vs[0][:vs[1]]
            if len(vs) == 2 and isinstance(vs[0], str) and isinstance(vs[1], str): return vs[0] + vs[1]
            if len(vs) == 3 and isinstance(vs[0], str): return vs[0][vs[1]:vs[1] + vs[2]]
            if len(vs) == 2 and isinstance(vs[0], Iter): return ''.join(chr(x) for x in self.span(*vs))
            raise Unk('string construction')
        if c in ('basic_regex', 'regex'):
            if not vs: return Rgx('')
            if isinstance(vs[0], Rgx): return Rgx(vs[0].pat)
            return Rgx(self.s(vs[0]))
        if c in ('vector', 'SmallVector', 'ArrayRef', 'SmallVectorImpl', 'deque', 'list', 'MutableArrayRef', 'initializer_list'):
            if not vs: return Vec()
            if isinstance(vs[0], Vec): return Vec(vs[0].xs)
            if isinstance(vs[0], Iter): return Vec(self.span(vs[0], vs[1]))
            if isinstance(vs[0], CSet): return Vec(vs[0].elems())
            if c == 'ArrayRef' and len(vs) == 1: return Vec([vs[0]])
            if isinstance(vs[0], int): return Vec([vs[1] if len(vs) > 1 else UNINIT] * vs[0])
            raise Unk('construction of ' + c)
        if c in ('set', 'SmallPtrSet', 'SmallSet', 'unordered_set', 'DenseSet', 'SetVector', 'SmallSetVector', 'StringSet'):
            if not vs: return CSet()
            if isinstance(vs[0], (Vec, CSet)): return CSet(vs[0].elems())
            if isinstance(vs[0], Iter): return CSet(self.span(vs[0], vs[1]))
            raise Unk('construction of ' + c)
        if c in ('map', 'unordered_map', 'DenseMap', 'StringMap'):
            d = self.mapdefault(t)
            if not vs: return CMap((), d)
            if isinstance(vs[0], Vec): return CMap([p if isinstance(p, Pair) else Pair(*p.xs) for p in vs[0].xs], d)
            if isinstance(vs[0], CMap): return vs[0].copy()
            raise Unk('construction of ' + c)
        if c == 'pair':
            if len(vs) == 2: return Pair(*vs)
            if len(vs) == 1 and isinstance(vs[0], Pair): return vs[0].copy()
            if not vs: return Pair(UNINIT, UNINIT)
        if c == 'tuple': return Tup(vs) if not (len(vs) == 1 and isinstance(vs[0], Tup)) else vs[0]
        if c == 'IRBuilder':
            if vs and isinstance(vs[0], Inst): return Builder(before=self.nn(vs[0], 'instruction'))
            if vs and isinstance(vs[0], Block):
                if len(vs) > 1 and isinstance(vs[1], Iter):
                    return Builder(before=None if vs[1].end else vs[1].el, block=vs[0])
                return Builder(block=vs[0])
            if vs and isinstance(vs[0], (Opaque,)): return Builder()
            raise Unk('IRBuilder construction')
        if 'ilist_iterator' in t or c == 'iterator' or 'iterator' in c:
            v = vs[0]
            if isinstance(v, Inst): return Iter(v.block, v)
            if isinstance(v, Block): return Iter(v.fn, v)
            if isinstance(v, Iter): return v.copy()
            raise Unk('iterator construction')
        if c in ('basic_ifstream', 'ifstream', 'fstream'):
            if not vs: return Stream(ok=False)
            return self.openfile(self.s(vs[0]))
        if c in ('basic_istringstream', 'istringstream', 'basic_stringstream', 'stringstream'):
            return Stream(text=self.s(vs[0]) if vs else '')
        if c in ('basic_ostringstream', 'ostringstream'): return Stream()
        if c == 'SMDiagnostic': return Opaque('diag')
        if c == 'unique_ptr' or c == 'shared_ptr': return vs[0] if vs else None
        if c == 'FunctionCallee':
            if vs and isinstance(vs[0], Callee): return vs[0]
            if vs and isinstance(vs[0], Fn): return Callee(vs[0])
            if len(vs) == 2 and isinstance(vs[1], Fn): return Callee(vs[1])
            if not vs: return Callee(None)
        if c == 'Attribute': return vs[0] if vs else Attr(None)
        if c == 'AttributeList': return vs[0] if vs else AttrList()
        if c == 'error_code': return Err(False)
        if c == 'function':
            return vs[0] if vs else None
        if c in ('desc', 'value_desc'): return Opaque(c)
        if c == 'initializer' and vs: return ['init', vs[0]]
        if c in ('format_object',): return Opaque(c)
        if c == 'optional' : return vs[0] if vs else None
        if len(vs) == 1 and isinstance(vs[0], (Iter, Attr, AttrList, Callee, Lam, Stream)):
            return self.copy(vs[0])
        if c in ('ModulePassManager', 'PreservedAnalyses', 'RegisterPass', 'PassManager'): return Opaque(c)
        raise Unk('construction of %s at %s' % (c, self.u.at(n)))
    ex_CXXTemporaryObjectExpr = ex_CXXConstructExpr
    def mkobj(self, rec, a):
        o = Obj(rec)
        for fd in rec.get('inner', []):
            if fd.get('kind') == 'FieldDecl':
                ini = next((c for c in fd.get('inner', [])), None)
                o.f[fd['name']] = Box(self.ev(ini) if ini else self.default(qt(fd)))
        ctors = [c for c in rec.get('inner', []) if c.get('kind') == 'CXXConstructorDecl' and not c.get('isImplicit')
                 and len([p for p in c.get('inner', []) if p.get('kind') == 'ParmVarDecl']) >= len(a)]
        if ctors:
            k = ctors[0]
            if len(ctors) > 1:
                ex = [c for c in ctors if len([p for p in c.get('inner', []) if p.get('kind') == 'ParmVarDecl']) == len(a)]
                if len(ex) != 1: raise Unk('overloaded constructor')
                k = ex[0]
            save = self.fr
            args = [self.lv(x) for x in a]
            fr = Frame(o)
            for p, b in zip([p for p in k.get('inner', []) if p.get('kind') == 'ParmVarDecl'], args):
                fr.vars[p['id']] = b if '&' in p['type']['qualType'] else Box(self.copy(b.get()))
            self.fr = fr
            try:
                for ini in k.get('inner', []):
                    if ini.get('kind') == 'CXXCtorInitializer' and ini.get('anyInit'):
                        o.f[ini['anyInit']['name']] = self.lv(ini['inner'][0]) if '&' in ini['anyInit'].get('type', {}).get('qualType', '') else Box(self.ev(ini['inner'][0]))
                b = body(k)
                if b:
                    try: self.run(b)
                    except Ret: pass
            finally:
                self.fr = save
        elif a:
            raise Unk('constructor')
        return o
    # ------------------------------------------------ iteration helpers
    def seq(self, c):
        c = cval(c)
        if isinstance(c, Ptr): c = c.box.get()
        if isinstance(c, Block): return c.insts
        if isinstance(c, Fn): return c.blocks
        if isinstance(c, Mod): return c.fns
        if isinstance(c, str): return [ord(x) for x in c]
        if hasattr(c, 'elems'): return c.elems()
        if isinstance(c, tuple) and len(c) == 2 and c[0] == 'span': return c[1]
        raise Unk('iteration over %s' % type(c).__name__)
    def wrap(self, c):
        return Vec([ord(x) for x in c]) if isinstance(c, str) else c
    def begin(self, c):
        s = self.seq(c)
        if not s: return Iter(c, None, True)
        return Iter(c, s[0] if isinstance(c, (Block, Fn, Mod)) else 0)
    def endit(self, c): return Iter(c, None, True)
    def span(self, a, b):
        out, it = [], a.copy()
        while it.key() != b.key():
            if it.end: raise Unk('range')
            out.append(it.deref()); it.step()
        return out
    def openfile(self, name):
        f = self.files.get(name)
        if f is None: return Stream(ok=False)
        return Stream(text=f)
    def getline(self, st, box, delim='\n'):
        if not st.ok or st.fail or st.pos >= len(st.data):
            st.fail = True
            box.set('')
            return st
        j = st.data.find(delim, st.pos)
        if j < 0:
            box.set(st.data[st.pos:]); st.pos = len(st.data)
        else:
            box.set(st.data[st.pos:j]); st.pos = j + 1
        return st
    # ------------------------------------------------ calls
    def ex_CXXOperatorCallExpr(self, n):
        cal = n['inner'][0]
        while cal['kind'] != 'DeclRefExpr': cal = cal['inner'][0]
        name = cal['referencedDecl']['name']
        a = n['inner'][1:]
        own = self.u.decls.get(cal['referencedDecl']['id'])
        op = name[len('operator'):].strip()
        if own is not None and body(self.definition(own)) is not None and op != '()':
            own = self.definition(own)
            if own['kind'] == 'CXXMethodDecl': return self.call(own, [self.lv(x) for x in a[1:]], self.ev(a[0]))
            return self.call(own, [self.lv(x) for x in a])
        if op == '()':
            f = self.ev(a[0])
            if isinstance(f, Obj): return self.call(own, [self.lv(x) for x in a[1:]], f)
            return self.callv(f, [self.lv(x) for x in a[1:]])
        if op == '<<':
            l = self.ev(a[0])
            if isinstance(l, (Sink, Opaque)): return l
            if isinstance(l, (Stream, Rso)):
                if a[1].get('kind') == 'DeclRefExpr' and a[1]['referencedDecl'].get('name') == 'endl': v = '\n'
                else: v = cval(self.ev(a[1]))
                t = qt(a[1])
                if isinstance(v, Ptr): v = v.box.get()
                if isinstance(v, bool) and isinstance(l, Stream): v = str(int(v))
                elif isinstance(v, int) and re.search(r'\bchar$', t): v = chr(v)
                elif isinstance(v, int): v = str(self.num(v))
                elif isinstance(v, Ty): v = str(v)
                else: v = self.s(v)
                if isinstance(l, Rso): l.box.set(l.box.get() + v)
                else: l.data += v
                return l
            raise Unk('operator<<')
        if op == '>>':
            l, b = self.ev(a[0]), self.lv(a[1])
            if isinstance(l, Stream) and isinstance(b.get(), str):
                m = re.compile(r'\s*(\S+)').match(l.data, l.pos) if l.ok and not l.fail else None
                if m: b.set(m.group(1)); l.pos = m.end()
                else: l.fail = True
                return l
            raise Unk('operator>>')
        if op == '=':
            v = self.ev(a[1]); b = self.lv(a[0])
            if isinstance(b.get(), Opt): raise Unk('assignment to an option')
            if isinstance(b.get(), str) and isinstance(v, int): v = chr(v)
            if isinstance(v, Vec) and isinstance(b.get(), (CSet, CMap)):
                v = CSet(v.xs) if isinstance(b.get(), CSet) else CMap([p if isinstance(p, Pair) else Pair(*p.xs) for p in v.xs], b.get().deflt)
            b.set(self.copy(v)); return b
        if op == '+=':
            v = cval(self.ev(a[1])); b = self.lv(a[0]); o = b.get()
            if isinstance(o, str): b.set(o + (chr(v) if isinstance(v, int) else self.s(v)))
            elif isinstance(o, Iter): [o.step() for _ in range(v)]
            else: b.set(self.binop('+', o, v))
            return b
        if op == '[]':
            o = self.ev(a[0])
            if isinstance(o, Ptr): o = o.box.get()
            i = cval(self.ev(a[1]))
            if isinstance(o, CMap):
                if i not in o.d: o.d[i] = Vec() if o.deflt == 'VEC' else o.deflt
                return Slot(o.d, i)
            if isinstance(o, Vec):
                if not 0 <= self.num(i) < len(o.xs): raise Defect('index %d out of bounds' % i, self.here)
                return Slot(o, i)
            if isinstance(o, str):
                if not 0 <= self.num(i) <= len(o): raise Defect('index %d out of a string' % i, self.here)
                return ord((o + '\0')[i])
            raise Unk('operator[] of %s' % type(o).__name__)
        if op in ('*', '->') and len(a) == 1:
            v = self.ev(a[0])
            return self.deref(v) if op == '*' else (v.deref() if isinstance(v, Iter) else v)
        if op in ('++', '--'):
            b = self.lv(a[0]); v = b.get()
            if isinstance(v, Iter):
                old = v.copy(); v.step(1 if op == '++' else -1)
                return old if len(a) > 1 else b
            raise Unk('operator' + op)
        if op == '!' and len(a) == 1: return not self.truth(self.ev(a[0]))
        if op == '+':
            x, y = cval(self.ev(a[0])), cval(self.ev(a[1]))
            if isinstance(x, str) or isinstance(y, str):
                f = lambda v: chr(v) if isinstance(v, int) and not isinstance(v, bool) else self.s(v)
                return f(x) + f(y)
            if isinstance(x, Iter): 
                x = x.copy(); [x.step() for _ in range(y)]
                return x
        if op in ('==', '!=', '<', '>', '<=', '>=', '-', '+', '&', '|'):
            return self.binop(op, self.ev(a[0]), self.ev(a[1]))
        if op == 'bool': return self.truth(self.ev(a[0]))
        raise Unk('operator%s at %s' % (op, self.u.at(n)))
    def ex_CXXMemberCallExpr(self, n):
        me = n['inner'][0]
        while me['kind'] == 'ParenExpr': me = me['inner'][0]
        if me['kind'] != 'MemberExpr': raise Unk('member pointer call')
        name = me['name']
        own = self.u.decls.get(me.get('referencedMemberDecl'))
        a = n['inner'][1:]
        if own is not None:
            own = self.definition(own)
            if body(own) is not None:
                this = self.ev(me['inner'][0])
                if this is None: raise Defect('method called on null', self.u.at(n))
                return self.call(own, [None if x.get('kind') == 'CXXDefaultArgExpr' else self.lv(x) for x in a], this)
        ob = self.lv(me['inner'][0])
        o = ob.get()
        if me.get('isArrow'):
            if isinstance(o, (Iter, Ptr)):
                if isinstance(o, Ptr): ob = o.box; o = ob.get()
                else: o = o.deref(); ob = Box(o)
            else:
                self.here = self.u.at(n)
                self.nn(o, 'pointer (calling %s)' % name)
        if isinstance(o, Inst) and o.erased: raise Defect('an instruction is used after it was erased', self.u.at(n))
        a = self.args(a)
        return self.method(o, ob, name, a, n)
    def method(self, o, ob, name, a, n):
        if isinstance(o, Opt):
            if name.startswith('operator'): return o.v
            if name in ('getValue',): return o.v
            if name == 'getNumOccurrences': return 1 if o.v else 0
            o = o.v; ob = Box(o)
        if name.startswith('operator ') :
            if 'bool' in name: return self.truth(o)
            return o
        if isinstance(o, bool): raise Unk('method of a bool')
        for k, p in ((str, 'str'), (Ty, 'ty'), (FnTy, 'fnty'), (Inst, 'inst'), (Fn, 'fn'), (Arg, 'arg'), (Block, 'block'), (Const, 'val'), (Val, 'val'), (Mod, 'mod'), (Builder, 'bld'),
                     (Callee, 'callee'), (Attr, 'attr'), (AttrList, 'al'), (Vec, 'vec'), (CSet, 'set'), (CMap, 'map'), (Stream, 'stream'),
                     (Iter, 'iter'), (Rgx, 'rgx'), (Sink, 'sink'), (Rso, 'rso'), (Opaque, 'opq'), (Err, 'err'), (Pair, 'pair')):
            if isinstance(o, k):
                f = getattr(self, 'm_%s_%s' % (p, name), None)
                if f is None and p in ('inst', 'fn', 'arg', 'block'): f = getattr(self, 'm_val_%s' % name, None)
                if f is None: raise Unk('%s::%s at %s' % (p, name, self.u.at(n)))
                return f(o, ob, a)
        if o is None: raise Defect('null pointer used (calling %s)' % name, self.u.at(n))
        if o is UNINIT: raise Defect('uninitialised object used (calling %s)' % name, self.u.at(n))
        raise Unk('method %s of %s' % (name, type(o).__name__))
    def e(self, a): return [cval(self.ev(x)) for x in a]
    # strings
    def m_str_find(self, o, ob, a):
        v = self.e(a)
        s = chr(v[0]) if isinstance(v[0], int) else self.s(v[0])
        r = o.find(s, v[1] if len(v) > 1 else 0)
        return r if r >= 0 else (1 << 64) - 1
    def m_str_rfind(self, o, ob, a):
        v = self.e(a)
        s = chr(v[0]) if isinstance(v[0], int) else self.s(v[0])
        r = o.rfind(s) if len(v) < 2 else o.rfind(s, 0, v[1] + len(s))
        return r if r >= 0 else (1 << 64) - 1
    def m_str_find_first_of(self, o, ob, a):
        v = self.e(a); cs = chr(v[0]) if isinstance(v[0], int) else self.s(v[0])
        st = v[1] if len(v) > 1 else 0
        return next((i for i in range(st, len(o)) if o[i] in cs), (1 << 64) - 1)
    def m_str_find_first_not_of(self, o, ob, a):
        v = self.e(a); cs = chr(v[0]) if isinstance(v[0], int) else self.s(v[0])
        st = v[1] if len(v) > 1 else 0
        return next((i for i in range(st, len(o)) if o[i] not in cs), (1 << 64) - 1)
    def m_str_find_last_of(self, o, ob, a):
        v = self.e(a); cs = chr(v[0]) if isinstance(v[0], int) else self.s(v[0])
        return next((i for i in range(len(o) - 1, -1, -1) if o[i] in cs), (1 << 64) - 1)
    def m_str_find_last_not_of(self, o, ob, a):
        v = self.e(a); cs = chr(v[0]) if isinstance(v[0], int) else self.s(v[0])
        return next((i for i in range(len(o) - 1, -1, -1) if o[i] not in cs), (1 << 64) - 1)
    def m_str_replace(self, o, ob, a):
        v = self.e(a)
        if not isinstance(v[0], int) or len(v) != 3: raise Unk('string replace')
        if v[0] > len(o): raise Defect('std::out_of_range in replace', self.here)
        ob.set(o[:v[0]] + self.s(v[2]) + o[v[0] + v[1]:]); return ob
    def m_str_erase(self, o, ob, a):
        v = self.e(a)
        if not all(isinstance(x, int) for x in v): raise Unk('string erase')
        p = v[0] if v else 0
        ob.set(o[:p] + (o[p + v[1]:] if len(v) > 1 else '')); return ob
    def m_str_insert(self, o, ob, a):
        v = self.e(a)
        if isinstance(v[0], int) and len(v) == 2:
            ob.set(o[:v[0]] + self.s(v[1]) + o[v[0]:]); return ob
        raise Unk('string insert')
    def m_str_size(self, o, ob, a): return len(o)
    m_str_length = m_str_size
    def m_str_empty(self, o, ob, a): return not o
    def m_str_c_str(self, o, ob, a): return o
    m_str_str = m_str_data = m_str_c_str
    def m_str_compare(self, o, ob, a):
        v = self.e(a)
        if len(v) == 1: b = self.s(v[0]); return 0 if o == b else -1 if o < b else 1
        if len(v) == 3: x, b = o[v[0]:v[0] + v[1]], self.s(v[2]); return 0 if x == b else -1 if x < b else 1
        raise Unk('compare')
    def m_str_equals(self, o, ob, a): return o == self.s(self.e(a)[0])
    def m_str_equals_insensitive(self, o, ob, a): return o.lower() == self.s(self.e(a)[0]).lower()
    def m_str_starts_with(self, o, ob, a):
        v = self.e(a)[0]
        return o.startswith(chr(v) if isinstance(v, int) else self.s(v))
    m_str_startswith = m_str_starts_with
    def m_str_ends_with(self, o, ob, a):
        v = self.e(a)[0]
        return o.endswith(chr(v) if isinstance(v, int) else self.s(v))
    m_str_endswith = m_str_ends_with
    def m_str_contains(self, o, ob, a):
        v = self.e(a)[0]
        return (chr(v) if isinstance(v, int) else self.s(v)) in o
    def m_str_consume_front(self, o, ob, a):
        s = self.s(self.e(a)[0])
        if o.startswith(s): ob.set(o[len(s):]); return True
        return False
    def m_str_consume_back(self, o, ob, a):
        s = self.s(self.e(a)[0])
        if s and o.endswith(s): ob.set(o[:-len(s)]); return True
        return False
    def m_str_trim(self, o, ob, a):
        v = self.e(a)
        return o.strip(chr(v[0]) if v and isinstance(v[0], int) else self.s(v[0]) if v else ' \t\n\v\f\r')
    def m_str_ltrim(self, o, ob, a):
        v = self.e(a)
        return o.lstrip(chr(v[0]) if v and isinstance(v[0], int) else self.s(v[0]) if v else ' \t\n\v\f\r')
    def m_str_rtrim(self, o, ob, a):
        v = self.e(a)
        return o.rstrip(chr(v[0]) if v and isinstance(v[0], int) else self.s(v[0]) if v else ' \t\n\v\f\r')
    def m_str_split(self, o, ob, a):
        v = self.e(a)
        if len(v) > 1: raise Unk('split')
        sep = chr(v[0]) if isinstance(v[0], int) else self.s(v[0])
        if sep not in o: return Pair(o, '')
        x, y = o.split(sep, 1)
        return Pair(x, y)
    def m_str_rsplit(self, o, ob, a):
        sep = self.e(a)[0]
        sep = chr(sep) if isinstance(sep, int) else self.s(sep)
        if sep not in o: return Pair(o, '')
        x, y = o.rsplit(sep, 1)
        return Pair(x, y)
    def m_str_substr(self, o, ob, a):
        v = self.e(a)
        return o[v[0]:] if len(v) < 2 else o[v[0]:v[0] + v[1]]
    def m_str_slice(self, o, ob, a):
        v = self.e(a); return o[v[0]:v[1]]
    def m_str_drop_front(self, o, ob, a):
        v = self.e(a); return o[v[0] if v else 1:]
    def m_str_drop_back(self, o, ob, a):
        v = self.e(a); k = v[0] if v else 1; return o[:len(o) - k]
    def m_str_take_front(self, o, ob, a):
        v = self.e(a); return o[:v[0] if v else 1]
    def m_str_lower(self, o, ob, a): return o.lower()
    def m_str_upper(self, o, ob, a): return o.upper()
    def m_str_getAsInteger(self, o, ob, a):
        r = self.num(self.ev(a[0])); b = self.lv(a[1])
        m = re.fullmatch(r'-?\d+' if r in (0, 10) else r'-?[0-9a-fA-F]+', o)
        if not m: return True
        b.set(int(o, 10 if r == 0 else r)); return False
    def m_str_push_back(self, o, ob, a):
        v = self.e(a)[0]; ob.set(o + (chr(v) if isinstance(v, int) else v))
    def m_str_pop_back(self, o, ob, a):
        if not o: raise Defect('pop_back of an empty string', self.here)
        ob.set(o[:-1])
    def m_str_append(self, o, ob, a):
        v = self.e(a)
        if len(v) == 1: ob.set(o + self.s(v[0])); return ob
        if len(v) == 2 and isinstance(v[0], int): ob.set(o + chr(v[1]) * v[0]); return ob
        raise Unk('append')
    def m_str_assign(self, o, ob, a):
        ob.set(self.s(self.e(a)[0])); return ob
    def m_str_clear(self, o, ob, a): ob.set('')
    def m_str_reserve(self, o, ob, a): return None
    def m_str_back(self, o, ob, a):
        if not o: raise Defect('back of an empty string', self.here)
        return ord(o[-1])
    def m_str_front(self, o, ob, a):
        if not o: raise Defect('front of an empty string', self.here)
        return ord(o[0])
    def m_str_at(self, o, ob, a): return ord(o[self.num(self.ev(a[0]))])
    def m_str_begin(self, o, ob, a): return self.begin(Vec([ord(c) for c in o]))
    def m_str_toStringRef(self, o, ob, a): return o
    def m_str_count(self, o, ob, a):
        v = self.e(a)[0]
        return o.count(chr(v) if isinstance(v, int) else self.s(v))
    # containers
    def m_vec_push_back(self, o, ob, a): o.xs.append(self.copy(self.ev(a[0])))
    def m_vec_emplace_back(self, o, ob, a):
        v = self.e(a)
        o.xs.append(v[0] if len(v) == 1 else Pair(*v) if len(v) == 2 else Tup(v))
    def m_vec_pop_back(self, o, ob, a):
        if not o.xs: raise Defect('pop_back of an empty vector', self.here)
        o.xs.pop()
    def m_vec_pop_back_val(self, o, ob, a):
        if not o.xs: raise Defect('pop_back_val of an empty vector', self.here)
        return o.xs.pop()
    def m_vec_size(self, o, ob, a): return len(self.seq(o))
    m_set_size = m_map_size = m_vec_size
    def m_vec_empty(self, o, ob, a): return not self.seq(o)
    m_set_empty = m_map_empty = m_vec_empty
    def m_vec_begin(self, o, ob, a): return self.begin(o)
    m_set_begin = m_map_begin = m_vec_begin
    m_set_cbegin = m_map_cbegin = m_vec_cbegin = m_vec_begin
    def m_vec_end(self, o, ob, a): return self.endit(o)
    m_set_end = m_map_end = m_vec_end
    m_set_cend = m_map_cend = m_vec_cend = m_vec_end
    def m_vec_back(self, o, ob, a):
        if not o.xs: raise Defect('back of an empty vector', self.here)
        return Slot(o, len(o.xs) - 1)
    def m_vec_front(self, o, ob, a):
        if not o.xs: raise Defect('front of an empty vector', self.here)
        return Slot(o, 0)
    def m_vec_at(self, o, ob, a):
        i = self.num(self.ev(a[0]))
        if not 0 <= i < len(o.xs): raise Defect('std::out_of_range', self.here)
        return Slot(o, i)
    def m_vec_clear(self, o, ob, a): o.xs.clear()
    m_set_clear = m_vec_clear
    def m_vec_reserve(self, o, ob, a): return None
    def m_vec_insert(self, o, ob, a):
        v = self.e(a)
        if isinstance(v[0], Iter) and len(v) == 2:
            i = len(o.xs) if v[0].end else v[0].el
            o.xs.insert(i, v[1]); return Iter(o, i)
        if len(v) == 3 and isinstance(v[1], Iter):
            i = len(o.xs) if v[0].end else v[0].el
            o.xs[i:i] = self.span(v[1], v[2]); return None
        raise Unk('vector insert')
    def m_vec_append(self, o, ob, a):
        v = self.e(a)
        o.xs.extend(self.span(*v) if len(v) == 2 and isinstance(v[0], Iter) else v[0].xs)
    def m_set_insert(self, o, ob, a):
        v = self.e(a)
        if len(v) == 2 and isinstance(v[0], Iter):
            for x in self.span(*v): o.add(x)
            return None
        r = o.add(self.copy(v[0]))
        return Pair(Iter(o, o.elems().index(v[0])), r)
    def m_set_emplace(self, o, ob, a):
        v = self.e(a)
        x = v[0] if len(v) == 1 else Pair(*v)
        r = o.add(x); return Pair(Iter(o, o.elems().index(x)), r)
    def m_set_count(self, o, ob, a): return 1 if self.e(a)[0] in o.xs else 0
    def m_set_contains(self, o, ob, a): return self.e(a)[0] in o.xs
    def m_set_find(self, o, ob, a):
        v = self.e(a)[0]; s = o.elems()
        return Iter(o, s.index(v)) if v in s else self.endit(o)
    def m_set_erase(self, o, ob, a):
        v = self.e(a)[0]
        if isinstance(v, Iter): o.xs.remove(v.deref()); return v
        if v in o.xs: o.xs.remove(v); return 1
        return 0
    def m_map_count(self, o, ob, a): return 1 if self.e(a)[0] in o.d else 0
    def m_map_contains(self, o, ob, a): return self.e(a)[0] in o.d
    def m_map_find(self, o, ob, a):
        v = self.e(a)[0]
        for i, p in enumerate(o.elems()):
            if p.first == v: return Iter(o, i)
        return self.endit(o)
    def m_map_at(self, o, ob, a):
        v = self.e(a)[0]
        if v not in o.d: raise Defect('std::out_of_range in map::at', self.here)
        return Slot(o.d, v)
    def m_map_lookup(self, o, ob, a):
        v = self.e(a)[0]; return o.d.get(v, o.deflt)
    def m_map_insert(self, o, ob, a):
        p = self.e(a)[0]
        new = p.first not in o.d
        if new: o.d[p.first] = p.second
        return Pair(None, new)
    def m_map_emplace(self, o, ob, a):
        v = self.e(a); new = v[0] not in o.d
        if new: o.d[v[0]] = v[1]
        return Pair(None, new)
    m_map_try_emplace = m_map_emplace
    # streams, regex, misc
    def m_stream_is_open(self, o, ob, a): return o.ok
    def m_stream_good(self, o, ob, a): return o.ok and not o.fail
    def m_stream_fail(self, o, ob, a): return not o.ok or o.fail
    m_stream_bad = m_stream_fail
    def m_stream_eof(self, o, ob, a): return o.pos >= len(o.data)
    def m_stream_close(self, o, ob, a): return None
    def m_stream_open(self, o, ob, a):
        s = self.openfile(self.s(self.e(a)[0])); ob.set(s)
    def m_stream_str(self, o, ob, a):
        if a: o.data = self.s(self.e(a)[0]); o.pos = 0; return None
        return o.data
    def m_sink_write_escaped(self, o, ob, a): self.e(a); return o
    m_sink_write = m_sink_write_escaped
    def m_sink_flush(self, o, ob, a): return None
    def m_rso_str(self, o, ob, a): return o.box.get()
    def m_rso_flush(self, o, ob, a): return None
    def m_opq_print(self, o, ob, a): return None
    def m_opq_str(self, o, ob, a): raise Unk('text of a printed value')
    def m_opq_getMessage(self, o, ob, a): return Opaque('message')
    def m_opq_flush(self, o, ob, a): return None
    def m_err_message(self, o, ob, a): return Opaque('message')
    def m_err_value(self, o, ob, a): return int(o.bad)
    # types
    def m_ty_getTypeID(self, o, ob, a): return TYPEID[TID[o[0]]]
    def m_ty_getScalarType(self, o, ob, a): return o[2] if o[0] in ('vec', 'svec') else o
    def m_ty_getElementType(self, o, ob, a):
        if o[0] in ('vec', 'svec'): return o[2]
        raise Unk('element type')
    def m_ty_getNumElements(self, o, ob, a):
        if o[0] == 'vec': return o[1]
        raise Defect('number of elements of a type that is not a fixed vector', self.here)
    def m_ty_isVectorTy(self, o, ob, a): return o[0] in ('vec', 'svec')
    def m_ty_isFloatTy(self, o, ob, a): return o[0] == 'float'
    def m_ty_isDoubleTy(self, o, ob, a): return o[0] == 'double'
    def m_ty_isHalfTy(self, o, ob, a): return o[0] == 'half'
    def m_ty_isBFloatTy(self, o, ob, a): return o[0] == 'bfloat'
    def m_ty_isX86_FP80Ty(self, o, ob, a): return o[0] == 'x86_fp80'
    def m_ty_isFP128Ty(self, o, ob, a): return o[0] == 'fp128'
    def m_ty_isFloatingPointTy(self, o, ob, a): return o[0] in FPS
    def m_ty_isFPOrFPVectorTy(self, o, ob, a): return (o[2] if o[0] in ('vec', 'svec') else o)[0] in FPS
    def m_ty_isIntegerTy(self, o, ob, a):
        return o[0] == 'int' and (not a or o[1] == self.num(self.ev(a[0])))
    def m_ty_isIntOrIntVectorTy(self, o, ob, a): return (o[2] if o[0] in ('vec', 'svec') else o)[0] == 'int'
    def m_ty_isPointerTy(self, o, ob, a): return o[0] == 'ptr'
    def m_ty_isVoidTy(self, o, ob, a): return o[0] == 'void'
    def m_ty_getContext(self, o, ob, a): return Opaque('ctx')
    def m_ty_getPrimitiveSizeInBits(self, o, ob, a): return bits(o)
    def m_ty_getScalarSizeInBits(self, o, ob, a): return bits(o[2] if o[0] == 'vec' else o)
    def m_ty_getIntegerBitWidth(self, o, ob, a): return o[1]
    m_ty_getBitWidth = m_ty_getIntegerBitWidth
    def m_ty_getPointerTo(self, o, ob, a): return PTR
    # values
    def m_val_getType(self, o, ob, a):
        return o.ty
    def m_val_getName(self, o, ob, a): return o.name
    def m_val_setName(self, o, ob, a): return None
    def m_val_takeName(self, o, ob, a): return None
    def m_val_hasName(self, o, ob, a): return True
    def m_val_getContext(self, o, ob, a): return Opaque('ctx')
    def m_val_print(self, o, ob, a):
        if isinstance(self.ev(a[0]), Rso): raise Unk('text of a printed value')
    def m_ty_print(self, o, ob, a):
        r = self.ev(a[0])
        if isinstance(r, Rso): r.box.set(r.box.get() + str(o))
    def allfns(self, o):
        f = o.block.fn if isinstance(o, Inst) else None
        return f
    def m_inst_replaceAllUsesWith(self, o, ob, a):
        self.rauw(o, self.nn(self.e(a)[0], 'value'))
    def rauw(self, o, v):
        if v.ty != o.ty: raise Defect('a %s value replaces the uses of a %s instruction' % (v.ty, o.ty), self.here)
        if v is o: raise Defect('an instruction replaces itself', self.here)
        for b in o.block.fn.blocks:
            for i in b.insts:
                i.ops = [v if x is o else x for x in i.ops]
    def erase(self, o):
        for b in o.block.fn.blocks:
            for i in b.insts:
                if i is not o and any(x is o for x in i.ops): raise Defect('an instruction that is still used is erased', self.here)
        nxt = Iter(o.block, o); nxt.step()
        o.block.insts.remove(o)
        o.erased = True
        return nxt
    def m_inst_eraseFromParent(self, o, ob, a): return self.erase(o)
    def m_inst_use_empty(self, o, ob, a):
        return not any(x is o for b in o.block.fn.blocks for i in b.insts for x in i.ops)
    def m_inst_getOpcode(self, o, ob, a): return OPC[o.op]
    def m_inst_getOpcodeName(self, o, ob, a): return o.op.lower()
    def m_inst_getOperand(self, o, ob, a):
        i = self.num(self.ev(a[0]))
        ops = o.ops + ([o.x['callee'] or Val(PTR, 'callee')] if o.op == 'Call' else [])
        if not 0 <= i < len(ops): raise Defect('operand %d of a %s instruction does not exist' % (i, o.op), self.here)
        return ops[i]
    def m_inst_setOperand(self, o, ob, a):
        i, v = self.e(a); o.ops[i] = v
    def m_inst_getNumOperands(self, o, ob, a): return len(o.ops) + (1 if o.op == 'Call' else 0)
    def m_inst_getArgOperand(self, o, ob, a):
        i = self.num(self.ev(a[0]))
        if not 0 <= i < len(o.ops): raise Defect('argument %d of a call does not exist' % i, self.here)
        return o.ops[i]
    def m_inst_arg_size(self, o, ob, a): return len(o.ops)
    m_inst_getNumArgOperands = m_inst_arg_size
    def m_inst_args(self, o, ob, a): return Vec(o.ops)
    def m_inst_operands(self, o, ob, a): return Vec(o.ops)
    def m_inst_getParent(self, o, ob, a): return o.block
    def m_inst_getFunction(self, o, ob, a): return o.block.fn
    m_inst_getCaller = m_inst_getFunction
    def m_inst_getModule(self, o, ob, a): return o.block.fn.mod
    def m_inst_getIterator(self, o, ob, a): return Iter(o.block, o)
    def m_inst_getNextNode(self, o, ob, a):
        s = o.block.insts; j = s.index(o) + 1
        return s[j] if j < len(s) else None
    def m_inst_getPrevNode(self, o, ob, a):
        s = o.block.insts; j = s.index(o) - 1
        return s[j] if j >= 0 else None
    def m_inst_getCalledFunction(self, o, ob, a):
        if o.op != 'Call': raise Defect('called function of a %s instruction' % o.op, self.here)
        return o.x['callee']
    m_inst_getCalledOperand = m_inst_getCalledFunction
    def m_inst_getIntrinsicID(self, o, ob, a): return intrinsic(o.x.get('callee'))
    def m_inst_getPredicate(self, o, ob, a):
        if o.op != 'FCmp': raise Defect('predicate of a %s instruction' % o.op, self.here)
        return PREDS.index(o.x['pred'])
    def pred(f):
        def g(self, o, ob, a):
            p = self.e(a)[0] if a else PREDS.index(o.x['pred'])
            return f(p)
        return g
    m_inst_getInversePredicate = pred(lambda p: 15 - p)
    m_inst_getSwappedPredicate = pred(lambda p: {2: 4, 4: 2, 3: 5, 5: 3, 10: 12, 12: 10, 11: 13, 13: 11}.get(p, p))
    m_inst_getUnorderedPredicate = pred(lambda p: p | 8)
    m_inst_getOrderedPredicate = pred(lambda p: p & 7)
    del pred
    def m_inst_getSrcTy(self, o, ob, a): return o.ops[0].ty
    def m_inst_getDestTy(self, o, ob, a): return o.ty
    def m_inst_setAttributes(self, o, ob, a):
        v = self.e(a)[0]
        if not isinstance(v, AttrList): raise Unk('attributes')
        o.attrs = v.copy()
    def m_inst_getAttributes(self, o, ob, a): return (o.attrs or AttrList()).copy()
    def m_inst_addParamAttr(self, o, ob, a):
        v = self.e(a); o.attrs = o.attrs or AttrList(); x = v[1]
        o.attrs.params.setdefault(v[0], {})[x.k] = x.v
    def m_inst_setCallingConv(self, o, ob, a): return None
    def m_inst_setDebugLoc(self, o, ob, a): return None
    def m_inst_getDebugLoc(self, o, ob, a): return Opaque('loc')
    def m_inst_copyFastMathFlags(self, o, ob, a): return None
    def m_inst_setMetadata(self, o, ob, a): return None
    def m_inst_copyMetadata(self, o, ob, a): return None
    def m_inst_isBinaryOp(self, o, ob, a): return OPCLASS[o.op][0] == 'BINARY'
    def m_inst_isCast(self, o, ob, a): return OPCLASS[o.op][0] == 'CAST'
    def m_inst_isTerminator(self, o, ob, a): return OPCLASS[o.op][0] == 'TERM'
    def m_inst_insertBefore(self, o, ob, a):
        p = self.e(a)[0]; p.block.add(o, p)
    def m_inst_setAlignment(self, o, ob, a): return None
    def m_inst_moveBefore(self, o, ob, a): raise Unk('moveBefore')
    # functions, blocks, modules
    def m_fn_begin(self, o, ob, a): return self.begin(o)
    m_block_begin = m_mod_begin = m_fn_begin
    def m_fn_end(self, o, ob, a): return self.endit(o)
    m_block_end = m_mod_end = m_fn_end
    def m_fn_getArg(self, o, ob, a):
        i = self.num(self.ev(a[0]))
        if not 0 <= i < len(o.args): raise Defect('argument %d of @%s does not exist' % (i, o.name), self.here)
        return o.args[i]
    def m_fn_arg_size(self, o, ob, a): return len(o.args)
    def m_fn_args(self, o, ob, a): return Vec(o.args)
    def m_fn_arg_begin(self, o, ob, a): return self.begin(Vec(o.args))
    def m_fn_getFunctionType(self, o, ob, a): return FnTy(('fnty', o.ret, tuple(o.params)))
    def m_fn_getReturnType(self, o, ob, a): return o.ret
    def m_fn_getAttributes(self, o, ob, a): return o.attrs.copy()
    def m_fn_setAttributes(self, o, ob, a): o.attrs = self.e(a)[0].copy()
    def m_fn_getFnAttribute(self, o, ob, a):
        k = self.e(a)[0]
        return Attr(k, o.attrs.fn[k]) if k in o.attrs.fn else Attr(None)
    def m_fn_hasFnAttribute(self, o, ob, a): return self.e(a)[0] in o.attrs.fn
    def m_fn_addFnAttr(self, o, ob, a):
        v = self.e(a)
        if isinstance(v[0], Attr):
            if v[0].k is not None: o.attrs.fn[v[0].k] = v[0].v
        else: o.attrs.fn[self.s(v[0])] = v[1] if len(v) > 1 else ''
    def m_fn_removeFnAttr(self, o, ob, a): o.attrs.fn.pop(self.e(a)[0], None)
    def m_fn_isDeclaration(self, o, ob, a): return not o.blocks
    def m_fn_empty(self, o, ob, a): return not o.blocks
    m_block_empty = lambda self, o, ob, a: not o.insts
    def m_fn_size(self, o, ob, a): return len(o.blocks)
    def m_block_size(self, o, ob, a): return len(o.insts)
    def m_fn_isIntrinsic(self, o, ob, a): return o.name.startswith('llvm.')
    def m_fn_getIntrinsicID(self, o, ob, a): return intrinsic(o)
    def m_fn_getParent(self, o, ob, a): return o.mod
    def m_fn_getEntryBlock(self, o, ob, a):
        if not o.blocks: raise Defect('entry block of a declaration', self.here)
        return o.blocks[0]
    def m_fn_front(self, o, ob, a): return self.m_fn_getEntryBlock(o, ob, a)
    def m_fn_hasParamAttribute(self, o, ob, a):
        i, k = self.e(a); return self.akey(k) in o.attrs.params.get(i, {})
    def m_fn_setCallingConv(self, o, ob, a): return None
    def m_fn_getCallingConv(self, o, ob, a): return 0
    def akey(self, k): return k[5:].lower() if isinstance(k, str) and k.startswith('enum:') else k
    def m_block_getParent(self, o, ob, a): return o.fn
    def m_block_getModule(self, o, ob, a): return o.fn.mod
    def m_block_getTerminator(self, o, ob, a): return o.insts[-1] if o.insts else None
    def m_block_front(self, o, ob, a): return o.insts[0]
    def m_block_getFirstInsertionPt(self, o, ob, a): return self.begin(o)
    def m_block_instructionsWithoutDebug(self, o, ob, a): return o
    def m_arg_getArgNo(self, o, ob, a): return o.no
    def m_arg_getParent(self, o, ob, a): return o.fn
    def m_arg_hasByValAttr(self, o, ob, a): return 'byval' in o.fn.attrs.params.get(o.no, {})
    def m_arg_getParamByValType(self, o, ob, a): return o.fn.attrs.params.get(o.no, {}).get('byval')
    def m_arg_getParamAlign(self, o, ob, a): return Opaque('align')
    def m_arg_hasAttribute(self, o, ob, a): return self.akey(self.e(a)[0]) in o.fn.attrs.params.get(o.no, {})
    def m_val_getSExtValue(self, o, ob, a): return o.v
    m_val_getZExtValue = m_val_getSExtValue
    def m_mod_getFunction(self, o, ob, a): return o.get(self.s(self.e(a)[0]))
    def m_mod_functions(self, o, ob, a): return o
    m_mod_getFunctionList = m_mod_functions
    def m_mod_size(self, o, ob, a): return len(o.fns)
    def m_mod_getContext(self, o, ob, a): return Opaque('ctx')
    def m_mod_getSourceFileName(self, o, ob, a): return o.src
    def m_mod_getModuleIdentifier(self, o, ob, a): return o.name
    m_mod_getName = m_mod_getModuleIdentifier
    def m_mod_getDataLayout(self, o, ob, a): return Opaque('dl')
    def m_mod_getOrInsertFunction(self, o, ob, a):
        v = self.e(a)
        nm = self.s(v[0])
        f = o.get(nm)
        if f is None:
            if len(v) > 1 and isinstance(v[1], FnTy):
                f = Fn(nm, v[1][1], v[1][2], v[2].copy() if len(v) > 2 and isinstance(v[2], AttrList) else AttrList(), o)
            elif len(v) > 1 and all(isinstance(x, Ty) for x in v[1:]):
                f = Fn(nm, v[1], v[2:], AttrList(), o)
            else: raise Unk('getOrInsertFunction')
            o.fns.append(f)
        return Callee(f)
    def m_mod_get(self, o, ob, a): return o
    m_mod_release = m_mod_get
    def m_fn_get(self, o, ob, a): return o
    def m_callee_getCallee(self, o, ob, a): return o.f
    def m_callee_getFunctionType(self, o, ob, a): return FnTy(('fnty', o.f.ret, tuple(o.f.params)))
    def m_attr_getValueAsString(self, o, ob, a): return o.v
    def m_attr_getKindAsString(self, o, ob, a): return o.k
    def m_attr_isValid(self, o, ob, a): return o.k is not None
    def m_attr_isStringAttribute(self, o, ob, a): return o.k is not None
    def m_attr_hasAttribute(self, o, ob, a): return o.k == self.e(a)[0]
    def m_al_getFnAttrs(self, o, ob, a): return o
    def m_al_hasFnAttr(self, o, ob, a): return self.e(a)[0] in o.fn
    def m_fnty_getReturnType(self, o, ob, a): return o[1]
    def m_fnty_getNumParams(self, o, ob, a): return len(o[2])
    def m_fnty_getParamType(self, o, ob, a): return o[2][self.num(self.ev(a[0]))]
    def m_fnty_params(self, o, ob, a): return Vec(o[2])
    # builder
    def m_bld_SetInsertPoint(self, o, ob, a):
        v = self.e(a)
        if isinstance(v[0], Inst): o.before, o.block = v[0], v[0].block
        elif isinstance(v[0], Block): o.before, o.block = None, v[0]
        else: raise Unk('SetInsertPoint')
    def m_bld_getContext(self, o, ob, a): return Opaque('ctx')
    def m_bld_getInt32Ty(self, o, ob, a): return INT(32)
    def m_bld_getInt64Ty(self, o, ob, a): return INT(64)
    def m_bld_getInt8Ty(self, o, ob, a): return INT(8)
    def m_bld_getInt16Ty(self, o, ob, a): return INT(16)
    def m_bld_getInt1Ty(self, o, ob, a): return INT(1)
    def m_bld_getFloatTy(self, o, ob, a): return FLOAT
    def m_bld_getDoubleTy(self, o, ob, a): return DOUBLE
    def m_bld_getPtrTy(self, o, ob, a): return PTR
    def m_bld_getIntNTy(self, o, ob, a): return INT(self.num(self.ev(a[0])))
    def m_bld_getInt32(self, o, ob, a): return Const(INT(32), self.num(self.ev(a[0])) & 0xffffffff)
    def m_bld_getInt64(self, o, ob, a): return Const(INT(64), self.num(self.ev(a[0])))
    def m_bld_getInt8(self, o, ob, a): return Const(INT(8), self.num(self.ev(a[0])) & 0xff)
    def m_bld_getInt1(self, o, ob, a): return Const(INT(1), self.num(self.ev(a[0])) & 1)
    m_bld_getTrue = lambda self, o, ob, a: Const(INT(1), 1)
    m_bld_getFalse = lambda self, o, ob, a: Const(INT(1), 0)
    def m_bld_CreateCall(self, o, ob, a):
        v = self.e(a)
        k = 0
        if isinstance(v[0], FnTy): k = 1
        f = v[k]
        if isinstance(f, Callee): f = f.f
        if not isinstance(f, Fn): self.nn(f, 'callee'); raise Unk('call of a value')
        ops = v[k + 1].xs if len(v) > k + 1 and isinstance(v[k + 1], Vec) else []
        for x in ops: self.nn(x, 'operand')
        return o.ins(Inst('Call', f.ret, ops, callee=f))
    def cast(self, o, op, v, t):
        self.nn(v, 'operand'); self.nn(t, 'type')
        if v.ty == t: return v
        return o.ins(Inst(op, t, [v]))
    def m_bld_CreateBitCast(self, o, ob, a):
        v = self.e(a)
        if not bitcastable(v[0].ty, v[1]): raise Defect('invalid bitcast from %s to %s' % (v[0].ty, v[1]), self.here)
        return self.cast(o, 'BitCast', v[0], v[1])
    m_bld_CreateBitOrPointerCast = m_bld_CreateBitCast
    def m_bld_CreateIntCast(self, o, ob, a):
        v = self.e(a)
        return self.intcast(o, v[0], v[1], self.truth(v[2]) if len(v) > 2 else False)
    def intcast(self, o, x, t, signed):
        self.nn(x, 'operand')
        s, d = (x.ty[2] if x.ty[0] == 'vec' else x.ty), (t[2] if t[0] == 'vec' else t)
        if s[0] != 'int' or d[0] != 'int' or (x.ty[0] == 'vec') != (t[0] == 'vec') or (t[0] == 'vec' and t[1] != x.ty[1]):
            raise Defect('invalid integer cast from %s to %s' % (x.ty, t), self.here)
        if s == d: return x
        return o.ins(Inst('Trunc' if d[1] < s[1] else 'SExt' if signed else 'ZExt', t, [x]))
    def m_bld_CreateTrunc(self, o, ob, a):
        v = self.e(a); return self.intcast(o, v[0], v[1], False)
    m_bld_CreateZExtOrTrunc = m_bld_CreateTrunc
    m_bld_CreateZExt = m_bld_CreateTrunc
    def m_bld_CreateSExt(self, o, ob, a):
        v = self.e(a); return self.intcast(o, v[0], v[1], True)
    m_bld_CreateSExtOrTrunc = m_bld_CreateSExt
    def m_bld_CreateICmpNE(self, o, ob, a):
        v = self.e(a)
        t = v[0].ty
        return o.ins(Inst('ICmp', VEC(t[1], INT(1)) if t[0] == 'vec' else INT(1), v[:2], pred='ne'))
    def m_bld_CreateIsNotNull(self, o, ob, a):
        v = self.e(a); t = v[0].ty
        return o.ins(Inst('ICmp', VEC(t[1], INT(1)) if t[0] == 'vec' else INT(1), [v[0], Const(t, 0)], pred='ne'))
    def m_bld_CreateAlloca(self, o, ob, a):
        v = self.e(a); self.nn(v[0], 'type')
        return o.ins(Inst('Alloca', PTR, [], aty=v[0]))
    def m_bld_CreateStore(self, o, ob, a):
        v = self.e(a)
        return o.ins(Inst('Store', VOID, [v[0], v[1]]))
    m_bld_CreateAlignedStore = m_bld_CreateStore
    def m_bld_CreateLoad(self, o, ob, a):
        v = self.e(a); return o.ins(Inst('Load', v[0], [v[1]]))
    def m_bld_setFastMathFlags(self, o, ob, a): return None
    def m_bld_SetCurrentDebugLocation(self, o, ob, a): return None
    # ------------------------------------------------ plain functions
    def ex_CallExpr(self, n):
        cal = n['inner'][0]
        c = cal
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
        a = n['inner'][1:]
        if c['kind'] == 'DeclRefExpr':
            r = c['referencedDecl']
            own = self.u.decls.get(r['id'])
            if own is not None and own['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                own = self.definition(own)
                if body(own) is not None:
                    return self.call(own, [None if x.get('kind') == 'CXXDefaultArgExpr' else self.lv(x) for x in a])
            b = self.lookup(r['id'])
            if b is not None: return self.callv(b.get(), [self.lv(x) for x in a])
            name = r['name']
            a = self.args(a)
            sn = self.u.snippet(c)
            f = getattr(self, 'f_' + name, None)
            if f is None: raise Unk('function %s at %s' % (sn or name, self.u.at(n)))
            self.cn = c
            return f(a, n, sn)
        return self.callv(self.ev(cal), [self.lv(x) for x in a])
    def targs(self, sn, name):
        m = re.search(name + r'\s*<(.*)>\s*$', sn, re.S)
        if not m: raise Unk('template arguments of ' + name)
        return [cls(x) for x in m.group(1).split(',')]
    def f_isa(self, a, n, sn):
        v = cval(self.ev(a[0]))
        self.nn(v, 'pointer in isa<>')
        ks = self.targs(sn, 'isa')
        return any(classof(v, k) for k in ks)
    def f_isa_and_nonnull(self, a, n, sn):
        v = cval(self.ev(a[0]))
        return v is not None and any(classof(v, k) for k in self.targs(sn, r'isa_and_\w+'))
    f_isa_and_present = f_isa_and_nonnull
    def f_dyn_cast(self, a, n, sn):
        v = cval(self.ev(a[0]))
        self.nn(v, 'pointer in dyn_cast<>')
        return v if classof(v, self.targs(sn, 'dyn_cast')[0]) else None
    def f_dyn_cast_or_null(self, a, n, sn):
        v = cval(self.ev(a[0]))
        return v if v is not None and classof(v, self.targs(sn, r'dyn_cast_\w+')[0]) else None
    f_dyn_cast_if_present = f_dyn_cast_or_null
    def f_cast(self, a, n, sn):
        v = cval(self.ev(a[0]))
        self.nn(v, 'pointer in cast<>')
        if not classof(v, self.targs(sn, 'cast')[0]): raise Defect('invalid cast<%s>' % self.targs(sn, 'cast')[0], self.u.at(n))
        return v
    def f_errs(self, a, n, sn): return Sink()
    f_outs = f_dbgs = f_nulls = f_errs
    def f_report_fatal_error(self, a, n, sn): raise Fatal('report_fatal_error at ' + self.u.at(n))
    def f_exit(self, a, n, sn):
        if self.num(self.ev(a[0])) == 0: raise Unk('exit(0)')
        raise Fatal('exit at ' + self.u.at(n))
    f__exit = f_exit
    def f_abort(self, a, n, sn): raise Fatal('abort at ' + self.u.at(n))
    f_llvm_unreachable_internal = f_abort
    def f___assert_fail(self, a, n, sn): raise Fatal('assert at ' + self.u.at(n))
    def f_to_string(self, a, n, sn): return str(self.num(self.ev(a[0])))
    def f_utostr(self, a, n, sn): return str(self.num(self.ev(a[0])))
    def f_make_pair(self, a, n, sn): return Pair(*[self.copy(x) for x in self.e(a)])
    def f_make_tuple(self, a, n, sn): return Tup(self.e(a))
    def f_tie(self, a, n, sn): raise Unk('tie')
    def f_move(self, a, n, sn): return self.lv(a[0]) if len(a) == 1 else (_ for _ in ()).throw(Unk('move'))
    f_forward = f_move
    def f_init(self, a, n, sn): return ['init', self.ev(a[0])]
    def f_none(self, a, n, sn): return Opaque('PreservedAnalyses')
    f_all = f_none
    def f_regex_match(self, a, n, sn):
        v = self.e(a)
        if len(v) == 2 and isinstance(v[1], Rgx): return self.rmatch(self.s(v[0]), v[1])
        raise Unk('regex_match')
    def rmatch(self, s, r):
        if self.choose is not None:
            x = self.choose('match', s, r)
            if x is not None: return x
        try: return re.fullmatch(r.pat, s) is not None
        except re.error: raise Fatal('invalid regular expression')
    def f_regex_search(self, a, n, sn):
        v = self.e(a)
        if len(v) == 2 and isinstance(v[1], Rgx):
            if self.choose is not None:
                x = self.choose('search', self.s(v[0]), v[1])
                if x is not None: return x
            return re.search(v[1].pat, self.s(v[0])) is not None
        raise Unk('regex_search')
    def f_regex_replace(self, a, n, sn): raise Unk('regex_replace')
    def f_getline(self, a, n, sn):
        st = self.ev(a[0]); b = self.lv(a[1])
        d = chr(self.num(self.ev(a[2]))) if len(a) > 2 else '\n'
        if not isinstance(st, Stream): raise Unk('getline')
        return self.getline(st, b, d)
    def f_isBitCastable(self, a, n, sn):
        v = self.e(a); return bitcastable(v[0], v[1])
    def f_isBitOrNoopPointerCastable(self, a, n, sn):
        v = self.e(a); return bitcastable(v[0], v[1])
    def f_get(self, a, n, sn):
        t = cls(qt(n)); v = self.e(a)
        if 'ConstantInt' in sn and isinstance(v[0], Ty) and v[0][0] == 'int': return Const(v[0], self.num(v[1]) & ((1 << v[0][1]) - 1))
        if 'VectorType' in sn or 'VectorType' in t:
            if len(v) >= 2 and isinstance(v[0], Ty) and isinstance(v[1], int):
                if len(v) > 2 and self.truth(v[2]): return T('svec', v[1], v[0])
                return VEC(v[1], v[0])
        if 'IntegerType' in sn: return INT(self.num(v[1]))
        if 'FunctionType' in sn:
            if isinstance(v[1], Vec): return FnTy(('fnty', v[0], tuple(v[1].xs)))
        if 'Attribute' in sn and len(v) >= 2 and isinstance(v[1], str): return Attr(v[1], v[2] if len(v) > 2 else '')
        if re.match(r'(std::)?get<\d+>', sn):
            i = int(re.search(r'<(\d+)>', sn).group(1))
            if isinstance(v[0], Pair): return (v[0].first, v[0].second)[i]
            if isinstance(v[0], Tup): return v[0].xs[i]
        raise Unk(sn)
    def f_getNullValue(self, a, n, sn): return Const(self.e(a)[0], 0)
    def f_getSigned(self, a, n, sn): return self.f_get(a, n, sn)
    def f_getFloatTy(self, a, n, sn): return FLOAT
    def f_getDoubleTy(self, a, n, sn): return DOUBLE
    def f_getInt32Ty(self, a, n, sn): return INT(32)
    def f_getInt64Ty(self, a, n, sn): return INT(64)
    def f_getInt1Ty(self, a, n, sn): return INT(1)
    def f_getFixed(self, a, n, sn): return self.num(self.ev(a[0]))
    def f_Create(self, a, n, sn):
        v = self.e(a)
        if 'CallInst' in sn:
            f = v[0].f if isinstance(v[0], Callee) else v[0]
            if isinstance(f, FnTy): f, v = v[1], v[1:]
            ops = v[1].xs if len(v) > 1 and isinstance(v[1], Vec) else []
            i = Inst('Call', f.ret, ops, callee=f)
            pos = next((x for x in v[2:] if isinstance(x, Inst)), None)
            if pos is not None: pos.block.add(i, pos)
            return i
        raise Unk(sn)
    def f_ReplaceInstWithValue(self, a, n, sn):
        it = self.lv(a[0]); v = self.e(a[1:])[0]
        i = it.get()
        if isinstance(i, Iter): inst = i.deref()
        else: inst = i
        self.nn(v, 'replacement value')
        self.here = self.u.at(n)
        self.rauw(inst, v)
        nx = self.erase(inst)
        if isinstance(i, Iter): it.set(nx)
    def f_ReplaceInstWithInst(self, a, n, sn):
        v = self.e(a)
        if len(v) == 2 and isinstance(v[0], Inst):
            old, new = v
            if new.block is None: old.block.add(new, old)
            self.rauw(old, new); self.erase(old)
            return None
        raise Unk(sn)
    def f_parseIRFile(self, a, n, sn):
        nm = self.s(cval(self.ev(a[0])))
        return self.modules.get(nm)
    def f_instructions(self, a, n, sn):
        f = self.e(a)[0]
        return Vec([i for b in f.blocks for i in b.insts])
    def f_make_early_inc_range(self, a, n, sn):
        r = self.ev(a[0])
        v = Vec(list(self.seq(r)))
        return v
    def f_reverse(self, a, n, sn):
        return Vec(list(self.seq(self.ev(a[0])))[::-1]) if len(a) == 1 else self._rev(a)
    def _rev(self, a): raise Unk('reverse')
    def rng(self, v, want=2):
        if len(v) >= 2 and isinstance(v[0], Iter) and isinstance(v[1], Iter): return self.span(v[0], v[1]), v[2:], v[1]
        return list(self.seq(v[0])), v[1:], None
    def pr(self, p, x):
        return self.truth(self.rv(self.callv(p, [Box(x)])))
    def f_any_of(self, a, n, sn):
        xs, r, _ = self.rng(self.e(a)); return any(self.pr(r[0], x) for x in xs)
    def f_all_of(self, a, n, sn):
        xs, r, _ = self.rng(self.e(a)); return all(self.pr(r[0], x) for x in xs)
    def f_none_of(self, a, n, sn):
        xs, r, _ = self.rng(self.e(a)); return not any(self.pr(r[0], x) for x in xs)
    def f_for_each(self, a, n, sn):
        xs, r, _ = self.rng(self.e(a))
        for x in xs: self.callv(r[0], [Box(x)])
    def f_is_contained(self, a, n, sn):
        v = self.e(a); return any(self.same(x, v[1]) for x in self.seq(v[0]))
    def f_count(self, a, n, sn):
        xs, r, _ = self.rng(self.e(a)); return sum(1 for x in xs if self.same(x, r[0]))
    def f_count_if(self, a, n, sn):
        xs, r, _ = self.rng(self.e(a)); return sum(1 for x in xs if self.pr(r[0], x))
    def _pos(self, v, ok):
        it = v[0].copy()
        while it.key() != v[1].key():
            if ok(it.deref()): return it
            it.step()
        return v[1].copy()
    def f_find(self, a, n, sn):
        v = self.e(a)
        if len(v) == 3: return self._pos(v, lambda x: self.same(x, v[2]))
        raise Unk('find')
    def f_find_if(self, a, n, sn):
        v = self.e(a)
        if len(v) == 3: return self._pos(v, lambda x: self.pr(v[2], x))
        raise Unk('find_if')
    def f_distance(self, a, n, sn):
        v = self.e(a); return len(self.span(v[0], v[1]))
    def f_next(self, a, n, sn):
        v = self.e(a); i = v[0].copy()
        for _ in range(v[1] if len(v) > 1 else 1): i.step()
        return i
    def f_prev(self, a, n, sn):
        i = self.e(a)[0].copy(); i.step(-1); return i
    def f_begin(self, a, n, sn): return self.begin(self.wrap(self.e(a)[0]))
    def f_end(self, a, n, sn): return self.endit(self.e(a)[0])
    def f_size(self, a, n, sn): return len(self.seq(self.e(a)[0]))
    def f_min(self, a, n, sn):
        v = self.e(a); return min(self.num(v[0]), self.num(v[1]))
    def f_max(self, a, n, sn):
        v = self.e(a); return max(self.num(v[0]), self.num(v[1]))
    def f_swap(self, a, n, sn):
        x, y = self.lv(a[0]), self.lv(a[1])
        p, q = x.get(), y.get(); x.set(q); y.set(p)
    def f_isspace(self, a, n, sn): return chr(self.num(self.ev(a[0]))) in ' \t\n\v\f\r'
    def f_isSpace(self, a, n, sn): return self.f_isspace(a, n, sn)
    # paths
    def f_is_absolute(self, a, n, sn): return self.s(cval(self.ev(a[0]))).startswith('/')
    def f_is_relative(self, a, n, sn): return not self.s(cval(self.ev(a[0]))).startswith('/')
    def f_get_separator(self, a, n, sn): return '/'
    def f_filename(self, a, n, sn):
        return self.s(cval(self.ev(a[0]))).rsplit('/', 1)[-1]
    def ext(self, p):
        fn = p.rsplit('/', 1)[-1]
        if fn in ('.', '..') or '.' not in fn: return ''
        return fn[fn.rfind('.'):]
    def f_has_extension(self, a, n, sn): return bool(self.ext(self.s(cval(self.ev(a[0])))))
    def f_extension(self, a, n, sn): return self.ext(self.s(cval(self.ev(a[0]))))
    def f_current_path(self, a, n, sn):
        self.lv(a[0]).set(self.cwd); return Err(False)
    def f_make_absolute(self, a, n, sn):
        b = self.lv(a[0]); p = self.s(b.get())
        if not p.startswith('/'): b.set(self.cwd + '/' + p)
        return Err(False)
    def f_append(self, a, n, sn):
        b = self.lv(a[0])
        for x in self.e(a[1:]):
            p = b.get()
            b.set((p if p.endswith('/') or not p else p + '/') + self.s(x).lstrip('/'))
    def f_exists(self, a, n, sn): return self.s(cval(self.ev(a[0]))) in self.files

INTR = {'llvm.fma': 'fma', 'llvm.fmuladd': 'fmuladd'}
def intrinsic(f):
    if f is None or not f.name.startswith('llvm.'): return 0
    base = re.sub(r'(\.(v\d+)?[fi]\d+)+$', '', f.name)
    return 'enum:' + INTR.get(base, base[5:].replace('.', '_'))
