"""The run-time wrapper library (main.c.in + funcinstr.c), specialised to a set of loaded backends."""
import os, re
from .build import SRC, REPO, bc_text, residual, BuildError
from . import ir

W = os.path.join(SRC, 'vfcwrapper')
OPS = {}          # scalar wrapper -> (interface member, params, result)
for ty in ('float', 'double'):
    for op in ('add', 'sub', 'mul', 'div'):
        OPS['_%s%s' % (ty, op)] = ('interflop_%s_%s' % (op, ty), [ty, ty], ty)
    OPS['_%scmp' % ty] = ('interflop_cmp_' + ty, ['enum FCMP_PREDICATE', ty, ty], 'int')
    OPS['_%sfma' % ty] = ('interflop_fma_' + ty, [ty, ty, ty], ty)
OPS['_doubletofloatcast'] = ('interflop_cast_double_to_float', ['double'], 'float')
PN = 'abcd'

def parts():
    """the files concatenated into vfcwrapper.c, in order (read off the Makefile rule; main.c comes from main.c.in)"""
    files = ['main.c', 'funcinstr.c']
    try:
        mk = open(os.path.join(W, 'Makefile.am')).read()
        m = re.search(r'@?cat ((?:[\w.]+\.c\s+)+)>>', mk)
        if m:
            files = m.group(1).split()
    except OSError:
        pass
    out = []
    for f in files:
        p = os.path.join(W, f)
        out.append(p if os.path.exists(p) else p + '.in')
    return out

def source(defs=()):
    t = ''.join('#define %s %s\n' % tuple((d + '=1').split('=')[:2]) for d in defs)
    for p in parts():
        s = open(p).read().replace('@LLVM_BINDIR@', '/llvm')
        t += '#line 1 "%s"\n%s\n' % (p, s)
    return t

def fix(consts):
    """edit of the linked module: each named global of the wrapper becomes a constant with the value of the harness' global"""
    def edit(txt):
        txt = re.sub(r'^@llvm\.(?:global_ctors|global_dtors|used|compiler\.used) =[^\n]*\n', '', txt, flags=re.M)
        for g, k in consts.items():
            m = re.search(r'^@%s = [^\n]*?(?:global|constant) ([^\n]*?)(, align[^\n]*)?$' % re.escape(k), txt, re.M)
            d = re.search(r'^@%s = [^\n]*$' % re.escape(g), txt, re.M)
            if not m or not d:
                raise BuildError('global %s not found' % g)
            txt = txt[:d.start()] + '@%s = internal constant %s' % (g, m.group(1)) + txt[d.end():]
        return txt
    return edit

def module(harness, keep, defs=(), opaque=(), attrs=None, pure=False, consts=None):
    return residual([bc_text(source(defs) + '\n#line 1 "harness"\n' + harness, [W], ('-O2',), gcc_branch=False)], keep, opaque=opaque, pure=pure,
                    attrs=attrs, edit=fix(consts or {}))

def table(members, mask):
    """C text: the tables of loaded backends; members: interface member -> mock prototype function; mask: which backends implement it.
    contexts[i] is the address of K<i>"""
    n = len(mask)
    t = 'extern char %s;\n' % ', '.join('K%d' % i for i in range(n))
    for mem, proto in members.items():
        for i in range(n):
            if mask[i]:
                t += proto('%s_%d' % (mem, i))
    t += 'struct interflop_backend_interface_t KB[MAX_BACKENDS] = {%s};\n' % ', '.join(
        '[%d] = {%s}' % (i, ', '.join('.%s = %s_%d' % (mem, mem, i) for mem in members)) for i in range(n) if mask[i])
    t += 'void *KC[MAX_BACKENDS] = {%s};\n' % ', '.join('&K%d' % i for i in range(n))
    t += 'unsigned char KN = %d;\n' % n
    return t

TABLES = {'backends': 'KB', 'contexts': 'KC', 'loaded_backends': 'KN'}

def opmembers():
    m = {}
    for wn, (mem, params, rt) in OPS.items():
        m[mem] = (lambda nm, params=params, rt=rt: 'extern void %s(%s, %s *, void *);\n' % (nm, ', '.join(params), rt))
    return m

def env_harness(env, body=''):
    """C text: getenv answers from the constant table env (name -> C expression); other names are unset"""
    t = 'char *my_getenv(const char *s) {\n'
    for k, v in env.items():
        t += '  if (strcmp(s, "%s") == 0) return %s;\n' % (k, v)
    return t + '  return (char *)0;\n}\n' + body

ENVDEF = 'getenv=my_getenv'
