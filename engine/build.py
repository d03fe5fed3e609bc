"""Compilation of /repo's sources to LLVM IR, in a scratch directory."""
import os, subprocess, tempfile, shutil, atexit, re, hashlib
from . import ir

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
STD = os.path.join(SRC, 'interflop-stdlib')
BK = os.path.join(SRC, 'backends')
CLANG, OPT, LINK = 'clang-18', 'opt-18', 'llvm-link-18'

class BuildError(Exception):
    pass

class ToolMissing(Exception):
    pass

def which(*c):
    for x in c:
        p = shutil.which(x)
        if p:
            return p
    for x in c:
        p = '/usr/lib/llvm-18/bin/' + x.replace('-18', '')
        if os.path.exists(p):
            return p
    raise ToolMissing('tool not found: %s' % (c,))

_tmp = None
def scratch():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='vcl_sa_')
        atexit.register(shutil.rmtree, _tmp, True)
        inc = os.path.join(_tmp, 'inc')
        os.mkdir(inc)
        os.symlink(STD, os.path.join(inc, 'interflop'))
    return _tmp

def run(cmd, inp=None):
    p = subprocess.run(cmd, input=inp, capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd)[:600], p.stderr[-3000:]))
    return p.stdout

GCCINC = '/usr/lib/gcc/x86_64-linux-gnu/13/include'

def cflags(src=None, gcc_branch=True, extra=()):
    t = scratch()
    fl = ['-w', '-O1', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', '-fno-discard-value-names',
          '-gline-tables-only', '-fno-math-errno' if False else '-fmath-errno',
          '-Wno-error=implicit-function-declaration', '-emit-llvm', '-c', '-I', os.path.join(t, 'inc'), '-I', STD]
    if src:
        d = os.path.dirname(src)
        fl += ['-I', d]
    fl += ['-DRNG_THREAD_SAFE', '-DHAS_QUADMATH', '-D_Float128=__float128', '-D_GNU_SOURCE',
           '-idirafter', GCCINC]
    if gcc_branch:
        fl += ['-U__clang__']
    return fl + list(extra)

_cache = {}
def bc(src, extra=(), gcc_branch=True):
    """compile one C file (path) to bitcode; returns path"""
    key = (src, tuple(extra), gcc_branch)
    if key in _cache:
        return _cache[key]
    out = os.path.join(scratch(), hashlib.sha1(repr(key).encode()).hexdigest()[:12] + '.bc')
    run([which(CLANG)] + cflags(src, gcc_branch, extra) + [src, '-o', out])
    _cache[key] = out
    return out

_n = [0]
def bc_text(text, incdirs=(), extra=(), gcc_branch=True, suffix='.c'):
    _n[0] += 1
    p = os.path.join(scratch(), 'harness%d%s' % (_n[0], suffix))
    with open(p, 'w') as f:
        f.write(text)
    ex = list(extra)
    for d in incdirs:
        ex += ['-I', d]
    return bc(p, tuple(ex), gcc_branch)

PIPE = ('internalize,globaldce,globalopt,ipsccp,'
        'cgscc(inline,function(sroa<modify-cfg>,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>)),'
        'globalopt,globaldce,'
        'function(sroa<modify-cfg>,early-cse<memssa>,sccp,correlated-propagation,simplifycfg,instcombine<no-verify-fixpoint>,'
        'loop-simplify,lcssa,loop(loop-rotate,loop-deletion,loop-unroll-full),sroa<modify-cfg>,'
        'instcombine<no-verify-fixpoint>,simplifycfg,gvn,sccp,instcombine<no-verify-fixpoint>,dse,bdce,adce,simplifycfg),'
        'cgscc(inline,function(sroa<modify-cfg>,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>)),'
        'globalopt,globaldce,'
        'function(sroa<modify-cfg>,gvn,sccp,correlated-propagation,instcombine<no-verify-fixpoint>,dse,adce,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg)')

EXTMEM = r'get_rand_\w+|_init_rng_state_struct|logger_(?:info|warning|debug|error)'

def residual(bcs, keep, pipe=PIPE, optflags=(), opaque=(), pure=False, extmem=EXTMEM, attrs=None, edit=None):
    """link bitcode files, keep the named functions external, specialise, return ir.Module"""
    t = scratch()
    _n[0] += 1
    lk = os.path.join(t, 'l%d.bc' % _n[0])
    run([which(LINK), '-o', lk] + list(bcs))
    if opaque or extmem:
        txt = run([which('llvm-dis-18'), lk, '-o', '-'])
    if opaque:
        # drop the bodies of the named functions: calls to them stay visible
        have = set(re.findall(r'^define [^@]*@"?([\w.$]+)', txt, re.M))
        cut = [o for o in opaque if o in have]
        if cut:
            run([which('llvm-extract-18'), '--delete'] + ['--func=' + o for o in cut] + [lk, '-o', lk])
            txt = run([which('llvm-dis-18'), lk, '-o', '-'])
        if pure and cut:
            # the removed bodies were shown not to write memory: tell the partial evaluator
            for o in cut:
                txt = re.sub(r'^(declare [^@]*@"?%s"?\([^\n]*\))[^\n]*$' % re.escape(o),
                             lambda m: m.group(1).replace('ptr noundef', 'ptr nocapture noundef') +
                             ' memory(read) nounwind willreturn', txt, flags=re.M)
    if extmem:
        # the generator and the logger live in other translation units: they cannot touch the backend's own statics
        txt = re.sub(r'^(declare [^@\n]*@(?:%s)\([^\n]*\))[^\n)]*$' % extmem,
                     r'\1 memory(inaccessiblemem: readwrite)', txt, flags=re.M)
        txt = re.sub(r'^(declare [^@\n]*@interflop_fma_binary\d+\([^\n]*\))[^\n)]*$', r'\1 memory(none) nounwind willreturn', txt, flags=re.M)
    if edit:
        txt = edit(txt)
    for rx, at in (attrs or {}).items():
        txt = re.sub(r'^(declare [^@\n]*@(?:%s)\([^\n]*\))[^\n)]*$' % rx, lambda m: m.group(1) + ' ' + at, txt, flags=re.M)
    if opaque or extmem:
        with open(lk, 'w') as f:
            f.write(txt)
    txt = optimise(lk, keep, pipe, optflags)
    os.unlink(lk)
    return ir.Module(txt)

def whatif(m, keep, repl, pipe=PIPE):
    """the module m specialised again, with the result of each instruction for which repl(function, inst) gives a text
    replaced by the constant of that text ('' deletes the instruction)"""
    out = []
    fn = None
    for ln in m.text.split('\n'):
        if ln.startswith('define '):
            mm = re.search(r'@"?([\w.$]+)"?\(', ln)
            fn = m.funcs.get(mm.group(1))
            lines = {i.text.strip(): i for i in fn.insts()}
        elif ln.startswith('}'):
            fn = None
        elif fn is not None and ln.startswith('  ') and ln.strip() in lines:
            i = lines[ln.strip()]
            r = repl(fn, i)
            if r == '':
                continue
            if r is not None:
                if i.type == 'ptr':
                    ln = '  %s = getelementptr i8, ptr %s, i64 0' % (i.name, r)
                else:
                    ln = '  %s = add %s %s, 0' % (i.name, i.type, r)
        out.append(ln)
    t = scratch()
    _n[0] += 1
    lk = os.path.join(t, 'w%d.ll' % _n[0])
    with open(lk, 'w') as f:
        f.write('\n'.join(out))
    txt = optimise(lk, keep, pipe)
    os.unlink(lk)
    return ir.Module(txt)

def optimise(lk, keep, pipe=PIPE, optflags=()):
    api = lk + '.api'
    with open(api, 'w') as f:
        f.write('\n'.join(keep) + '\n')
    cmd = [which(OPT), '-passes=' + pipe, '-internalize-public-api-file=' + api,
           '-inline-threshold=1000000', '-inlinehint-threshold=1000000', '-inlinecold-threshold=1000000',
           '-inline-cold-callsite-threshold=1000000', '-inline-deferral=false',
           '-unroll-threshold=100000', '-unroll-max-count=64', '-vectorize-slp=false', '-vectorize-loops=false',
           '-two-entry-phi-node-folding-threshold=0', '-speculate-one-expensive-inst=false',
           '-S', lk, '-o', '-'] + list(optflags)
    return run(cmd)
