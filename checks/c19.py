"""C19: function-level precision is scoped to the function."""
import re, itertools
from engine import wrapper as w, backends as bk, ir
from engine.build import bc, bc_text, residual, BuildError, PIPE
from engine.slice import root
from engine.errors import paths_avoid
import os

TECH = 'static analysis: partial evaluation of the entry/exit hooks for abstract call stacks; value provenance of the settings left in the context; typestate of the hooks\' argument lists'
NOTE = ('VPREC hooks for every call stack of up to four frames (instrumented, unprofiled, library, intrinsic) in each instrumentation mode, all '
        'profile values; the wrapper hooks for every pattern of accepting backends up to three and for sixteen. Deeper stacks only '
        'through the uniform treatment of frames.')
RULE = ('After the entry hook each of the four settings must be read from the entered function\'s own profile entry (its defaults when it has '
        'none), after the exit hook from the entry of the nearest instrumented caller, and otherwise be left as it was. The wrapper pushes the '
        'function before the entry hooks, pops it after the exit hooks, and calls each accepting backend once with a fresh argument list.')

FLD = ['binary64_precision', 'binary64_range', 'binary32_precision', 'binary32_range']
ENT = ['OpsPrec64', 'OpsRange64', 'OpsPrec32', 'OpsRange32']
DEF = ['VPREC_PRECISION_BINARY64_DEFAULT', 'VPREC_RANGE_BINARY64_DEFAULT', 'VPREC_PRECISION_BINARY32_DEFAULT', 'VPREC_RANGE_BINARY32_DEFAULT']
MODES = ['arg', 'op', 'all', 'none']
NF = 4

# loops over the call stack: enough iterations are peeled off for the stacks given
PEEL = PIPE + ',function(loop-simplify,lcssa,loop-unroll<peeling>,sroa<modify-cfg>,gvn,sccp,instcombine<no-verify-fixpoint>,simplifycfg,gvn,sccp,instcombine<no-verify-fixpoint>,dse,adce,simplifycfg)' * 2
PEELF = ('-unroll-force-peel-count=5', '-unroll-peel-count=5', '-unroll-peel-max-count=6')

def nodisable(txt):
    return txt.replace('llvm.loop.unroll.disable', 'llvm.loop.vnodisable')

def vbcs(extra=()):
    b = bk.B['vprec']
    return b.bcs(extra) + [bc(os.path.join(b.dir, 'interflop_vprec_function_instrumentation.c'), tuple(extra))]

PRE = '''#include <stdarg.h>
struct HM { char *k[%d]; _vfi_t *v[%d]; };
void *vfc_hashmap_get(vfc_hashmap_t m, ISize_t key) { struct HM *h = (struct HM *)m; %s return 0; }
char vfc_hashmap_have(vfc_hashmap_t m, ISize_t key) { return vfc_hashmap_get(m, key) != 0; }
ISize_t vfc_hashmap_str_function(const char *s) { return (ISize_t)s; }
void vfc_hashmap_insert(vfc_hashmap_t m, ISize_t key, void *item) { }
extern char %s;
''' % (NF, NF, ' '.join('if ((ISize_t)h->k[%d] == key) return h->v[%d];' % (i, i) for i in range(NF)), ', '.join('ID%d' % i for i in range(NF)))
ARGS = 'const vprec_context_t *ctx0, %s, int *out' % ', '.join('_vfi_t *f%d' % i for i in range(NF))

def frames(kinds, mode, xsets='', nargs=0, ap='(void *)0', hook='enter', post=''):
    n = len(kinds)
    t = '  vprec_context_t x = *ctx0; t_context_vfi v = *ctx0->vfi; struct HM h = {{0}}; x.vfi = &v; v.map = (vfc_hashmap_t)&h; v.vprec_inst_mode = vprecinst_%s; %s\n' % (mode, xsets)
    for i, k in enumerate(kinds):
        t += '  interflop_function_info_t i%d = {&ID%d, %d, %d, 1, 1};\n' % (i, i, k == 'L', k == 'I')
        if k != 'N':
            t += '  h.k[%d] = &ID%d; h.v[%d] = f%d;\n' % (i, i, i, i)
    t += '  interflop_function_info_t *arr[%d] = {0, %s, 0};\n' % (n + 2, ', '.join('&i%d' % i for i in range(n)))
    t += '  interflop_function_stack_t st = {arr, 1};\n  interflop_vprec_%s_function(&st, &x, %d, %s);\n' % (hook, nargs, ap)
    return t + post

POST = ''.join('  out[%d] = x.%s;\n' % (i, f) for i, f in enumerate(FLD))
NORET = {'logger_error': 'noreturn nounwind memory(inaccessiblemem: readwrite)'}

def entry_layout(b, names, st='_vfi_t'):
    t = bk.prelude(b) + '#include "interflop_vprec_function_instrumentation.h"\n' + ''.join(
        'int o_%s(void) { return __builtin_offsetof(%s, %s); }\n' % (n, st, n) for n in names)
    m = residual([bc_text(t, [b.dir])], ['o_' + n for n in names])
    return {n: int([i for i in m.funcs['o_' + n].insts() if i.op == 'ret'][0].ops[0]) for n in names}

def outs(m, f, n=4):
    """value last stored to out[i]: text operand, or None"""
    r = {}
    for i in f.insts():
        if i.op == 'store':
            a, o = m.addr(f, i.ops[1])
            if a == '%out' and o is not None:
                r.setdefault(o // 4, []).append(i)
    return r

def provenance(m, f, v):
    """('field', root, offset) | ('const', n) | ('?', text)"""
    d = f.defs.get(v)
    if d is None:
        return ('const', v) if re.fullmatch(r'-?\d+', v) else ('?', v)
    if d.op == 'freeze':
        return provenance(m, f, d.ops[0])
    if d.op == 'load':
        a, o = m.addr(f, d.ops[0])
        if o is not None:
            return ('field', a, o)
        return ('?', d.text)
    if d.op in ('phi', 'select'):
        vs = d.ops[1:] if d.op == 'select' else [x for x, _ in d.extra['inc']]
        return ('alt', [provenance(m, f, x) for x in vs])
    return ('?', d.text)

def hooks(rep, tier):
    b = bk.B['vprec']
    lay = bk.layout(b, FLD)
    ent = entry_layout(b, ENT)
    wr, _ = bk.wiring(b)
    for s in ('enter_function', 'exit_function'):
        if wr.get(s) is None:
            rep.bad('vprec/' + s, b.srcs[0], 'the backend offers no %s hook' % s)
            return
    t = bk.prelude(b) + '#include "interflop_vprec_function_instrumentation.h"\n' + PRE
    t += 'void defs(int *out) { %s }\n' % ''.join('out[%d] = %s;' % (i, d) for i, d in enumerate(DEF))
    cases, keep = [], ['defs']
    depth = 2 if tier == 'quick' else 3
    for mode in MODES:
        for k in 'UNLI':
            for up in ([], ['U']):
                cases.append(('enter', mode, [k] + up))
        for n in range(1, depth + 1):
            for anc in itertools.product('UNLI', repeat=n):
                for k in ('UL' if n < 2 or mode != 'op' else 'ULI'):
                    if n == 3 and (k != 'U' or mode in ('arg', 'none')):
                        continue
                    cases.append(('exit', mode, [k] + list(anc)))
    for extra in (['U', 'L', 'N', 'U'], ['U', 'I', 'L', 'U'], ['L', 'L', 'L', 'U'], ['U', 'N', 'N', 'U']):
        cases.append(('exit', 'all', extra))
        cases.append(('exit', 'op', extra))
    for n, (hk, mode, kinds) in enumerate(cases):
        t += '__attribute__((nonnull)) void h%d(%s) {\n%s}\n' % (n, ARGS, frames(kinds, mode, hook=hk, post=POST))
        keep.append('h%d' % n)
    for s in ('enter', 'exit'):
        t = t.replace('interflop_vprec_%s_function(' % s, wr[s + '_function'] + '(')
    t = t.replace(PRE, PRE + ''.join('extern void %s(interflop_function_stack_t *, void *, int, va_list);\n' % wr[s + '_function'] for s in ('enter', 'exit')))
    m = residual(vbcs() + [bc_text(t, [b.dir])], keep, attrs=NORET, pipe=PEEL, optflags=PEELF, edit=nodisable)
    dv = {}
    for o, sts in outs(m, m.funcs['defs']).items():
        dv[o] = sts[-1].ops[0]
    # stores may be merged into vectors; ask one by one if so
    if sorted(dv) != [0, 1, 2, 3]:
        dv = {}
    for n, (hk, mode, kinds) in enumerate(cases):
        f = m.funcs['h%d' % n]
        k = 'vprec/%s/%s/%s' % (hk, mode, '<'.join({'U': 'profiled', 'N': 'unprofiled', 'L': 'library', 'I': 'intrinsic'}[x] for x in kinds))
        rep.count('call stacks')
        active = mode in ('op', 'all')
        if hk == 'enter':
            want = 'f0' if kinds[0] == 'U' and active else 'default' if kinds[0] == 'N' and active else 'same'
        else:
            want = 'same'
            if active:
                u = [i for i in range(1, len(kinds)) if kinds[i] == 'U']
                if not u:
                    continue
                want = 'f%d' % u[0]
        if not any(i.op == 'ret' for i in f.insts()):
            rep.bad(k, 'interflop_vprec_%s_function' % hk, 'the hook never returns for this call stack')
            continue
        o = outs(m, f)
        verdict = None
        for j in range(4):
            st = o.get(j, [])
            if len(st) != 1:
                verdict = ('unk', '%d stores of %s' % (len(st), FLD[j]))
                break
            p = provenance(m, f, st[0].ops[0])
            exp = {'same': ('field', '%ctx0', lay.get(FLD[j])), 'default': ('const', dv.get(j))}.get(want) or ('field', '%' + want, ent[ENT[j]])
            if p == exp:
                continue
            if p[0] == 'alt' and exp in p[1]:
                # some paths leave something else
                rest = [q for q in p[1] if q != exp]
                if all(q[0] != '?' and q[0] != 'alt' for q in rest):
                    verdict = ('bad', '%s can be %s after the hook, expected %s' % (FLD[j], says(rest[0], lay, ent), says(exp, lay, ent)))
                else:
                    verdict = ('unk', '%s after the hook not recognised' % FLD[j])
                break
            if p[0] == 'alt':
                verdict = ('unk', '%s after the hook not recognised' % FLD[j])
                break
            if p[0] == '?' or exp[1] is None:
                verdict = ('unk', '%s after the hook is %s' % (FLD[j], p[1]))
                break
            verdict = ('bad', '%s is %s after the hook, expected %s' % (FLD[j], says(p, lay, ent), says(exp, lay, ent)))
            break
        where = next((m.loc(i) for i in f.insts() if m.loc(i) and 'harness' not in m.loc(i)), 'interflop_vprec_%s_function' % hk)
        if verdict is None:
            rep.ok(k)
        elif verdict[0] == 'bad':
            rep.bad(k, where, verdict[1])
        else:
            rep.unknown(k, verdict[1])

def says(p, lay, ent):
    if p[0] == 'const':
        return p[1]
    if p[1] == '%ctx0':
        return 'what it was before' if p[2] in lay.values() and True else 'another context field'
    e = [n for n, o in ent.items() if o == p[2]]
    return '%s of frame %s' % (e[0] if e else 'byte %s' % p[2], p[1][2:])

# ------------------------------------------------------------------ wrapper
HPROTO = lambda nm: 'extern void %s(interflop_function_stack_t *, void *, int, va_list);\n' % nm

def wrapper_hooks(rep, tier):
    from checks.c20 import patterns
    pats = patterns(tier)
    for hk in ('enter', 'exit'):
        for mask in pats:
            for uf, ud in ((1, 0), (0, 1), (1, 1), (0, 0)) if len(mask) <= 2 else ((1, 1),):
                k = 'wrapper/%s/%s%s' % (hk, ''.join(map(str, mask)), '' if uf and ud else ' (%s)' % ('float only' if uf else 'double only' if ud else 'no floating point'))
                rep.count('wrapper hook tables')
                har = w.table({'interflop_%s_function' % hk: HPROTO}, mask)
                har += 'void run_hook(char *id, int n, long a, long b) { vfc_%s_function(id, 3, 5, %d, %d, n, a, b); }\n' % (hk, 7 * uf, 9 * ud)
                try:
                    m = w.module(har, ['run_hook'], consts=w.TABLES, defs=('DDEBUG=0',) if False else (), attrs=NORET)
                except BuildError as e:
                    rep.unknown(k, 'does not compile: ' + str(e)[-200:])
                    continue
                f = m.funcs.get('vfc_%s_function' % hk)
                if f is None or f.is_decl:
                    f = m.funcs['run_hook']
                if f is None or f.is_decl:
                    rep.unknown(k, 'hook not found')
                    continue
                v, msg, where = judge(m, f, mask if uf or ud else [0] * len(mask), hk, uf, ud)
                if v == 'ok':
                    rep.ok(k)
                elif v == 'bad':
                    rep.bad(k, where, msg)
                else:
                    rep.unknown(k, msg)

def judge(m, f, mask, hk, uf=1, ud=1):
    for l in f.order:
        for n, i in enumerate(f.blocks[l].insts):
            i.idx = n
    ins = list(f.insts())
    here = next((m.loc(i) for i in ins if m.loc(i)), None) or f.name
    want = ['interflop_%s_function_%d' % (hk, i) for i in range(len(mask)) if mask[i]]
    mocks = [i for i in ins if i.op == 'call' and re.fullmatch(r'interflop_\w+_function_\d+', ir.callee(i) or '')]
    got = [ir.callee(i) for i in mocks]
    bad = [i for i in ins if i.op == 'call' and ir.callee(i) is None and not i.extra['callee'].startswith('asm') and any(o.startswith('@K') for o in i.ops)]
    if bad:
        return 'unk', 'an indirect call to a backend is left', here
    if not any(i.op == 'ret' for i in ins):
        return 'bad', 'never returns for this table of backends', here
    miss = [x for x in want if x not in got]
    if miss:
        return 'bad', 'backend %s never receives the %s hook' % (', '.join(x.rsplit('_', 1)[1] for x in miss), hk), here
    extra = [x for x in got if x not in want]
    if extra:
        return 'unk', 'hooks called for a function without floating-point operations', here
    G = next((i.ops[0] for i in mocks), None)
    blocks = {i.block for i in mocks}
    if len(blocks) > 1:
        return 'unk', 'control flow between the hook calls', here
    if got != want:
        return 'bad', 'backends are called as %s, expected %s' % ([g.rsplit('_', 1)[1] for g in got], [x.rsplit('_', 1)[1] for x in want]), here
    if mocks and paths_avoid(f, lambda x: x is mocks[0]):
        return 'unk', 'some path does not reach the hooks', here
    n = [a for t, a in f.args if t == 'i32']
    state = {}
    for i in (f.blocks[mocks[0].block].insts if mocks else ()):
        if i.op != 'call':
            continue
        c = ir.callee(i) or ''
        loc = m.loc(i) or f.name
        if c.startswith('llvm.va_start'):
            state[root(f, i.ops[0])] = 'fresh'
        elif c.startswith('llvm.va_copy'):
            state[root(f, i.ops[0])] = state.get(root(f, i.ops[1]))
        elif c.startswith('llvm.va_end'):
            state[root(f, i.ops[0])] = 'ended'
        elif i in mocks:
            q = int(c.rsplit('_', 1)[1])
            if i.ops[1] != '@K%d' % q:
                return 'bad', 'backend %d receives context %s' % (q, i.ops[1]), loc
            if i.ops[0] != G:
                return 'bad', 'backend %d receives another call stack' % q, loc
            if i.ops[2] not in n:
                return 'bad', 'backend %d receives %s as number of arguments' % (q, i.ops[2]), loc
            r = root(f, i.ops[3])
            s = state.get(r)
            if s != 'fresh' and not (s is None and any(x.op == 'call' and (ir.callee(x) or '').startswith('llvm.va_') and x.block != mocks[0].block for x in ins)):
                return 'bad', 'backend %d receives an argument list that %s' % (q, {
                    'used': 'an earlier backend has already read from', 'ended': 'was already ended', None: 'was never started'}[s]), loc
            state[r] = 'used'
    # the call stack
    if not mocks:
        if not any(i.op == 'store' and m.addr(f, i.ops[1])[0].startswith('@') for i in ins) and not any(
                i.op == 'call' and re.search('stack', ir.callee(i) or '') for i in ins):
            return 'bad', 'the call stack is not kept up to date for functions without floating-point operations', here
        return 'ok', '', here
    if not G.startswith('@'):
        return 'unk', 'call stack not a global', here
    base = lambda p: m.addr(f, p)[0]
    st = [i for i in ins if i.op == 'store' and base(i.ops[1]) == G]
    calls = [i for i in ins if i.op == 'call' and i not in mocks and not (ir.callee(i) or 'x').startswith('llvm.') and re.search(r'stack', ir.callee(i) or '')]
    if calls:
        return 'unk', 'call stack operation not inlined', here
    before = [i for i in st if i.block != mocks[0].block and not f.dominates(mocks[0].block, i.block) or i.block == mocks[0].block and i.idx < mocks[0].idx]
    after = [i for i in st if i.block == mocks[-1].block and i.idx > mocks[-1].idx or i.block != mocks[0].block and f.dominates(mocks[0].block, i.block)]
    if hk == 'enter':
        if after:
            return 'bad', 'the call stack changes after the entry hooks ran', m.loc(after[0]) or here
        if not before:
            return 'bad', 'the function is not pushed on the call stack before the entry hooks', here
        # what is pushed
        for i in ins:
            if i.op == 'store' and i.optypes[0] == 'ptr':
                d = f.defs.get(root(f, i.ops[1]))
                if d is not None and d.op == 'load' and base(d.ops[0]) == G:
                    return pushed(m, f, i, here, uf, ud)
        return 'unk', 'the push was not recognised', here
    if before:
        return 'bad', 'the call stack changes before the exit hooks ran', m.loc(before[0]) or here
    if not after:
        return 'bad', 'the function is not removed from the call stack', here
    return 'ok', '', here

def pushed(m, f, st, here, uf, ud):
    """the entry pushed is the registered one or a new one describing this very call"""
    v = st.ops[0]
    d = f.defs.get(v)
    vals = [v]
    if d is not None and d.op in ('phi', 'select'):
        vals = [x for x, _ in d.extra['inc']] if d.op == 'phi' else d.ops[1:]
    new = None
    idarg = next(a for t, a in f.args if t == 'ptr')
    for x in vals:
        c = f.defs.get(x)
        if c is None or c.op != 'call':
            return 'unk', 'the entry pushed is %s' % x, here
        if ir.callee(c) == 'vfc_hashmap_get':
            h = f.defs.get(c.ops[1])
            if h is None or ir.callee(h) != 'vfc_hashmap_str_function':
                return 'unk', 'key of the lookup not recognised', here
            if h.ops[0] != idarg:
                return 'bad', 'the function is looked up under another name', m.loc(c) or here
        else:
            new = x
    if new is None:
        return 'unk', 'no new entry is made', here
    seen = {}
    for i in f.insts():
        if i.op == 'store':
            a, o = m.addr(f, i.ops[1])
            if a == new:
                v, ty = i.ops[0], i.optypes[0]
                if o is not None and re.fullmatch(r'-?\d+', v) and re.fullmatch(r'i\d+', ty):
                    n = int(ty[1:]) // 8
                    for j in range(n):
                        seen[o + j] = (int(v) >> (8 * j)) & 255
                else:
                    seen[o] = v
    if seen.get(0) not in (None, idarg):
        return 'bad', 'a new entry is registered under another name', here
    for n, (o, v) in {'isLibraryFunction': (8, 3), 'isIntrinsicFunction': (10, 5), 'useFloat': (12, 7 * uf), 'useDouble': (14, 9 * ud)}.items():
        if isinstance(seen.get(o), int) and seen[o] != v:
            return 'bad', '%s of a new entry is not the one given' % n, here
    return 'ok', '', here

def run(rep, tier):
    rep.rule = RULE
    try:
        hooks(rep, tier)
    except BuildError as e:
        rep.unknown('vprec', 'does not compile: ' + str(e)[-300:])
    wrapper_hooks(rep, tier)
    rep.floor('call stacks', 100)
    rep.floor('wrapper hook tables', 20)
