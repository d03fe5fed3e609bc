"""C01: IEEE transparency."""
import os
from engine import backends as bk, opsem, build, ir
from engine.opsem import *
from engine.build import bc, bc_text, residual, STD
from engine.terms import Terms, show

TECH = 'static analysis: partial evaluation of the compiled IR of every entry point, SSA term extraction and exact-value comparison'
NOTE = 'Sound for all operand values and every IEEE-exact configuration of every backend, up to the C compiler front end used; decides which value reaches the result pointer on every executable path of the specialised IR.'
RULE = ('For every backend, operation slot and format, the entry point found in the table returned by the exported '
        'initialiser is specialised to the exact configuration and the value that reaches the result pointer on every '
        'executable path is extracted as an SSA term; it must be the native operation on the unchanged operands in order '
        '(a wider intermediate is accepted only when double rounding is provably innocuous), and depend on nothing else.')

def exact_cfgs(b):
    if b.key == 'ieee':
        dbg = ['debug', 'debug_binary', 'no_backend_name', 'print_new_line', 'print_subnormal_normalized', 'count_op']
        cf = [('plain', {f: '0' for f in dbg}, ''), ('any', {}, '')]
        for f in dbg:
            cf.append(('on_' + f, {g: ('1' if g == f else '0') for g in dbg}, ''))
        return cf, list(bk.SLOTS)
    if b.key == 'cancellation':
        return [('any', {}, '')], [s for s in bk.SLOTS if s.split('_')[0] not in ('add', 'sub')]
    return [('ieee', {'mode': b.modes['ieee'], 'daz': '0', 'ftz': '0'}, '')], list(bk.SLOTS)

def check_fma_lib(rep):
    src = os.path.join(STD, 'fma', 'interflop_fma.c')
    m = residual([bc(src)], ['interflop_fma_binary32', 'interflop_fma_binary64', 'interflop_fma_binary128'])
    for nm, ty, pr in (('interflop_fma_binary32', 'float', 24), ('interflop_fma_binary64', 'double', 53), ('interflop_fma_binary128', 'fp128', 113)):
        f = m.funcs.get(nm)
        if f is None or f.is_decl:
            rep.unknown(nm, 'not defined')
            continue
        rets = [i for i in f.insts() if i.op == 'ret']
        T = Terms(f, AbsInt(f))
        for r in rets:
            t = T.term(r.ops[0], ty)
            ok = t[0] == 'call' and opsem.FMA.get(t[2][0]) == ty and \
                [k[2] for k in t[3:] if k[0] == 'arg'] == f.argnames()
            if not ok and ty == 'fp128' and t[0] != 'call':
                rep.unknown(nm, 'software fused multiply-add')
                continue
            rep.check(ok, 'stdlib/%s' % nm, m.loc(r) or src, 'returns %s, not the fused multiply-add of its arguments in order' % show(t, 4))
        rep.count('library functions')

def run(rep, tier):
    rep.rule = RULE
    for key, b in bk.B.items():
        cfgs, slots = exact_cfgs(b)
        fns, w = opsem.build(b, cfgs, slots)
        for s in bk.SLOTS:
            v = w[s]
            if v is None or isinstance(v, tuple):
                rep.bad('%s/%s/table' % (key, s), b.srcs[0], 'the entry-point table has no unique implementation for %s (%s)' % (s, v))
        for (slot, cfg), of in fns.items():
            k = '%s/%s/%s' % (key, slot, cfg)
            rep.count('specialised entry points')
            ai, T, (t, stores, why) = of.result()
            loc = of.mod.loc(stores[0]) if stores else None
            loc = loc or '%s: %s' % (b.srcs[0], w[slot])
            if t is None:
                rep.bad(k, loc, why)
                continue
            ok, why = opsem.exact_value(t, slot)
            rep.check(ok, k, loc, why)
    check_fma_lib(rep)
    rep.floor('specialised entry points', 120)
    rep.assumptions += ['clang 18 front end and mid-level optimiser preserve semantics (used as partial evaluator)',
                        'double rounding through a format with at least 2p+2 bits is innocuous for + - * /']
