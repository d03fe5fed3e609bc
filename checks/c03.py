"""C03: special values and exactly representable results are never perturbed."""
from engine import backends as bk, opsem, noise
from engine.noise import *
from checks.c02 import touched, walk_cut

TECH = 'static analysis: FP-class and known-bits abstract interpretation of the specialised operations'
NOTE = 'All operations, formats, modes; classes NaN, infinity, zero of each operand and of the result; representability for constant virtual precisions (a sample in the quick tier, every precision in the thorough one).'
RULE = ('Each operation entry point of the MCA, bitmask and VPREC backends is specialised per mode and abstractly interpreted once '
        'per class of one operand (NaN, infinity, zero) and per class of the result: on every executable path the operand must '
        'reach the combination unchanged, and the result must be delivered unchanged. In the outbound-only mode, for constant '
        'virtual precisions t, a result whose bits below t are known zero must be delivered unchanged and one with the bit just '
        'below t set must be perturbed.')
CLASSES = (('NaN', NAN), ('infinite', INF), ('zero', ZERO))

def special(rep, b, slot, cfg, of):
    mode = cfg.split('_')[0]
    params, rt = bk.SLOTS[slot]
    if mode in b.inbound:
        for cn, cls in CLASSES:
            for ty, n in params:
                a = '%' + n
                k = '%s/%s/%s/%s operand %s' % (b.key, slot, cfg, cn, n)
                asm = {'%' + m: NORM for _, m in params}
                asm[a] = cls
                v = View(of, slot, asm)
                rep.count('operand class cases')
                if v.err:
                    rep.bad(k, v.loc(), v.err)
                    continue
                bad = None
                for x in v.xs:
                    ok, kids, why = check_combine(x, slot)
                    if not ok:
                        bad = why
                        break
                    kid = dict(zip([m for _, m in params], kids))[n]
                    for t in uniq(alternatives(kid)):
                        if not is_plain(t, a) and not const_zero(t, cls):
                            bad = 'a %s operand %s reaches the operation as %s' % (cn, n, show(t, 5))
                if bad:
                    rep.bad(k, v.loc(), bad)
                else:
                    rep.ok(k)
    if mode in b.outbound:
        for cn, cls in CLASSES:
            k = '%s/%s/%s/%s result' % (b.key, slot, cfg, cn)
            v = View(of, slot, NAN if slot.startswith('cast') and cls == NAN else NORM, cls)
            rep.count('result class cases')
            if v.err:
                rep.bad(k, v.loc(), v.err)
                continue
            bad = None
            for t in uniq(alternatives(v.v)):
                if not any(same_value(t, x.node, rt) for x in v.xs) and not const_zero(t, cls):
                    bad = 'a %s result is delivered as %s' % (cn, show(t, 5))
            if bad:
                rep.bad(k, v.loc(), bad)
            else:
                rep.ok(k)

def const_zero(t, cls):
    return False

def vround_special(rep, tier):
    """the VPREC rounding functions return NaN, infinities and zeros unchanged, for constant range and precision"""
    b = bk.B['vprec']
    from engine.build import residual, bc_text
    text, hs = bk.prelude(b), []
    for fn, ty in VROUND.items():
        rmax, pmax = (8, 23) if ty == 'float' else (11, 52)
        rs = (2, rmax - 1, rmax) if tier == 'quick' else range(2, rmax + 1)
        ps = (1, pmax // 2, pmax) if tier == 'quick' else range(1, pmax + 1, 2)
        for r in rs:
            for p in ps:
                h = 'h_%s_%d_%d' % (ty, r, p)
                text += '%s %s(%s a, char in, const vprec_context_t *c0) { vprec_context_t x = *c0; x.daz = 0; x.ftz = 0; return %s(a, in, &x, %d, %d); }\n' % (ty, h, ty, fn, r, p)
                hs.append((h, fn, ty, r, p))
    m = residual(b.bcs() + [bc_text(text, [b.dir])], [h[0] for h in hs])
    for h, fn, ty, r, p in hs:
        f = m.funcs[h]
        a = f.args[0][1]
        for cn, cls in CLASSES:
            ai = AbsInt(f, {a: cls})
            T = Terms(f, ai)
            k = 'vprec/%s/range %d/precision %d/%s' % (fn, r, p, cn)
            rep.count('operand class cases')
            bad = None
            for l in f.order:
                i = f.blocks[l].insts[-1]
                if l in ai.exec_blocks and i.op == 'ret':
                    for t in uniq(alternatives(T.term(i.ops[0], ty))):
                        if not (t[0] == 'arg' and t[2] == a):
                            bad = 'returns %s for a %s argument' % (show(t, 5), cn)
                            loc = m.loc(i) or fn
            if bad:
                rep.bad(k, loc, bad)
            else:
                rep.ok(k)

def representable(rep, b, tier):
    wide = {'mcaquad': {'float': 'double', 'double': 'fp128'}, 'mcaint': {'float': 'double', 'double': 'fp128'},
            'bitmask': {'float': 'float', 'double': 'double'}}[b.key]
    from engine.absint import fmt
    q = (1, 2, 11, 23) if tier == 'quick' else range(1, 24)
    cf = []
    for t in q:
        t64 = {1: 1, 2: 2, 11: 26, 23: 52}.get(t, t * 2 + 4)
        if tier != 'quick':
            t64 = min(52, t * 2 + 4)
        if b.key == 'bitmask':
            cf.append(('%s_rand_%d_%d' % (b.ob, t, t64), dict(base_sets(b), mode=b.modes[b.ob]), bitmask_pre('rand', b.modes[b.ob], t, t64)))
        else:
            cf.append(('%s_%d_%d' % (b.ob, t, t64), dict(base_sets(b), mode=b.modes[b.ob], binary32_precision=str(t), binary64_precision=str(t64)), ''))
    slots = [s for s in bk.SLOTS if not s.startswith('cast')]
    fns, w = opsem.build(b, cf, slots)
    for (slot, cfg), of in fns.items():
        rt = bk.SLOTS[slot][1]
        t32, t64 = map(int, cfg.split('_')[-2:])
        t = t32 if rt == 'float' else t64
        v0 = View(of, slot, NORM, NORM)
        if v0.err:
            rep.bad('%s/%s/%s' % (b.key, slot, cfg), v0.loc(), v0.err)
            continue
        xty = v0.xs[0].node[1]
        m = fmt(xty)[1]
        low = (1 << (m - (t - 1))) - 1
        for nm, asm, want in (('representable', (NORM, low, 0), False),
                              ('bit below precision set', (NORM, 0, 1 << (m - t)), True)):
            if want and m - t < 0:
                continue
            k = '%s/%s/%s/%s result at precision %d' % (b.key, slot, b.ob, nm, t)
            v = View(of, slot, NORM, asm)
            rep.count('representability cases')
            cut = [x.node for x in v.xs]
            alts = uniq(alternatives(v.v))
            pl = [a for a in alts if any(same_value(a, x.node, rt) for x in v.xs)]
            if not want:
                rep.check(len(pl) == len(alts), k, v.loc(), 'a result with %d significant bits is perturbed at virtual precision %d' % (t, t))
            else:
                rep.check(not pl, k, v.loc(), 'a result that needs more than %d bits is delivered unperturbed' % t)

def run(rep, tier):
    rep.rule = RULE
    for key in ('mcaquad', 'mcaint', 'bitmask'):
        b = bk.B[key]
        cf = noise.cfgs(b, modes=[m for m in b.modes if m != 'ieee'])
        if key == 'mcaquad':
            for m in b.modes:
                if m != 'ieee':
                    for nm, r, a in (('abs', '0', '1'), ('all', '1', '1')):
                        cf.append(('%s_%s' % (m, nm), dict(base_sets(b), mode=b.modes[m], relErr=r, absErr=a), ''))
        fns, w = opsem.build(b, cf)
        for (slot, cfg), of in fns.items():
            special(rep, b, slot, cfg, of)
        representable(rep, b, tier)
    vround_special(rep, tier)
    rep.floor('operand class cases', 100)
    rep.floor('result class cases', 100)
    rep.floor('representability cases', 50)
    rep.assumptions += ['the other operands are finite and non-zero', 'precision below the format\'s own for the representability cases']
