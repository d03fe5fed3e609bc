"""C11: subnormal handling."""
from engine import backends as bk, opsem, noise
from engine.noise import *
from engine.build import residual, bc_text

TECH = 'static analysis: FP-class abstract interpretation of every operation specialised to each mode and flush setting'
NOTE = ('All operations, formats and modes of the MCA and bitmask backends and the VPREC rounding functions; subnormality of one operand '
        'or of the result at a time.')
RULE = ('Every operation is specialised to each mode and each of the settings (none, daz, ftz). With daz a subnormal operand must '
        'reach the combining instruction as zero on every executable path and a normal one must not; with ftz the delivered value must be '
        'zero when the value in the delivered format is subnormal and must be that value when it is normal; without them a subnormal '
        'operand or result must not become zero.')

def sites(of, slot):
    v = View(of, slot, NORM)
    if v.err:
        return v, []
    return v, comb_sites(v)

def leaves(v, t, rt, deep):
    if t[0] == 'phi':
        return [y for k in t[3:] for y in leaves(v, k, rt, deep)]
    if t[0] == 'select':
        return leaves(v, t[4], rt, deep) + leaves(v, t[5], rt, deep)
    if deep and t[0] == 'fptrunc':
        inner = uniq(alternatives(t[3]))
        if any(is_zero_term(v.T, v.ai, a) or (a[0] == 'fpext' and a[3][1] == rt) for a in inner):
            return [y for a in inner for y in ([a[3]] if a[0] == 'fpext' and a[3][1] == rt else [a])]
    return [t]

def is_named(t, T, names):
    return bool(names.intersection(T.name_of(t)))

def stop_alts(t, T, names):
    if is_named(t, T, names):
        return [t]
    if t[0] == 'phi':
        return [a for k in t[3:] for a in stop_alts(k, T, names)]
    if t[0] == 'select':
        return stop_alts(t[4], T, names) + stop_alts(t[5], T, names)
    if t[0] in ('fpext', 'fptrunc'):
        out = []
        for a in stop_alts(t[3], T, names):
            n = t[:3] + (a,)
            c = collapse(n)
            out.append(c if is_named(c, T, names) else n)
        return out
    return [] if t[0] == 'rec' else [t]

def check_op(rep, b, slot, cfg, of):
    mode, setting = cfg.rsplit('__', 1)
    daz, ftz = setting == 'daz', setting == 'ftz'
    params, rt = bk.SLOTS[slot]
    key = '%s/%s/%s/%s' % (b.key, slot, mode, setting)
    v0, ss = sites(of, slot)
    loc = v0.loc()
    if not ss:
        if v0.err:
            rep.bad(key, loc, v0.err)
        else:
            rep.unknown(key, 'operands of the combining instruction not identified')
        return
    # operands
    for ty, n in params:
        for cn, cls in (('subnormal', SUB), ('normal', NORM)):
            asm = {'%' + m: NORM for _, m in params}
            asm['%' + n] = cls
            ai = AbsInt(of.f, asm)
            T = Terms(of.f, ai)
            rep.count('operand cases')
            bad = None
            for d, ops in ss:
                if d.block not in ai.exec_blocks:
                    continue
                o, t = ops[n]
                alts = uniq(alternatives(T.term(o, t)))
                z = [is_zero_term(T, ai, a) for a in alts]
                xv = ai.val.get(d.name)
                if slot.startswith('cast') and xv is not None and xv.cls and not xv.cls & ~ZERO:
                    continue        # the conversion of the operand is zero whether replaced or not
                if daz and cn == 'subnormal' and not all(z):
                    bad = 'a subnormal operand %s is not replaced by zero: %s' % (n, show([a for a, q in zip(alts, z) if not q][0], 4))
                if (not daz or cn == 'normal') and any(z):
                    bad = 'a %s operand %s is replaced by zero' % (cn, n)
            k = '%s/%s operand %s' % (key, cn, n)
            if bad:
                rep.bad(k, loc, bad)
            else:
                rep.ok(k)
    # result: values in the delivered format from which the delivered value is chosen
    # (the value tested may be the delivered value itself or the one before a final conversion)
    cands = []
    for deep in (False, True):
        ys = [y for y in leaves(v0, v0.v, rt, deep) if not is_zero_term(v0.T, v0.ai, y)]
        names = {n for y in ys for n in v0.T.name_of(y)}
        if names and names not in cands:
            cands.append(names)
    if not cands:
        rep.unknown(key + '/result', 'delivered value not identified')
        return
    for cn, cls in (('subnormal', SUB), ('normal', NORM)):
        rep.count('result cases')
        k = '%s/%s result' % (key, cn)
        bads = []
        for names in cands:
            asm = {'%' + m: NORM for _, m in params}
            for n in names:
                asm[n] = cls
            ai, T, (t, stores, why) = of.result(asm)
            alts = stop_alts(t, T, names) if t else []
            z = [not is_named(a, T, names) and is_zero_term(T, ai, collapse(a)) for a in alts]
            if not alts:
                bads.append(why)
            elif ftz and cn == 'subnormal' and not all(z):
                bads.append('a subnormal result is not flushed to zero')
            elif (not ftz or cn == 'normal') and any(z):
                bads.append('a %s result is flushed to zero' % cn)
        if len(bads) == len(cands):
            rep.bad(k, loc, bads[0])
        else:
            rep.ok(k)

def check_vround(rep, tier):
    """VPREC: rounding functions, subnormal = below the normal range of the configured format"""
    b = bk.B['vprec']
    text, hs = bk.prelude(b), []
    for fn, ty in VROUND.items():
        r, p = (8, 23) if ty == 'float' else (11, 52)
        for pp in ((p,) if tier == 'quick' else (p, p // 2, 3)):
            for inp in (0, 1):
                for daz in (0, 1):
                    for ftz in (0, 1):
                        h = 'h_%s_%d_%d%d%d' % (ty, pp, inp, daz, ftz)
                        text += ('%s %s(%s a, const vprec_context_t *c0) { vprec_context_t x = *c0; x.daz = %d; x.ftz = %d; x.relErr = 1; x.absErr = 0;'
                                 'return %s(a, %d, &x, %d, %d); }\n' % (ty, h, ty, daz, ftz, fn, inp, r, pp))
                        hs.append((h, fn, ty, inp, daz, ftz, pp))
    m = residual(b.bcs() + [bc_text(text, [b.dir])], [h[0] for h in hs])
    for h, fn, ty, inp, daz, ftz, pp in hs:
        f = m.funcs[h]
        a = f.args[0][1]
        want = (inp and daz) or (not inp and ftz)
        k = 'vprec/%s/%s/daz=%d/ftz=%d/precision %d' % (fn, 'operand' if inp else 'result', daz, ftz, pp)
        bad = None
        for cn, cls in (('subnormal', SUB), ('normal', NORM)):
            ai = AbsInt(f, {a: cls})
            T = Terms(f, ai)
            rep.count('rounding function cases')
            for l in f.order:
                i = f.blocks[l].insts[-1]
                if l in ai.exec_blocks and i.op == 'ret':
                    loc = m.loc(i) or fn
                    for t in uniq(alternatives(T.term(i.ops[0], ty))):
                        z = is_zero_term(T, ai, t)
                        if want and cn == 'subnormal' and not z:
                            bad = 'a subnormal %s is not replaced by zero' % ('operand' if inp else 'result')
                        if not want and z and t[0] != 'const' and cn == 'subnormal':
                            bad = 'a subnormal %s is replaced by zero although not requested' % ('operand' if inp else 'result')
                        if cn == 'normal' and z:
                            bad = 'a normal value is replaced by zero'
        if bad:
            rep.bad(k, loc, bad)
        else:
            rep.ok(k)

def run(rep, tier):
    rep.rule = RULE
    for key in ('mcaquad', 'mcaint', 'bitmask'):
        b = bk.B[key]
        cf = []
        for setting in ('none', 'daz', 'ftz'):
            for name, sets, pre in noise.cfgs(b):
                if name.endswith(('_zero', '_one')) and tier == 'quick':
                    continue
                s = dict(sets, daz=str(int(setting == 'daz')), ftz=str(int(setting == 'ftz')))
                cf.append(('%s__%s' % (name, setting), s, pre))
        fns, w = opsem.build(b, cf)
        for (slot, cfg), of in fns.items():
            check_op(rep, b, slot, cfg, of)
    check_vround(rep, tier)
    rep.floor('operand cases', 300)
    rep.floor('result cases', 150)
