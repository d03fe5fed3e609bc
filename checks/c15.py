"""C15: bits touched by the bitmask backend."""
from engine import backends as bk, opsem, noise
from engine.noise import *
from engine.bits import prov, ZERO_, ONE_
from engine.absint import fmt, SUB

TECH = 'static analysis: bit-provenance dataflow (XOR forms over input and random bits) through the specialised operations'
NOTE = ('All operations, formats, perturbing modes and operators of the bitmask backend for constant virtual precisions '
        '(a sample in the quick tier, all in the thorough one) on normal values; subnormal operands by number of leading zeros, in an addition and a subtraction.')
RULE = ('Every operation of the bitmask backend is specialised to a mode, an operator and a constant virtual precision t set through the '
        'configuration interface. The provenance of each bit of a perturbed operand or result is computed: bits at or above the t-th '
        'significant bit must be the bits of the value itself; below, the zero operator must give constant zeros, the one operator constant '
        'ones, and the rand operator the exclusive or of (or replacement by) a random bit, a different one at each position.')

def judge(rep, key, loc, t, isx, xt, rt, prec, oper):
    alts = uniq(alternatives(t))
    some = False
    for a in alts:
        a = collapse(a)
        if isx(a):
            continue
        base, steps = norm_conv(a)
        if base[1] != xt:
            rep.unknown(key, 'perturbed value is computed in %s' % base[1])
            return
        some = True
        e, m, _ = fmt(xt)
        w = 1 + e + m
        low = m - (prec - 1)
        p = prov(base)
        src = set()
        used = set()
        for i, b in enumerate(p):
            if b is None:
                rep.unknown(key, 'bit %d of %s' % (i, show(base, 5)))
                return
            if i >= low:
                at = [x for x in b]
                good = len(at) == 1 and at[0] != 1 and at[0][2] == i and isx(at[0][1])
                if not good:
                    rep.bad(key, loc, 'bit %d (above precision %d) is not preserved: %s' % (i, prec, bit(b)))
                    return
            elif oper == 'zero' and b != ZERO_:
                rep.bad(key, loc, 'bit %d below precision %d is not cleared: %s' % (i, prec, bit(b)))
                return
            elif oper == 'one' and b != ONE_:
                rep.bad(key, loc, 'bit %d below precision %d is not set: %s' % (i, prec, bit(b)))
                return
            elif oper == 'rand':
                dr = [x for x in b if x != 1 and x[1][0] == 'call' and x[1][2][0] in DRAWS]
                if len(dr) != 1:
                    rep.bad(key, loc, 'bit %d below precision %d is not randomised: %s' % (i, prec, bit(b)))
                    return
                dk = (dr[0][1][2], dr[0][2])
                if dk in used:
                    rep.bad(key, loc, 'bit %d below precision %d reuses a random bit' % (i, prec))
                    return
                used.add(dk)
    if not some:
        rep.bad(key, loc, 'the value is never perturbed (precision %d)' % prec)
        return
    rep.ok(key)

def bit(b):
    return ' ^ '.join('1' if x == 1 else '%s[%d]' % (show(x[1], 2), x[2]) for x in b) or '0'

FM = {'float': ('unsigned int', 23, 31), 'double': ('unsigned long', 52, 63)}
def subnormals(rep, b, tier):
    """a subnormal operand with a given number of leading zeros, added to (or less) a zero"""
    cf, keys = [], []
    w, _ = bk.wiring(b)
    hs = []
    for slot, zero in (('add_float', '-0.0f'), ('sub_double', '0.0')):
        sym = w.get(slot)
        if not isinstance(sym, str):
            rep.unknown('bitmask/subnormal/' + slot, 'no operation')
            continue
        ty = bk.SLOTS[slot][0][0][0]
        u, mb, sg = FM[ty]
        lzs = (0, 1, mb // 2, mb - 2) if tier == 'quick' else range(mb - 1)
        ts = (3, mb // 2, mb - 1) if tier == 'quick' else range(2, mb, 3)
        for lz in lzs:
            top = mb - 1 - lz
            e = ('({ union { %s f; %s u; } q; q.f = a; q.u = (q.u & ((1ul << %d) | ((1ul << %d) - 1))) | (1ul << %d); q.f; })' % (ty, u, sg, top, top))
            for t in ts:
                for op in ('rand', 'zero', 'one'):
                    p32, p64 = (t, 20) if ty == 'float' else (12, t)
                    h = 'h_%s_%d_%d_%s' % (slot, lz, t, op)
                    hs.append((h, bk.op_harness(b, sym, slot, h, dict(base_sets(b), mode=b.modes['ib']), consts={'a': e, 'b': zero},
                                                pre_code=bitmask_pre(op, b.modes['ib'], p32, p64))))
                    keys.append((h, slot, ty, lz, t, op))
    mod = bk.op_module(b, hs, pure=True)
    for h, slot, ty, lz, t, op in keys:
        u, mb, sg = FM[ty]
        k = 'bitmask/subnormal/%s/%d leading zeros/t=%d/%s' % (slot, lz, t, op)
        of = opsem.OpFn(mod, mod.funcs[h])
        # the constructed operand is subnormal: its exponent bits are zeros, its leading bit is one
        ai, T, _ = of.result()
        known = {}
        for i in of.f.insts():
            if i.op == 'bitcast' and i.type == ty:
                p = prov(T.term(i.name))
                if p and all(x == ZERO_ for x in p[mb:sg]) and any(x == ONE_ for x in p[:mb]):
                    known[i.name] = SUB
        ai, T, (v, sts, why) = of.result(known)
        if v is None:
            rep.unknown(k, why)
            continue
        loc = opsem.where(of, sts[0])
        alts = uniq(alternatives(v))
        top, low = mb - 1 - lz, max(mb - lz - t, 0)
        rep.count('perturbed subnormal operands')
        for a in alts:
            base, steps = norm_conv(collapse(a))
            p = prov(base) if base[1] == ty else None
            if p is None or steps or len(p) != sg + 1:
                rep.unknown(k, 'value is %s' % show(base, 4))
                break
            used = set()
            def draws(bb):
                return [x for x in bb if x != 1 and x[1][0] == 'call' and x[1][2][0] in DRAWS]
            why = None
            for i, x in enumerate(p):
                if x is None:
                    why = ''
                elif i >= low:
                    want = ONE_ if i == top else ZERO_ if top < i < sg else None
                    at = list(x)
                    if want is not None and x != want or want is None and not (len(at) == 1 and at[0] != 1 and at[0][2] == i and is_plain(at[0][1], '%a')):
                        why = 'bit %d (above precision %d) is not preserved: %s' % (i, t, bit(x))
                elif op == 'zero' and x != ZERO_:
                    why = 'bit %d below precision %d is not cleared: %s' % (i, t, bit(x))
                elif op == 'one' and x != ONE_:
                    why = 'bit %d below precision %d is not set: %s' % (i, t, bit(x))
                elif op == 'rand':
                    d = draws(x)
                    if len(d) != 1:
                        why = 'bit %d below precision %d is not randomised: %s' % (i, t, bit(x))
                    elif (d[0][1][2], d[0][2]) in used:
                        why = 'bit %d below precision %d reuses a random bit' % (i, t)
                    else:
                        used.add((d[0][1][2], d[0][2]))
                if why is not None:
                    break
            if why:
                rep.bad(k, loc, 'subnormal operand with %d leading zeros: %s' % (lz, why))
                break
            if why == '':
                rep.unknown(k, 'bit %d of %s' % (i, show(base, 5)))
                break
        else:
            rep.ok(k)
    rep.floor('perturbed subnormal operands', 50)

def run(rep, tier):
    rep.rule = RULE
    b = bk.B['bitmask']
    ps = [(5, 9), (12, 30), (22, 51)] if tier == 'quick' else [((t - 1) % 22 + 1, t) for t in range(1, 52)]
    cf = []
    for m in ('ib', 'ob', 'full'):
        for op in ('rand', 'zero', 'one'):
            for p32, p64 in ps:
                s = dict(base_sets(b), mode=b.modes[m])
                cf.append(('%s_%s_%d_%d' % (m, op, p32, p64), s, bitmask_pre(op, b.modes[m], p32, p64)))
    fns, w = opsem.build(b, cf)
    for (slot, cfg), of in fns.items():
        mode, oper, p32, p64 = cfg.split('_')
        params, rt = bk.SLOTS[slot]
        it = params[0][0]
        v = View(of, slot, NORM, NORM)
        k = 'bitmask/%s/%s' % (slot, cfg)
        if v.err:
            rep.unknown(k, v.err)
            continue
        loc = v.loc()
        if mode in b.inbound:
            for x in v.xs:
                ok, kids, why = check_combine(x, slot)
                if not ok:
                    rep.unknown(k, why)
                    continue
                for kid, (ty, n) in zip(kids, params):
                    rep.count('perturbed operands')
                    judge(rep, k + '/operand ' + n, loc, kid, lambda t, n=n: is_plain(t, '%' + n), ty, rt, int(p32 if ty == 'float' else p64), oper)
        if mode in b.outbound and not slot.startswith('cast'):
            rep.count('perturbed results')
            nodes = [x.node for x in v.xs]
            judge(rep, k + '/result', loc, v.v, lambda t: t in nodes, rt, rt, int(p32 if rt == 'float' else p64), oper)
    rep.floor('perturbed operands', 100)
    rep.floor('perturbed results', 100)
    subnormals(rep, b, tier)
    rep.assumptions.append('subnormal values: as operands of an addition and a subtraction')
