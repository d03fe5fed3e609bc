"""C12: magnitude of the MCA noise."""
from engine import backends as bk, opsem, noise
from engine.noise import *
from engine.lin import *
from engine.absint import PNORM, NNORM, fmt, mag_bounds, FP, FPT

TECH = 'static analysis: linear-form extraction of the noise exponent from the specialised operations'
NOTE = ('All operations, formats and perturbing modes of the two MCA backends with a symbolic virtual precision and absolute error exponent; '
        'the distribution of the draw itself is out of reach.')
RULE = ('Every operation of the MCA backends is specialised per mode and error mode with the precision and exponent settings left symbolic. '
        'The value added to each operand and to the result is decomposed into (draw - 1/2) * 2^e (or a signed draw shifted right, for the '
        'integer backend) and e, as a linear form over the exponent of the perturbed value and the context fields, must be exponent - t + 1 '
        'in relative mode, the absolute exponent in absolute mode, and one of each in combined mode, with the field of the right format. With the sign and exponent of the value and the draw pinned, no value may be left without noise.')

def terms_added(t, isx):
    """t = x + n1 + n2 ... -> list of n's; ('int', term) for an integer-domain perturbation; None if not recognised"""
    base, steps = norm_conv(t)
    if isx(t) or isx(base):
        return []
    if base[0] in ('fadd', 'fsub'):
        alt = None
        for i, j in ((3, 4), (4, 3)):
            if base[0] == 'fsub' and i == 4:
                continue
            r = terms_added(base[i], isx)
            if r is not None:
                r = r + [base[j]]
                if not any(n[0] == 'int' for n in r):
                    return r
                alt = alt or r
        return alt
    if base[0] == 'bitcast' and w_of(base[3][1]):
        return [('int', base[1], None, base)]
    return None

def int_noise(t, isx):
    """bitcast(bits(x) +- (draw >>s S)) -> ('shift', [linear forms of S], container width, placed) | ('bad', why) | None"""
    ty = t[1]
    s = t[3]
    if s[0] not in ('add', 'sub'):
        return None
    for i, j in ((3, 4), (4, 3)):
        if s[0] == 'sub' and i == 4:
            continue
        x = bits_of(s[i])
        if x is None or not (isx(x) or isx(norm_conv(x)[0])):
            continue
        q = s[j]
        while q[0] in ('sext', 'zext', 'freeze'):
            if q[0] == 'zext' and draws_of(q):
                return 'bad', 'the draw is used unsigned'
            q = q[3]
        if q[0] == 'lshr' and draws_of(q[3]):
            return 'bad', 'the draw is shifted logically: the noise is never negative'
        if q[0] != 'ashr':
            return None
        w = w_of(q[1])
        d = q[3]
        up = 0
        if d[0] == 'shl' and cint(d[4]) is not None:
            up = cint(d[4])
            d = d[3]
        ext = d[0]
        d0 = strip_int(d)
        if d0[0] != 'call' or d0[2][0] not in DRAWS:
            return None
        dw = w_of(d0[1])
        if dw is None:
            return None
        if up + dw != w:
            if up + dw < w and ext == 'zext':
                return 'bad', 'the sign of the draw is lost'
            if up + dw < w:
                # sign extended draw: equivalent to placing it higher and shifting more
                return 'shift', [add(l, {1: w - dw - up}) for l in lins(q[4])], w, ty
            return None
        return 'shift', lins(q[4]), w, ty
    return None

def want_rel(xt, P):
    return None

def judge(rep, key, loc, t, isx, xshow, P, A, rel, ab, ty):
    """t: possibly perturbed value"""
    got = []
    alts = uniq(alternatives(t))
    some = False
    for a in alts:
        base, _ = norm_conv(a)
        adds = terms_added(a, isx)
        if adds is None:
            rep.unknown(key, 'perturbation of %s not recognised: %s' % (xshow, show(a, 5)))
            return
        if not adds:
            continue
        some = True
        kinds = []
        for n in adds:
            if n[0] == 'int':
                r = int_noise(n[3], isx)
                if r is None:
                    rep.unknown(key, 'integer perturbation not recognised: %s' % show(n[3], 6))
                    return
                if r[0] == 'bad':
                    rep.bad(key, loc, r[1])
                    return
                _, ls, w, ty = r
                for l in ls:
                    want = {('F', P): 1, 1: w - 1 - MBITS[ty]}
                    if l != want:
                        if any(isinstance(k, tuple) and k[0] == 't' for k in l):
                            rep.unknown(key, 'shift amount is %s' % showl(l))
                            return
                        rep.bad(key, loc, 'the draw is shifted by %s, expected %s' % (showl(l), showl(want)))
                        return
                kinds.append('rel')
                continue
            for s in noise_shape(n):
                if s[0] == 'zero':
                    continue
                if s[0] == 'bad':
                    rep.bad(key, loc, s[1])
                    return
                if s[0] == 'unknown':
                    rep.unknown(key, 'noise not recognised: %s' % show(s[1], 6))
                    return
                nt = through(n, ty)
                if nt:
                    rep.bad(key, loc, 'the noise of %s passes through %s: it vanishes or overflows outside the range of that format' % (xshow, nt))
                    return
                for l in s[2]:
                    es = [k for k in l if isinstance(k, tuple) and k[0] == 'E']
                    if l == {('F', A): 1}:
                        kinds.append('abs')
                        continue
                    okrel = False
                    if len(es) == 1:
                        xt = es[0][1]
                        want = {es[0]: 1, ('F', P): -1, 1: 1 - BIAS[xt[1]]}
                        if l == want and (isx(xt) or isx(norm_conv(xt)[0])):
                            okrel = True
                    if okrel:
                        kinds.append('rel')
                        continue
                    if any(isinstance(k, tuple) and k[0] == 't' for k in l):
                        rep.unknown(key, 'noise exponent is %s' % showl(l))
                        return
                    rep.bad(key, loc, 'the noise exponent of %s is %s' % (xshow, showl(l)))
                    return
        want = (['rel'] if rel else []) + (['abs'] if ab else [])
        if sorted(set(kinds)) != sorted(want):
            rep.bad(key, loc, '%s receives %s noise instead of %s' % (xshow, '+'.join(sorted(kinds)) or 'no', '+'.join(want)))
            return
        if len([n for n in adds]) != len(want):
            rep.bad(key, loc, '%s is perturbed %d times instead of %d' % (xshow, len(adds), len(want)))
            return
    if not some:
        rep.unknown(key, 'no perturbation found')       # decided by C02
        return
    rep.ok(key)

def pin(ty, ex, sg):
    """a normal value of known sign and exponent"""
    e, m, bias = fmt(ty)
    eb, em, sb = (ex + bias) << m, ((1 << e) - 1) << m, 1 << (e + m)
    return (NNORM if sg else PNORM, (em & ~eb) | (0 if sg else sb), eb | (sb if sg else 0))

def draw_pins(f):
    """every floating point draw in [3/4, 1)"""
    c, z, o = pin('double', -1, 0)
    return {i.name: (c, z, o | 1 << 51) for i in f.insts() if i.op == 'call' and opsem.ir.callee(i) in DRAWS and i.type == 'double'}

def no_noise(alts, isx):
    """True: none of the values is perturbed; False: some is; None: not recognised"""
    for a in alts:
        adds = terms_added(a, isx)
        if adds is None:
            return None
        for n in adds:
            if n[0] == 'int' or any(s[0] != 'zero' for s in noise_shape(n)):
                return False
    return True

def noise_exponents(T, ai, alts, isx):
    """bounds on the binary exponent of every term added in alts, where the analysis has them"""
    out = []
    for a in alts:
        for n in terms_added(a, isx) or ():
            if n[0] == 'int':
                continue
            for x in uniq(alternatives(n)):
                x = norm_conv(x)[0]
                for nm in T.name_of(x):
                    v = ai.val.get(nm)
                    mb = mag_bounds(v) if isinstance(v, FP) else None
                    if mb and mb[1] >> fmt(v.ty)[1]:
                        e, m, bias = fmt(v.ty)
                        out.append(((mb[1] >> m) - bias, (mb[2] >> m) - bias))
    return out

def dropped(rep, b):
    """with the draw well away from one half no operand or result may be left without noise, whatever its exponent and sign"""
    modes = [m for m in b.modes if m in b.inbound or m == b.full]
    cf = [(m, dict(base_sets(b), mode=b.modes[m], relErr='1', absErr='0', binary32_precision='24', binary64_precision='53'), '') for m in modes]
    fns, w = opsem.build(b, cf)
    for (slot, mode), of in fns.items():
        params, rt = bk.SLOTS[slot]
        f = of.f
        dp = draw_pins(f)
        ity = params[0][0]
        bias = fmt(ity)[2]
        for ex in (1 - bias, -(7 * bias) // 8, -bias // 2, 0, bias // 2, bias):
            for sg in (0, 1):
                k = '%s/%s/%s/noise at exponent %d, %s' % (b.key, slot, mode, ex, 'negative' if sg else 'positive')
                a = dict(dp)
                a.update({'%' + n: pin(ty, ex, sg) for ty, n in params})
                rep.count('pinned operands')
                ai = AbsInt(f, a, precise=True)
                T = Terms(f, ai)
                v, stores, why = opsem.final_store(f, ai, T, '%res')
                if v is None:
                    rep.unknown(k, why)
                    continue
                xs = combine_nodes(v, slot)
                loc = next((of.mod.loc(s) for s in stores if of.mod.loc(s)), f.name)
                bad = unk = None
                if not xs:
                    unk = 'operation not found'
                if mode in b.inbound:
                    for x in xs:
                        ok, kids, why = check_combine(x, slot)
                        if not ok:
                            unk = why
                            continue
                        for kid, (ty, n) in zip(kids, params):
                            r = no_noise(uniq(alternatives(kid)), lambda t, n=n: is_plain(t, '%' + n))
                            if r is None:
                                unk = 'operand %s: %s' % (n, show(kid, 5))
                            elif not r:
                                for lo, hi in noise_exponents(T, ai, uniq(alternatives(kid)), lambda t, n=n: is_plain(t, '%' + n)):
                                    want = ex - PREC[rt if not slot.startswith('cast') else 'double'] - 1
                                    if hi < want or lo > want:
                                        bad = 'the noise of operand %s of exponent %d has exponent %d, expected %d' % (n, ex, lo, want)
                            else:
                                bad = 'a %s operand %s of exponent %d receives no noise' % ('negative' if sg else 'positive', n, ex)
                if bad:
                    rep.bad(k, loc, bad)
                elif unk:
                    rep.unknown(k, unk)
                else:
                    rep.ok(k)
        if mode not in b.outbound or slot.startswith('cast'):
            continue
        ai0, T0, (v0, st0, why) = of.result({})
        if v0 is None:
            continue
        bias = fmt(rt)[2]
        for ex in (1 - bias, -(7 * bias) // 8, -bias // 2, 0, bias // 2, bias):
            for sg in (0, 1):
                k = '%s/%s/%s/noise of a result of exponent %d, %s' % (b.key, slot, mode, ex, 'negative' if sg else 'positive')
                a = dict(dp)
                a.update({'%' + n: NORM for ty, n in params})
                nodes = [x.node for x in combine_nodes(v0, slot)]
                for n in nodes:
                    for nm in T0.name_of(n):
                        d = f.defs.get(nm)
                        if d is not None and d.type in FPT:
                            a[nm] = pin(d.type, ex, sg)
                rep.count('pinned results')
                ai = AbsInt(f, a, precise=True)
                T = Terms(f, ai)
                v, stores, why = opsem.final_store(f, ai, T, '%res')
                xs = combine_nodes(v, slot) if v is not None else []
                if not xs:
                    rep.unknown(k, why or 'operation not found')
                    continue
                nodes = [x.node for x in xs]
                bases = [norm_conv(n) for n in nodes]
                r = no_noise(uniq(alternatives(v)), lambda t: t in nodes or norm_conv(t) in bases)
                loc = next((of.mod.loc(s) for s in stores if of.mod.loc(s)), f.name)
                wrong = [q for q in noise_exponents(T, ai, uniq(alternatives(v)), lambda t: t in nodes or norm_conv(t) in bases)
                         if q[1] < ex - PREC[rt] - 1 or q[0] > ex - PREC[rt] - 1]
                if r is None:
                    rep.unknown(k, show(v, 5))
                elif wrong:
                    rep.bad(k, loc, 'the noise of a result of exponent %d has exponent %d, expected %d' % (ex, wrong[0][0], ex - PREC[rt] - 1))
                else:
                    rep.check(not r, k, loc, 'a %s result of exponent %d receives no noise' % ('negative' if sg else 'positive', ex))

def run(rep, tier):
    rep.rule = RULE
    for kb in ('mcaquad', 'mcaint'):
        b = bk.B[kb]
        lay = bk.layout(b, ['binary32_precision', 'binary64_precision', 'absErr_exp'])
        errs = [('rel', 1, 0)]
        if kb == 'mcaquad':
            errs += [('abs', 0, 1), ('all', 1, 1)]
        cf = []
        for m in b.modes:
            if m == 'ieee':
                continue
            for nm, r, a in errs:
                cf.append(('%s_%s' % (m, nm), dict(base_sets(b), mode=b.modes[m], relErr=str(r), absErr=str(a)), ''))
        fns, w = opsem.build(b, cf)
        for (slot, cfg), of in fns.items():
            mode, err = cfg.split('_')
            rel, ab = err in ('rel', 'all'), err in ('abs', 'all')
            params, rt = bk.SLOTS[slot]
            P = lay.get('binary32_precision' if rt == 'float' and not slot.startswith('cast') else 'binary64_precision')
            A = lay.get('absErr_exp')
            v = View(of, slot, NORM, NORM)
            k = '%s/%s/%s' % (kb, slot, cfg)
            if v.err or P is None:
                rep.unknown(k, v.err or 'precision field not found')
                continue
            loc = v.loc()
            if mode in b.inbound:
                for x in v.xs:
                    ok, kids, why = check_combine(x, slot)
                    if not ok:
                        rep.unknown(k, why)
                        continue
                    for kid, (ty, n) in zip(kids, params):
                        rep.count('perturbed operands')
                        judge(rep, k + '/operand ' + n, loc, kid, lambda t, n=n: is_plain(t, '%' + n), 'operand ' + n, P, A, rel, ab, ty)
            if mode in b.outbound:
                rep.count('perturbed results')
                nodes = [x.node for x in v.xs]
                bases = [norm_conv(n) for n in nodes]
                def isx(t):
                    return t in nodes or norm_conv(t) in bases
                judge(rep, k + '/result', loc, v.v, isx, 'the result', P, A, rel, ab, rt)
        dropped(rep, b)
    rep.floor('pinned operands', 100)
    rep.floor('perturbed operands', 60)
    rep.floor('perturbed results', 40)
