"""C16: VPREC results fit the configured format."""
import os
from fractions import Fraction
from engine import backends as bk, opsem, noise
from engine.noise import *
from engine.absint import PNORM, NNORM, PINF, NINF, POS, NEG, fmt, FP, Int, encode, decode, exact, const_class
from engine.lin import field, cint
from engine.build import residual, bc_text, bc, REPO

TECH = 'static analysis: known-bits and FP-class abstract interpretation of the rounding functions at constant formats; argument dataflow at every rounding call'
NOTE = ('Constant ranges and precisions and the exponents at the borders (a sample in the quick tier). In the normal range and above it the unpinned bits are unknown; below it, and in the absolute '
        'error modes, all bits of the argument are pinned to the places where rounding changes. Exactly half of the smallest subnormal may go either way, as may ties in the absolute error modes; the sign of a result that underflows to zero is left open (the reference results of tests/test_vprec_backend expect +0).')
RULE = ('The rounding functions are specialised to a constant range and precision and interpreted with the sign and exponent of the argument '
        'pinned (its other bits unknown, or the discarded bits pinned to above a tie, an odd tie or an even tie). Every value returned must have '
        'known-zero bits below the precision and the sign of the argument; above the range it must be an infinity of the same sign; half a '
        'unit in the last place with the sign of the argument must be added exactly when the discarded bits say so. Arguments whose bits are all pinned, below the normal range and in the absolute error modes, must give '
        'the nearest multiple of the unit, with the sign of the argument unless it is zero. Each rounding call of '
        'each operation must receive the range and precision fields of its format.')

def name(ty):
    return VROUND.name(ty)

def returns(f, ai, T, ty):
    out = []
    for l in f.order:
        i = f.blocks[l].insts[-1]
        if l in ai.exec_blocks and i.op == 'ret':
            out += [(t, i) for t in uniq(alts_v(T, i.ops[0], ty))]
    return out

def alts_v(T, v, ty):
    """(term, SSA name) alternatives of value v"""
    v = T.resolve(v)
    d = T.f.defs.get(v)
    if d is not None and d.op == 'phi':
        out = []
        for x, l in d.extra['inc']:
            if (l, d.block) in T.ai.exec_edges:
                out += alts_v(T, x, ty)
        return uniq(out)
    if d is not None and d.op == 'select':
        c = T.ai.get(d.ops[0], 'i1')
        return uniq(alts_v(T, d.ops[1], ty) + alts_v(T, d.ops[2], ty))
    return [v] if v not in ('undef', 'poison') else []

def above(D, tier):
    """positions of a set bit that makes the discarded part exceed one half"""
    if D < 2:
        return []
    return sorted({0, D - 2}) if tier == 'quick' else range(D - 1)

def vround(rep, tier):
    b = bk.B['vprec']
    text, hs = bk.prelude(b), []
    for ty in ('float', 'double'):
        rmax, pmax = (8, 23) if ty == 'float' else (11, 52)
        if tier == 'quick':
            rp = [(rmax, p) for p in (1, 10, pmax - 1, pmax)] + [(r, pmax // 2) for r in (3, rmax - 1)] + [(5, 10)]
        else:
            rp = [(r, p) for r in range(2, rmax + 1) for p in (range(1, pmax + 1) if r in (2, 5, rmax) else (1, pmax // 2, pmax))]
        for r, p in uniq(rp):
            h = 'h_%s_%d_%d' % (ty, r, p)
            text += ('%s %s(%s a, char in, const vprec_context_t *c0) { vprec_context_t x = *c0; x.daz = 0; x.ftz = 0; x.relErr = 1; x.absErr = 0; '
                     'return %s(a, in, &x, %d, %d); }\n' % (ty, h, ty, name(ty), r, p))
            hs.append((h, ty, r, p))
    m = residual(b.bcs() + [bc_text(text, [b.dir])], [h[0] for h in hs])
    for h, ty, r, p in hs:
        f = m.funcs[h]
        a = f.args[0][1]
        e, mb, bias = fmt(ty)
        emax = (1 << (r - 1)) - 1
        emin = 1 - emax
        D = mb - p
        exps = {emin: 'normal', 0: 'normal', emax - 1: 'normal', emax: 'top', emin + 1: 'normal', emin + p: 'normal', emin + p + 1: 'normal'}
        if emax < bias:
            exps[emax + 1] = 'over'
            exps[bias] = 'over'
        for ex, kind in sorted(exps.items()):
            if kind == 'normal' and not (emin <= ex < emax):
                continue
            pats = [('any', 0, 0)]
            if D >= 1 and kind == 'normal':
                low = (1 << (D - 1)) - 1
                for j in above(D, tier):
                    pats.append(('above half (bit %d)' % j, 0, (1 << (D - 1)) | 1 << j))
                pats.append(('odd tie', low, (1 << (D - 1)) | (1 << D)))
                pats.append(('even tie', low | (1 << D), 1 << (D - 1)))
            if kind == 'top':
                # the leading p bits: ones down to a zero at position j; or all ones, discarded bits below or from half
                pats = []
                tops = ((1 << p) - 1) << D
                for j in (sorted({0, 1, p // 2, p - 1}) if tier == 'quick' else range(p)):
                    if j < p:
                        zb = 1 << (mb - 1 - j)
                        pats.append(('%d leading ones then a zero' % j, zb, tops & ~((zb << 1) - 1)))
                if D >= 1:
                    pats.append(('largest finite', 1 << (D - 1), tops))
                    pats.append(('overflow on a tie', (1 << (D - 1)) - 1, tops | 1 << (D - 1)))
                    for j in above(D, tier):
                        pats.append(('overflow above half (bit %d)' % j, 0, tops | 1 << (D - 1) | 1 << j))
                else:
                    pats.append(('largest finite', 0, tops))
            for sg, cls in ((0, PNORM), (1, NNORM)):
                ebits = (ex + bias) << mb
                emask = ((1 << e) - 1) << mb
                sbit = 1 << (e + mb)
                for pn, z, o in pats:
                    k = '%s/range %d/precision %d/exponent %d/%s/%s' % (name(ty), r, p, ex, 'negative' if sg else 'positive', pn)
                    rep.count('rounding cases')
                    kz = (emask & ~ebits) | z | (0 if sg else sbit)
                    ko = ebits | o | (sbit if sg else 0)
                    ai = AbsInt(f, {a: (cls, kz, ko)}, precise=True)
                    T = Terms(f, ai)
                    bad = unk = None
                    loc = h
                    for v, i in returns(f, ai, T, ty):
                        loc = m.loc(i) or h
                        loc = m.loc(f.defs[v]) if v in f.defs and m.loc(f.defs[v]) else loc
                        x = ai.get(v, ty)
                        side, inf = (NEG, NINF) if sg else (POS, PINF)
                        if not isinstance(x, FP):
                            unk = 'value %s' % v
                            continue
                        if x.const is not None and x.const[0] == 'num' and x.const[2] == 0:
                            bad = 'a normal value is rounded to zero'
                            continue
                        if x.cls & ~side:
                            wrong = x.cls & side == 0
                            if wrong:
                                bad = 'the sign of the argument is lost: %s' % show(T.term(v, ty), 4)
                            else:
                                unk = 'sign of %s' % show(T.term(v, ty), 4)
                        pinned = (kz | ko) == (1 << (1 + e + mb)) - 1
                        if pinned and x.const and D > 0 and kind == 'normal':
                            av = decode(ko, ty)[2] / Fraction(2) ** (ex - p)
                            n = int(av)
                            d = av - n
                            n += d > Fraction(1, 2) or (d == Fraction(1, 2) and n & 1)
                            if x.const[0] != 'num' or x.const[2] != n * Fraction(2) ** (ex - p):
                                bad = '%s is rounded to %s at precision %d' % (decode(ko, ty), x.const, p)
                            continue
                        if kind == 'over' or pn.startswith('overflow'):
                            if x.cls & ~INF and x.cls & INF and not understood(T.term(v, ty)):
                                unk = 'infinity: %s' % show(T.term(v, ty), 5)
                            elif x.cls & ~INF:
                                bad = 'a value above the range is returned as %s' % show(T.term(v, ty), 4)
                            continue
                        if not x.cls & ~INF:
                            if kind in ('normal', 'top'):
                                bad = 'a value within the range becomes infinite'
                            continue
                        if v == a:
                            if D > 0:
                                bad = 'a value is returned unrounded at precision %d' % p
                            continue
                        miss = ((1 << D) - 1) & (encode(x.const, ty) if x.const else ~x.kz)
                        t = T.term(v, ty)
                        if D == 0:
                            if not identity(t, a):
                                unk = 'full precision: %s' % show(t, 4)
                        elif miss:
                            if understood(t):
                                bad = 'bit %d below precision %d may be set' % (miss.bit_length() - 1, p)
                            else:
                                unk = 'low bits of %s' % show(t, 5)
                        if kind == 'normal' and pn != 'any' and not bad:
                            hs_ = halves(t, a)
                            if hs_ is None:
                                unk = 'rounding term %s' % show(t, 5)
                            elif pn == 'even tie' and hs_:
                                bad = 'an even tie is rounded up'
                            elif pn != 'even tie' and not hs_:
                                bad = 'discarded bits %s are truncated instead of rounded up' % pn
                            elif hs_:
                                w = half_const(T, ai, hs_[0], ty)
                                want = (sg, ex - p - 1)
                                if w is None:
                                    unk = 'half unit %s' % show(hs_[0], 4)
                                elif w != want:
                                    bad = 'the value added before truncation is %s2^%d, expected %s2^%d' % ('-' if w[0] else '', w[1], '-' if sg else '', ex - p - 1)
                    if bad and murky(f, ai, T):
                        rep.unknown(k, 'reached through a test that is not understood: ' + bad)
                    elif bad:
                        rep.bad(k, loc, bad)
                    elif unk:
                        rep.unknown(k, unk)
                    else:
                        rep.ok(k)

PLAIN = {'arg', 'const', 'bitcast', 'and', 'or', 'xor', 'shl', 'lshr', 'phi', 'select', 'add', 'sub', 'zext', 'trunc', 'fadd', 'icmp', 'fcmp'}

def understood(t):
    """only operations whose effect on single bits the analysis follows exactly"""
    return all(x[0] in PLAIN for x in walk(t))

def murky(f, ai, T):
    """a branch that may go both ways depends on something the analysis does not follow"""
    for l in f.order:
        i = f.blocks[l].insts[-1]
        if l in ai.exec_blocks and i.op == 'br' and len(i.ops) and len({e for e in ai.exec_edges if e[0] == l}) > 1:
            if not understood(T.term(i.ops[0], 'i1')):
                return True
    return False

def identity(t, a):
    if t[0] == 'arg':
        return t[2] == a
    if t[0] == 'bitcast':
        return identity(t[3], a)
    if t[0] in ('and', 'or'):
        c = cint(t[4])
        return c == (-1 if t[0] == 'and' else 0) and identity(t[3], a)
    return False

def halves(t, a):
    """terms added to the argument in t; [] if none; None if not understood"""
    fs = [x for x in walk(t) if x[0] in ('fadd', 'fsub')]
    if any(x[0] == 'phi' for x in walk(t)):
        ph = [x for x in walk(t) if x[0] == 'phi']
        # a merge of rounded and unrounded bits: not decided
        if any(any(y[0] == 'fadd' for y in walk(k)) for x in ph for k in x[3:]):
            return None
    out = []
    for x in fs:
        if x[3] == ('arg', x[1], a):
            out.append(x[4])
        elif x[4] == ('arg', x[1], a) and x[0] == 'fadd':
            out.append(x[3])
        else:
            return None
    return out

def half_const(T, ai, t, ty):
    """the value of term t as (sign, exponent) when it is a known power of two"""
    import math
    from engine.absint import parse_fp, decode
    c = None
    if t[0] == 'const':
        c = parse_fp(t[2], ty)
    else:
        for v in T.name_of(t):
            x = ai.val.get(v)
            if isinstance(x, FP) and x.const:
                c = x.const
            elif isinstance(x, FP) and (x.kz | x.ko) == (1 << (1 + sum(fmt(ty)[:2]))) - 1:
                c = decode(x.ko, ty)
    if not c or c[0] != 'num' or c[2] == 0:
        return None
    m, ex = c[2].numerator, c[2].denominator
    n = m.bit_length() - 1 - (ex.bit_length() - 1)
    from fractions import Fraction
    if Fraction(2) ** n != c[2]:
        return None
    return (c[1], n)

def callargs(rep):
    """range and precision arguments of each rounding call"""
    b = bk.B['vprec']
    lay = bk.layout(b, ['binary32_precision', 'binary32_range', 'binary64_precision', 'binary64_range'])
    if len(lay) < 4:
        rep.unknown('vprec/calls', 'settings not found in the context')
        return
    inv = {o: n for n, o in lay.items()}
    cf = noise.cfgs(b, modes=[m for m in b.modes if m != 'ieee'])
    fns, w = opsem.build(b, cf, opaque=noise.opaque(b))
    for (slot, cfg), of in fns.items():
        if slot.startswith('cast'):
            continue        # involves both formats
        rt = bk.SLOTS[slot][1]
        ai, T, (v, stores, why) = of.result({})
        n = 0
        for i in of.f.insts():
            if i.op == 'call' and opsem.ir.callee(i) in VROUND and i.block in ai.exec_blocks:
                n += 1
                k = 'vprec/%s/%s/rounding call %d' % (slot, cfg, n)
                rep.count('rounding calls')
                got = []
                for o, t in list(zip(i.ops, i.optypes))[3:5]:
                    fl = field(T.term(o, t))
                    d = of.f.defs.get(T.resolve(o))
                    if fl is None and d is not None and d.op == 'load':
                        root, off = of.mod.addr(of.f, d.ops[0])
                        rd = of.f.defs.get(root)
                        if rd is not None and rd.op == 'alloca':
                            fl = off            # the harness' copy of the context
                    got.append(inv.get(fl) if fl is not None else None)
                pre = 'binary32' if rt == 'float' else 'binary64'
                if None in got:
                    rep.unknown(k, 'arguments %s' % i.ops[3:5])
                elif got != [pre + '_range', pre + '_precision']:
                    rep.bad(k, of.mod.loc(i) or of.f.name, 'rounds with (%s) in a %s operation' % (', '.join(got), pre))
                elif opsem.ir.callee(i) != name(rt):
                    rep.bad(k, of.mod.loc(i) or of.f.name, 'rounds a %s with %s' % (rt, opsem.ir.callee(i)))
                else:
                    rep.ok(k)

def bits_of(v, ty):
    """encoding of a positive rational if the format has it"""
    return encode(('num', 0, v), ty)

def fractions_of(n, ty, unit):
    """fractional parts (of a unit) around the places where rounding changes, as far as n + fraction has them"""
    e, mb, bias = fmt(ty)
    lead = n.bit_length() - 1 if n else None
    out = [Fraction(0), Fraction(1, 2), Fraction(1, 4), Fraction(3, 4)]
    for j in (mb - lead if n else mb + 1, 3):
        if j >= 2:
            t = Fraction(1, 1 << j)
            out += [t, Fraction(1, 2) - t, Fraction(1, 2) + t, 1 - t]
    return sorted(x for x in set(out) if n + x > 0 and bits_of((n + x) * unit, ty) is not None)

def exact_cases(rep, tier):
    """arguments with all bits pinned: results below the normal range of the target, and absolute error modes"""
    b = bk.B['vprec']
    text, hs = bk.prelude(b), []
    for ty in ('float', 'double'):
        rmax, pmax = (8, 23) if ty == 'float' else (11, 52)
        rps = [(rmax, p) for p in (1, 2, 10, pmax)] + [(5, 10), (rmax - 1, pmax), (3, 3)]
        if tier != 'quick':
            rps += [(r, p) for r in range(2, rmax + 1) for p in (1, 2, 3, 7, pmax // 2, pmax - 1, pmax)]
        modes = [('rel', r, p, 0) for r, p in uniq(rps)]
        for E in (-20, 0, 7) if tier == 'quick' else (-40, -20, -3, -1, 0, 1, 7, 30):
            modes += [('abs', rmax, pmax, E), ('all', rmax, pmax, E), ('all', rmax, 5, E)]
        for mode, r, p, E in modes:
            h = 'x_%s_%s_%d_%d_%d' % (ty, mode, r, p, E + 100)
            text += ('%s %s(%s a, char in, const vprec_context_t *c0) { vprec_context_t x = *c0; x.daz = 0; x.ftz = 0; x.relErr = %d; x.absErr = %d; x.absErr_exp = %d; '
                     'return %s(a, in, &x, %d, %d); }\n' % (ty, h, ty, mode != 'abs', mode != 'rel', E, name(ty), r, p))
            hs.append((h, ty, mode, r, p, E))
    m = residual(b.bcs() + [bc(os.path.join(REPO, 'src/interflop-stdlib/interflop_stdlib.c')), bc_text(text, [b.dir])], [h[0] for h in hs])
    for h, ty, mode, r, p, E in hs:
        f = m.funcs[h]
        a = f.args[0][1]
        e, mb, bias = fmt(ty)
        emin = 2 - (1 << (r - 1))
        base = Fraction(2) ** (emin - p if mode == 'rel' else E)
        if mode == 'rel':
            ns = {0, 1, 2, 3} | {2 ** k + d for k in (sorted({1, 2, p // 2, p - 1}) if tier == 'quick' else range(1, p)) if k < p for d in (-1, 0, 1)} | {2 ** p - 2, 2 ** p - 1}
        else:
            ns = {0, 1, 2, 3, 4, 5, 31, 32, 33, 100, 127, 1023, 4097, (1 << 16) - 1}
        todo = [(n, base) for n in sorted(x for x in ns if 0 <= x < 2 ** p or mode != 'rel')]
        if mode == 'rel':
            # the normal range of the target: kept bits that start with a one, in units of the last one
            for ex in sorted({emin, 0, -1, -emin}):
                if emin <= ex < 1 - emin:
                    for kept in sorted({0, 1, 2, 3, 2 ** p - 1, 2 ** p - 2, (2 ** p - 1) // 3, (2 ** p - 1) * 2 // 3}):
                        if kept < 2 ** p:
                            todo.append((2 ** p + kept, Fraction(2) ** (ex - p)))
        for n, base in todo:
            for fr in fractions_of(n, ty, base):
                v = (n + fr) * base
                unit = base
                if mode != 'rel':
                    ex = bits_of(v, ty) >> mb
                    if ex == 0:
                        continue
                    if mode == 'all':
                        unit = max(base, Fraction(2) ** (ex - bias - p))
                q = v / unit
                k = int(q)
                d = q - k
                if mode == 'rel' and k:
                    want = {k + (d > Fraction(1, 2) or (d == Fraction(1, 2) and k & 1))}
                else:
                    want = {k + (d > Fraction(1, 2))} | ({k + 1} if d == Fraction(1, 2) else set())
                for sg in (0, 1):
                    key = '%s/%s error mode/range %d/precision %d/threshold 2^%d/%s%s + %s units' % (name(ty), mode, r, p, E, '-' if sg else '', n, fr)
                    if n >= 2 ** p and mode == 'rel':
                        key += ' of ' + float(base).hex()
                    rep.count('exact rounding cases')
                    c = decode(bits_of(v, ty) | sg << (e + mb), ty)
                    full = (1 << (1 + e + mb)) - 1
                    o = encode(c, ty)
                    ai = AbsInt(f, {a: (const_class(c, ty), full & ~o, o)}, precise=True)
                    T = Terms(f, ai)
                    rs = returns(f, ai, T, ty)
                    xs = [exact(ai.get(w, ty)) if isinstance(ai.get(w, ty), FP) else None for w, i in rs]
                    if not xs or None in xs:
                        rep.unknown(key, 'result not constant')
                        continue
                    loc = next((m.loc(f.defs[w]) for w, i in rs if w in f.defs and m.loc(f.defs[w])), None) or h
                    bad = None
                    for x in xs:
                        if x[0] != 'num' or x[2] / unit not in want:
                            bad = '%s is rounded to %s, the nearest multiple of %s is %s' % (show_num(c), show_num(x), show_num(('num', 0, unit)), show_num(('num', sg, min(want) * unit)))
                        elif x[1] != sg and x[2]:
                            bad = '%s is rounded to %s: the sign is lost' % (show_num(c), show_num(x))
                    if bad and len(xs) > 1 and murky(f, ai, T):
                        rep.unknown(key, bad)
                    else:
                        rep.check(not bad, key, loc, bad)

def show_num(c):
    return ('-' if c[1] else '') + (float(c[2]).hex() if c[0] == 'num' else c[0])

def run(rep, tier):
    rep.rule = RULE
    vround(rep, tier)
    exact_cases(rep, tier)
    callargs(rep)
    rep.floor('rounding cases', 300)
    rep.floor('rounding calls', 60)
    rep.floor('exact rounding cases', 2000)
    rep.assumptions += ['no subnormal flushing (see C11)', 'in the absolute error modes, values below the normal range are outside this check']
