"""C02: noise exactly where the mode says."""
from engine import backends as bk, opsem, noise
from engine.noise import *

TECH = 'static analysis: per-mode partial evaluation plus FP-class abstract interpretation; dependence of operand and result terms on random draws'
NOTE = 'All operations, formats and modes of the perturbing backends; operands and result assumed finite and non-zero, default sparsity.'
RULE = ('Each operation entry point of the perturbing backends is specialised to one mode; under the assumption that operands '
        'and result are finite and non-zero, the value delivered on every executable path is decomposed into operand terms, '
        'the combining operation and the post-processing of its result. Operand terms must be the plain operand exactly when '
        'the mode has no inbound perturbation and must otherwise depend on random draws of their own (or be masked / rounded); '
        'the result must be the bare combination exactly when the mode has no outbound perturbation.')

def touched(b, cfg, t, ref_plain, cut=None):
    """is this alternative perturbed with respect to the unperturbed value?"""
    if b.key == 'vprec':
        return any(x[0] == 'call' and x[2][0] in VROUND for x in walk_cut(t, cut))
    if b.key == 'bitmask' and not cfg.endswith('rand'):
        return not ref_plain(t)
    return bool(draws_of(t, cut))

def walk_cut(t, cut):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if id(x) in seen or (cut and any(x == c for c in cut)):
            continue
        seen.add(id(x))
        yield x
        st.extend(c for c in x[3:] if isinstance(c, tuple))

def check_one(rep, b, slot, cfg, of, cn, cls):
    mode = cfg.split('_')[0]
    k = '%s/%s/%s/%s operands' % (b.key, slot, cfg, cn)
    params, rt = bk.SLOTS[slot]
    v = View(of, slot, cls, NORM)
    loc = v.loc()
    if v.err:
        rep.bad(k, loc, v.err)
        return
    if b.key == 'vprec' and slot.startswith('cast') and mode != 'ieee':
        # a conversion is rounded once, directly to the delivered format, to avoid double rounding
        for t in uniq(alternatives(v.v)):
            rc = [c for c in walk(t) if c[0] == 'call' and c[2][0] in VROUND]
            if len(rc) != 1 or args_of(rc[0][3]) != {'%a'} or norm_conv(rc[0][3])[0][0] != 'arg':
                rep.bad(k, loc, 'the converted value is not rounded exactly once: %s' % show(t, 4))
                return
            if rc[0][4][0] == 'const' and (rc[0][4][2] != '0') != (mode == b.ib):
                rep.bad(k, loc, 'the conversion treats its operand as %s in mode %s' % ('an input' if rc[0][4][2] != '0' else 'an output', mode))
                return
        rep.ok(k)
        return
    inb, outb = mode in b.inbound, mode in b.outbound
    bad = None
    for x in v.xs:
        ok, kids, why = check_combine(x, slot)
        if not ok:
            bad = why
            break
        dsets = []
        for kid, (ty, n) in zip(kids, params):
            a = '%' + n
            if args_of(kid) != {a}:
                bad = 'operand %s is computed from %s' % (n, sorted(args_of(kid)))
                break
            if not inb:
                if not is_plain(kid, a):
                    bad = 'operand %s is perturbed in mode %s: %s' % (n, mode, show(kid, 5))
                    break
                continue
            alts = uniq(alternatives(kid))
            pl = [t for t in alts if is_plain(t, a)]
            un = [t for t in alts if not touched(b, cfg, t, lambda t: is_plain(t, a))]
            if len(un) == len(alts):
                bad = 'operand %s is not perturbed in mode %s: %s' % (n, mode, show(kid, 5))
                break
            if un and not has_draw_guard(v.T, kid):
                bad = 'operand %s is left unperturbed on some path in mode %s: %s' % (n, mode, show(un[0], 5))
                break
            if any(t not in pl for t in un):
                bad = 'operand %s is replaced by %s on some path in mode %s' % (n, show([t for t in un if t not in pl][0], 5), mode)
                break
            if b.key == 'vprec':
                rc = [c for c in walk(kid) if c[0] == 'call' and c[2][0] in VROUND]
                if len(rc) != 1 or VROUND[rc[0][2][0]] != ty or not is_plain(rc[0][3], a):
                    bad = 'operand %s is not rounded once in its own format' % n
                    break
                if rc[0][4][0] == 'const' and rc[0][4][2] == '0':
                    bad = 'operand %s is rounded as a result' % n
                    break
            dsets.append((n, draws_of(kid)))
        if bad:
            break
        for i, (n, d) in enumerate(dsets):
            for n2, d2 in dsets[i + 1:]:
                if d & d2:
                    bad = 'operands %s and %s share a random draw' % (n, n2)
    if not bad:
        cut = [x.node for x in v.xs]
        alts = uniq(alternatives(v.v))
        for t in alts:
            inside = [x for x in v.xs if any(y == x.node for y in walk(t))]
            if len(inside) != 1:
                bad = 'a path delivers %s, which is not derived from the operation' % show(t, 5)
                break
            x = inside[0]
            plain = same_value(t, x.node, rt)
            tch = touched(b, cfg, t, lambda t: same_value(t, x.node, rt), cut)
            if not outb and not plain:
                bad = 'the result is perturbed in mode %s: %s' % (mode, show(t, 5))
                break
            if outb and tch:
                if draws_of(t, cut) & draws_of(x.node):
                    bad = 'the outbound perturbation reuses a draw of an operand'
                    break
                if b.key == 'vprec':
                    rc = [c for c in walk_cut(t, cut) if c[0] == 'call' and c[2][0] in VROUND]
                    if len(rc) != 1 or VROUND[rc[0][2][0]] != rt:
                        bad = 'the result is not rounded once in its own format'
                        break
                    if rc[0][4][0] == 'const' and rc[0][4][2] != '0':
                        bad = 'the result is rounded as an operand'
                        break
            if outb and not tch and not plain:
                bad = 'a path delivers %s' % show(t, 5)
                break
        if not bad and outb:
            un = [t for t in alts if not touched(b, cfg, t, lambda t: any(same_value(t, x.node, rt) for x in v.xs), cut)]
            if len(un) == len(alts):
                bad = 'the result is not perturbed in mode %s' % mode
            elif un and mode == b.full and b.key != 'vprec' and not has_draw_guard(v.T, v.v):
                bad = 'the result is left unperturbed on some path in mode %s' % mode
            elif un and b.key == 'vprec':
                bad = 'the result is left unrounded on some path in mode %s' % mode
    if bad:
        rep.bad(k, loc, bad)
    else:
        rep.ok(k)

def run(rep, tier):
    rep.rule = RULE
    for key in ('mcaquad', 'mcaint', 'bitmask', 'vprec'):
        b = bk.B[key]
        cf = noise.cfgs(b)
        if tier == 'thorough' and key == 'mcaquad':
            for m in b.modes:
                for nm, r, a in (('abs', '0', '1'), ('all', '1', '1')):
                    s = dict(base_sets(b), mode=b.modes[m], relErr=r, absErr=a)
                    cf.append(('%s_%s' % (m, nm), s, ''))
        fns, w = opsem.build(b, cf, opaque=noise.opaque(b))
        for (slot, cfg), of in fns.items():
            rep.count('specialised entry points')
            for cn, cls in (('normal', NORM), ('subnormal', SUB)):
                check_one(rep, b, slot, cfg, of, cn, cls)
    rep.floor('specialised entry points', 200)
    rep.assumptions += ['operands and result finite and non-zero; sparsity 1 (the default)',
                        'random draws are the calls to the generator of interflop-stdlib']
