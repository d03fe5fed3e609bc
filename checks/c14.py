"""C14: cancellation noise exactly on detected cancellations."""
from engine import backends as bk, opsem
from engine.noise import *
from engine.lin import *
from checks.c12 import terms_added, pin, draw_pins, no_noise, noise_exponents

TECH = 'static analysis: guard and linear-form extraction over the specialised additions and subtractions'
NOTE = 'The four additions and subtractions of the cancellation backend with a symbolic tolerance, warnings on and off.'
RULE = ('Each addition and subtraction of the cancellation backend is specialised with a symbolic tolerance. The result must be the native '
        'one on every path without a draw; the draw must be reached under exactly the condition max(exp a, exp b) - exp result >= tolerance '
        '(as a linear inequality over exponent fields and the tolerance field); the value added must be (draw - 1/2) * 2^e with '
        'e = exp result - (max(exp a, exp b) - exp result - 1), and with exponents, signs and the draw pinned a cancellation is never left without noise.')

def conds(f, T, block):
    """[(condition term, polarity)] that control the execution of block, transitively"""
    cd = f.control_deps()
    out, seen, st = [], set(), [block]
    while st:
        l = st.pop()
        for c, s in cd.get(l, ()):
            if (c, s) in seen:
                continue
            seen.add((c, s))
            tm = f.blocks[c].insts[-1]
            if tm.op == 'br' and tm.ops:
                out += atoms(T.term(tm.ops[0], 'i1'), tm.extra['labels'][0] == s)
            else:
                out.append((('?',), True))
            st.append(c)
    return out

def atoms(c, pol):
    if c[0] == 'xor' and cint(c[4]) in (1, -1):
        return atoms(c[3], not pol)
    if (c[0] == 'and' and pol) or (c[0] == 'or' and not pol):
        return atoms(c[3], pol) + atoms(c[4], pol)
    if c[0] == 'select' and pol and cint(c[5]) == 0:
        return atoms(c[3], pol) + atoms(c[4], pol)
    if c[0] == 'select' and not pol and cint(c[4]) == 1:
        return atoms(c[3], pol) + atoms(c[5], pol)
    return [(c, pol)]

def ge0(c, pol):
    """icmp under polarity as L >= 0 (integers), or None"""
    if c[0] != 'icmp':
        return None
    a, b = lins(c[3]), lins(c[4])
    if len(a) != 1 or len(b) != 1:
        return None
    a, b, p = norm_lin(a[0]), norm_lin(b[0]), c[2]
    if not pol:
        p = {'slt': 'sge', 'sle': 'sgt', 'sgt': 'sle', 'sge': 'slt', 'ult': 'uge', 'ule': 'ugt', 'ugt': 'ule', 'uge': 'ult'}.get(p)
    if p is None:
        return None
    p = p[1:]
    if p == 'ge':
        return add(a, b, -1)
    if p == 'gt':
        return add(add(a, b, -1), {1: -1})
    if p == 'le':
        return add(b, a, -1)
    if p == 'lt':
        return add(add(b, a, -1), {1: -1})
    return None

def dropped(rep, b, slots):
    """a detected cancellation is never left without noise when the draw is well away from one half, whatever exponents and signs"""
    fns, _ = opsem.build(b, [('t3', {'warning': '0', 'choose_seed': '1', 'tolerance': '3'}, '')], slots)
    for (slot, cfg), of in fns.items():
        f = of.f
        rt = bk.SLOTS[slot][1]
        bias = BIAS[rt]
        ai0, T0, (v0, st, why) = of.result({})
        xs = combine_nodes(v0, slot) if v0 is not None else []
        if not xs:
            rep.unknown('cancellation/%s/pinned' % slot, why or 'operation not found')
            continue
        nodes = [x.node for x in xs]
        for ex in (-(7 * bias) // 8, -bias // 2, 0, bias // 2, bias):
            for c in (3, 5, 20):
                for sg in (0, 1):
                    k = 'cancellation/%s/operands of exponent %d, %s result %d below' % (slot, ex, 'negative' if sg else 'positive', c)
                    a = draw_pins(f)
                    a['%a'] = pin(rt, ex, 0)
                    a['%b'] = pin(rt, ex, slot.startswith('add'))
                    for n in nodes:
                        for nm in T0.name_of(n):
                            if nm in f.defs and f.defs[nm].type == rt:
                                a[nm] = pin(rt, ex - c, sg)
                    ai = AbsInt(f, a, precise=True)
                    T = Terms(f, ai)
                    v, stores, why = opsem.final_store(f, ai, T, '%res')
                    rep.count('pinned cancellations')
                    if v is None:
                        rep.unknown(k, why)
                        continue
                    r = no_noise(uniq(alternatives(v)), lambda t: t in nodes)
                    loc = next((of.mod.loc(s) for s in stores if of.mod.loc(s)), f.name)
                    wrong = [q for q in noise_exponents(T, ai, uniq(alternatives(v)), lambda t: t in nodes) if q[1] < ex - 2 * c - 1 or q[0] > ex - 2 * c - 1]
                    rep.count('noise exponents', len(noise_exponents(T, ai, uniq(alternatives(v)), lambda t: t in nodes)))
                    if r is None:
                        rep.unknown(k, show(v, 5))
                    elif wrong:
                        rep.bad(k, loc, 'the noise of a cancellation of %d bits has exponent %d, expected %d' % (c, wrong[0][0], ex - 2 * c - 1))
                    else:
                        rep.check(not r, k, loc, 'the result of a cancellation of %d bits receives no noise' % c)

def run(rep, tier):
    rep.rule = RULE
    b = bk.B['cancellation']
    tol = bk.layout(b, ['tolerance']).get('tolerance')
    cf = [('w%d' % w, {'warning': str(w), 'choose_seed': '1'}, '') for w in (0, 1)]
    slots = [s for s in bk.SLOTS if s.split('_')[0] in ('add', 'sub')]
    fns, _ = opsem.build(b, cf, slots)
    for (slot, cfg), of in fns.items():
        k = 'cancellation/%s/%s' % (slot, 'warnings' if cfg == 'w1' else 'silent')
        rep.count('operations')
        v = View(of, slot, NORM, NORM)
        if v.err:
            rep.bad(k, v.loc(), v.err)
            continue
        loc = v.loc()
        if len(v.xs) != 1:
            rep.unknown(k, 'several combining instructions')
            continue
        x = v.xs[0]
        ok, kids, why = check_combine(x, slot)
        if not ok or not all(is_plain(kk, '%' + n) for kk, (_, n) in zip(kids, bk.SLOTS[slot][0])):
            rep.bad(k, loc, why or 'operands are not used unchanged')
            continue
        rt = bk.SLOTS[slot][1]
        B = BIAS[rt]
        ez = ('E', x.node)
        ea, eb = ('E', ('arg', rt, '%a')), ('E', ('arg', rt, '%b'))
        mx = ('max', frozenset({frozenset({(ea, 1)}), frozenset({(eb, 1)})}))
        # 1. guard of the draw
        draws = [i for l in of.f.order if l in v.ai.exec_blocks for i in of.f.blocks[l].insts
                 if i.op == 'call' and (opsem.ir.callee(i) in DRAWS)]
        if not draws:
            rep.bad(k, loc, 'no noise is drawn')
            continue
        want = {mx: 1, ez: -1, ('F', tol): -1}
        g = []
        unk = None
        for d in draws:
            for c, pol in conds(of.f, v.T, d.block):
                if c[0] == '?':
                    unk = 'switch'
                    continue
                if not args_of(c) and not any(y[0] == 'load' and field(y) == tol for y in walk(c)):
                    continue
                L = ge0(c, pol)
                if L is None:
                    unk = show(c, 5)
                else:
                    g.append(L)
        if unk:
            rep.unknown(k + '/guard', 'condition not linear: %s' % unk)
        else:
            opaque_ = [L for L in g if any(isinstance(a, tuple) and a[0] in ('t', 'min') for a in L)]
            if len(g) == len(draws) and all(L == want for L in g):
                rep.ok(k + '/guard')
            elif opaque_:
                rep.unknown(k + '/guard', 'condition is %s >= 0' % showl(opaque_[0]))
            else:
                rep.bad(k + '/guard', loc, 'noise is added under %s, expected %s' % (
                    ' and '.join('%s >= 0' % showl(L) for L in g) or 'no condition', 'max(exp a, exp b) - exp result >= tolerance'))
        # 2. the value delivered
        wante = {ez: 2, mx: -1, 1: 1 - B}
        nodes = [x.node]
        def isx(t):
            return t in nodes
        bad = unk = None
        noisy = 0
        for a in uniq(alternatives(v.v)):
            adds = terms_added(a, isx)
            if adds is None:
                unk = 'delivered value %s' % show(a, 5)
                break
            if not adds:
                continue
            if len(adds) > 1:
                bad = 'the result is perturbed %d times' % len(adds)
                break
            for s in noise_shape(adds[0]):
                if s[0] == 'bad':
                    bad = s[1]
                elif s[0] == 'unknown':
                    unk = 'noise %s' % show(s[1], 5)
                elif s[0] == 'scaled':
                    noisy += 1
                    nt = through(adds[0], rt)
                    if nt:
                        bad = 'the noise of a %s result passes through %s: it vanishes or overflows outside the range of that format' % (rt, nt)
                    for l in s[2]:
                        l = norm_lin(l)
                        if l != wante:
                            if any(isinstance(z, tuple) and z[0] == 't' for z in l):
                                unk = 'exponent %s' % showl(l)
                            else:
                                bad = 'the noise exponent is %s' % showl(l)
        if bad:
            rep.bad(k + '/magnitude', loc, bad)
        elif unk or not noisy:
            rep.unknown(k + '/magnitude', unk or 'no noise found')
        else:
            rep.ok(k + '/magnitude')
    dropped(rep, b, slots)
    rep.floor('pinned cancellations', 60)
    rep.floor('operations', 4)
