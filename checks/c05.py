"""C05: every instrumented operation reaches every loaded backend in order."""
from engine import wrapper as w, ir
from engine.slice import root

TECH = 'static analysis: partial evaluation of the wrapper library for constant tables of loaded backends; the residual call sequence is compared with the specification'
NOTE = ('Every scalar wrapper for one to three backends with every pattern of implemented operations, and for the maximum of sixteen; every '
        'vector wrapper of every width. Number of backends sampled as stated; delta-debug builds are covered by C17.')
RULE = ('With the table of loaded backends fixed to a constant, each scalar wrapper must reduce to one call per backend implementing that '
        'very operation, in load order, with the wrapper\'s own arguments in order and that backend\'s context, and must return what is read '
        'from the location handed to the last of them. Each vector wrapper must reduce to the scalar wrapper applied lane by lane.')

def configs(tier):
    mem = list(w.opmembers())
    out = [('1 backend', {m: [1] for m in mem}, 1), ('2 backends', {m: [1, 1] for m in mem}, 2)]
    pats = [[(p >> i) & 1 for i in range(3)] for p in range(1, 8)]
    for r in range(7):
        out.append(('3 backends, pattern %d' % r, {m: pats[(k + r) % 7] for k, m in enumerate(mem)}, 3))
    # exactly one member implemented by one backend, all others by the other
    out.append(('16 backends', {m: [1] * 16 for m in mem}, 16))
    if tier == 'thorough':
        for n in range(3, 16):
            for r in range(8):
                out.append(('%d backends, pattern %d' % (n, r), {m: [((k * 7 + r * 5 + i * 3) % 4 != 0) or i == (k + r) % n for i in range(n)]
                                                                 for k, m in enumerate(mem)}, n))
    return out

def tables(masks, n):
    t = 'extern char %s;\n' % ', '.join('K%d' % i for i in range(n))
    mem = w.opmembers()
    for m, proto in mem.items():
        for i in range(n):
            if masks[m][i]:
                t += proto('%s_%d' % (m, i))
    t += 'struct interflop_backend_interface_t KB[MAX_BACKENDS] = {%s};\n' % ', '.join(
        '[%d] = {%s}' % (i, ', '.join('.%s = %s_%d' % (m, m, i) for m in mem if masks[m][i])) for i in range(n))
    t += 'void *KC[MAX_BACKENDS] = {%s};\nunsigned char KN = %d;\n' % (', '.join('&K%d' % i for i in range(n)), n)
    return t

def sequence(mod, f, member, mask):
    """(verdict, message, location): verdict in ok/bad/unk"""
    if not any(i.op == 'ret' for i in f.insts()):
        return 'bad', 'calls an operation that a loaded backend does not implement (or never returns)', mod.loc(next(iter(f.insts()))) or f.name
    want = ['%s_%d' % (member, i) for i in range(len(mask)) if mask[i]]
    calls = [i for i in f.insts() if i.op == 'call' and not (ir.callee(i) or '').startswith('llvm.')]
    mocks = [i for i in calls if (ir.callee(i) or '').startswith('interflop_') and (ir.callee(i) or '').rsplit('_', 1)[-1].isdigit()]
    got = [ir.callee(i) for i in mocks]
    loc = mod.loc(calls[0]) if calls else None
    here = loc or f.name
    for g in got:
        if g.rsplit('_', 1)[0] != member:
            return 'bad', 'calls %s instead of %s' % (g.rsplit('_', 1)[0], member), here
    miss = [x for x in want if x not in got]
    if any(ir.callee(i) is None for i in calls) or len(f.order) > 1:
        if any(i.op == 'call' and ir.callee(i) is None for i in f.insts()):
            return 'unk', 'indirect call left', here
    if miss:
        return 'bad', 'backend %s is never called' % ', '.join(x.rsplit('_', 1)[1] for x in miss), here
    if len(f.order) > 1:
        return 'unk', 'control flow left', here
    if got != want:
        return 'bad', 'calls backends %s, expected %s' % ([g.rsplit('_', 1)[1] for g in got], [x.rsplit('_', 1)[1] for x in want]), here
    args = [a for _, a in f.args]
    for c in mocks:
        here = mod.loc(c) or f.name
        if c.ops[:-2] != args:
            return 'bad', '%s receives operands (%s)' % (ir.callee(c), ', '.join(c.ops[:-2])), here
        i = int(ir.callee(c).rsplit('_', 1)[1])
        if c.ops[-1] != '@K%d' % i:
            return 'bad', 'backend %d receives context %s' % (i, c.ops[-1]), here
    ret = [i for i in f.insts() if i.op == 'ret'][0]
    v = ret.ops[0] if ret.ops else None
    d = f.defs.get(v)
    where = mod.loc(ret) or f.name
    if d is None or d.op != 'load':
        return ('bad' if v in args or v is None or d is None else 'unk'), 'returns %s, not what the last backend produced' % v, where
    order = list(f.insts())
    last = mocks[-1]
    if root(f, d.ops[0]) != root(f, last.ops[-2]):
        return 'bad', 'returns a location not handed to the last backend', where
    after = order[order.index(last) + 1:]
    if d not in after:
        return 'bad', 'reads the result before the last backend ran', where
    for i in after[:after.index(d)]:
        if i.op == 'store' and root(f, i.ops[1]) == root(f, d.ops[0]):
            return 'bad', 'overwrites the result after the last backend', mod.loc(i) or where
    return 'ok', '', where

def run(rep, tier):
    rep.rule = RULE
    for name, masks, n in configs(tier):
        m = w.module(tables(masks, n), list(w.OPS), consts=w.TABLES)
        for wn, (mem, params, rt) in w.OPS.items():
            k = '%s/%s' % (wn, name)
            if wn not in m.funcs:
                rep.unknown(k, 'wrapper not found')
                continue
            rep.count('wrapper specialisations')
            v, msg, loc = sequence(m, m.funcs[wn], mem, masks[mem])
            if v == 'ok':
                rep.ok(k)
            elif v == 'bad':
                rep.bad(k, loc, msg)
            else:
                rep.unknown(k, msg)
    vectors(rep)
    rep.floor('wrapper specialisations', 100)
    rep.floor('vector wrappers', 30)
    rep.assumptions += ['a backend does not change the wrapper\'s tables']

def vectors(rep):
    t, hs = '', []
    for n in (2, 4, 8, 16):
        for ty in ('float', 'double'):
            for op in ('add', 'sub', 'mul', 'div', 'cmp'):
                h = 'h_%d_%s_%s' % (n, ty, op)
                rt = ty if op != 'cmp' else 'int'
                ps = ['%s a%d' % (ty, i) for i in range(n)] + ['%s b%d' % (ty, i) for i in range(n)]
                if op == 'cmp':
                    ps.insert(0, 'enum FCMP_PREDICATE p')
                t += 'void %s(%s *out, %s) { %s%d a = {%s}, b = {%s}; %s%d c = _%dx%s%s(%sa, b); %s }\n' % (
                    h, rt, ', '.join(ps), ty, n, ', '.join('a%d' % i for i in range(n)), ', '.join('b%d' % i for i in range(n)),
                    rt, n, n, ty, op, 'p, ' if op == 'cmp' else '', ' '.join('out[%d] = c[%d];' % (i, i) for i in range(n)))
                hs.append((h, n, ty, op, rt))
    m = w.module(t, [h[0] for h in hs], opaque=[o for o in w.OPS])
    for h, n, ty, op, rt in hs:
        f = m.funcs[h]
        k = 'vector %d x %s %s' % (n, ty, op)
        rep.count('vector wrappers')
        size = {'float': 4, 'double': 8, 'int': 4}[rt]
        lanes = {}
        unk = bad = None
        loc = f.name
        for i in f.insts():
            if i.op == 'call' and ir.callee(i) == '_%s%s' % (ty, op):
                loc = m.loc(i) or loc
        if len(f.order) > 1:
            rep.unknown(k, 'control flow left')
            continue
        for i in f.insts():
            if i.op == 'store':
                r, off = m.addr(f, i.ops[1])
                if r == '%out' and off is not None:
                    lanes[off // size] = i
        for ln in range(n):
            if ln not in lanes:
                unk = 'lane %d not found' % ln
                continue
            d = f.defs.get(lanes[ln].ops[0])
            if d is None:
                bad = 'lane %d is %s' % (ln, lanes[ln].ops[0])
                continue
            if d.op != 'call':
                unk = 'lane %d: %s' % (ln, d.op)
                continue
            want = (['%p'] if op == 'cmp' else []) + ['%%a%d' % ln, '%%b%d' % ln]
            if ir.callee(d) != '_%s%s' % (ty, op):
                bad = 'lane %d is computed by %s' % (ln, ir.callee(d))
            elif d.ops != want:
                bad = 'lane %d is computed from (%s)' % (ln, ', '.join(d.ops))
        if bad:
            rep.bad(k, loc, bad)
        elif unk:
            rep.unknown(k, unk)
        else:
            rep.ok(k)
