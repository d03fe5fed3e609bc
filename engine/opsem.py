"""What a backend entry point computes, as a term, and the predicates over such
terms that the checks share."""
from . import ir, backends as bk
from .absint import AbsInt, FPT, parse_fp, NORM, SUB, ALL, FP, Int
from .terms import Terms, walk, show

PREC = {'half': 11, 'bfloat': 8, 'float': 24, 'double': 53, 'fp128': 113}
DRAWS = ('get_rand_double01', 'get_rand_uint64', 'get_rand_uint32')
FMA = {'interflop_fma_binary32': 'float', 'interflop_fma_binary64': 'double', 'interflop_fma_binary128': 'fp128',
       'llvm.fma.f32': 'float', 'llvm.fma.f64': 'double', 'llvm.fma.f128': 'fp128', 'fmaf': 'float', 'fma': 'double', 'fmaq': 'fp128'}

def norm_conv(t):
    """-> (base term, type list) with exact conversions collapsed; the types are the rounding steps left"""
    if t[0] in ('fpext', 'fptrunc'):
        base, steps = norm_conv(t[3])
        src = t[3][1]
        dst = t[1]
        cur = steps[-1] if steps else base_type(base)
        # cur: narrowest format the value is known to fit after its steps
        if PREC[dst] >= PREC[cur]:
            return base, steps
        return base, steps + [dst]
    return t, []

def base_type(t):
    if t[0] in ('fpext', 'fptrunc'):
        return base_type(t[3])
    return t[1]

def args_of(t):
    return {x[2] for x in walk(t) if x[0] == 'arg' and x[1] in FPT}

def draws_of(t, cut=None):
    """names of RNG draw calls in the term, not looking inside sub-terms in cut"""
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if id(x) in seen or (cut is not None and any(x == c for c in cut)):
            continue
        seen.add(id(x))
        if x[0] == 'call' and x[2][0] in DRAWS:
            out.add(x[2][1])
        st.extend(c for c in x[3:] if isinstance(c, tuple))
    return out

def is_plain(t, arg):
    """the term denotes exactly the operand"""
    base, steps = norm_conv(t)
    return base[0] == 'arg' and base[2] == arg and not steps

FOP = {'add': 'fadd', 'sub': 'fsub', 'mul': 'fmul', 'div': 'fdiv'}

def strip_neg(t):
    n = 0
    while t[0] == 'fneg':
        t = t[3]
        n ^= 1
    return t, n

class Combine:
    """an instruction that combines operand a with operand b (and c)"""
    def __init__(self, node, op, children):
        self.node, self.op, self.children = node, op, children

def find_combines(t, slot):
    """all nodes of t that combine distinct operands; list of Combine"""
    out = []
    nargs = len(bk.SLOTS[slot][0])
    for x in walk(t):
        if nargs == 2 and x[0] in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            l, r = x[3], x[4]
            al, ar = args_of(l), args_of(r)
            if al and ar and al != ar and not (al & ar):
                out.append(Combine(x, x[0], [l, r]))
        elif nargs == 2 and x[0] == 'call' and x[2][0] and not x[2][0].startswith('llvm.threadlocal'):
            kids = [c for c in x[3:] if c[1] in FPT]
            sets = [args_of(c) for c in kids]
            if len(sets) >= 2 and len(set(map(frozenset, sets))) > 1 and all(len(s) == 1 for s in sets):
                out.append(Combine(x, x[2][0], kids))
        elif nargs == 3 and x[0] == 'call':
            kids = [c for c in x[3:] if c[1] in FPT]
            sets = [args_of(c) for c in kids]
            if len(kids) == 3 and all(sets) and not (sets[0] & sets[1] or sets[0] & sets[2] or sets[1] & sets[2]):
                out.append(Combine(x, x[2][0], kids))
        elif nargs == 3 and x[0] in ('fadd', 'fsub', 'fmul', 'fdiv'):
            al, ar = args_of(x[3]), args_of(x[4])
            if al and ar and not (al & ar):
                out.append(Combine(x, x[0], [x[3], x[4]]))
    return out

def right_op(c, slot):
    """does the combining node compute slot's operation with operands in order?  -> (ok, children in operand order, why)"""
    kind = slot.split('_')[0]
    names = ['%' + n for _, n in bk.SLOTS[slot][0]]
    if kind == 'fma':
        if c.op in FMA:
            kids = c.children
            a = [args_of(k) for k in kids]
            if a == [{'%a'}, {'%b'}, {'%c'}]:
                return True, kids, ''
            if a == [{'%b'}, {'%a'}, {'%c'}]:
                return True, [kids[1], kids[0], kids[2]], ''
            return False, kids, 'operands of the fused operation are in the wrong positions'
        return False, c.children, 'computed with %s instead of a fused multiply-add' % c.op
    want = FOP[kind]
    l, r = c.children[:2]
    al, ar = args_of(l), args_of(r)
    if c.op != want:
        # a + (-b)  ==  a - b ; accepted
        if want == 'fsub' and c.op == 'fadd':
            r2, n = strip_neg(r)
            if n and al == {'%a'} and ar == {'%b'}:
                return True, [l, r2], ''
            l2, n = strip_neg(l)
            if n and al == {'%b'} and ar == {'%a'}:
                return True, [r, l2], ''
        if want == 'fadd' and c.op == 'fsub':
            r2, n = strip_neg(r)
            if n and al == {'%a'}:
                return True, [l, r2], ''
        return False, [l, r], 'operands are combined by %s, not %s' % (c.op, want)
    if al == {'%a'} and ar == {'%b'}:
        return True, [l, r], ''
    if want in ('fadd', 'fmul') and al == {'%b'} and ar == {'%a'}:
        return True, [r, l], ''
    return False, [l, r], 'operands are combined in the wrong order'

def exact_value(t, slot):
    """is t exactly the native IEEE result of slot?  -> (True, '') or (False, why)"""
    rt = bk.SLOTS[slot][1]
    base, steps = norm_conv(t)
    if slot.startswith('cast'):
        if base[0] == 'arg' and base[2] == '%a' and steps in (['float'],):
            return True, ''
        return False, 'result is %s, expected a single rounding of the operand to float' % show(t, 4)
    if base[0] == 'phi':
        return False, 'result is not a single value: %s' % show(t, 3)
    cs = find_combines(base, slot) if base[0] != 'arg' else []
    cs = [c for c in cs if c.node == base]
    if not cs:
        return False, 'result is %s, not the native operation' % show(t, 4)
    ok, kids, why = right_op(cs[0], slot)
    if not ok:
        return False, why
    for k, (ty, n) in zip(kids, bk.SLOTS[slot][0]):
        if not is_plain(k, '%' + n):
            return False, 'operand %s is not used unchanged: %s' % (n, show(k, 4))
    wide = base[1]
    if wide == rt and not steps:
        return True, ''
    if steps == [rt] and PREC[wide] >= 2 * PREC[rt] + 2 and not slot.startswith('fma'):
        return True, ''          # innocuous double rounding (Figueroa)
    if slot.startswith('fma'):
        return False, 'fused multiply-add is computed in %s and rounded again to %s (double rounding)' % (wide, rt)
    return False, 'computed in %s, rounded through %s' % (wide, steps)

class OpFn:
    """residual function of one (backend, slot, configuration)"""
    def __init__(self, mod, fn):
        self.mod, self.f = mod, fn
    def result(self, assume=None, callmodel=None):
        ai = AbsInt(self.f, assume or {}, callmodel)
        T = Terms(self.f, ai)
        return ai, T, final_store(self.f, ai, T, '%res')

def final_store(f, ai, T, ptr):
    """term of the last value stored to ptr on every executable path to a return.
    Returns (term or None, list of store insts, why)"""
    # forward dataflow: set of reaching stores (None = not stored)
    IN = {l: set() for l in f.order}
    OUT = {l: set() for l in f.order}
    order = f.rpo()
    ch = True
    while ch:
        ch = False
        for l in order:
            if l not in ai.exec_blocks:
                continue
            s = {None} if l == f.order[0] else set()
            for p in f.blocks[l].preds:
                if (p, l) in ai.exec_edges:
                    s |= OUT[p]
            o = s
            for i in f.blocks[l].insts:
                if i.op == 'store' and i.ops[1] == ptr:
                    o = {i}
            if s != IN[l] or o != OUT[l]:
                IN[l], OUT[l] = s, o
                ch = True
    fin = set()
    for l in order:
        if l in ai.exec_blocks and f.blocks[l].insts[-1].op == 'ret':
            fin |= OUT[l]
    if None in fin:
        return None, [x for x in fin if x], 'a path returns without storing a result'
    if not fin:
        return None, [], 'no result is stored'
    ts = []
    for s in sorted(fin, key=lambda i: (f.order.index(i.block), i.idx)):
        t = fwd_loads(T.term(s.ops[0], s.optypes[0]), f, T, ptr, s, IN)
        if t not in ts:
            ts.append(t)
    if len(ts) == 1:
        return ts[0], list(fin), ''
    return ('phi', ts[0][1], 'stores') + tuple(ts), list(fin), ''

def fwd_loads(t, f, T, ptr, st, IN):
    """replace loads of the result location by the value stored before, when unique"""
    def rec(x):
        if x[0] == 'load' and len(x) == 4 and x[3][0] == 'arg' and x[3][2] == ptr:
            d = f.defs.get(x[2])
            prev = None
            for i in f.blocks[d.block].insts:
                if i is d:
                    break
                if i.op == 'store' and i.ops[1] == ptr:
                    prev = i
            cands = {prev} if prev else IN[d.block]
            if len(cands) == 1 and None not in cands:
                p = next(iter(cands))
                return rec(T.term(p.ops[0], p.optypes[0]))
            return x
        if len(x) <= 3:
            return x
        kids = tuple(rec(c) if isinstance(c, tuple) else c for c in x[3:])
        if kids == x[3:]:
            return x
        return x[:3] + kids
    return rec(t)

def build(b, cfgs, slots=None, opaque=(), pure=True):
    """cfgs: list of (cfgname, sets, pre_code).  -> {(slot,cfg): OpFn}, wiring"""
    w, _ = bk.wiring(b)
    hs, keys = [], []
    for slot in (slots or list(bk.SLOTS)):
        sym = w.get(slot)
        if not isinstance(sym, str):
            continue
        for name, sets, pre in cfgs:
            h = 'h_%s__%s' % (slot, name)
            hs.append((h, bk.op_harness(b, sym, slot, h, sets, pre_code=pre)))
            keys.append((slot, name))
    mod = bk.op_module(b, hs, opaque=opaque, pure=pure)
    return {k: OpFn(mod, mod.funcs[h[0]]) for k, h in zip(keys, hs)}, w

def where(of, inst=None):
    m = of.mod
    if inst is not None:
        l = m.loc(inst)
        if l:
            return l
    return of.f.name
