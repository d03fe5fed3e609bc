"""Shared view of a perturbing operation: operands -> (inbound perturbation) ->
combine -> (outbound perturbation) -> result."""
from . import backends as bk, opsem
from .absint import AbsInt, NORM, SUB, ZERO, INF, NAN, FPT
from .terms import Terms, walk, show
from .opsem import (PREC, DRAWS, norm_conv, args_of, draws_of, is_plain, find_combines, right_op, Combine)

class _Rounders(dict):
    """the VPREC rounding functions: value, direction, context, range and precision to a rounded value"""
    def _load(self):
        if self.__dict__.get('done'):
            return
        self.done = True
        std = {'_vprec_round_binary32': 'float', '_vprec_round_binary64': 'double'}
        from .build import run, which
        import re
        defs = {}
        for b in bk.B['vprec'].bcs():
            for m in re.finditer(r'^define [^\n]*?\b(float|double) @([\w.$]+)\((float|double) [^,]*, i8 [^,]*, ptr [^,]*, i32 [^,]*, i32 [^,)]*\)',
                                 run([which('llvm-dis-18'), b, '-o', '-']), re.M):
                if m.group(1) == m.group(3):
                    defs.setdefault(m.group(1), []).append(m.group(2))
        for n, ty in std.items():
            c = defs.get(ty, [])
            if n in c or len(c) != 1:
                self[n] = ty
            else:
                self[c[0]] = ty
    def __contains__(self, k):
        self._load()
        return dict.__contains__(self, k)
    def __iter__(self):
        self._load()
        return dict.__iter__(self)
    def items(self):
        self._load()
        return dict.items(self)
    def __getitem__(self, k):
        self._load()
        return dict.__getitem__(self, k)
    def name(self, ty):
        return [n for n, t in self.items() if t == ty][0]
VROUND = _Rounders()

def base_sets(b):
    if b.key in ('mcaquad', 'mcaint'):
        return {'daz': '0', 'ftz': '0', 'relErr': '1', 'absErr': '0', 'sparsity': '1.0f', 'choose_seed': '1'}
    if b.key == 'bitmask':
        return {'daz': '0', 'ftz': '0', 'choose_seed': '1'}
    if b.key == 'vprec':
        return {'daz': '0', 'ftz': '0', 'relErr': '1', 'absErr': '0'}
    return {}

def bitmask_pre(op, mode, p32=12, p64=20):
    return ('bitmask_conf_t k = {0}; k.binary32_precision = %d; k.binary64_precision = %d; '
            'k.operator = bitmask_operator_%s; k.mode = %s; k.choose_seed = 1; interflop_bitmask_configure(&k, &x);\n'
            % (p32, p64, op, mode))

def cfgs(b, extra=None, modes=None):
    """one configuration per mode (and operator, for bitmask): (name, sets, pre)"""
    out = []
    for m in (modes or b.modes):
        s = dict(base_sets(b))
        s.update(extra or {})
        s['mode'] = b.modes[m]
        if b.key == 'bitmask':
            for op in ('rand', 'zero', 'one'):
                out.append(('%s_%s' % (m, op), s, bitmask_pre(op, b.modes[m])))
        else:
            out.append((m, s, ''))
    return out

def opaque(b):
    return tuple(VROUND) if b.key == 'vprec' else ()

class View:
    """result of analysing one residual operation under class assumptions"""
    def __init__(self, of, slot, assume_ops, assume_x=None, extra=None):
        self.of, self.slot = of, slot
        self.err = None
        names = ['%' + n for _, n in bk.SLOTS[slot][0]]
        a = dict(extra or {})
        for n in names:
            if isinstance(assume_ops, dict):
                if n in assume_ops:
                    a[n] = assume_ops[n]
            else:
                a[n] = assume_ops
        self._run(a)
        if self.err:
            return
        if assume_x is not None:
            for rounds in range(3):
                a2 = dict(a)
                for x in self.xs:
                    for v in self.T.name_of(x.node):
                        a2[v] = assume_x
                if a2 == a:
                    break
                a = a2
                self._run(a)
                if self.err:
                    return
    def _run(self, a):
        self.ai, self.T, (v, stores, why) = self.of.result(a)
        self.stores = stores
        self.v = v
        if v is None:
            self.err = why
            return
        self.xs = combine_nodes(v, self.slot)
        if not self.xs:
            self.err = 'the result %s does not contain the operation on the operands' % show(v, 4)
    def loc(self):
        for s in self.stores:
            l = self.of.mod.loc(s)
            if l:
                return l
        return self.of.f.name

def combine_nodes(v, slot):
    if slot.startswith('cast'):
        out = []
        for x in walk(v):
            if x[0] == 'fptrunc' and x[1] == 'float' and not any(y[0] == 'fptrunc' and y[1] == 'float' for y in walk(x[3])):
                out.append(Combine(x, 'fptrunc', [x[3]]))
        return dedup(out)
    cs = find_combines(v, slot)
    # keep the innermost combining nodes: a perturbation of the result may combine operands again
    inner = []
    for c in cs:
        if not any(d.node is not c.node and d.node != c.node and any(y is d.node or y == d.node for y in sub_of(c)) for d in cs):
            inner.append(c)
    return dedup(inner)

def sub_of(c):
    seen = set()
    for k in c.children:
        yield from walk(k, seen)

def dedup(cs):
    out = []
    for c in cs:
        if not any(d.node == c.node for d in out):
            out.append(c)
    return out

def check_combine(c, slot):
    if slot.startswith('cast'):
        k = c.children[0]
        if args_of(k) != {'%a'}:
            return False, c.children, 'the conversion is not applied to the operand'
        return True, [k], ''
    return right_op(c, slot)

def alternatives(t):
    """values a term may take: phis/selects flattened at the top, through conversions; list of (term)"""
    if t[0] in ('phi',):
        return [a for k in t[3:] for a in alternatives(k)]
    if t[0] == 'select':
        return alternatives(t[4]) + alternatives(t[5])
    if t[0] in ('fpext', 'fptrunc'):
        return [t[:3] + (a,) for a in alternatives(t[3])]
    if t[0] == 'rec':
        return []
    return [t]

def uniq(ts):
    out = []
    for t in ts:
        if t not in out:
            out.append(t)
    return out

def same_value(t, node, rt):
    """t is node converted to the result type at most once more"""
    base, steps = norm_conv(t)
    nb, nsteps = norm_conv(node)
    return base == nb and (steps == nsteps or steps == nsteps + [rt] or (not nsteps and steps in ([], [rt]))
                           or (nsteps and steps == nsteps))

def has_draw_guard(T, t):
    """a phi/select in t's spine is controlled by a condition that depends on a draw"""
    f = T.f
    for x in walk(t):
        if x[0] == 'select' and draws_of(x[3]):
            return True
        if x[0] == 'phi' and isinstance(x[2], str) and x[2] in f.defs:
            d = f.defs[x[2]]
            for v, l in d.extra['inc']:
                for br in ctrl_conds(f, l):
                    if draws_of(T.term(br)):
                        return True
            # or a condition in a predecessor itself
            for v, l in d.extra['inc']:
                tm = f.blocks[l].insts[-1]
                if tm.op == 'br' and tm.ops and draws_of(T.term(tm.ops[0], 'i1')):
                    return True
    return False

def ctrl_conds(f, l):
    cd = f.control_deps()
    out = set()
    seen = set()
    st = [l]
    while st:
        x = st.pop()
        for y in cd.get(x, ()):
            y = y[0] if isinstance(y, tuple) else y
            if y in seen:
                continue
            seen.add(y)
            tm = f.blocks[y].insts[-1]
            if tm.ops:
                out.add(tm.ops[0])
            st.append(y)
    return out

def comb_sites(view):
    """[(inst, {param: SSA operand})] of the combining instructions of a view with plain-ish operands"""
    out = []
    f = view.of.f
    for x in view.xs:
        ok, kids, why = check_combine(x, view.slot)
        if not ok:
            continue
        for v in view.T.name_of(x.node):
            d = f.defs[v]
            ops = {}
            for kid, (ty, n) in zip(kids, bk.SLOTS[view.slot][0]):
                for o, t in zip(d.ops, d.optypes):
                    if t in FPT and view.T.term(o, t) == kid:
                        ops[n] = (o, t)
            if len(ops) == len(kids):
                out.append((d, ops))
    return out

def is_zero_term(T, ai, t, o=None, ty=None):
    from .absint import parse_fp, FP
    if o is not None:
        a = ai.get(T.resolve(o), ty)
        if isinstance(a, FP) and a.cls and not a.cls & ~ZERO:
            return True
    if t[0] == 'const' and t[1] in FPT:
        c = parse_fp(t[2], t[1])
        return bool(c) and c[0] == 'num' and c[2] == 0
    if t[0] in ('fpext', 'fptrunc', 'fneg'):
        return is_zero_term(T, ai, t[3])
    if t[0] == 'arg':
        a = ai.val.get(t[2])
        return isinstance(a, FP) and bool(a.cls) and not a.cls & ~ZERO
    if t[0] in ('fmul',):
        return any(is_zero_term(T, ai, k) for k in t[3:5])
    return False

def collapse(t):
    """drop conversion pairs that do nothing"""
    while t[0] == 'fptrunc' and t[3][0] == 'fpext' and t[3][3][1] == t[1]:
        t = t[3][3]
    return t
