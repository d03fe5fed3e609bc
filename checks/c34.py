"""C34: arguments of instrumented functions are rounded as the profile says."""
import re, os
from engine import backends as bk, ir
from engine.build import bc, bc_text, residual, BuildError, STD
from checks import c19

TECH = ('static analysis: partial evaluation of the VPREC entry and exit hooks for each argument kind, rounding mode and instrumentation mode; provenance of the value '
        'left in each argument and in the recorded bounds')
NOTE = ('One and two arguments, arrays of three elements and null arrays, all rounding and instrumentation modes, functions with and without a profile entry, all argument '
        'values and profile values; the recorded bounds for representative constant values of every class. Longer arrays only through the uniform treatment of elements. '
        'Which kind the compiler pass announces for a pointer is outside.')
RULE = ('After the hook each argument (each element of an array) must hold the rounding, with the exponent and mantissa length of its own profile entry and the hook\'s '
        'direction, of the value it held, when the rounding mode covers the direction, the instrumentation mode covers arguments and the function has an entry; '
        'otherwise it must be unchanged. The bounds of the entry must become the smallest and largest of the old bounds and the values, not-a-number and infinities aside.')

KIND = {'float': ('FFLOAT', 'float', 1, 32), 'double': ('FDOUBLE', 'double', 1, 64), 'float array': ('FFLOAT_PTR', 'float', 3, 32), 'double array': ('FDOUBLE_PTR', 'double', 3, 64)}
MODES = ['ieee', 'full', 'ib', 'ob']
ATTR = dict(c19.NORET, _vprec_round_binary32='nounwind willreturn memory(none)', _vprec_round_binary64='nounwind willreturn memory(none)')
AP = '''  long ov[%d]; struct { unsigned g, f; void *o, *r; } tag = { 48, 176, ov, 0 }; va_list ap; __builtin_memcpy(ap, &tag, sizeof tag);
'''

def area(args):
    """args: (type, name pointer, size, pointer) per argument"""
    t = AP % (4 * len(args))
    for n, (ty, nm, size, p) in enumerate(args):
        t += '  ov[%d] = %s; ov[%d] = (long)%s; ov[%d] = %s; ov[%d] = (long)%s;\n' % (4 * n, ty, 4 * n + 1, nm, 4 * n + 2, size, 4 * n + 3, p)
    return t

def side(hk):
    return 'input' if hk == 'enter' else 'output'

def harness(b):
    wr, _ = bk.wiring(b)
    for s in ('enter_function', 'exit_function'):
        if wr.get(s) is None:
            return None
    t = bk.prelude(b) + '#include "interflop_vprec_function_instrumentation.h"\n' + c19.PRE
    for s in ('enter', 'exit'):
        t += 'extern void %s(interflop_function_stack_t *, void *, int, va_list);\n' % wr[s + '_function']
    return t, wr

def body(wr, hk, inst, mode, args, setup, post, entry='A'):
    ap = area(args)
    fr = c19.frames(['U'], inst, 'x.mode = vprecmode_%s;' % mode, len(args), 'ap', hk, post)
    fr = fr.replace('interflop_vprec_%s_function(' % hk, wr[hk + '_function'] + '(')
    pre = '  f0->nb_%s_args = %d; f0->%s_args = %s;\n' % (side(hk), len(args) if entry != '0' else 0, side(hk), entry)
    return setup + ap + pre + fr

SIG = 'const vprec_context_t *ctx0, _vfi_t *restrict f0, _vfi_argument_data_t *restrict A, void *restrict p, void *restrict q, char *restrict nm, int *restrict out'

def final(m, f, root_, off):
    """last value stored at root+off, None if never stored"""
    r = None
    for i in f.insts():
        if i.op == 'store':
            a, o = m.addr(f, i.ops[1])
            if a == root_ and o == off:
                r = i
            elif a == root_ and o is None:
                return 'variable'
    return r

def rounding(rep, b):
    h = harness(b)
    if h is None:
        rep.unknown('hooks', 'not offered')
        return
    t, wr = h
    ent = c19.entry_layout(b, ['exponent_length', 'mantissa_length'], '_vfi_argument_data_t')
    lst = {n[:-5]: o for n, o in c19.entry_layout(b, ['input_args', 'output_args']).items()}
    size = residual([bc_text(bk.prelude(b) + '#include "interflop_vprec_function_instrumentation.h"\nint z(void) { return sizeof(_vfi_argument_data_t); }\n', [b.dir])], ['z'])
    asz = int([i for i in size.funcs['z'].insts() if i.op == 'ret'][0].ops[0])
    cases, keep = [], []
    for hk in ('enter', 'exit'):
        for kind, (ty, ct, n, w_) in KIND.items():
            for mode in MODES:
                for inst in c19.MODES:
                    cases.append((hk, kind, mode, inst, 'entry', 1))
            for mode, inst in (('full', 'all'), ('full', 'arg')):
                cases.append((hk, kind, mode, inst, 'no entry', 1))
                cases.append((hk, kind, mode, inst, 'entry', 2))
    for n, (hk, kind, mode, inst, ent_, na) in enumerate(cases):
        ty, ct, sz, w_ = KIND[kind]
        args = [(ty, 'nm', sz, 'p'), ('FFLOAT' if w_ == 64 else 'FDOUBLE', 'nm', 1, 'q')][:na]
        t += '__attribute__((nonnull)) void h%d(%s) {\n%s}\n' % (n, SIG, body(wr, hk, inst, mode, args, '', '', 'A' if ent_ == 'entry' else '0'))
        keep.append('h%d' % n)
    m = residual(c19.vbcs() + [bc_text(t, [b.dir])], keep, attrs=ATTR, opaque=('_vprec_round_binary32', '_vprec_round_binary64'), pipe=c19.PEEL, optflags=c19.PEELF, edit=c19.nodisable)
    for n, (hk, kind, mode, inst, ent_, na) in enumerate(cases):
        f = m.funcs['h%d' % n]
        k = '%s/%s/mode %s/instrument %s/%s%s' % (hk, kind, mode, inst, ent_, '' if na == 1 else '/second argument')
        rep.count('argument cases')
        on = ent_ == 'entry' and inst in ('arg', 'all') and mode in (('full', 'ib') if hk == 'enter' else ('full', 'ob'))
        ty, ct, sz, w_ = KIND[kind]
        els = [('%p', j, w_, 0) for j in range(sz)] if na == 1 else [('%q', 0, 96 - w_, 1)]
        where = next((m.loc(i) for i in f.insts() if i.op == 'call' and (ir.callee(i) or '').startswith('_vprec_round')), None) or \
            next((m.loc(i) for i in f.insts() if m.loc(i) and 'harness' not in m.loc(i)), 'interflop_vprec_%s_function' % hk)
        if not any(i.op == 'ret' for i in f.insts()):
            rep.bad(k, where, 'the hook never returns')
            continue
        v = None
        for base, j, wd, a in els:
            v = element(m, f, base, j * wd // 8, wd, on, hk, ent, a * asz, lst)
            if v:
                if len(els) > 1:
                    v = (v[0], 'element %d %s' % (j, v[1]))
                break
        if v is None:
            rep.ok(k)
        elif v[0] == 'bad':
            rep.bad(k, where, v[1])
        else:
            rep.unknown(k, v[1])

def element(m, f, base, off, wd, on, hk, ent, ao, lst):
    st = final(m, f, base, off)
    if st == 'variable':
        return 'unk', 'is written at a variable place'
    if st is None:
        return ('bad', 'is not rounded') if on else None
    d = f.defs.get(st.ops[0])
    if d is not None and d.op == 'load' and m.addr(f, d.ops[0]) == (base, off):
        return ('bad', 'is not rounded') if on else None
    if d is None or d.op != 'call' or not (ir.callee(d) or '').startswith('_vprec_round_binary'):
        return 'unk', 'becomes %s' % (d.text.strip() if d is not None else st.ops[0])
    if not on:
        return 'bad', 'is rounded'
    if st.block != d.block or not (f.dominates(st.block, [i for i in f.insts() if i.op == 'ret'][0].block)):
        return 'unk', 'is rounded on some paths'
    if ir.callee(d) != '_vprec_round_binary%d' % wd:
        return 'bad', 'is rounded as binary%s' % ir.callee(d)[-2:]
    src = f.defs.get(d.ops[0])
    while src is not None and src.op == 'call' and ir.callee(src) == ir.callee(d) and src.ops[1:] == d.ops[1:]:
        src = f.defs.get(src.ops[0])                  # rounding again changes nothing
    if src is None or src.op != 'load':
        return ('unk', 'is the rounding of %s' % d.ops[0])
    if m.addr(f, src.ops[0]) != (base, off):
        a = m.addr(f, src.ops[0])
        return ('bad', 'is the rounding of another value') if a[1] is not None and a[0] in ('%p', '%q') else ('unk', 'is the rounding of %s' % src.text.strip())
    if not re.fullmatch(r'-?\d+', d.ops[1]):
        return 'unk', 'direction %s' % d.ops[1]
    if (d.ops[1] != '0') != (hk == 'enter'):
        return 'bad', 'is rounded as an %s' % ('output' if hk == 'enter' else 'input')
    for op, fld in ((3, 'exponent_length'), (4, 'mantissa_length')):
        x = f.defs.get(d.ops[op])
        if x is None or x.op != 'load':
            if re.fullmatch(r'-?\d+', d.ops[op]):
                return 'bad', 'is rounded with %s %s' % (fld.replace('_', ' '), d.ops[op])
            return 'unk', '%s is %s' % (fld, d.ops[op])
        a, o = m.addr(f, x.ops[0])
        r = f.defs.get(a)
        if r is not None and r.op == 'load' and m.addr(f, r.ops[0]) == ('%f0', lst[side(hk)]):
            a = '%A'                                  # reloaded from the function's entry
        if (a, o) != ('%A', ao + ent[fld]):
            if a == '%A' and o is not None or a in ('%ctx0', '%f0'):
                return 'bad', 'is rounded with another field as %s' % fld.replace('_', ' ')
            return 'unk', '%s is %s' % (fld, x.text.strip())
    return None

# class, constant, old minimum, old maximum, new minimum, new maximum
VALS = [('inside', '2.5', 1, 10, 1, 10), ('below', '-3.5', 1, 10, -4, 10), ('above', '12.5', 1, 10, 1, 13), ('zero', '0.0', 1, 10, 0, 10), ('small', '1e-30', 5, 10, 0, 10),
        ('not-a-number', '__builtin_nan%s("")', 1, 10, 1, 10), ('infinity', '__builtin_inf%s()', 1, 10, 1, 10), ('minus infinity', '-__builtin_inf%s()', 1, 10, 1, 10),
        ('integer', '11.0', 1, 10, 1, 11), ('only', '-7.25', 'INT_MAX', 'INT_MIN', -8, -7),
        ('large', '1e15', 1, 10, 1, 2147483647), ('large negative', '-1e15', 1, 10, -2147483648, 10)]

def bounds(rep, b):
    h = harness(b)
    if h is None:
        return
    t, wr = h
    t = t.replace('#include <stdarg.h>', '#include <stdarg.h>\n#include <limits.h>')
    t += '''static _vfi_argument_data_t BUF[4];
static void *my_calloc(ISize_t n, ISize_t s) { return BUF; }
static char *my_strcpy(char *d, const char *s) { return d; }
interflop_calloc_t interflop_calloc = (interflop_calloc_t)my_calloc;
interflop_strcpy_t interflop_strcpy = (interflop_strcpy_t)my_strcpy;
'''
    cases, keep = [], []
    for hk in ('enter', 'exit'):
        for kind, (ty, ct, sz, w_) in KIND.items():
            for name, val, lo, hi, wl, wh in VALS:
                for fst in (0, 1):
                    if fst and name not in ('inside', 'below', 'not-a-number'):
                        continue
                    for ne in ((1,) if sz == 1 else (1, 3)):
                        cases.append((hk, kind, name, fst, ne))
                        n = len(cases) - 1
                        val_ = val % ('f' if w_ == 32 else '') if '%' in val else val
                        # three elements: the value in the middle of two others
                        els = [val_] if ne == 1 else ['4.0', val_, '6.0']
                        setup = '  %s loc[%d]; %s\n' % (ct, ne, ' '.join('loc[%d] = %s;' % (j, v) for j, v in enumerate(els)))
                        if not fst:
                            setup += '  A->min_range = %s; A->max_range = %s;\n' % (lo, hi)
                        post = '' if not fst else ''.join('  out[%d] = f0->%s_args->%s - (%s);\n' % (2 + j, side(hk), fl, ex) for j, (fl, ex) in enumerate((
                            ('exponent_length', 'VPREC_RANGE_BINARY%d_DEFAULT' % w_), ('mantissa_length', 'VPREC_PRECISION_BINARY%d_DEFAULT' % w_), ('data_type', ty))))
                        post += ''.join('  out[%d] = f0->%s_args->%s_range;\n' % (j, side(hk), r) for j, r in enumerate(('min', 'max')))
                        args = [(ty, '"a"', ne, 'loc')]
                        t += '__attribute__((nonnull)) void h%d(%s) {\n%s}\n' % (n, SIG, body(wr, hk, 'none', 'ieee', args, setup, post, '0' if fst else 'A'))
                        keep.append('h%d' % n)
    std = bc(os.path.join(STD, 'interflop_stdlib.c'), tuple('-Dinterflop_%s=std_%s' % (n, n) for n in ('calloc', 'strcpy')))
    m = residual(c19.vbcs() + [std, bc_text(t, [b.dir])], keep, attrs=ATTR,
                 opaque=('_vprec_round_binary32', '_vprec_round_binary64'), pipe=c19.PEEL, optflags=c19.PEELF, edit=c19.nodisable)
    V = {v[0]: v for v in VALS}
    for n, (hk, kind, name, fst, ne) in enumerate(cases):
        if not fst or name != 'inside':
            continue
        f = m.funcs['h%d' % n]
        where = next((m.loc(i) for i in f.insts() if m.loc(i) and 'harness' not in m.loc(i)), 'interflop_vprec_%s_function' % hk)
        for j, what in enumerate(('exponent length', 'mantissa length', 'data type')):
            k = 'new entry/%s/%s%s/%s' % (hk, kind, '' if ne == 1 else ' of three', what)
            rep.count('new entries')
            st = final(m, f, '%out', 8 + 4 * j)
            v = st.ops[0] if st not in (None, 'variable') else '?'
            if not re.fullmatch(r'-?\d+', v):
                rep.unknown(k, 'is %s' % v)
            else:
                rep.check(v == '0', k, where, 'differs by %s from that of the type' % v)
    for n, (hk, kind, name, fst, ne) in enumerate(cases):
        f = m.funcs['h%d' % n]
        k = 'bounds/%s/%s%s/%s value%s' % (hk, kind, '' if ne == 1 else ' of three', name, '/first call' if fst else '')
        rep.count('bound cases')
        _, val, lo, hi, wl, wh = V[name]
        I = {'INT_MAX': 2147483647, 'INT_MIN': -2147483648}
        ws = [(wl, wh)]
        if fst:
            lo, hi = 'INT_MAX', 'INT_MIN'
            ws = [{'inside': (2, 3), 'below': (-4, -3), 'not-a-number': (2147483647, -2147483648)}[name]]
        if ne == 3:
            lo_ = [4, 6] + ([ws[0][0]] if name != 'not-a-number' or not fst else [])
            hi_ = [4, 6] + ([ws[0][1]] if name != 'not-a-number' or not fst else [])
            ws = [(min(lo_), max(hi_))]
        wl, wh = ws[0]
        where = next((m.loc(i) for i in f.insts() if m.loc(i) and 'harness' not in m.loc(i)), 'interflop_vprec_%s_function' % hk)
        got = []
        for j in (0, 1):
            st = final(m, f, '%out', 4 * j)
            got.append(st.ops[0] if st not in (None, 'variable') else '?')
        if not all(re.fullmatch(r'-?\d+', g) for g in got):
            if 'poison' in got or 'undef' in got:
                rep.bad(k, where, 'the conversion of the value to an integer is undefined')
            else:
                rep.unknown(k, 'bounds %s' % got)
            continue
        s32 = lambda v: (int(v) + 2**31) % 2**32 - 2**31
        g = (s32(got[0]), s32(got[1]))
        rep.check(g == (wl, wh), k, where, 'the recorded bounds become %d and %d, expected %d and %d' % (g + (wl, wh)))

def null(rep, b):
    """an array argument that is a null pointer is left alone"""
    h = harness(b)
    if h is None:
        return
    t, wr = h
    cases = [(hk, kind, mode) for hk in ('enter', 'exit') for kind in KIND if 'array' in kind for mode in ('ieee', 'full')]
    for n, (hk, kind, mode) in enumerate(cases):
        t += '__attribute__((nonnull)) void h%d(%s) {\n%s}\n' % (n, SIG, body(wr, hk, 'all', mode, [(KIND[kind][0], 'nm', 3, '(void *)0')], '', '  out[0] = 5;\n'))
    m = residual(c19.vbcs() + [bc_text(t, [b.dir])], ['h%d' % n for n in range(len(cases))], attrs=ATTR, opaque=('_vprec_round_binary32', '_vprec_round_binary64'), pipe=c19.PEEL,
                 optflags=c19.PEELF, edit=c19.nodisable)
    for n, (hk, kind, mode) in enumerate(cases):
        f = m.funcs['h%d' % n]
        k = 'null/%s/%s/mode %s' % (hk, kind, mode)
        rep.count('null arrays')
        loc = next((m.loc(i) for i in f.insts() if m.loc(i) and 'harness' not in m.loc(i)), 'interflop_vprec_%s_function' % hk)
        deref = [i for i in f.insts() if i.op in ('load', 'store') and i.ops[-1] == 'null']
        if deref or not any(i.op == 'ret' for i in f.insts()):
            rep.bad(k, (m.loc(deref[0]) if deref else None) or loc, 'the null pointer is dereferenced')
        else:
            rep.ok(k)

def run(rep, tier):
    rep.rule = RULE
    b = bk.B['vprec']
    for fn in (rounding, bounds, null):
        try:
            fn(rep, b)
        except BuildError as e:
            rep.unknown(fn.__name__, 'does not compile: ' + str(e)[-300:])
    rep.floor('argument cases', 100)
    rep.floor('bound cases', 60)
