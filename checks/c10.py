"""C10: backends start in their documented default configuration."""
import re, struct
from engine import backends as bk, ir
from engine.build import bc_text, residual, BuildError
from checks import c19
from checks.c09 import cst

TECH = 'static analysis: partial evaluation of the pre-initialisation with modelled allocation, one constant obligation per setting; value provenance from configuration field to setting'
NOTE = ('every setting of every backend after pre-initialisation; every configuration field of the programming interface for all values of its '
        'accepted interval, modes and error modes one constant each, flags both ways; the settings of the absolute error exponent have no documented default.')
RULE = ('The context handed out by the pre-initialisation is read back field by field in the specialised code: each read must reduce to the documented '
        'constant. After configure each setting must reduce to the configuration field of the same meaning.')

SEEDED = {'choose_seed': '0'}
DEF = {
    'ieee': {f: '0' for f in ('debug', 'debug_binary', 'no_backend_name', 'print_new_line', 'print_subnormal_normalized', 'count_op',
                              'mul_count', 'div_count', 'add_count', 'sub_count', 'fma_count')},
    'mcaquad': {'binary32_precision': '24', 'binary64_precision': '53', 'mode': 'mcaquad_mode_mca', 'relErr': '1', 'absErr': '0', 'daz': '0',
                'ftz': '0', 'sparsity': '1.0', **SEEDED},
    'mcaint': {'binary32_precision': '24', 'binary64_precision': '53', 'mode': 'mcaint_mode_mca', 'relErr': '1', 'absErr': '0', 'daz': '0',
               'ftz': '0', 'sparsity': '1.0', **SEEDED},
    'bitmask': {'binary32_precision': '24', 'binary64_precision': '53', 'mode': 'bitmask_mode_ob', 'operator': 'bitmask_operator_rand',
                'daz': '0', 'ftz': '0', **SEEDED},
    'cancellation': {'tolerance': '1', 'warning': '0', **SEEDED},
    'vprec': {'binary32_precision': '23', 'binary64_precision': '52', 'binary32_range': '8', 'binary64_range': '11', 'mode': 'vprecmode_ob',
              'relErr': '1', 'absErr': '0', 'daz': '0', 'ftz': '0', 'vfi->vprec_inst_mode': 'vprecinst_none', 'vfi->vprec_input_file': '0',
              'vfi->vprec_output_file': '0', 'vfi->vprec_log_file': '0'},
}
# configuration field -> setting: (kind, field, setting, lo, hi)
PREC = lambda a, b: [('int', 'precision_binary32', 'binary32_precision', 1, a), ('int', 'precision_binary64', 'binary64_precision', 1, b)]
BOOL = lambda *f: [('bool', x, x) for x in f]
ERRS = lambda p: [('const', 'err_mode', p + k, {'relErr': r, 'absErr': a}) for k, r, a in (('rel', '1', '0'), ('abs', '0', '1'), ('all', '1', '1'))]
MODE = lambda p, *ms: [('const', 'mode', p + m, {'mode': p + m}) for m in ms]
SEED = [('int', 'seed', 'seed', None, None), ('const', 'seed', '77', {'choose_seed': '1'})]
FIX = {  # what the rest of the configuration holds
    'mcaquad': {'sparsity': '1.0f', 'precision_binary32': '10', 'precision_binary64': '11', 'mode': 'mcaquad_mode_rr', 'err_mode': 'mcaquad_err_mode_abs', 'max_abs_err_exponent': '-5'},
    'mcaint': {'sparsity': '1.0f', 'precision_binary32': '24', 'precision_binary64': '53', 'mode': 'mcaint_mode_rr', 'err_mode': 'mcaint_err_mode_abs', 'max_abs_err_exponent': '-5'},
    'bitmask': {'binary32_precision': '10', 'binary64_precision': '11', 'mode': 'bitmask_mode_ib', 'operator': 'bitmask_operator_one'},
    'cancellation': {}, 'ieee': {},
    'vprec': {'precision_binary32': '10', 'precision_binary64': '11', 'range_binary32': '5', 'range_binary64': '6', 'mode': 'vprecmode_ib',
              'preset': '(vprec_preset)(-1)', 'err_mode': 'vprec_err_mode_abs', 'max_abs_err_exponent': '-5'},
}
CONF = {
    'ieee': BOOL('debug', 'debug_binary', 'no_backend_name', 'print_new_line', 'print_subnormal_normalized', 'count_op'),
    'mcaquad': PREC(24, 53) + BOOL('daz', 'ftz') + ERRS('mcaquad_err_mode_') + MODE('mcaquad_mode_', 'ieee', 'mca', 'pb', 'rr') + SEED +
               [('int', 'max_abs_err_exponent', 'absErr_exp', -1000, 1000), ('const', 'sparsity', '0.25f', {'sparsity': '0.25'})],
    'mcaint': BOOL('daz', 'ftz') + ERRS('mcaint_err_mode_') + MODE('mcaint_mode_', 'ieee', 'mca', 'pb', 'rr') + SEED +
              [('int', 'max_abs_err_exponent', 'absErr_exp', -1000, 1000), ('const', 'sparsity', '0.25f', {'sparsity': '0.25'}),
               ('const', 'precision_binary32', '24', {'binary32_precision': '24'}), ('const', 'precision_binary64', '53', {'binary64_precision': '53'})],
    'bitmask': [('int', 'binary32_precision', 'binary32_precision', 1, 24), ('int', 'binary64_precision', 'binary64_precision', 1, 53)] +
               BOOL('daz', 'ftz') + MODE('bitmask_mode_', 'ieee', 'full', 'ib', 'ob') + SEED +
               [('const', 'operator', 'bitmask_operator_' + x, {'operator': 'bitmask_operator_' + x}) for x in ('zero', 'one', 'rand')],
    'cancellation': BOOL('warning') + [('int', 'tolerance', 'tolerance', 0, 2**31 - 1)] + SEED,
    'vprec': PREC(23, 52) + [('int', 'range_binary32', 'binary32_range', 2, 8), ('int', 'range_binary64', 'binary64_range', 2, 11)] +
             BOOL('daz', 'ftz') + ERRS('vprec_err_mode_') + MODE('vprecmode_', 'ieee', 'full', 'ib', 'ob') +
             [('int', 'max_abs_err_exponent', 'absErr_exp', -1000, 1000)] +
             [('const', 'preset', 'vprec_preset_' + n, {'binary32_range': str(r), 'binary64_range': str(r), 'binary32_precision': str(p), 'binary64_precision': str(p)})
              for n, r, p in (('binary16', 5, 10), ('binary32', 8, 23), ('bfloat16', 8, 7), ('tensorfloat', 8, 10), ('fp24', 7, 16), ('PXR24', 8, 15))],
}
CT = lambda b: b.ctx.replace('_context_t', '_conf_t')

PRE = '''
static char *g_b0, *g_b1; static int g_n;
static void *my_malloc(ISize_t n) { return g_n++ == 0 ? g_b0 : g_b1; }
static void *my_calloc(ISize_t n, ISize_t m) { return g_n++ == 0 ? g_b0 : g_b1; }
interflop_malloc_t interflop_malloc = my_malloc;
interflop_calloc_t interflop_calloc = my_calloc;
extern void vfc_panic(const char *) __attribute__((noreturn));
interflop_panic_t interflop_panic = vfc_panic;
'''
ATTRS = {'logger_error': 'noreturn nounwind memory(inaccessiblemem: readwrite)', 'vfc_panic': 'noreturn nounwind memory(inaccessiblemem: readwrite)',
         'logger_init|interflop_set_handler|register_printf_bit': 'nounwind memory(inaccessiblemem: readwrite)'}

def ret(m, f):
    """the common returned operand, or None"""
    r = {i.ops[0] for i in f.insts() if i.op == 'ret'}
    return r.pop() if len(r) == 1 else None

def num(v):
    if v is None:
        return None
    v = cst(v)
    if v in ('null', 'zeroinitializer'):
        return 0
    if re.fullmatch(r'-?\d+', v):
        return int(v)
    try:
        return struct.unpack('>d', bytes.fromhex(v[2:]))[0] if v.startswith('0x') else float(v)
    except ValueError:
        return None

def loc(m, f, b):
    return next((m.loc(x) for x in f.insts() if m.loc(x) and 'harness' not in m.loc(x)), b.srcs[0])

def enum(b, names):
    names = sorted(names)
    t = bk.prelude(b) + ''.join('int v_%d(void) { return %s; }\n' % (i, n) for i, n in enumerate(names)) + 'int z(void) { return 0; }\n'
    m = residual([bc_text(t, [b.dir])], ['v_%d' % i for i in range(len(names))] + ['z'])
    return {n: num(ret(m, m.funcs['v_%d' % i])) for i, n in enumerate(names)}

def val(w, en):
    return en[w] if w in en else (float(w) if '.' in w else int(w))

def defaults(rep, b):
    t = bk.prelude(b) + PRE
    fs = list(DEF[b.key].items())
    for n, (f, _) in enumerate(fs):
        t += ('__typeof__(((%s *)0)->%s) d_%d(char *__restrict b0, char *__restrict b1) { void *c = 0; g_b0 = b0; g_b1 = b1; g_n = 0; %spre_init(vfc_panic, 0, &c); return ((%s *)c)->%s; }\n'
              % (b.ctx, f, n, b.prefix, b.ctx, f))
    bcs = c19.vbcs() if b.key == 'vprec' else b.bcs()
    try:
        en = enum(b, {w for _, w in fs if not re.match(r'-?[\d.]', w)})
        m = residual(bcs + [bc_text(t, [b.dir])], ['d_%d' % n for n in range(len(fs))], attrs=ATTRS)
    except BuildError as e:
        rep.unknown(b.key + ' defaults', 'harness does not compile: ' + str(e)[-300:])
        return
    for n, (f, w) in enumerate(fs):
        g = m.funcs['d_%d' % n]
        k = '%s default %s' % (b.key, f)
        rep.count('default settings')
        r = ret(m, g)
        v = num(r)
        if v is None:
            d = g.defs.get(r) if r else None
            if d is not None and d.op == 'load' and m.addr(g, d.ops[0])[0] in ('%b0', '%b1') and not any(
                    i.op == 'call' and not re.match(r'llvm\.|logger_|vfc_|interflop_set_handler', ir.callee(i) or '') for i in g.insts()):
                rep.bad(k, loc(m, g, b), '%s is left uninitialised' % f)
            else:
                rep.unknown(k, 'not a constant: %s' % r)
        elif v == val(w, en):
            rep.ok(k)
        else:
            nm = {x: y for y, x in en.items()}
            rep.bad('%s=%s' % (k, v), loc(m, g, b), '%s starts as %s, documented is %s' % (f, v, w))

def configure(rep, b):
    t = bk.prelude(b) + PRE
    jobs = []
    fix = FIX[b.key]
    names = set()
    def add(key, setting, sets, assume, want, base=''):
        n = len(jobs)
        al = dict(fix); al.update(sets)
        body = ''.join('c.%s = %s; ' % kv for kv in al.items())
        return ('__typeof__(((%s *)0)->%s) c_%d(const %s *ctx0, const %s *conf0, long val) { __builtin_assume(%s); %s x = *ctx0; %s c = *conf0; %s%s %sconfigure(&c, &x); return x.%s; }\n'
                % (b.ctx, setting, n, b.ctx, CT(b), assume, b.ctx, CT(b), body, base, b.prefix, setting), (key, setting, want))
    for e in CONF[b.key]:
        if e[0] == 'int':
            s, j = add('%s configure %s' % (b.key, e[1]), e[2], {e[1]: 'val'}, '1' if e[3] is None else 'val >= %dL && val <= %dL' % (e[3], e[4]), '%val')
            t += s; jobs.append(j)
        elif e[0] == 'bool':
            for v in '01':
                s, j = add('%s configure %s=%s' % (b.key, e[1], v), e[2], {e[1]: v}, '1', v, 'x.%s = 0;' % e[2])
                t += s; jobs.append(j)
        else:
            for st, w in e[3].items():
                if not re.match(r'-?[\d.]', w):
                    names.add(w)
                s, j = add('%s configure %s=%s: %s' % (b.key, e[1], e[2], st), st, {e[1]: e[2]}, '1', w)
                t += s; jobs.append(j)
    bcs = c19.vbcs() if b.key == 'vprec' else b.bcs()
    try:
        en = enum(b, names)
        m = residual(bcs + [bc_text(t, [b.dir])], ['c_%d' % n for n in range(len(jobs))], attrs=ATTRS)
    except BuildError as e:
        rep.unknown(b.key + ' configure', 'harness does not compile: ' + str(e)[-300:])
        return
    for n, (k, st, w) in enumerate(jobs):
        f = m.funcs['c_%d' % n]
        rep.count('configured settings')
        where = loc(m, f, b)
        if not any(i.op == 'ret' for i in f.insts()):
            rep.bad(k, where, 'an accepted configuration ends the program')
            continue
        r = ret(m, f)
        if r is None:
            rep.unknown(k, 'several results')
            continue
        if w != '%val':
            v = num(r)
            if v is None:
                d = f.defs.get(r)
                if d is not None and d.op == 'load' and m.addr(f, d.ops[0])[0] in ('%ctx0', '%conf0'):
                    rep.bad(k, where, '%s does not take the configured value (it %s)' % (st, 'keeps its previous value' if m.addr(f, d.ops[0])[0] == '%ctx0' else 'comes from another configuration field'))
                else:
                    rep.unknown(k, 'not a constant')
            elif v == val(w, en):
                rep.ok(k)
            else:
                rep.bad(k, where, '%s becomes %s instead of %s' % (st, v, w))
            continue
        d = f.defs.get(r)
        while d is not None and d.op in ('trunc', 'sext', 'zext', 'freeze') and d.ops[0] in f.defs:
            d = f.defs[d.ops[0]]
        base = r if d is None else (d.ops[0] if d.op in ('trunc', 'sext', 'zext', 'freeze') else None)
        if base == '%val':
            rep.ok(k)
        elif d is not None and d.op == 'load' and m.addr(f, d.ops[0])[0] == '%ctx0':
            rep.bad(k, where, '%s keeps its previous value' % st)
        elif d is not None and d.op == 'load' and m.addr(f, d.ops[0])[0] == '%conf0' or base is not None and num(base) is not None:
            rep.bad(k, where, '%s does not come from the configuration field %s' % (st, k.split()[-1]))
        else:
            rep.unknown(k, 'value not recognised')

def run(rep, tier):
    rep.rule = RULE
    for key in bk.B:
        for fn in (defaults, configure):
            try:
                fn(rep, bk.B[key])
            except BuildError as e:
                rep.unknown(key, 'does not compile: ' + str(e)[-300:])
    rep.floor('default settings', 45)
    rep.floor('configured settings', 80)
