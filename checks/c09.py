"""C09: backend options are validated and set exactly what they name."""
import re, struct
from engine import backends as bk, ir, wrapper as w
from engine.build import bc_text, residual, BuildError
from engine.slice import root, backward
from engine.errors import logger_exits
from checks import c19

TECH = 'static analysis: partial evaluation of every option handler per option and value class (interval classes for numbers, one constant per name); effect analysis of the context stores left'
NOTE = ('every documented option of every backend; numbers by interval class (refused below, accepted between, refused above, unreadable) for '
        'all values of the class, floating-point values by constants; names by constants in both cases plus unknown names; the number readers '
        'of the runtime for the three shapes of text.')
RULE = ('Each option is looked up by name in the table its backend hands to the argument parser and the handler is specialised to its key. For an '
        'accepted value the only context fields stored must be those the option names, with the value given; for a refused class, an unreadable '
        'number or an unknown name every path must end in the error reporter before anything returns.')

INT_MAX = 2**31 - 1
MCA = lambda p: {'ieee': p + 'ieee', 'mca': p + 'mca', 'pb': p + 'pb', 'rr': p + 'rr'}
FUL = lambda p: {'ieee': p + 'ieee', 'full': p + 'full', 'ib': p + 'ib', 'ob': p + 'ob'}
ERR = {'rel': {'relErr': '1', 'absErr': '0'}, 'abs': {'relErr': '0', 'absErr': '1'}, 'all': {'relErr': '1', 'absErr': '1'}}
FLAGS = lambda d: {k: ('flag', v) for k, v in d.items()}
SEED = {'seed': ('int', 'seed', None, None, {'choose_seed': '1'})}
one = lambda f, t: ('name', {k: {f: v} for k, v in t.items()})
def pres():
    T = {'binary16': (5, 10), 'binary32': (8, 23), 'bfloat16': (8, 7), 'tensorfloat': (8, 10), 'fp24': (7, 16), 'PXR24': (8, 15)}
    return ('name', {k: {'binary32_range': str(r), 'binary64_range': str(r), 'binary32_precision': str(p), 'binary64_precision': str(p)}
                     for k, (r, p) in T.items()}, 'exact')

SPEC = {
    'ieee': FLAGS({'debug': 'debug', 'debug-binary': 'debug_binary', 'no-backend-name': 'no_backend_name', 'print-new-line': 'print_new_line',
                   'print-subnormal-normalized': 'print_subnormal_normalized', 'count-op': 'count_op'}),
    'mcaquad': {'precision-binary32': ('int', 'binary32_precision', 1, 24), 'precision-binary64': ('int', 'binary64_precision', 1, 53),
                'mode': one('mode', MCA('mcaquad_mode_')), 'error-mode': ('name', ERR),
                'max-abs-error-exponent': ('int', 'absErr_exp', -INT_MAX - 1, INT_MAX),
                'sparsity': ('float', 'sparsity', ['0.5', '1.0', '0.125'], ['0.0', '-0.5', '1.5', '1e30', '__builtin_nan("")']), **SEED,
                **FLAGS({'daz': 'daz', 'ftz': 'ftz'})},
    'mcaint': {'precision-binary32': ('int', 'binary32_precision', 24, 24), 'precision-binary64': ('int', 'binary64_precision', 53, 53),
               'mode': one('mode', MCA('mcaint_mode_')),
               'sparsity': ('float', 'sparsity', ['0.5', '1.0', '0.125'], ['0.0', '-0.5', '1.5', '1e30', '__builtin_nan("")']), **SEED,
               **FLAGS({'daz': 'daz', 'ftz': 'ftz'})},
    'bitmask': {'precision-binary32': ('int', 'binary32_precision', 1, 24), 'precision-binary64': ('int', 'binary64_precision', 1, 53),
                'mode': one('mode', FUL('bitmask_mode_')),
                'operator': one('operator', {x: 'bitmask_operator_' + x for x in ('zero', 'one', 'rand')}), **SEED,
                **FLAGS({'daz': 'daz', 'ftz': 'ftz'})},
    'cancellation': {'tolerance': ('int', 'tolerance', 0, INT_MAX), 'warning': ('flagarg', 'warning'), **SEED},
    'vprec': {'precision-binary32': ('int', 'binary32_precision', 1, 23), 'precision-binary64': ('int', 'binary64_precision', 1, 52),
              'range-binary32': ('int', 'binary32_range', 2, 8), 'range-binary64': ('int', 'binary64_range', 2, 11),
              'mode': one('mode', FUL('vprecmode_')), 'error-mode': ('name', ERR),
              'max-abs-error-exponent': ('int', 'absErr_exp', -INT_MAX - 1, INT_MAX), 'preset': pres(),
              'prec-input-file': ('text', 'vfi->vprec_input_file'), 'prec-output-file': ('text', 'vfi->vprec_output_file'),
              'prec-log-file': ('text', 'vfi->vprec_log_file'),
              'instrument': ('name', {x: {'vfi->vprec_inst_mode': 'vprecinst_' + e} for x, e in
                                      (('arguments', 'arg'), ('operations', 'op'), ('all', 'all'), ('none', 'none'))}),
              **FLAGS({'daz': 'daz', 'ftz': 'ftz'})},
}
# a precision above the format's own is announced as giving no noise: either answer is documented
LAX = {('mcaquad', 'precision-binary32'), ('mcaquad', 'precision-binary64'), ('bitmask', 'precision-binary32'), ('bitmask', 'precision-binary64')}

PRE = '''#include <argp.h>
#include <string.h>
static long g_val; static int g_err; static double g_dval; static const char *g_arg, *g_low;
extern void vfc_refuse(void) __attribute__((noreturn));
extern void vfc_noopt(void) __attribute__((noreturn));
static long my_strtol(const char *s, char **e, int *err) { *e = (char *)s + 1; *err = g_err; return g_val; }
static double my_strtod(const char *s, char **e, int *err) { *e = (char *)s + 1; *err = g_err; return g_dval; }
static int my_strcmp(const char *a, const char *b) { return strcmp(a, b); }
static int my_strcasecmp(const char *a, const char *b) { return strcmp(strcmp(a, g_arg) == 0 ? g_low : a, strcmp(b, g_arg) == 0 ? g_low : b); }
interflop_strtol_t interflop_strtol = my_strtol;
interflop_strtod_t interflop_strtod = my_strtod;
interflop_strcmp_t interflop_strcmp = my_strcmp;
interflop_strcasecmp_t interflop_strcasecmp = my_strcasecmp;
extern int vfc_printf_reg(int, void *, void *);
interflop_register_printf_specifier_t interflop_register_printf_specifier = vfc_printf_reg;
#define L(i) if (!end) { if (o[i].name == 0 && o[i].key == 0) end = 1; else if (o[i].name && strcmp(o[i].name, name) == 0) { key = o[i].key; end = 1; hasarg = o[i].arg != 0; } }
static inline __attribute__((always_inline)) int find(const struct argp_option *o, const char *name, int *ha) {
  int end = 0, key = -1, hasarg = 0;
  L(0) L(1) L(2) L(3) L(4) L(5) L(6) L(7) L(8) L(9) L(10) L(11) L(12) L(13) L(14) L(15) L(16) L(17) L(18) L(19)
  *ha = hasarg;
  return key;
}
static int my_argp(void *a, int argc, char **argv, unsigned fl, int *ix, void *input) {
  struct argp *p = a;
  void *ch[4] = {0, 0, 0, 0};
  struct argp_state st = {.root_argp = p, .input = input, .argc = argc, .argv = argv, .child_inputs = ch};
  int ha, r;
  p->parser(ARGP_KEY_INIT, 0, &st);
  int key = find(p->options, argv[0], &ha);
  if (key != -1) {
    if (ha != (argv[1] != 0)) vfc_noopt();
    r = p->parser(key, argv[1], &st);
  } else {
    if (!p->children || !p->children[0].argp) vfc_noopt();
    const struct argp *c = p->children[0].argp;
    struct argp_state cs = {.root_argp = p, .input = ch[0], .argc = argc, .argv = argv};
    key = find(c->options, argv[0], &ha);
    if (key == -1 || ha != (argv[1] != 0)) vfc_noopt();
    r = c->parser(key, argv[1], &cs);
  }
  if (r) vfc_refuse();
  p->parser(ARGP_KEY_END, 0, &st);
  p->parser(ARGP_KEY_SUCCESS, 0, &st);
  return 0;
}
interflop_argp_parse_t interflop_argp_parse = my_argp;
'''

def freeze(txt):
    """the parser tables are never written: let the specialiser read them"""
    return re.sub(r'^(@[\w.]+ = [^\n]*?)\bglobal (%struct\.argp|\[\d+ x %struct\.argp(?:_\w+)?\]|\[\d+ x ptr\]) ', r'\1constant \2 ', txt, flags=re.M)

class H:
    def __init__(self, b):
        self.b, self.t, self.hs = b, bk.prelude(b) + PRE, []
    def add(self, key, opt, arg=None, assume='1', val='0', err='0', dval='0.0', sym=False, low=None, tag=None):
        n = 'h_%d' % len(self.hs)
        q = lambda s: '0' if s is None else '"%s"' % s
        self.t += ('void %s(%s *ctx0, long val, int err) { __builtin_assume(%s); char *A[2] = {"%s", %s}; g_val = %s; g_err = %s; g_dval = %s; g_arg = A[1]; g_low = %s;\n'
                   ' %scli(2, A, ctx0); }\n') % (n, self.b.ctx, assume, opt, q(arg), val, err, dval,
                                                'g_arg' if low is None else q(low), self.b.prefix)
        self.hs.append((n, key, tag))
        return n

def wants(b, spec):
    """enumerator names -> value, and the place of each field"""
    names, fields = set(), set()
    def take(d):
        for f, v in d.items():
            fields.add(f)
            if not re.fullmatch(r'-?\d+', v):
                names.add(v)
    for s in spec.values():
        if s[0] == 'name':
            for d in s[1].values():
                take(d)
        else:
            fields.add(s[1])
            if len(s) > 4:
                take(s[4])
    names, fields = sorted(names), sorted(fields)
    vals = {}
    t = bk.prelude(b) + ''.join('int v_%d(void) { return %s; }\n' % (i, n) for i, n in enumerate(names))
    t += 'int z(void) { return 0; }\n'
    m = residual([bc_text(t, [b.dir])], ['v_%d' % i for i in range(len(names))] + ['z'])
    for i, n in enumerate(names):
        vals[n] = next(x for x in m.funcs['v_%d' % i].insts() if x.op == 'ret').ops[0]
    plain = [f for f in fields if '->' not in f]
    off = {(('ctx', o)): f for f, o in bk.layout(b, plain).items()}
    sub = [f for f in fields if '->' in f]
    if sub:
        t = bk.prelude(b) + ''.join('int o_%d(void) { return __builtin_offsetof(t_context_vfi, %s); }\n' % (i, f.split('->')[1]) for i, f in enumerate(sub))
        m = residual([bc_text(t, [b.dir])], ['o_%d' % i for i in range(len(sub))])
        for i, f in enumerate(sub):
            off[('vfi', int(next(x for x in m.funcs['o_%d' % i].insts() if x.op == 'ret').ops[0]))] = f
    return vals, off

def place(m, f, p, b, off):
    r, o = m.addr(f, p)
    if r == '%ctx0':
        return off.get(('ctx', o), 'context offset %s' % o)
    d = f.defs.get(r)
    if d is not None and d.op == 'load' and m.addr(f, d.ops[0])[0] == '%ctx0':
        return off.get(('vfi', o), 'function-instrumentation setting at %s' % o)
    if d is not None and d.op == 'alloca' or re.match(r'@g_(val|err|dval|arg|low)', r):
        return None
    return '?' + r

def outcome(m, f, b, off):
    """('end', why) | ('paths', n blocks, [(field, value, store)])"""
    no = any(i.op == 'call' and ir.callee(i) == 'vfc_noopt' for i in f.insts())
    if no and len(f.order) == 1:
        return 'noopt', None
    if no:
        return 'unk', 'option table not resolved'
    if not any(i.op == 'ret' for i in f.insts()):
        if any(i.op == 'call' and ir.callee(i) in ('logger_error', 'vfc_refuse') for i in f.insts()):
            return 'end', None
        return 'unk', 'no return and no error report'
    if any(i.op == 'call' and ir.callee(i) is None for i in f.insts()):
        return 'unk', 'indirect call left'
    if any(i.op == 'call' and not re.match(r'logger_|llvm\.|vfc_', ir.callee(i) or '') for i in f.insts()):
        c = next(ir.callee(i) for i in f.insts() if i.op == 'call' and not re.match(r'logger_|llvm\.|vfc_', ir.callee(i) or ''))
        return 'unk', 'call to %s left' % c
    st = []
    for i in f.insts():
        if i.op == 'store':
            p = place(m, f, i.ops[1], b, off)
            if p is not None:
                st.append((p, i.ops[0], i))
        elif i.op == 'call' and re.match(r'llvm\.mem(set|cpy|move)', ir.callee(i) or ''):
            if place(m, f, i.ops[0], b, off) is not None:
                return 'unk', 'block store'
    end = any(i.op == 'call' and ir.callee(i) in ('logger_error', 'vfc_refuse') for i in f.insts())
    return ('cond' if end else 'set'), st

def cst(v):
    return {'true': '1', 'false': '0'}.get(v, v)

def judge_set(m, f, want, oc, only=None):
    """accepted: exactly the stores of want (field -> constant text, or None for the parsed value)"""
    kind, st = oc
    if kind == 'noopt':
        return 'bad', 'the documented option is not in the table of the backend, or not with the documented kind of argument'
    if kind == 'unk':
        return 'unk', st
    if kind == 'end':
        return 'bad', 'a documented value is refused'
    for p, v, i in st:
        if p.startswith('?'):
            return 'unk', 'store to %s' % p[1:]
        if p not in want:
            return 'bad', 'also changes %s' % p
    for fld, w in want.items():
        mine = [(v, i) for p, v, i in st if p == fld]
        if not mine:
            return ('bad', '%s is not set' % fld) if kind == 'set' else ('unk', '%s is set only conditionally' % fld)
        for v, i in mine:
            if w is None:
                d = f.defs.get(v)
                while d is not None and d.op in ('trunc', 'sext', 'zext', 'freeze') and d.ops[0] in f.defs:
                    d = f.defs[d.ops[0]]
                base = v if d is None else (d.ops[0] if d.op in ('trunc', 'sext', 'zext', 'freeze') else None)
                if base == '%val':
                    if d is not None and d.op == 'trunc' and re.match(r'i(\d+)', d.type) and int(d.type[1:]) < 32:
                        return 'bad', '%s is set to a truncation of the value' % fld
                    continue
                if base is not None and re.fullmatch(r'-?\d+', base):
                    if only == base:
                        continue
                    return 'bad', '%s is set to the constant %s' % (fld, base)
                return 'unk', 'value of %s not recognised' % fld
            if w == '@arg':
                if not (v.startswith('@') and m.string(v) == 'thefile' or m.string(v) == 'thefile'):
                    return 'unk', 'value of %s not recognised (%s)' % (fld, v)
                continue
            if isinstance(w, float):
                try:
                    got = struct.unpack('>d', bytes.fromhex(v[2:]))[0] if v.startswith('0x') else float(v)
                except ValueError:
                    got = None
                if got is None:
                    return 'unk', 'value of %s not recognised (%s)' % (fld, v)
                if got != w:
                    return 'bad', '%s is set to %s' % (fld, got)
                continue
            c = cst(v)
            if not re.fullmatch(r'-?\d+', c):
                return 'unk', 'value of %s not constant' % fld
            if c != w:
                return 'bad', '%s is set to %s instead of %s' % (fld, c, w)
    if kind == 'cond':
        return 'unk', 'accepted only conditionally'
    return 'ok', ''

def judge_end(oc):
    kind, st = oc
    if kind == 'noopt':
        return 'bad', 'the documented option is not in the table of the backend'
    if kind == 'unk':
        return 'unk', st
    if kind == 'end':
        return 'ok', ''
    if kind == 'cond':
        return 'unk', 'refused only conditionally'
    return 'bad', 'accepted (%s)' % (', '.join('%s set to %s' % (p, v) for p, v, _ in st) or 'ignored without an error')

def backend(rep, b):
    spec = SPEC[b.key]
    try:
        vals, off = wants(b, spec)
    except BuildError as e:
        rep.unknown(b.key, 'fields or enumerators not found: ' + str(e)[-200:])
        return
    H_ = H(b)
    jobs = []     # (harness, kind, key, want or None, group)
    def num(v):
        return vals.get(v, v)
    for opt, s in spec.items():
        kk = '%s --%s' % (b.key, opt)
        if s[0] in ('flag', 'flagarg'):
            jobs.append((H_.add(kk, opt, None if s[0] == 'flag' else 'yes'), 'set', kk, {s[1]: '1'}, None))
        elif s[0] == 'text':
            jobs.append((H_.add(kk, opt, 'thefile'), 'set', kk, {s[1]: '@arg'}, None))
        elif s[0] == 'name':
            exact = len(s) > 2
            for nm, d in s[1].items():
                w = {f: num(v) for f, v in d.items()}
                jobs.append((H_.add(kk, opt, nm), 'set', '%s %s' % (kk, nm), w, None))
                if not exact and nm.upper() != nm:
                    jobs.append((H_.add(kk, opt, nm.upper(), low=nm), 'set', '%s %s' % (kk, nm.upper()), w, None))
            bogus = ['bogus', ''] + sorted({n[:-1] for n in s[1]} - set(s[1])) + sorted(n + 'x' for n in s[1])
            for nm in bogus:
                jobs.append((H_.add(kk, opt, nm, low=nm), 'end', '%s "%s"' % (kk, nm), None, None))
        elif s[0] == 'float':
            for c in s[2]:
                jobs.append((H_.add(kk, opt, '17', dval=c), 'set', '%s %s' % (kk, c), {s[1]: float(c)}, None))
            for c in s[3]:
                jobs.append((H_.add(kk, opt, '17', dval=c), 'end', '%s %s' % (kk, c), None, None))
            jobs.append((H_.add(kk, opt, '17', dval='0.5', err='err', assume='err != 0'), 'end', '%s unreadable' % kk, None, None))
        elif s[0] == 'int':
            lo, hi = s[2], s[3]
            want = {s[1]: None}
            if len(s) > 4:
                want.update({f: num(v) for f, v in s[4].items()})
            rng = '1' if lo is None else 'val >= %dL && val <= %dL' % (lo, hi)
            g = H_.add(kk, opt, '17', assume='err == 0 && %s' % rng, val='val', err='0')
            wit = [lo, hi, (lo + hi) // 2] if lo is not None else [0, 1, -1, 2**40 + 5]
            ws = [(w, H_.add(kk, opt, '17', val='%dL' % w)) for w in dict.fromkeys(wit)]
            jobs.append((g, 'setclass', '%s accepted values' % kk, want, ws))
            mid = str(wit[0])
            jobs.append((H_.add(kk, opt, '17', assume='err != 0', val=mid + 'L', err='err'), 'end', '%s unreadable' % kk, None, None))
            if lo is not None:
                if lo > -2**63:
                    g = H_.add(kk, opt, '17', assume='val < %dL' % lo, val='val')
                    wit = [lo - 1, lo - 1000, lo - 2**32, hi - 2**32, -2**62, -2**63 + 1]
                    ws = [(w, H_.add(kk, opt, '17', val='%dL' % w)) for w in dict.fromkeys(wit)]
                    jobs.append((g, 'endclass', '%s below %d' % (kk, lo), None, ws))
                top = INT_MAX if (b.key, opt) in LAX else hi
                g = H_.add(kk, opt, '17', assume='val > %dL' % top, val='val')
                wit = [top + 1, top + 1000, lo + 2**32, hi + 2**32, 2**62 + lo, 2**63 - 1]
                ws = [(w, H_.add(kk, opt, '17', val='%dL' % w)) for w in dict.fromkeys(wit) if w > top]
                jobs.append((g, 'endclass', '%s above %d' % (kk, top), None, ws))
    bcs = c19.vbcs() if b.key == 'vprec' else b.bcs()
    try:
        m = residual(bcs + [bc_text(H_.t, [b.dir])], [h for h, _, _ in H_.hs], edit=freeze,
                     attrs={'logger_error': 'noreturn nounwind memory(inaccessiblemem: readwrite)',
                            'vfc_\\w+': 'nounwind memory(inaccessiblemem: readwrite)'})
    except BuildError as e:
        rep.unknown(b.key, 'harness does not compile: ' + str(e)[-300:])
        return
    def loc(f):
        return next((m.loc(x) for x in f.insts() if m.loc(x) and 'harness' not in m.loc(x)), b.srcs[0])
    def one_(h, kind, want, only=None):
        f = m.funcs[h]
        oc = outcome(m, f, b, off)
        if kind == 'set':
            return judge_set(m, f, want, oc, only) + (loc(f),)
        return judge_end(oc) + (loc(f),)
    for h, kind, key, want, ws in jobs:
        rep.count('option classes')
        v, msg, where = one_(h, kind.replace('class', ''), want, str(ws[0][0]) if ws and len(ws) == 1 else None)
        if v != 'ok' and ws and kind == 'setclass':
            # a definite witness?
            for w, hw in ws:
                ww = {f: (str(w) if x is None else x) for f, x in want.items()}
                v2, msg2, where2 = one_(hw, 'set', ww)
                if v2 == 'bad':
                    v, msg, where = 'bad', 'with the value %d: %s' % (w, msg2), where2
                    break
            else:
                v = 'unk' if v == 'unk' else v
        if kind == 'endclass' and v != 'ok':
            for w, hw in ws:
                v2, msg2, where2 = one_(hw, 'end', None)
                if v2 == 'bad':
                    v, msg, where = 'bad', 'the value %d is %s' % (w, msg2), where2
                    break
            else:
                v = 'unk'
        if v == 'ok':
            rep.ok(key)
        elif v == 'bad':
            rep.bad(key, where, msg)
        else:
            rep.unknown(key, msg)

READ = '''
static int g_errno, g_in, g_base; static char *g_end; static long g_v; static double g_d;
int *__errno_location(void) { return &g_errno; }
long long strtoll(const char *s, char **e, int base) { g_base = base; if (e) *e = g_end; if (g_in) g_errno = g_in; return g_v; }
long strtol(const char *s, char **e, int base) { g_base = base; if (e) *e = g_end; if (g_in) g_errno = g_in; return g_v; }
double strtod(const char *s, char **e) { if (e) *e = g_end; if (g_in) g_errno = g_in; return g_d; }
float strtof(const char *s, char **e) { if (e) *e = g_end; if (g_in) g_errno = g_in; return (float)g_d; }
'''
# text, where the C library stops reading, errno it leaves, must be flagged
TEXTS = (('text without a number', '"abc"', 0, 0, 1), ('empty text', '""', 0, 0, 1), ('text after the number', '"12abc"', 2, 0, 1),
         ('two numbers', '"12 13"', 2, 0, 1), ('number out of range', '"12"', 2, 34, 1), ('a number', '"12"', 2, 0, 0),
         ('number at the end of a line', '"12\\n"', 2, 0, 0))

def readers(rep):
    '''the number readers the runtime hands to the backends flag exactly the texts that are not a number'''
    for name, fn, rt, sv in (('strtol', '_vfc_strtol', 'long', 'g_v'), ('strtod', '_vfc_strtod', 'double', 'g_d')):
        t, keep = READ, []
        for n, (what, text, stop, en, flag) in enumerate(TEXTS):
            for q, out in (('e', 'err'), ('r', 'r')):
                keep.append('%s_%d' % (q, n))
                t += ('%s %s_%d(%s v) { static const char T[] = %s; int err = 7; char *e = 0; %s = v; g_end = (char *)T + %d; g_in = %d; %s r = %s(T, &e, &err); return %s; }\n'
                      % ('int' if q == 'e' else rt, q, n, rt, text, sv, stop, en, rt, fn, out))
        if name == 'strtol':
            keep.append('b_0')
            t += 'int b_0(void) { static const char T[] = "12"; int err = 7; char *e = 0; g_base = -1; g_v = 12; g_end = (char *)T + 2; g_in = 0; _vfc_strtol(T, &e, &err); return g_base; }\n'
        try:
            m = w.module(t, keep)
        except BuildError as e:
            rep.unknown('reader of ' + name, 'harness does not compile: ' + str(e)[-200:])
            continue
        if name == 'strtol':
            f = m.funcs['b_0']
            r = [i.ops[0] for i in f.insts() if i.op == 'ret']
            k = 'reader strtol: decimal'
            if r == ['10']:
                rep.ok(k)
            elif len(r) == 1 and re.fullmatch(r'\d+', r[0]):
                rep.bad(k, fn, 'numbers are read in base %s' % r[0])
            else:
                rep.unknown(k, 'base %s' % r)
        for n, (what, text, stop, en, flag) in enumerate(TEXTS):
            k = 'reader %s: %s' % (name, what)
            rep.count('number reader cases')
            f = m.funcs['e_%d' % n]
            where = next((m.loc(x) for x in f.insts() if m.loc(x) and 'harness' not in m.loc(x)), fn)
            r = {i.ops[0] for i in f.insts() if i.op == 'ret'}
            v = r.pop() if len(r) == 1 else ''
            if not re.fullmatch(r'-?\d+', v):
                rep.unknown(k, 'not a constant answer')
                continue
            if (v != '0') != bool(flag):
                rep.bad(k, where, '%s is %s' % (text, 'accepted as a number' if flag else 'refused'))
                continue
            if not flag:
                f = m.funcs['r_%d' % n]
                r = {i.ops[0] for i in f.insts() if i.op == 'ret'}
                if r != {'%v'}:
                    c = r.pop()
                    d = f.defs.get(c)
                    if d is None or d.op in ('add', 'sub', 'fneg', 'fadd', 'fmul', 'mul', 'xor', 'fpext') or d.op == 'sext' and d.optypes[0] in ('i8', 'i16', 'i32'):
                        rep.bad(k, where, 'the value read is not delivered (%s)' % (c if d is None else d.op))
                    else:
                        rep.unknown(k, 'value not recognised')
                    continue
            rep.ok(k)

def run(rep, tier):
    rep.rule = RULE
    logger_exits(rep)
    readers(rep)
    for key in bk.B:
        try:
            backend(rep, bk.B[key])
        except BuildError as e:
            rep.unknown(key, 'does not compile: ' + str(e)[-300:])
    rep.floor('option classes', 150)
    rep.floor('number reader cases', 14)
