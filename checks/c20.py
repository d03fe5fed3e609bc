"""C20: user calls reach every backend with the same arguments."""
import re
from engine import wrapper as w, backends as bk, ir
from engine.build import bc_text, residual, BuildError
from engine import opsem
from engine.noise import *
from engine.lin import *
from checks.c12 import terms_added
from engine.slice import root, backward
from engine.errors import paths_avoid

TECH = 'static analysis: partial evaluation of interflop_call and of every user_call entry point per identifier; typestate of the argument list; effect analysis on the context'
NOTE = ('interflop_call for every pattern of accepting backends up to three and for sixteen; each user_call for every identifier of the '
        'interface and for an unknown one, all argument values; the perturbation of the inexact call is compared across equivalent precisions.')
RULE = ('With a constant table of backends interflop_call must reduce to one call per accepting backend, in order, with that backend\'s '
        'context, the identifier, and an argument list that was (re)started since anything last read from it. Specialised to one identifier '
        'each user_call must read exactly the documented arguments, store the argument itself into the one setting named and write no other '
        'context field or static; an identifier it does not support must change nothing. The inexact call, '
        'specialised per type, mode and precision, must add (draw - 1/2) * 2^(exponent - precision + 1) to a normal value and leave zeros, infinities, NaN and every value in mode ieee alone.')

PROTO = lambda nm: 'extern void %s(void *, interflop_call_id, va_list);\n' % nm

def patterns(tier):
    out = []
    for n in (1, 2, 3):
        for p in range(1, 1 << n):
            out.append([(p >> i) & 1 for i in range(n)])
    out.append([1] * 16)
    if tier == 'thorough':
        for n in range(4, 16):
            for r in range(4):
                m = [(i * 5 + r * 3) % 4 != 0 or i == r for i in range(n)]
                out.append([int(x) for x in m])
    return out

def consumed(f, order, arg):
    """typestate of every argument list at each call"""

def fan_out(rep, tier, fn='interflop_call', member='interflop_user_call', proto=PROTO, pre=1):
    for mask in patterns(tier):
        k = 'dispatch/' + ''.join(map(str, mask))
        rep.count('backend tables')
        try:
            m = w.module(w.table({member: proto}, mask), [fn], consts=w.TABLES)
        except BuildError as e:
            rep.unknown(k, 'does not compile: ' + str(e)[-200:])
            continue
        f = m.funcs.get(fn)
        if f is None or f.is_decl:
            rep.unknown(k, fn + ' not found')
            continue
        v, msg, where = judge_dispatch(m, f, mask, member)
        if v == 'ok':
            rep.ok(k)
        elif v == 'bad':
            rep.bad(k, where, msg)
        else:
            rep.unknown(k, msg)

def judge_dispatch(m, f, mask, member):
    ins = list(f.insts())
    here = next((m.loc(i) for i in ins if m.loc(i)), None) or f.name
    want = ['%s_%d' % (member, i) for i in range(len(mask)) if mask[i]]
    mocks = [i for i in ins if i.op == 'call' and re.fullmatch(r'interflop_\w+_\d+', ir.callee(i) or '')]
    got = [ir.callee(i) for i in mocks]
    if any(i.op == 'call' and ir.callee(i) is None for i in ins):
        return 'unk', 'an indirect call is left', here
    if not any(i.op == 'ret' for i in ins):
        return 'bad', 'never returns for this table of backends (a missing entry point is called)', here
    miss = [x for x in want if x not in got]
    if miss:
        return 'bad', 'backend %s never receives the call' % ', '.join(x.rsplit('_', 1)[1] for x in miss), here
    if len(f.order) > 1:
        return 'unk', 'control flow left', here
    if got != want:
        return 'bad', 'backends are called as %s, expected %s' % ([g.rsplit('_', 1)[1] for g in got], [x.rsplit('_', 1)[1] for x in want]), here
    state = {}
    args = [a for _, a in f.args]
    for i in ins:
        if i.op != 'call':
            continue
        c = ir.callee(i) or ''
        loc = m.loc(i) or f.name
        if c.startswith('llvm.va_start'):
            state[root(f, i.ops[0])] = 'fresh'
        elif c.startswith('llvm.va_copy'):
            state[root(f, i.ops[0])] = state.get(root(f, i.ops[1]))
        elif c.startswith('llvm.va_end'):
            state[root(f, i.ops[0])] = 'ended'
        elif i in mocks:
            n = int(c.rsplit('_', 1)[1])
            if i.ops[0] != '@K%d' % n:
                return 'bad', 'backend %d receives context %s' % (n, i.ops[0]), loc
            if i.ops[1] != args[0]:
                return 'bad', 'backend %d receives identifier %s' % (n, i.ops[1]), loc
            r = root(f, i.ops[2])
            s = state.get(r)
            if s != 'fresh':
                return 'bad', 'backend %d receives an argument list that %s' % (n, {
                    'used': 'an earlier backend has already read from', 'ended': 'was already ended', None: 'was never started'}[s]), loc
            state[r] = 'used'
        elif c.startswith('llvm.'):
            continue
        else:
            for o in i.ops:
                if root(f, o) in state:
                    return 'unk', 'the argument list is handed to ' + c, loc
    return 'ok', '', here

# ---------------------------------------------------------------- backends
VA = "__builtin_va_arg(ap,T)=(*({extern void *vfc_va_next(void *, unsigned long); (T *)vfc_va_next(ap, sizeof(T));}))"
SETS = {'INTERFLOP_SET_PRECISION_BINARY32': 'binary32_precision', 'INTERFLOP_SET_PRECISION_BINARY64': 'binary64_precision',
        'INTERFLOP_SET_RANGE_BINARY32': 'binary32_range', 'INTERFLOP_SET_RANGE_BINARY64': 'binary64_range'}
IDS = ['INTERFLOP_INEXACT_ID', 'INTERFLOP_CUSTOM_ID'] + list(SETS)
SUPPORT = {'mcaquad': ['INTERFLOP_INEXACT_ID', 'INTERFLOP_SET_PRECISION_BINARY32', 'INTERFLOP_SET_PRECISION_BINARY64'],
           'vprec': list(SETS)}

def backend(rep, b):
    wr, _ = bk.wiring(b)
    sym = wr.get('user_call')
    if sym is None:
        if SUPPORT.get(b.key):
            rep.bad(b.key + '/user_call', b.srcs[0], 'the documented user calls are not accepted: no user_call entry point')
        else:
            rep.ok(b.key + '/no user call')
        return
    if not isinstance(sym, str):
        rep.unknown(b.key + '/user_call', 'entry point not constant')
        return
    t = bk.prelude(b) + '#include <stdarg.h>\nextern void %s(void *, interflop_call_id, va_list);\n' % sym
    hs = []
    for n, i in enumerate(IDS + ['(interflop_call_id)12345']):
        t += 'void h_%d(%s *ctx0, va_list ap) { %s(ctx0, %s, ap); }\n' % (n, b.ctx, sym, i)
        hs.append(('h_%d' % n, i))
    m = residual(b.bcs(('-D' + VA,)) + [bc_text(t, [b.dir])], [h for h, _ in hs],
                 attrs={'logger_error': 'noreturn nounwind memory(inaccessiblemem: readwrite)', 'vfc_va_next': 'nounwind willreturn memory(inaccessiblemem: readwrite)'})
    lay = bk.layout(b, ['binary32_precision', 'binary64_precision', 'binary32_range', 'binary64_range'])
    for h, i in hs:
        f = m.funcs[h]
        k = '%s/%s' % (b.key, 'unknown identifier' if '12345' in i else i)
        rep.count('user calls')
        reads = [x for x in f.insts() if x.op == 'call' and ir.callee(x) == 'vfc_va_next']
        writes = [x for x in f.insts() if x.op == 'store' and not local(f, x.ops[1])]
        ind = [x for x in f.insts() if x.op == 'call' and ir.callee(x) is None]
        if ind:
            rep.unknown(k, 'indirect call left')
            continue
        loc = next((m.loc(x) for x in f.insts() if m.loc(x)), f.name)
        if i not in SUPPORT.get(b.key, ()):
            if writes:
                rep.bad(k, m.loc(writes[0]) or loc, 'an identifier the backend does not support changes %s' % what(m, f, writes[0], lay))
            elif reads:
                rep.bad(k, m.loc(reads[0]) or loc, 'an identifier the backend does not support reads its arguments as if it were known')
            else:
                rep.ok(k)
            continue
        if i == 'INTERFLOP_INEXACT_ID':
            continue
        fld = SETS[i]
        if fld not in lay:
            rep.unknown(k, 'context field not found')
            continue
        setter(rep, m, f, k, loc, fld, lay, reads, writes)
    if 'INTERFLOP_INEXACT_ID' in SUPPORT.get(b.key, ()):
        inexact(rep, b, sym, lay)
        perturbation(rep, b, sym)

def local(f, p):
    d = f.defs.get(root(f, p))
    return d is not None and d.op == 'alloca'

def what(m, f, st, lay):
    r, o = m.addr(f, st.ops[1])
    for n, q in lay.items():
        if r == '%ctx0' and o == q:
            return n
    return 'the context' if r == '%ctx0' else r

def setter(rep, m, f, k, loc, fld, lay, reads, writes):
    if not reads:
        rep.bad(k, loc, 'the argument is never read')
        return
    pw = []
    for x in writes:
        r, o = m.addr(f, x.ops[1])
        if r == '%ctx0' and o == lay[fld]:
            pw.append(x)
            continue
        if r == '%ctx0' and o is not None:
            rep.bad(k, m.loc(x) or loc, 'changes %s, which this call does not name' % what(m, f, x, lay))
            return
        if r.startswith('@'):
            rep.unknown(k, 'writes the static %s' % r)
            return
        rep.unknown(k, 'writes through %s' % x.ops[1])
        return
    if not pw:
        if writes or any(x.op == 'call' and not (ir.callee(x) or '').startswith(('llvm.', 'logger_', 'vfc_va_next')) for x in f.insts()):
            rep.unknown(k, 'no direct store to ' + fld)
        else:
            rep.bad(k, loc, '%s is never changed' % fld)
        return
    if len(reads) != 1:
        # more than one read on a single path?
        for a in reads:
            for c in reads:
                if a is not c and f.dominates(a.block, c.block):
                    rep.bad(k, m.loc(c) or loc, 'reads more than the one documented argument')
                    return
        rep.unknown(k, 'argument read at several places')
        return
    rd = reads[0]
    if rd.ops[1] != '4':
        rep.bad(k, m.loc(rd) or loc, 'reads an argument of %s bytes where an int is documented' % rd.ops[1])
        return
    for x in pw:
        v = x.ops[0]
        d = f.defs.get(v)
        while d is not None and d.op in ('freeze', 'zext', 'sext', 'trunc') and d.ops[0] in f.defs:
            d = f.defs[d.ops[0]]
        if d is not None and d.op == 'load' and d.ops[0] == rd.name and d.type == 'i32':
            continue
        if d is None or d.op == 'load' and m.addr(f, d.ops[0])[0] == '%ctx0':
            rep.bad(k, m.loc(x) or loc, '%s is set to %s instead of the argument' % (fld, v if d is None else 'another context field'))
            return
        s = backward(f, [d])
        if rd not in s:
            rep.bad(k, m.loc(x) or loc, '%s is set to a value that does not depend on the argument' % fld)
            return
        if d.op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'xor', 'udiv', 'sdiv') and any(re.fullmatch(r'-?\d+', o) for o in d.ops):
            rep.bad(k, m.loc(x) or loc, '%s is set to a modification of the argument (%s)' % (fld, d.text.split(' = ')[-1].split(', !')[0]))
            return
        rep.unknown(k, 'value stored into %s not recognised' % fld)
        return
    # every return is reached through the store, unless through a warning
    stb = {x for x in pw}
    esc = paths_avoid(f, lambda x: x in stb or x.op == 'call' and (ir.callee(x) or '').startswith('logger_'))
    if esc:
        rep.bad(k, loc, 'some argument values are silently not stored into %s' % fld)
        return
    rep.ok(k)

def inexact(rep, b, sym, lay):
    """the perturbing call: arguments (type, address, precision)"""
    pre = bk.prelude(b) + '''#include <stdarg.h>
extern void %s(void *, interflop_call_id, va_list);
struct vlist { void **p; long n; };
void *vfc_va_next(void *ap, unsigned long n) { struct vlist *s = ap; s->n++; return *s->p++; }
''' % sym
    def h(nm, ty, prec, extra=''):
        return ('void %s(%s *ctx0, void *v) { %s x = *ctx0; %s int ty = %s; int pr = %s; void *q = v; void *A[8] = {&ty, &q, &pr}; struct vlist s = {A, 0};'
                ' %s(&x, INTERFLOP_INEXACT_ID, (void *)&s); }\n'
                'int n_%s(%s *ctx0, void *v) { %s x = *ctx0; %s int ty = %s; int pr = %s; void *q = v; void *A[8] = {&ty, &q, &pr}; struct vlist s = {A, 0};'
                ' %s(&x, INTERFLOP_INEXACT_ID, (void *)&s); return s.n; }\n') % (
                    nm, b.ctx, b.ctx, extra, ty, prec, sym, nm, b.ctx, b.ctx, extra, ty, prec, sym)
    hs, t = [], pre
    for ty, cty, own, oth in (('FFLOAT', 'float', 'binary32_precision', 'binary64_precision'), ('FDOUBLE', 'double', 'binary64_precision', 'binary32_precision')):
        for tag, prec, extra in (('e', '10', ''), ('z', '0', 'x.%s = 10;' % own), ('m', '-3', 'x.%s = 13;' % own)):
            n = 'i_%s_%s' % (ty, tag)
            t += h(n, ty, prec, extra)
            hs += [n, 'n_' + n]
    for ty in ('FFLOAT_PTR', 'FTYPES_END'):
        t += h('i_' + ty, ty, '10')
        hs += ['i_' + ty, 'n_i_' + ty]
    try:
        m = residual(b.bcs(('-D' + VA,)) + [bc_text(t, [b.dir])], hs, attrs={'logger_error': 'noreturn nounwind memory(inaccessiblemem: readwrite)'})
    except BuildError as e:
        rep.unknown(b.key + '/inexact', 'harness does not compile: ' + str(e)[-200:])
        return
    for ty in ('FFLOAT', 'FDOUBLE', 'FFLOAT_PTR', 'FTYPES_END'):
        tags = ('_e', '_z', '_m') if ty in ('FFLOAT', 'FDOUBLE') else ('',)
        txt = {}
        for tag in tags:
            f = m.funcs['i_' + ty + tag]
            k = '%s/inexact/%s%s' % (b.key, ty, {'_e': ' explicit precision', '_z': ' precision 0', '_m': ' negative precision', '': ''}[tag])
            loc = next((m.loc(x) for x in f.insts() if m.loc(x)), f.name)
            rep.count('user calls')
            nf = m.funcs['n_i_' + ty + tag]
            ns = {x.ops[0] for x in nf.insts() if x.op == 'ret'}
            if ns and all(re.fullmatch(r'\d+', x) for x in ns):
                if max(map(int, ns)) > 3:
                    rep.bad(k, loc, 'reads %s arguments, three are documented' % ns.pop())
                    continue
            st = [x for x in f.insts() if x.op == 'store' and not local(f, x.ops[1]) and not root(f, x.ops[1]).startswith('@')]
            if ty not in ('FFLOAT', 'FDOUBLE'):
                if st:
                    rep.bad(k, m.loc(st[0]) or loc, 'a type the call does not support is written through')
                else:
                    rep.ok(k)
                continue
            cty = 'float' if ty == 'FFLOAT' else 'double'
            rt_ = [x for x in f.insts() if x.op == 'load' and root(f, x.ops[0]) == '%v' and x.type not in (cty, {'float': 'i32', 'double': 'i64'}[cty])]
            if rt_:
                rep.bad(k, m.loc(rt_[0]) or loc, 'the %s value is read as a %s' % (cty, rt_[0].type))
                continue
            wrong = [x for x in st if root(f, x.ops[1]) != '%v']
            if wrong:
                rep.unknown(k, 'writes through ' + wrong[0].ops[1])
                continue
            bt = [x for x in st if x.optypes[0] not in (cty, {'float': 'i32', 'double': 'i64'}[cty])]
            if bt:
                rep.bad(k, m.loc(bt[0]) or loc, 'the %s value is written back as a %s' % (cty, bt[0].optypes[0]))
                continue
            if not st:
                rep.bad(k, loc, 'the value is never written back')
                continue
            own = lay.get('binary32_precision' if ty == 'FFLOAT' else 'binary64_precision')
            oth = lay.get('binary64_precision' if ty == 'FFLOAT' else 'binary32_precision')
            rd = set()
            for x in backward(f, st):
                if x.op == 'load':
                    r, o = m.addr(f, x.ops[0])
                    if r == '%ctx0':
                        rd.add(o)
            if oth in rd:
                rep.bad(k, loc, 'the perturbation of a %s value depends on the precision of the other format' % cty)
                continue
            if own in rd and tag == '_e':
                rep.bad(k, loc, 'an explicit precision is given and the result still depends on the configured one')
                continue
            txt[tag] = (canon(f), k, loc)
        if '_e' in txt:
            rep.ok(txt['_e'][1])
            for tag in ('_z', '_m'):
                if tag in txt:
                    k = txt[tag][1]
                    if txt[tag][0] == txt['_e'][0]:
                        rep.ok(k)
                    else:
                        d = constdiff(txt['_e'][0], txt[tag][0])
                        if d:
                            rep.bad(k, txt[tag][2], 'not the perturbation at the precision documented: %s instead of %s' % (d[1], d[0]))
                        else:
                            rep.unknown(k, 'cannot be compared with the explicit precision')

def perturbation(rep, b, sym):
    """the inexact call adds (draw - 1/2) * 2^(exponent - precision + 1) to the value it is given, in every mode but ieee"""
    t = bk.prelude(b) + '''#include <stdarg.h>
extern void %s(void *, interflop_call_id, va_list);
struct vlist { void **p; long n; };
void *vfc_va_next(void *ap, unsigned long n) { struct vlist *s = ap; s->n++; return *s->p++; }
''' % sym
    hs = []
    for ty, cty in (('FFLOAT', 'float'), ('FDOUBLE', 'double'), ('FQUAD', '_Float128')):
        for m in b.modes:
            for pr in (10, 24):
                h = 'p_%s_%s_%d' % (ty, m, pr)
                sets = ''.join('x.%s = %s; ' % kv for kv in dict(base_sets(b), mode=b.modes[m]).items())
                t += ('void %s(%s a, %s *res, const %s *ctx0) { %s x = *ctx0; %s int ty = %s; int pr = %d; %s v = a; void *q = &v; void *A[8] = {&ty, &q, &pr};'
                      ' struct vlist s = {A, 0}; %s(&x, INTERFLOP_INEXACT_ID, (void *)&s); *res = v; }\n' % (h, cty, cty, b.ctx, b.ctx, sets, ty, pr, cty, sym))
                hs.append((h, ty, m, pr))
    m_ = residual(b.bcs(('-D' + VA,)) + [bc_text(t, [b.dir])], [h[0] for h in hs], pure=True,
                  attrs={'logger_error': 'noreturn nounwind memory(inaccessiblemem: readwrite)'})
    for h, ty, mode, pr in hs:
        f = m_.funcs[h]
        cty = {'FFLOAT': 'float', 'FDOUBLE': 'double', 'FQUAD': 'fp128'}[ty]
        of = opsem.OpFn(m_, f)
        isx = lambda t: is_plain(t, '%a')
        loc = next((m_.loc(x) for x in f.insts() if m_.loc(x) and b.srcs[0].split('/')[-1] in str(m_.loc(x))), f.name)
        for cn, cls in (('normal', NORM), ('zero', ZERO), ('infinite', INF), ('NaN', NAN)):
            k = '%s/inexact/%s/%s/precision %d/%s value' % (b.key, ty, mode, pr, cn)
            rep.count('inexact calls')
            ai, T, (v, stores, why) = of.result({'%a': cls})
            if v is None:
                rep.unknown(k, why)
                continue
            bad = unk = None
            some = False
            for a in uniq(alternatives(v)):
                if args_of(a) != {'%a'}:
                    if a[0] == 'phi' or not args_of(a) and draws_of(a):
                        unk = show(a, 4)
                    else:
                        bad = 'the value becomes %s' % show(a, 4)
                    continue
                adds = terms_added(a, isx)
                if adds is None:
                    base, steps = norm_conv(a)
                    if base[0] == 'arg' and steps:
                        bad = 'the %s value is rounded to %s' % (cty, steps[-1])
                    else:
                        unk = show(a, 5)
                    continue
                base, steps = norm_conv(a)
                if adds and any(PREC[s] < PREC[cty] for s in steps):
                    bad = 'the %s value is rounded to %s' % (cty, [s for s in steps if PREC[s] < PREC[cty]][0])
                    continue
                if not adds:
                    continue
                sh = [s for n in adds for s in noise_shape(n)]
                if any(s[0] == 'unknown' for s in sh) or any(n[0] == 'int' for n in adds):
                    unk = show(a, 6)
                    continue
                if mode == 'ieee' or cls != NORM:
                    if all(s[0] == 'zero' for s in sh):
                        continue
                    bad = 'a %s value is perturbed%s' % (cn, ' in mode ieee' if mode == 'ieee' else '')
                    continue
                if len(adds) > 1:
                    bad = 'the value is perturbed %d times' % len(adds)
                for s in sh:
                    if s[0] == 'bad':
                        bad = s[1]
                    elif s[0] == 'scaled':
                        some = True
                        for l in s[2]:
                            es = [z for z in l if isinstance(z, tuple) and z[0] == 'E']
                            if any(isinstance(z, tuple) and z[0] == 't' for z in l):
                                unk = 'noise exponent %s' % showl(l)
                            elif len(es) != 1 or not isx(es[0][1]) or l != {es[0]: 1, 1: 1 - BIAS[es[0][1][1]] - pr}:
                                bad = 'the noise exponent is %s, expected the exponent of the value - %d' % (showl(l), pr - 1)
            if not bad and not unk and mode != 'ieee' and cls == NORM and not some:
                bad = 'the value is not perturbed in mode %s' % mode
            if bad:
                rep.bad(k, loc, bad)
            elif unk:
                rep.unknown(k, unk)
            else:
                rep.ok(k)

def canon(f):
    names, out = {}, []
    for l in f.order:
        names.setdefault('%' + l, 'B%d' % len(names))
    for l in f.order:
        out.append(names['%' + l] + ':')
        for i in f.blocks[l].insts:
            t = re.sub(r', !\w+.*$', '', i.text.strip())
            t = re.sub(r'%"?[\w.$-]+"?', lambda m: names.setdefault(m.group(0), 'v%d' % len(names)), t)
            out.append(t)
    return out

def constdiff(a, b):
    """same program but for integer constants -> the first difference"""
    if len(a) != len(b):
        return None
    d = [(x, y) for x, y in zip(a, b) if x != y]
    for x, y in d:
        if re.sub(r'-?\b\d+\b', '#', x) != re.sub(r'-?\b\d+\b', '#', y):
            return None
    return d[0] if d else None

def run(rep, tier):
    rep.rule = RULE
    fan_out(rep, tier)
    for key in bk.B:
        try:
            backend(rep, bk.B[key])
        except BuildError as e:
            rep.unknown(key, 'does not compile: ' + str(e)[-300:])
    rep.floor('backend tables', 12)
    rep.floor('user calls', 20)
    rep.floor('inexact calls', 60)
