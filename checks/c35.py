"""C35: the operation counters of the IEEE backend."""
import re
from engine import backends as bk, opsem
from engine.build import residual, bc_text, PIPE, BuildError

TECH = 'static analysis: partial evaluation of every operation and of the report to the change of each counter, compared with the one the operation demands'
NOTE = ('Every operation of the IEEE backend, counting on and off, without debug output; the report for one symbolic state with distinct counters. '
        'That the updates are atomic is C08.')
RULE = ('Each operation is specialised to counting on or off, and the difference that it makes to each of the five counters is computed as a constant: one for the counter of the '
        'operation and none for the others when counting is on, none at all when it is off (comparisons and conversions never count). In the report, '
        'each name must be printed with the value of its own counter, and nothing is printed when counting is off.')
KINDS = ('mul', 'div', 'add', 'sub', 'fma')
LPIPE = 'function(loweratomic),' + PIPE

def deltas(rep, b):
    w, _ = bk.wiring(b)
    hs = []
    for slot in bk.ALLSLOTS:
        sym = w.get(slot)
        if not isinstance(sym, str):
            rep.unknown('ieee/' + slot, 'not implemented')
            continue
        for on in (0, 1):
            h = 'h_%s_%d' % (slot, on)
            t = bk.op_harness(b, sym, slot, h, {'count_op': str(on), 'debug': '0', 'debug_binary': '0'})
            t = t.replace('const %s *ctx0' % b.ctx, 'const %s *ctx0, %s' % (b.ctx, ', '.join('unsigned long *restrict d_' + k for k in KINDS)))
            t = t.replace('*res,', '*restrict res,').replace('const %s *ctx0' % b.ctx, 'const %s *restrict ctx0' % b.ctx)
            e = t.rindex('}')
            t = t[:e] + ''.join('  *d_%s = x.%s_count - c_%s;\n' % (k, k, k) for k in KINDS) + t[e:]
            t = re.sub(r'( x = \*ctx0;\n)', lambda m: m[1] + ''.join('  const unsigned long c_%s = x.%s_count;\n' % (k, k) for k in KINDS), t)
            hs.append((slot, on, h, t))
    m = residual(b.bcs() + [bc_text(bk.prelude(b) + ''.join(x[3] for x in hs), [b.dir])], [x[2] for x in hs], pipe=LPIPE)
    for slot, on, h, _ in hs:
        of = opsem.OpFn(m, m.funcs[h])
        ai = opsem.AbsInt(of.f, {})
        T = opsem.Terms(of.f, ai)
        rep.count('operations specialised')
        for k in KINDS:
            key = 'ieee/%s/%s/%s' % (slot, 'counting' if on else 'not counting', k)
            v, sts, why = opsem.final_store(of.f, ai, T, '%d_' + k)
            c = int(v[2]) if v is not None and v[0] == 'const' and re.fullmatch(r'-?\d+', str(v[2])) else None
            if c is None:
                rep.unknown(key, why if v is None else 'change is %s' % opsem.show(v, 4))
                continue
            want = int(bool(on) and slot.split('_')[0] == k)
            rep.check(c == want, key, locate(b, w[slot]), '%s changes the %s counter by %d (expected %d) when counting is %s' % (slot, k, c, want, 'on' if on else 'off'))

def locate(b, sym):
    return '%s (%s)' % (b.srcs[0], sym)

def report(rep, b):
    w, _ = bk.wiring(b)
    sym = w.get('finalize')
    if not isinstance(sym, str):
        rep.unknown('ieee/report', 'no finalize')
        return
    val = {k: (1 << 40) + 1001 + 37 * n for n, k in enumerate(KINDS)}
    t = bk.prelude(b) + ('extern void %s(void *);\n' % sym if not sym.startswith(b.prefix) else '')
    for on in (0, 1):
        t += 'void r_%d(void) { %s x = {0}; x.count_op = %d; %s %s(&x); }\n' % (on, b.ctx, on, ' '.join('x.%s_count = %dul;' % kv for kv in val.items()), sym)
    m = residual(b.bcs() + [bc_text(t, [b.dir])], ['r_0', 'r_1'], pipe=LPIPE)
    for on in (0, 1):
        out, odd = '', None
        order = m.funcs['r_%d' % on]
        for i in order.insts():
            if i.op in ('br', 'switch', 'phi') :
                odd = 'the report is not straight code'
            if i.op not in ('call', 'invoke') or len(i.ops) < 2:
                continue
            args = [m.string(o) for o in i.ops]
            fi = [n for n, a in enumerate(args) if a is not None]
            if not fi:
                continue
            fm, rest = args[fi[0]], list(i.ops[fi[0] + 1:])
            def sub(x):
                if x[0] == '%%': return '%'
                if not rest: return '?'
                o = rest.pop(0)
                if x[0].endswith('s'): return m.string(o) or '?'
                if not re.fullmatch(r'-?\d+', o): return '?'
                if x[0][-1] not in 'diu': return '?'
                if x[0][-2] in 'ljzt': return o
                n = int(o) & 0xffffffff
                return str(n - (1 << 32) if n >> 31 and x[0][-1] != 'u' else n)
            out += re.sub(r'%[-+ #0]*\d*(?:\.\d+)?(?:hh|h|ll|l|j|z|t)?[a-zA-Z%]', sub, fm)
        rep.count('reports evaluated')
        if not on:
            if odd: rep.unknown('ieee/report/not counting', odd)
            else: rep.check(not re.search(r'\d{4}', out), 'ieee/report/not counting', locate(b, sym), 'the counters are reported although counting is off')
            continue
        for k in KINDS:
            key = 'ieee/report/' + k
            if odd or '?' in out:
                rep.unknown(key, odd or 'printed: %r' % out)
                continue
            x = re.search(r'\b%s\w*\s*[=:]?\s*(-?\d+)' % k, out)
            if not x:
                rep.unknown(key, 'printed: %r' % out)
            else:
                rep.check(int(x[1]) == val[k], key, locate(b, sym), 'the report gives the value of %s as the number of %s' % (dict((v, n) for n, v in val.items()).get(int(x[1]), x[1]), k))

def run(rep, tier):
    rep.rule = RULE
    b = bk.B['ieee']
    try: deltas(rep, b)
    except BuildError as e: rep.unknown('ieee/counters', str(e)[:300])
    try: report(rep, b)
    except BuildError as e: rep.unknown('ieee/report', str(e)[:300])
    rep.floor('operations specialised', 20)
    rep.assumptions.append('debug output is off; the counters are named add_count, ... in the context')
