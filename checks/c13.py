"""C13: binary32 and binary64 settings are independent."""
from engine import backends as bk, opsem, ir
from engine.noise import *
from engine.lin import ctx_off, cint
from engine.slice import backward, root
from engine.build import residual, bc_text, BuildError
import re

TECH = 'static analysis: program slicing (data and control dependence of every result on context fields and statics)'
NOTE = ('Every operation except double-to-float conversions of the MCA, bitmask, cancellation and VPREC backends, context left symbolic; '
        'and the effect of the per-format precision and range setters.')
RULE = ('Each operation entry point is specialised with a symbolic context; the backward slice of the stored result over data and control '
        'dependence lists the context fields and static variables the result depends on. A binary32 operation may not depend on a binary64 '
        'setting and conversely. A setter of one format may store only to that format\'s own fields and statics.')
F32 = ['binary32_precision', 'binary32_range']
F64 = ['binary64_precision', 'binary64_range']

def ctx_loads(mod, f, ins, ctx='%ctx0'):
    """byte offsets of context memory read by the instructions (None: offset not constant)"""
    out = {}
    for i in ins:
        if i.op == 'load':
            p = i.ops[0]
        elif i.op == 'call' and (ir.callee(i) or '').startswith('llvm.memcpy'):
            p = i.ops[1]
        else:
            continue
        r, off = mod.addr(f, p)
        if r == ctx:
            out[off] = i
    return out

def run(rep, tier):
    rep.rule = RULE
    for key in ('mcaquad', 'mcaint', 'bitmask', 'cancellation', 'vprec'):
        b = bk.B[key]
        lay = bk.layout(b, F32 + F64)
        o32 = {lay[x]: x for x in F32 if x in lay}
        o64 = {lay[x]: x for x in F64 if x in lay}
        if key != 'cancellation' and not (o32 and o64):
            rep.unknown(key, 'settings not found in the context')
            continue
        w, _ = bk.wiring(b)
        hs = []
        for slot in bk.SLOTS:
            sym = w.get(slot)
            if isinstance(sym, str) and not slot.startswith('cast'):
                params, rt = bk.SLOTS[slot]
                sig = ', '.join('%s %s' % p for p in params)
                proto = ', '.join(t for t, _ in params) + ', %s *, void *' % rt
                t = ('extern void %s(%s);\n' % (sym, proto) if not sym.startswith(b.prefix) else '')
                t += 'void h_%s(%s, %s *res, %s *ctx0) { %s(%s, res, ctx0); }\n' % (slot, sig, rt, b.ctx, sym, ', '.join(n for _, n in params))
                hs.append(('h_' + slot, t))
        mod = bk.op_module(b, hs, pure=True)
        statics, reads = {}, {'float': set(), 'double': set()}
        for slot in [h[0][2:] for h in hs]:
            f = mod.funcs['h_' + slot]
            stores = [i for i in f.insts() if i.op == 'store' and i.ops[1] == '%res']
            k = '%s/%s' % (key, slot)
            rep.count('operations sliced')
            if not stores:
                rep.unknown(k, 'no store of the result')
                continue
            ins = backward(f, stores)
            rd = ctx_loads(mod, f, ins)
            is32 = bk.SLOTS[slot][1] == 'float'
            foreign = o64 if is32 else o32
            rep.count('context fields read', len(rd))
            reads[bk.SLOTS[slot][1]] |= set(rd)
            hit = [foreign[o] for o in rd if o in foreign]
            loc = mod.loc(stores[-1]) or f.name
            for i in ins:
                if i.op == 'load':
                    r = root(f, i.ops[0])
                    if r.startswith('@') and not r.startswith('@.str'):
                        statics.setdefault(r, set()).add(slot)
            if hit:
                rep.bad(k, loc, 'the result of a %s operation depends on %s' % ('binary32' if is32 else 'binary64', ', '.join(sorted(hit))))
            else:
                rep.ok(k)
        # a static read by operations of both formats and written by a format's setter mixes the formats
        check_setters(rep, b, statics, reads, o32, o64)
    rep.floor('operations sliced', 30)
    rep.floor('context fields read', 60)

SETTERS = {  # backend -> (user call / configure based harness for each format)
    'mcaquad': 'interflop_mcaquad_user_call', 'mcaint': 'interflop_mcaint_user_call', 'bitmask': 'interflop_bitmask_user_call',
    'vprec': 'interflop_vprec_user_call'}

def check_setters(rep, b, statics, reads, o32, o64):
    """stores made by the precision/range user calls of one format"""
    if b.key not in SETTERS:
        return
    w, _ = bk.wiring(b)
    sym = w.get('user_call')
    if not isinstance(sym, str):
        return
    t = bk.prelude(b) + '#include <stdarg.h>\nextern void %s(void *, interflop_call_id, va_list);\n' % sym
    hs = []
    for fm in (32, 64):
        for what in ('PRECISION', 'RANGE'):
            if what == 'RANGE' and b.key != 'vprec':
                continue
            h = 's_%s_%d' % (what, fm)
            t += 'void %s(%s *ctx0, va_list ap) { %s(ctx0, INTERFLOP_SET_%s_BINARY%d, ap); }\n' % (h, b.ctx, sym, what, fm)
            hs.append((h, fm, what))
    try:
        m = residual(b.bcs() + [bc_text(t, [b.dir])], [h[0] for h in hs])
    except BuildError as e:
        rep.unknown(b.key + '/setters', 'harness does not compile')
        return
    for h, fm, what in hs:
        f = m.funcs[h]
        own, foreign = (o32, o64) if fm == 32 else (o64, o32)
        k = '%s/user call set %s binary%d' % (b.key, what.lower(), fm)
        rep.count('setters')
        bad, wrote = None, False
        for i in f.insts():
            if i.op != 'store':
                continue
            r, o = m.addr(f, i.ops[1])
            loc = m.loc(i) or f.name
            if r == '%ctx0':
                if o is None:
                    continue
                if o in own:
                    wrote = True
                elif o in foreign:
                    bad = 'stores to %s' % foreign[o]
                elif o in reads['double' if fm == 32 else 'float']:
                    bad = 'stores to context offset %d, which operations of the other format read' % o
            elif r.startswith('@') and r in statics:
                sl = {bk.SLOTS[s][1] for s in statics[r]}
                if sl != {'float' if fm == 32 else 'double'}:
                    bad = 'stores to %s, which operations of the other format read' % r
            if bad:
                break
        if bad:
            rep.bad(k, loc, bad)
        elif not wrote:
            rep.unknown(k, 'no store to the setting found')
        else:
            rep.ok(k)
