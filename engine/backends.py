"""Descriptions of the backends and generation of specialisation harnesses."""
import os
from .build import BK, STD, bc, bc_text, residual, BuildError

class Backend:
    def __init__(self, key, dirname, srcs, header, ctx, modes, prefix, **k):
        self.key, self.ctx, self.modes, self.prefix = key, ctx, modes, prefix
        self.dir = os.path.join(BK, dirname)
        self.srcs = [os.path.join(self.dir, s) for s in srcs]
        self.header = os.path.join(self.dir, header)
        self.__dict__.update(k)
    def allsrcs(self):
        """every source the backend's own build file lists"""
        out = list(self.srcs)
        try: t = open(os.path.join(self.dir, 'Makefile.am')).read().replace('\\\n', ' ')
        except OSError: t = ''
        for ln in t.split('\n'):
            if '_la_SOURCES' not in ln or '=' not in ln: continue
            for w in ln.split('=', 1)[1].split():
                p = os.path.join(self.dir, w)
                if w.endswith('.c') and os.path.exists(p) and p not in out: out.append(p)
        return out
    def bcs(self, extra=()):
        return [bc(s, tuple(extra)) for s in self.srcs]

B = {}
def _b(*a, **k):
    x = Backend(*a, **k)
    B[x.key] = x
_b('ieee', 'interflop-backend-ieee', ['interflop_ieee.c'], 'interflop_ieee.h', 'ieee_context_t', {}, 'interflop_ieee_')
_b('mcaquad', 'interflop-backend-mcaquad', ['interflop_mca.c'], 'interflop_mca.h', 'mcaquad_context_t',
   {m: 'mcaquad_mode_' + m for m in ('ieee', 'mca', 'pb', 'rr')}, 'interflop_mcaquad_',
   inbound=('mca', 'pb'), outbound=('mca', 'rr'), full='mca', ib='pb', ob='rr')
_b('mcaint', 'interflop-backend-mcaint', ['interflop_mca_int.c'], 'interflop_mca_int.h', 'mcaint_context_t',
   {m: 'mcaint_mode_' + m for m in ('ieee', 'mca', 'pb', 'rr')}, 'interflop_mcaint_',
   inbound=('mca', 'pb'), outbound=('mca', 'rr'), full='mca', ib='pb', ob='rr')
_b('bitmask', 'interflop-backend-bitmask', ['interflop_bitmask.c'], 'interflop_bitmask.h', 'bitmask_context_t',
   {m: 'bitmask_mode_' + m for m in ('ieee', 'full', 'ib', 'ob')}, 'interflop_bitmask_',
   inbound=('full', 'ib'), outbound=('full', 'ob'), full='full', ib='ib', ob='ob')
_b('cancellation', 'interflop-backend-cancellation', ['interflop_cancellation.c'], 'interflop_cancellation.h',
   'cancellation_context_t', {}, 'interflop_cancellation_')
_b('vprec', 'interflop-backend-vprec',
   ['interflop_vprec.c', 'common/vprec_tools.c'], 'interflop_vprec.h', 'vprec_context_t',
   {m: 'vprecmode_' + m for m in ('ieee', 'full', 'ib', 'ob')}, 'interflop_vprec_',
   inbound=('full', 'ib'), outbound=('full', 'ob'), full='full', ib='ib', ob='ob')

# operation slots: name -> (params, result type)
SLOTS = {}
for ty in ('float', 'double'):
    for op in ('add', 'sub', 'mul', 'div'):
        SLOTS['%s_%s' % (op, ty)] = ([(ty, 'a'), (ty, 'b')], ty)
    SLOTS['fma_' + ty] = ([(ty, 'a'), (ty, 'b'), (ty, 'c')], ty)
SLOTS['cast_double_to_float'] = ([('double', 'a')], 'float')
CMPS = {'cmp_float': 'float', 'cmp_double': 'double'}
ALLSLOTS = list(SLOTS) + list(CMPS)

def prelude(b):
    return ('#include "interflop/interflop.h"\n#include "%s"\n#include "interflop/interflop_stdlib.h"\n'
            % b.header)

def wiring(b):
    """slot -> symbol (or None) of the table returned by the exported interflop_init, read off the residual IR"""
    slots = ALLSLOTS + ['enter_function', 'exit_function', 'user_call', 'finalize']
    t = prelude(b) + 'struct interflop_backend_interface_t interflop_init(void *);\n'
    for s in slots:
        t += 'void *w_%s(void *c) { struct interflop_backend_interface_t i = interflop_init(c); return (void*)i.interflop_%s; }\n' % (s, s)
    m = residual(b.bcs() + [bc_text(t, [b.dir])], ['w_' + s for s in slots])
    out = {}
    for s in slots:
        f = m.funcs['w_' + s]
        rets = [i.ops[0] for i in f.insts() if i.op == 'ret']
        if len(rets) != 1 or not (rets[0] == 'null' or rets[0].startswith('@')):
            out[s] = ('?', rets)
        else:
            out[s] = None if rets[0] == 'null' else rets[0][1:]
    return out, m

def op_harness(b, sym, slot, hname, sets, consts=None, pre_code=''):
    """C text of a harness calling slot's implementation sym with context fields fixed.
    sets: dict field->C expression; consts: dict param->C expression"""
    consts = consts or {}
    if slot in SLOTS:
        params, rt = SLOTS[slot]
        sig = ', '.join('%s %s' % p for p in params) + ', %s *res' % rt
        proto = ', '.join(t for t, _ in params) + ', %s *, void *' % rt
        call = ', '.join(consts.get(n, n) for _, n in params)
    else:
        ty = CMPS[slot]
        sig = 'enum FCMP_PREDICATE p, %s a, %s b, int *res' % (ty, ty)
        proto = 'enum FCMP_PREDICATE, %s, %s, int *, void *' % (ty, ty)
        call = ', '.join(consts.get(n, n) for n in ('p', 'a', 'b'))
    pre = 'extern void %s(%s);\n' % (sym, proto) if not sym.startswith(b.prefix) else ''
    body = ''.join('  x.%s = %s;\n' % kv for kv in sets.items())
    return pre + 'void %s(%s, const %s *ctx0) {\n  %s x = *ctx0;\n%s%s  %s(%s, res, &x);\n}\n' % (
        hname, sig, b.ctx, b.ctx, pre_code, body, sym, call)

def op_module(b, harnesses, extra_bcs=(), opaque=(), pure=False):
    """harnesses: list of (hname, text)"""
    t = prelude(b) + ''.join(x for _, x in harnesses)
    return residual(b.bcs() + [bc_text(t, [b.dir])] + list(extra_bcs), [h for h, _ in harnesses], opaque=opaque, pure=pure)

_lay = {}
def layout(b, fields):
    """byte offset of each named context field (missing ones left out), read off the compiler's layout"""
    fields = tuple(fields)
    k = (b.key, fields)
    if k not in _lay:
        out = {}
        def ask(fs):
            t = prelude(b) + ''.join('int o_%s(void) { return __builtin_offsetof(%s, %s); }\n' % (f, b.ctx, f) for f in fs)
            m = residual([bc_text(t, [b.dir])], ['o_' + f for f in fs])
            for f in fs:
                r = [i for i in m.funcs['o_' + f].insts() if i.op == 'ret'][0]
                out[f] = int(r.ops[0])
        try:
            ask(fields)
        except BuildError:
            for f in fields:
                try:
                    ask([f])
                except BuildError:
                    pass
        _lay[k] = out
    return _lay[k]
