"""The error reporter ends the program: shared obligation of the checks that rely on it."""
import os
from .build import STD, bc, residual
from . import ir

def paths_avoid(f, pred):
    """a block path from the entry to a return on which no instruction satisfies pred (list of labels), or None"""
    st, seen = [(f.order[0], (f.order[0],))], set()
    while st:
        l, p = st.pop()
        if l in seen:
            continue
        seen.add(l)
        b = f.blocks[l]
        if any(pred(i) for i in b.insts):
            continue
        if b.insts[-1].op == 'ret':
            return p
        for s in b.succs:
            st.append((s, p + (s,)))
    return None

def logger_exits(rep):
    """every path through logger_error calls the exit service with a non-zero status"""
    src = os.path.join(STD, 'iostream', 'logger.c')
    m = residual([bc(src, gcc_branch=False)], ['logger_error'])
    f = m.funcs.get('logger_error')
    k = 'errors end the program'
    if f is None or f.is_decl:
        rep.unknown(k, 'logger_error not found')
        return
    def exits(i):
        if i.op != 'call':
            return False
        c = ir.callee(i)
        if c in ('exit', '_exit', 'abort', 'interflop_exit'):
            return True
        d = f.defs.get(i.extra['callee'])
        return d is not None and d.op == 'load' and d.ops[0] in ('@interflop_exit', '@interflop_panic', '@panic')
    rep.count('error reporter paths')
    ex = [i for i in f.insts() if exits(i)]
    if not ex:
        rep.bad(k, src + ' (logger_error)', 'logger_error returns to its caller: no path calls the exit service')
        return
    p = paths_avoid(f, exits)
    if p:
        rep.bad(k, m.loc(f.blocks[p[-1]].insts[-1]) or src, 'logger_error returns without ending the program on the path %s' % ' -> '.join(p))
        return
    z = [i for i in ex if i.ops and i.ops[0] == '0' and (ir.callee(i) or '') != 'abort']
    rep.check(not z, k, (m.loc(z[0]) if z else None) or src, 'an error ends the program with status 0')
