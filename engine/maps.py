"""Iterations over the hash map of the library (vfc_hashmap): which items a loop over get_value_at visits."""
import os, re
from . import ir
from .build import REPO, bc, residual, BuildError

SRC = os.path.join(REPO, 'src/interflop-stdlib/hashmap/vfc_hashmap.c')

def capacity_offset():
    """(offset of the number of slots, offset of the slots) in the map, from the constructor; None when not recognised"""
    m = residual([bc(SRC)], ('vfc_hashmap_create',), pipe='mem2reg,instcombine,simplifycfg')
    f = m.funcs['vfc_hashmap_create']
    for i in f.insts():
        if i.op != 'store': continue
        d = f.defs.get(i.ops[0])
        if d is None or d.op != 'call' or len(d.ops) != 2 or m.addr(f, i.ops[1])[1] in (None, 0) and d is f.defs.get(m.addr(f, i.ops[1])[0]): continue
        cap = d.ops[0]
        offs = {m.addr(f, j.ops[1])[1] for j in f.insts() if j.op == 'store' and (j.ops[0] == cap)}
        e = f.defs.get(cap)
        if e is not None and e.op == 'load': offs |= {m.addr(f, e.ops[0])[1]}
        if len(offs) == 1: return next(iter(offs)), m.addr(f, i.ops[1])[1]
    return None

def visited(m, f, item, facts, cap):
    """Does the loop that obtains the item (a get_value_at call result) visit all slots? -> (True, None), (False, why), (None, why)"""
    d = f.defs.get(item)
    while d is not None and d.op in ('inttoptr', 'bitcast', 'freeze'): d = f.defs.get(d.ops[0])
    if d is None or d.op != 'call' or ir.callee(d) != 'get_value_at': return None, 'the items do not come from get_value_at'
    ii = d.ops[1]; ph = f.defs.get(ii)
    if ph is None or ph.op != 'phi': return None, 'the slot is not a loop counter'
    init = [v for v, l in ph.extra['inc'] if re.match(r'-?\d+$', v)]
    step = [f.defs.get(v) for v, l in ph.extra['inc'] if not re.match(r'-?\d+$', v)]
    if len(init) != 1 or len(step) != 1 or step[0] is None or step[0].op != 'add' or step[0].ops[0] != ii or not step[0].ops[1].lstrip('-').isdigit(): return None, 'the progress of the loop is not recognised'
    if step[0].ops[1] != '1': return (False, 'the loop advances by %s slots' % step[0].ops[1]) if step[0].ops[1] != '-1' else (None, 'backward loop')
    if init[0] != '0': return False, 'the loop starts at slot %s' % init[0]
    for a, q, c in facts(d.block):
        if a == ii and q in ('ult', 'ule', 'ne', 'slt'):
            l = f.defs.get(c)
            if l is None or l.op != 'load': return (False, 'the loop ends at slot %s' % c) if re.match(r'\d+$', c) else (None, 'end of the loop not recognised')
            o = m.addr(f, l.ops[0])[1]
            if o is None: return None, 'end of the loop not recognised'
            # same map as the slots
            it = f.defs.get(d.ops[0])
            if it is None or it.op != 'load': return None, 'slots not recognised'
            if o != cap[0]: return False, 'the loop ends at the field at offset %d of the map, its number of slots is at offset %d' % (o, cap[0])
            if q == 'ule': return False, 'the loop visits one slot too many'
            return True, None
    return None, 'end of the loop not found'
