"""Rules for the hash map of the library (vfc_hashmap): what is inserted is found again, whatever the history.

From the inlined IR of each operation the probe sequence is extracted (first slot as a term of the key, step), the slots it reads and writes, the exits of the search and the growth of the table.
"""
import math, os, re
from . import ir
from .bounds import PIPE
from .build import REPO, bc, residual, BuildError
from .maps import SRC

FILE = 'src/interflop-stdlib/hashmap/vfc_hashmap.c'
OPS = ('vfc_hashmap_insert', 'vfc_hashmap_get', 'vfc_hashmap_have', 'vfc_hashmap_remove')
KEEP = OPS + ('vfc_hashmap_create', 'vfc_hashmap_str_function', 'vfc_hashmap_num_items', 'vfc_hashmap_free')

NUM = re.compile(r'-?\d+$')

class Odd(Exception): pass

class Fn:
    def __init__(self, m, f): self.m, self.f = m, f
    def lin(self, v, n=0):
        """linear form over the values of the function: {name: coefficient, 1: constant}"""
        if NUM.match(v): return {1: int(v)} if int(v) else {}
        d = self.f.defs.get(v)
        if d is None or n > 20: return {v: 1}
        def mul(a, k): return {x: c * k for x, c in a.items()}
        def add(a, b):
            o = dict(a)
            for x, c in b.items():
                o[x] = o.get(x, 0) + c
                if not o[x]: del o[x]
            return o
        if d.op == 'add': return add(self.lin(d.ops[0], n + 1), self.lin(d.ops[1], n + 1))
        if d.op == 'sub': return add(self.lin(d.ops[0], n + 1), mul(self.lin(d.ops[1], n + 1), -1))
        if d.op == 'shl' and NUM.match(d.ops[1]): return mul(self.lin(d.ops[0], n + 1), 1 << int(d.ops[1]))
        if d.op == 'mul' and NUM.match(d.ops[1]): return mul(self.lin(d.ops[0], n + 1), int(d.ops[1]))
        if d.op == 'or' and NUM.match(d.ops[1]):
            a = self.lin(d.ops[0], n + 1); k = int(d.ops[1])
            if k > 0 and all(c % (1 << k.bit_length()) == 0 for c in a.values()): return add(a, {1: k})
        if d.op in ('freeze',): return self.lin(d.ops[0], n + 1)
        return {v: 1}
    def slot(self, p):
        """(base, slot value, byte offset in the slot) of an address in the table; None when it is no such address"""
        tot = {}; base = p
        d = self.f.defs.get(base)
        while d is not None and d.op == 'getelementptr':
            src = d.extra['src']
            size = {'i64': 8, 'i8': 1, 'ptr': 8, 'i32': 4}.get(src)
            if size is None or len(d.ops) != 2: break
            for x, c in self.lin(d.ops[1]).items(): tot[x] = tot.get(x, 0) + c * size
            base = d.ops[0]; d = self.f.defs.get(base)
        vs = [(x, c) for x, c in tot.items() if x != 1]
        if len(vs) != 1: return None
        return base, vs[0][0], tot.get(1, 0), vs[0][1]
    def field(self, v):
        """offset of the field of the map that a value was loaded from"""
        d = self.f.defs.get(v)
        if d is None or d.op != 'load': return None
        r, o = self.m.addr(self.f, d.ops[0])
        return o if r == self.f.argnames()[0] else None
    def facts(self, block):
        """conditions that hold in a block: set of (pred, a, b), from branches and switches of single predecessors"""
        out = []
        f = self.f
        b = block; n = 0
        seen = set()
        while b is not None and b not in seen and n < 60:
            seen.add(b); n += 1
            preds = [p for p in f.blocks if b in f.blocks[p].succs]
            if len(preds) == 1:
                t = f.blocks[preds[0]].insts[-1]
                out += self.edge(t, b)
                b = preds[0]
            else: b = f.idom().get(b)
        return out
    def edge(self, t, b):
        f = self.f
        if t.op == 'br' and t.ops:
            ls = t.extra['labels']
            if ls[0] == ls[1]: return []
            return self.cond(t.ops[0], ls[0] == b)
        if t.op == 'switch':
            vs = [int(v) for v, l in t.extra['cases'] if l == b]
            dflt = t.extra.get('default')
            if dflt == b and not vs: return [('ne', t.ops[0], str(int(v))) for v, l in t.extra['cases']]
            if vs and dflt != b: return [('in', t.ops[0], tuple(sorted(vs)))]
        return []
    def cond(self, c, truth, n=0):
        d = self.f.defs.get(c)
        if d is None or n > 8: return []
        if d.op == 'icmp':
            p = d.extra['pred']
            if not truth: p = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}[p]
            return [(p, d.ops[0], d.ops[1])]
        if d.op == 'xor' and d.ops[1] == 'true': return self.cond(d.ops[0], not truth, n + 1)
        if d.op == 'and' and truth or d.op == 'or' and not truth: return self.cond(d.ops[0], truth, n + 1) + self.cond(d.ops[1], truth, n + 1)
        if d.op == 'select':
            if d.ops[2] == 'false' and truth: return self.cond(d.ops[0], True, n + 1) + self.cond(d.ops[1], True, n + 1)
            if d.ops[1] == 'true' and not truth: return self.cond(d.ops[0], False, n + 1) + self.cond(d.ops[2], False, n + 1)
        return []

def zero(fa, v): return any(p == 'eq' and (a == v and b == '0' or b == v and a == '0') or p == 'in' and a == v and b == (0,) or p == 'ult' and a == v and b == '1' for p, a, b in fa)
def free_(fa, v): return zero(fa, v) or any(p == 'in' and a == v and set(b) <= {0, 1} or p == 'ult' and a == v and b == '2' or p == 'eq' and a == v and b == '1' for p, a, b in fa)

def term(fn, v, names, n=0):
    """canonical text of an integer expression over named values"""
    if v in names: return names[v]
    if NUM.match(v): return v
    d = fn.f.defs.get(v)
    if d is None or n > 20: raise Odd('value ' + v)
    if d.op == 'load' and fn.field(v) is not None: return 'field%d' % fn.field(v)
    if d.op in ('mul', 'add', 'xor', 'and', 'or', 'shl', 'lshr', 'urem', 'sub'):
        a, b = term(fn, d.ops[0], names, n + 1), term(fn, d.ops[1], names, n + 1)
        # keeping the low 32 bits of a slot number changes nothing below 2^32 slots
        if d.op == 'and' and '4294967295' in (a, b) and n == 0: return b if a == '4294967295' else a
        if d.op in ('mul', 'add', 'xor', 'and', 'or') and a > b: a, b = b, a
        return '%s(%s,%s)' % (d.op, a, b)
    raise Odd('operation ' + d.op)

def masked(fn, v, maskoff, newmask=()):
    """v = mask & x -> x"""
    d = fn.f.defs.get(v)
    if d is None or d.op != 'and': return None
    for a, b in ((0, 1), (1, 0)):
        if fn.field(d.ops[a]) == maskoff or d.ops[a] in newmask: return d.ops[b]
    return None

def sequence(fn, s, maskoff, newmask=()):
    """(first slot before masking, step) of the probe sequence whose current slot is s"""
    f = fn.f
    d = f.defs.get(s)
    x = masked(fn, s, maskoff, newmask)
    if x is not None:
        ph = f.defs.get(x)
        if ph is None or ph.op != 'phi': raise Odd('the slot does not advance')
        init, step = [], []
        for v, l in ph.extra['inc']:
            k = fn.lin(v)
            (step if k.get(s) == 1 and set(k) <= {s, 1} else init).append(v)
        if len(set(init)) != 1 or not step: raise Odd('probe sequence')
        cs = {fn.lin(v).get(1, 0) for v in step}
        if len(cs) != 1: raise Odd('probe sequence')
        return init[0], cs.pop()
    if d is not None and d.op == 'phi':
        init, cs = set(), set()
        for v, l in d.extra['inc']:
            y = masked(fn, v, maskoff, newmask)
            if y is None: raise Odd('a slot that is not masked')
            k = fn.lin(y)
            if k.get(s) == 1 and set(k) <= {s, 1}: cs.add(k.get(1, 0))
            else: init.add(y)
        if len(init) == 1 and len(cs) == 1: return init.pop(), cs.pop()
    raise Odd('probe sequence')

def accesses(fn, itoff, bases=()):
    """reads and writes of the table: list of (instruction, base, slot, offset in the slot)"""
    out = []
    for i in fn.f.insts():
        if i.op not in ('load', 'store'): continue
        r = fn.slot(i.ops[-1] if i.op == 'store' else i.ops[0])
        if r is None: continue
        base, s, o, c = r
        if fn.field(base) == itoff or base in bases:
            if c != 16: raise Odd('slots of %s bytes' % c)
            out.append((i, base, s, o))
    return out

def layout(m):
    """offsets of the fields and initial size, from the constructor"""
    f = m.funcs['vfc_hashmap_create']
    st = {}
    alloc = None
    for i in f.insts():
        if i.op == 'store':
            r, o = m.addr(f, i.ops[1])
            st.setdefault(o, []).append(i.ops[0])
        if i.op == 'call' and len(i.ops) == 2 and i.ops[1] == '16': alloc = i
    if alloc is None: raise Odd('allocation of the slots')
    it = [o for o, vs in st.items() if alloc.name in vs]
    cap = alloc.ops[0]
    if not NUM.match(cap) or len(it) != 1: raise Odd('initial size')
    cap = int(cap)
    co = [o for o, vs in st.items() if vs == [str(cap)]]
    mo = [o for o, vs in st.items() if vs == [str(cap - 1)]]
    return dict(items=it[0], cap=co, mask=mo, init=cap, st=st, alloc=alloc)

def decide(rep, pre=''):
    """all the rules; pre: prefix of the keys"""
    try: m = residual([bc(SRC)], KEEP, pipe=PIPE)
    except BuildError as e: rep.unknown(pre + 'map', str(e)[:200]); return
    missing = [n for n in KEEP if n not in m.funcs or m.funcs[n].is_decl]
    if missing: rep.unknown(pre + 'map', 'no ' + ', '.join(missing)); return
    rep.count('map operations', len(KEEP))
    try: L = layout(m)
    except Odd as e: rep.unknown(pre + 'map: constructor', str(e)); return
    c = L['init']
    if not rep.check(c > 1 and c & (c - 1) == 0, pre + 'map: constructor', FILE, 'the initial table has %d slots: a power of two is needed by the probe sequences' % c): return
    if len(L['mask']) != 1 or len(L['cap']) != 1:
        # which fields do the operations use
        rep.unknown(pre + 'map: constructor', 'mask or size not recognised') if len(L['cap']) != 1 or len(L['mask']) > 1 else rep.bad(pre + 'map: constructor', FILE, 'no field holds the mask %d of the table' % (c - 1))
        return
    mo, co, io = L['mask'][0], L['cap'][0], L['items']
    rep.ok(pre + 'map: constructor')
    seqs = {}
    for n in OPS:
        f = m.funcs[n]; fn = Fn(m, f)
        try: operation(rep, pre, m, fn, n, mo, co, io, seqs)
        except Odd as e: rep.unknown(pre + n, str(e))
    if len(seqs) > 1:
        ref = seqs.get('vfc_hashmap_insert') or next(iter(seqs.values()))
        for n, (t, s) in seqs.items():
            rep.check((t, s) == ref, pre + 'probe sequence: ' + n, FILE, '%s starts at %s and advances by %d, %s starts at %s and advances by %d' % (n, t, s, 'an insertion', ref[0], ref[1]))
    for n, (t, s) in seqs.items():
        rep.check(s % 2 == 1, pre + 'probe sequence: all slots: ' + n, FILE, 'the step %d does not reach all the slots of a table of 2^n slots' % s)
        rep.check('key' in t, pre + 'probe sequence: key: ' + n, FILE, 'the first slot does not depend on the key') if t else None
    try: strhash(rep, pre, m)
    except Odd as e: rep.unknown(pre + 'hash of a text', str(e))

def loc(m, i, f): return (m.loc(i) or f.name)

def operation(rep, pre, m, fn, n, mo, co, io, seqs):
    f = fn.f
    args = f.argnames()
    names = {args[1]: 'key'}
    if n == 'vfc_hashmap_insert': insertion(rep, pre, m, fn, mo, co, io, seqs); return
    acc = accesses(fn, io)
    slots = {s for i, b, s, o in acc}
    if len(slots) != 1: raise Odd('%d probe sequences' % len(slots))
    s = slots.pop()
    x, step = sequence(fn, s, mo)
    seqs[n] = (term(fn, x, names), step)
    vals = [i.name for i, b, _, o in acc if i.op == 'load' and o == 0]
    keys = [i.name for i, b, _, o in acc if i.op == 'load' and o == 8]
    if not vals or not keys: raise Odd('reads of the slots')
    def found(fa): return any(p == 'eq' and ({a, b} == {args[1], k}) for p, a, b in fa for k in keys)
    def empty(fa): return any(zero(fa, v) for v in vals)
    def removed(fa): return any(p == 'ne' and a == v and b == '1' or p == 'ugt' and a == v and b == '1' or p == 'uge' and a == v and b == '2' for p, a, b in fa for v in vals)
    def live(fa): return found(fa) and removed(fa)
    rets = []
    if n in ('vfc_hashmap_get', 'vfc_hashmap_have'):
        def leaves(v, blk, fa, depth=0):
            d = f.defs.get(v)
            if d is not None and d.op == 'phi' and depth < 6 and v != s:
                for w, l in d.extra['inc']: leaves(w, l, fn.facts(l) + fn.edge(f.blocks[l].insts[-1], d.block), depth + 1)
            elif d is not None and d.op in ('zext', 'sext', 'trunc', 'inttoptr', 'freeze') and depth < 12: leaves(d.ops[0], blk, fa, depth + 1)
            elif d is not None and d.op == 'select' and depth < 6:
                leaves(d.ops[1], blk, fa + fn.cond(d.ops[0], True), depth + 1); leaves(d.ops[2], blk, fa + fn.cond(d.ops[0], False), depth + 1)
            elif d is not None and d.op == 'icmp' and d.extra['pred'] in ('eq', 'ne') and d.ops[1] in ('null', '0') and f.defs.get(d.ops[0]) is not None and f.defs[d.ops[0]].op in ('phi', 'inttoptr') and d.ops[0] not in vals and depth < 6:
                # a test of the value that another operation found
                k0 = len(rets); leaves(d.ops[0], blk, fa, depth + 1)
                sub = rets[k0:]; del rets[k0:]
                for w, fb in sub:
                    z = w in ('null', '0')
                    rets.append((('0' if z else '1' if w in vals else '?') if d.extra['pred'] == 'ne' else ('1!' if z else '0!'), fb))
            elif d is not None and d.op == 'icmp':
                rets.append(('1', fa + fn.cond(v, True))); rets.append(('0', fa + fn.cond(v, False)))
            else:
                # both kinds of exits may join without a phi
                preds = [p for p in f.blocks if blk in f.blocks[p].succs]
                if not found(fa) and not empty(fa) and len(preds) > 1 and depth < 12 and blk != f.defs[s].block:
                    for q in preds: rets.append((v, fa + fn.facts(q) + fn.edge(f.blocks[q].insts[-1], blk)))
                else: rets.append((v, fa))
        for b in f.blocks.values():
            t = b.insts[-1]
            if t.op == 'ret': leaves(t.ops[0], b.label, fn.facts(b.label))
        for k, (v, fa) in enumerate(rets):
            key = pre + '%s: exit %s' % (n, 'not found' if v in ('null', '0', 'false') else 'found')
            if v in ('null', '0', 'false'):
                if empty(fa): rep.ok(key)
                elif found(fa): rep.bad(key, FILE, 'the key of the slot is equal and the search reports that there is no such element') if not any(free_(fa, w) for w in vals) else rep.unknown(key, 'condition')
                elif any(fn_cond_slots(fn, fa, s)): rep.bad(key, FILE, 'the search gives up before it meets an empty slot')
                else: rep.unknown(key, 'condition of the exit')
            elif v in ('1', 'true') or v in vals or v in keys:
                if v in keys: rep.bad(key, FILE, 'the key is returned instead of the element'); continue
                if live(fa) or v in vals and zero(fa, v): rep.ok(key)
                elif found(fa): rep.bad(key, FILE, 'a removed element is still found')
                else: rep.bad(key, FILE, 'an element is returned although its key was not compared with the requested one') if not any(i.op == 'icmp' and any(args[1] == x or args[1] in fn.lin(x) for x in i.ops) for i in f.insts()) else rep.unknown(key, 'condition of the exit')
            else: rep.unknown(key, 'value returned')
        if not rets: raise Odd('exits')
        return
    # removal
    ws = [(i, o) for i, b, _, o in acc if i.op == 'store']
    for i, o in ws:
        fa = fn.facts(i.block)
        key = pre + n + ': slot'
        if o == 0:
            if i.ops[0] == '0': rep.bad(key, loc(m, i, f), 'a removed slot becomes empty: the elements that follow it in their probe sequence are lost')
            elif i.ops[0] != '1': rep.unknown(key, 'mark')
            elif not found(fa): rep.unknown(key, 'condition')
            elif not live(fa): rep.bad(key, loc(m, i, f), 'a slot that was already removed is removed again')
            else: rep.ok(key)
    if not ws: rep.bad(pre + n + ': slot', FILE, 'nothing is removed')

def fn_cond_slots(fn, fa, s):
    """conditions on the slot number itself"""
    for p, a, b in fa:
        for v in (a, b):
            if isinstance(v, str) and (v == s or s in fn.lin(v)): yield True

def stores_of(m, fn, off):
    f = fn.f
    return [i for i in f.insts() if i.op == 'store' and m.addr(f, i.ops[1]) == (f.argnames()[0], off)]

def insertion(rep, pre, m, fn, mo, co, io, seqs):
    f = fn.f; args = f.argnames(); n = 'vfc_hashmap_insert'
    # the new table, if any
    new = [i.ops[0] for i in stores_of(m, fn, io)]
    alloc = [f.defs.get(v) for v in new]
    if len(new) != 1 or alloc[0] is None or alloc[0].op != 'call' or len(alloc[0].ops) != 2: raise Odd('growth of the table')
    A = alloc[0]
    acc = accesses(fn, io, (A.name,))
    # growth: size, mask, counters
    caps = [i.ops[0] for i in stores_of(m, fn, co)]; masks = [i.ops[0] for i in stores_of(m, fn, mo)]
    if len(caps) != 1: raise Odd('size of the new table')
    cap = caps[0]
    rep.check(A.ops[0] == cap and A.ops[1] == '16', pre + 'growth: memory', loc(m, A, f), 'the new table is allocated with %s elements of %s bytes' % (A.ops[0], A.ops[1])) if A.ops[0] == cap or NUM.match(A.ops[0]) else rep.unknown(pre + 'growth: memory', 'size')
    if not masks: rep.bad(pre + 'growth: mask', FILE, 'the mask is not updated when the table grows')
    else:
        k = fn.lin(masks[0])
        kc = fn.lin(cap)
        diff = {x: k.get(x, 0) - kc.get(x, 0) for x in set(k) | set(kc) if k.get(x, 0) != kc.get(x, 0)}
        if len(masks) == 1 and set(diff) <= {1}: rep.check(diff == {1: -1}, pre + 'growth: mask', FILE, 'the mask is the size %+d' % diff.get(1, 0))
        else: rep.unknown(pre + 'growth: mask', 'value')
    newcap(rep, pre, m, fn, cap, co)
    # writes
    ws = [(i, b, s, o) for i, b, s, o in acc if i.op == 'store']
    direct = [w for w in ws if w[1] != A.name]; re_ = [w for w in ws if w[1] == A.name]
    newmask = tuple(masks)
    def group(w, what, base):
        if {o for _, _, _, o in w} != {0, 8} or len(w) != 2: raise Odd('%s: writes' % what)
        v = [x for x in w if x[3] == 0][0]; k = [x for x in w if x[3] == 8][0]
        rep.check(v[2] == k[2], pre + what + ': one slot', loc(m, v[0], f), 'the key and the element are written to different slots')
        return v, k
    v, k = group(direct, 'insertion', None)
    val = f.defs.get(v[0].ops[0])
    src = val.ops[0] if val is not None and val.op == 'ptrtoint' else v[0].ops[0]
    rep.check(src == args[2] and k[0].ops[0] == args[1], pre + 'insertion: content', loc(m, v[0], f), 'the slot receives %s and %s' % (src, k[0].ops[0])) if src in args and k[0].ops[0] in args else rep.unknown(pre + 'insertion: content', 'values')
    x, step = sequence(fn, v[2], mo)
    seqs[n] = (term(fn, x, {args[1]: 'key'}), step)
    rd = [i.name for i, b, s, o in acc if i.op == 'load' and o == 0 and s == v[2]]
    fa = fn.facts(v[0].block)
    if any(free_(fa, r) for r in rd): rep.ok(pre + 'insertion: free slot')
    else: rep.unknown(pre + 'insertion: free slot', 'condition') if any(r in (a, b) for p, a, b in fa for r in rd) else rep.bad(pre + 'insertion: free slot', loc(m, v[0], f), 'an occupied slot may be overwritten')
    # which elements are not inserted: the reserved marks, and elements met again
    # rehash
    if not re_ and not any(i.op == 'call' and i is not A and A.name in i.ops for i in f.insts()):
        rep.bad(pre + 'rehash: elements', loc(m, A, f), 'no element is written to the new table'); return
    v2, k2 = group(re_, 'rehash', A.name)
    old_v, old_k = f.defs.get(v2[0].ops[0]), f.defs.get(k2[0].ops[0])
    if old_v is None or old_k is None or old_v.op != 'load' or old_k.op != 'load': raise Odd('rehash: origin of the elements')
    sv, sk = fn.slot(old_v.ops[0]), fn.slot(old_k.ops[0])
    if sv is None or sk is None: raise Odd('rehash: origin of the elements')
    rep.check(sv[1] == sk[1] and (sv[2], sk[2]) == (0, 8) and sv[0] == sk[0], pre + 'rehash: same pair', loc(m, v2[0], f), 'an element is reinserted under the key of another slot')
    x2, step2 = sequence(fn, v2[2], mo, newmask)
    seqs['rehash'] = (term(fn, x2, {k2[0].ops[0]: 'key'}), step2) if True else None
    ph = f.defs.get(sv[1])
    key = pre + 'rehash: all slots'
    if ph is None or ph.op != 'phi': rep.unknown(key, 'loop')
    else:
        init = [a for a, l in ph.extra['inc'] if NUM.match(a)]
        st = [fn.lin(a) for a, l in ph.extra['inc'] if not NUM.match(a)]
        if len(init) != 1 or not st or any(set(q) - {ph.name, 1} or q.get(ph.name) != 1 for q in st): rep.unknown(key, 'progress of the loop')
        else:
            msg = None; known = True
            if init[0] != '0': msg = 'the loop starts at slot %s' % init[0]
            elif any(q.get(1, 0) != 1 for q in st): msg = 'the loop advances by %s slots' % st[0].get(1, 0)
            else:
                end = [(p, b) for p, a, b in fn.facts(old_v.block) if a == ph.name and p in ('ult', 'ne', 'ule', 'slt')]
                if not end: known = False
                else:
                    p, b = end[0]
                    d = f.defs.get(b)
                    if fn.field(b) == co:
                        # the old size: loaded before the new one is stored
                        sto = stores_of(m, fn, co)[0]
                        after = d.block == sto.block and order(f, sto, d) or d.block != sto.block and d.block in f.reach(sto.block)
                        if after: msg = 'the loop goes up to the new size'
                        elif p == 'ule': msg = 'the loop reads one slot too many'
                    elif b == cap: msg = 'the loop reads the old table up to the new size'
                    elif fn.field(b) is not None: msg = 'the loop ends at another field of the map (offset %d) than its size' % fn.field(b)
                    elif d is not None and len(fn.lin(b)) == 2 and set(fn.lin(b)) > {1} and all(fn.lin(b)[x] == 1 and fn.field(x) == co for x in fn.lin(b) if x != 1) and fn.lin(b)[1] < 0 and p in ('ult', 'ne', 'slt'): msg = 'the last slots are not visited'
                    elif NUM.match(b): msg = 'the loop ends at slot %s' % b
                    else: known = False
            if not known: rep.unknown(key, 'end of the loop')
            else: rep.check(msg is None, key, loc(m, v2[0], f), msg)
    # the counter restarts
    nit = counters(m, fn)
    thresholds(rep, pre, m, fn, co, A, nit)

def order(f, a, b):
    ii = f.blocks[a.block].insts
    return ii.index(a) < ii.index(b)

def newcap(rep, pre, m, fn, cap, co):
    """new size: a larger power of two"""
    f = fn.f
    def peel(v):
        d = f.defs.get(v)
        while d is not None and d.op in ('sext', 'zext', 'trunc'): v = d.ops[0]; d = f.defs.get(v)
        return v, d
    v, d = peel(cap)
    key = pre + 'growth: size'
    if d is not None and d.op == 'shl' and d.ops[0] == '1':
        w, e = peel(d.ops[1])
        k = fn.lin(w)
        vs = [x for x in k if x != 1]
        if len(vs) == 1 and k[vs[0]] == 1 and fn.field(vs[0]) is not None:
            rep.check(k.get(1, 0) >= 1, key, FILE, 'the exponent of the size changes by %d' % k.get(1, 0))
            st = stores_of(m, fn, fn.field(vs[0]))
            rep.check(any(fn.lin(s.ops[0]) == k for s in st), key + ': exponent', FILE, 'the exponent of the size is not stored: the next growth gives the same size') if not any(True for s in st if fn.lin(s.ops[0]) != k) else rep.unknown(key + ': exponent', 'value')
            return
    k = fn.lin(cap)
    vs = [x for x in k if x != 1]
    if len(vs) == 1 and fn.field(vs[0]) == co:
        c = k[vs[0]]
        rep.check(c > 1 and c & (c - 1) == 0 and not k.get(1), key, FILE, 'the size becomes %d times the size %+d' % (c, k.get(1, 0))); return
    rep.unknown(key, 'value')

def counters(m, fn):
    """fields of the map that count: offset -> list of increments"""
    f = fn.f; out = {}
    for i in f.insts():
        if i.op != 'store': continue
        r, o = m.addr(f, i.ops[1])
        if r != f.argnames()[0] or o is None: continue
        k = fn.lin(i.ops[0])
        vs = [x for x in k if x != 1]
        if not vs: out.setdefault(o, []).append(('set', k.get(1, 0), i))
        elif len(vs) == 1 and k[vs[0]] == 1 and fn.field(vs[0]) == o: out.setdefault(o, []).append(('add', k.get(1, 0), i))
    return out

def thresholds(rep, pre, m, fn, co, A, cnt):
    """the table grows before its last empty slot is used"""
    f = fn.f
    # number of elements: what num_items returns
    g = m.funcs['vfc_hashmap_num_items']; gf = Fn(m, g)
    r = [b.insts[-1].ops[0] for b in g.blocks.values() if b.insts[-1].op == 'ret']
    no = gf.field(r[0]) if len(r) == 1 else None
    if no is None: rep.unknown(pre + 'counters', 'number of elements'); return
    adds = [x for x in cnt.get(no, ()) if x[0] == 'add']
    key = pre + 'counters: elements'
    if not adds: rep.bad(key, FILE, 'an insertion does not count the element')
    else: rep.check(all(x[1] == 1 for x in adds), key, loc(m, adds[0][2], f), 'an insertion adds %d to the number of elements' % adds[0][1])
    key = pre + 'counters: restart'
    sets = [x for x in cnt.get(no, ()) if x[0] == 'set']
    re_add = [x for x in adds if A.block != x[2].block and x[2].block in f.reach(A.block)]
    if re_add: rep.check(any(x[1] == 0 for x in sets), key, FILE, 'the elements are counted again when the table grows')
    # removal
    h = m.funcs['vfc_hashmap_remove']; hf = Fn(m, h)
    c2 = counters(m, hf)
    rm = [x for x in c2.get(no, ()) if x[0] == 'add']
    dele = [o for o, xs in c2.items() if o != no and any(x[:2] == ('add', 1) for x in xs)]
    rep.check(bool(rm) and all(x[1] == -1 for x in rm), pre + 'counters: removal', FILE, 'a removal does not take the element off the number of elements') if rm or not c2 else rep.unknown(pre + 'counters: removal', 'counter')
    # condition
    key = pre + 'growth: before the table is full'
    cd = f.control_deps().get(A.block, ())
    best = None
    for b, succ in cd:
        t = f.blocks[b].insts[-1]
        if t.op != 'br' or not t.ops: continue
        d = f.defs.get(t.ops[0])
        if d is None or d.op not in ('fcmp', 'icmp'): continue
        truth = t.extra['labels'][0] == succ
        fields = set()
        def ev(v, env, n=0):
            if fn.field(v) is not None:
                o = fn.field(v)
                fields.add(o)
                return env.get(o)
            if NUM.match(v): return int(v)
            try: return float(v) if not v.startswith('%') else lower(v, env, n)
            except ValueError: return None
        def lower(v, env, n):
            e = f.defs.get(v)
            if e is None or n > 12: return None
            a = [ev(x, env, n + 1) for x in e.ops]
            if None in a: return None
            if e.op in ('uitofp', 'sitofp', 'zext', 'sext', 'trunc', 'fptosi', 'fptoui'): return float(a[0]) if e.op in ('uitofp', 'sitofp') else int(a[0])
            if e.op in ('fmul', 'mul'): return a[0] * a[1]
            if e.op in ('fadd', 'add'): return a[0] + a[1]
            if e.op in ('fsub', 'sub'): return a[0] - a[1]
            if e.op in ('fdiv',): return a[0] / a[1]
            if e.op in ('udiv', 'sdiv'): return a[0] // a[1] if a[1] else None
            if e.op == 'shl': return a[0] << a[1]
            if e.op in ('lshr', 'ashr'): return a[0] >> a[1]
            return None
        p = d.extra.get('pred') or ''
        P = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b, 'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b}.get(p[-2:])
        if P is None: continue
        if co not in {x for x in reads(fn, d)} or no not in {x for x in reads(fn, d)}: continue
        bad = None; odd = False
        for e in range(2, 21):
            C = 1 << e
            for dl in (0, 1, C // 3, C - 1):
                env = {co: C, no: C - dl}
                for o in dele: env[o] = dl
                a, b2 = ev(d.ops[0], env), ev(d.ops[1], env)
                if a is None or b2 is None: odd = True; continue
                if P(a, b2) != truth: bad = bad or 'a table of %d slots with %d elements and %d removed ones does not grow: a search for a missing key does not end' % (C, C - dl, dl)
        if odd and not bad: continue
        best = (bad,); break
    if best is None: rep.unknown(key, 'condition of the growth')
    else: rep.check(best[0] is None, key, loc(m, A, f), best[0])

def reads(fn, d):
    for x in ir.cone(fn.f, d.name)[0]:
        if x.op == 'load' and fn.field(x.name) is not None: yield fn.field(x.name)

def strhash(rep, pre, m):
    f = m.funcs['vfc_hashmap_str_function']; fn = Fn(m, f)
    arg = f.argnames()[0]
    key = pre + 'hash of a text: all characters'
    lds = [i for i in f.insts() if i.op == 'load' and i.type == 'i8']
    if not lds: raise Odd('no characters')
    for i in f.insts():
        if i.op == 'load' and i.type != 'i8': rep.unknown(pre + 'hash of a text: only the text', 'reads other memory'); return
    rep.ok(pre + 'hash of a text: only the text')
    # the loop
    ch = lds[0].ops[0]
    root = ch; off = 0
    d = f.defs.get(ch)
    idx = None
    if d is not None and d.op == 'getelementptr' and len(d.ops) == 2 and d.ops[0] == arg: idx = f.defs.get(d.ops[1])
    elif d is not None and d.op == 'phi': idx = d
    if idx is None or idx.op != 'phi': raise Odd('loop over the text')
    st = [v for v, l in idx.extra['inc'] if v not in (arg, '0')]
    for v in st:
        e = f.defs.get(v)
        k = e.ops[-1] if e is not None and e.op in ('getelementptr', 'add') and e.ops[0] == idx.name else None
        if k is None: raise Odd('loop over the text')
        if k != '1': rep.bad(key, FILE, 'the text is read by steps of %s' % k); return
    # exits
    body = f.reach(idx.block)
    for b in body:
        t = f.blocks[b].insts[-1]
        if idx.block not in f.reach(b) or len(f.blocks[b].succs) < 2: continue
        outs = [s for s in f.blocks[b].succs if idx.block not in f.reach(s)]
        for s in outs:
            fa = fn.edge(t, s)
            okz = any(p == 'eq' and '0' in (a, c) and any(x.op == 'load' and x.type == 'i8' for x in ir.cone(f, a if c == '0' else c, stop=lambda q: q.op in ('phi', 'load'))[0]) or p == 'in' and c == (0,) for p, a, c in fa)
            if okz: continue
            if any(idx.name in (a, c) or idx.name in fn.lin(a) or any(x.op == 'ptrtoint' and x.ops[0] == idx.name for x in ir.cone(f, a, stop=lambda q: q.op in ('phi', 'load'))[0]) for p, a, c in fa if isinstance(c, str) and (NUM.match(c) or NUM.match(a))): rep.bad(key, FILE, 'only the first characters of the text are used'); return
            for x in ir.cone(f, t.ops[0], stop=lambda q: q.op in ('phi', 'load'))[0] if t.ops else ():
                if x.op == 'icmp' and NUM.match(x.ops[1]) and x.extra['pred'] not in ('eq', 'ne'):
                    y = f.defs.get(x.ops[0])
                    cc = ir.cone(f, x.ops[0], stop=lambda q: q.op in ('phi', 'load'))[0]
                    if y is not None and any(z is idx or idx.name in z.ops for z in cc) and not any(z.op == 'load' for z in cc): rep.bad(key, FILE, 'only the first characters of the text are used'); return
            raise Odd('end of the loop')
    # recurrence
    r = [b.insts[-1].ops[0] for b in f.blocks.values() if b.insts[-1].op == 'ret']
    ph = f.defs.get(r[0]) if len(r) == 1 else None
    if ph is None or ph.op != 'phi': raise Odd('recurrence')
    rec = [v for v, l in ph.extra['inc'] if not NUM.match(v)]
    if len(rec) != 1: raise Odd('recurrence')
    k = fn.lin(rec[0])
    c = k.get(ph.name)
    rest = {x: q for x, q in k.items() if x not in (ph.name, 1)}
    if c is None:
        x, d = rec[0], f.defs.get(rec[0])
        raise Odd('recurrence')
    if len(rest) != 1: raise Odd('recurrence')
    rep.check(c % 2 == 1 and list(rest.values())[0] % 2 == 1, key, FILE, 'h := %d * h + %d * character: the first characters of long texts are lost' % (c, list(rest.values())[0]))
