"""C24: VPREC profiles written by the backend (or by vfc_precexp) are read back with the same meaning."""
import os, re
from engine import mapsem
from engine import ir, backends as bk, maps
from engine.bounds import Bounds, PIPE, mark, service
from engine.build import REPO, bc, bc_text, residual, BuildError
from engine.errors import logger_exits
from checks.c25 import NORET, natural
from checks.c27 import std, ENTRY
from checks import c19

TECH = ('static analysis: access-path dataflow over the inlined IR of the VPREC backend (which field of which record goes to which column of the profile, and which '
        'column comes back to which field), control dependence for the number and order of lines; abstract interpretation of the exploration tool')
NOTE = ('columns, field widths, line order, number of lines, token counts and map keys of the writer and the reader; the values themselves are not enumerated. '
        'Identifiers that contain a tabulation and empty identifiers are outside the format.')
RULE = ('Each column of a line written from field F of a record is read back, at the same column and with the same width, into field F of the record of the same kind; '
        'lines of one record come in the same order and number; the reader accepts exactly the number of columns written; records are kept under the key they are looked up with.')

MAP = ('vfc_hashmap_insert', 'vfc_hashmap_get', 'vfc_hashmap_str_function', 'get_value_at', 'vfc_hashmap_create', 'vfc_hashmap_free', 'vfc_hashmap_destroy')
CONV = re.compile(r'%[-+ #0]*(?:\d+)?(?:\.\d+)?(hh|h|ll|l|z|j|t|L)?([a-zA-Z])')
WIDTH = {'hh': 1, 'h': 2, None: 4, 'l': 8, 'll': 8, 'z': 8, 'j': 8, 't': 8}

def unext(f, v):
    d = f.defs.get(v)
    while d is not None and d.op in ('sext', 'zext', 'trunc', 'freeze'):
        v = d.ops[0]; d = f.defs.get(v)
    return v

def peel(f, v):
    """origin of an integer through conversions, and the number of its low bits that the conversions keep"""
    kept = 64
    for _ in range(12):
        d = f.defs.get(v)
        if d is None: break
        if d.op in ('sext', 'zext', 'freeze'): v = d.ops[0]; continue
        if d.op == 'trunc': kept = min(kept, int(d.type[1:])); v = d.ops[0]; continue
        if d.op == 'ashr' or d.op == 'lshr':
            e = f.defs.get(d.ops[0])
            if e is not None and e.op == 'shl' and e.ops[1] == d.ops[1] and d.ops[1].isdigit(): kept = min(kept, int(d.type[1:]) - int(d.ops[1])); v = e.ops[0]; continue
            break
        if d.op == 'and' and d.ops[1].isdigit() and (int(d.ops[1]) + 1) & int(d.ops[1]) == 0: kept = min(kept, int(d.ops[1]).bit_length()); v = d.ops[0]; continue
        break
    return v, kept

class Paths:
    """access paths: ('rec', off) a field of a function record, ('arg', p, off) a field of an element of the array held by the record field p"""
    def __init__(self, B, f, arrays): self.B, self.f, self.m, self.arrays = B, f, B.m, arrays
    def base(self, p, n=0):
        """(root value, constant offset, variable part?)"""
        d = self.f.defs.get(p)
        off, var = 0, None
        while d is not None and n < 20:
            n += 1
            if d.op == 'call' and (ir.callee(d) or '').startswith('vp.decay.'): p = d.ops[0]
            elif d.op == 'getelementptr':
                o = self.m.idx_off(d.extra['src'], d.ops[1:])
                if o is None:
                    # element of an array of structures: constant part of the rest
                    o = self.m.idx_off(d.extra['src'], ['0'] + d.ops[2:])
                    if o is None: return None
                    var = d.ops[1]
                off += o; p = d.ops[0]
            else: break
            d = self.f.defs.get(p)
        return p, off, var
    def of(self, p):
        r = self.base(p)
        if r is None: return None
        root, off, var = r
        d = self.f.defs.get(root)
        if d is not None and d.op == 'load':
            q = self.base(d.ops[0])
            if q is not None and q[1] in self.arrays and (var is not None or self.counter(q)): return ('arg', q[1], off), var
        if var is not None: return None
        return ('rec', off), root
    def counter(self, q): return False
    def value(self, v, n=0):
        """access path of a loaded value, with the width of the load and the number of bits kept of it"""
        v, kept = peel(self.f, v)
        d = self.f.defs.get(v)
        if d is None: return None
        if d.op == 'load':
            r = self.of(d.ops[0])
            if r is None: return None
            n = re.match(r'i(\d+)$', d.type)
            return r[0], int(n.group(1)) // 8 if n else 8, r[1], kept
        if d.op == 'phi' and n < 3:
            xs = [self.value(x, n + 1) for x, l in d.extra['inc'] if x != v]
            return (xs[0][0], xs[0][1], xs[0][2], min(kept, xs[0][3])) if xs and all(x is not None and x[:2] == xs[0][:2] and x[3] == xs[0][3] for x in xs) else None
        # address of a text inside the record
        r = self.of(v)
        return (r[0], 0, r[1], 64) if r is not None and (d.op == 'getelementptr' or (ir.callee(d) or '').startswith('vp.decay.')) else None

def name(p, names): return names.get(p, str(p))

def analyse(rep, m, names):
    B = Bounds(m, ENTRY)
    W, R = {}, {}
    wsite, rsite = {}, {}
    # which record fields hold arrays: pointers to calloc'ed elements
    from checks.c25 import counted
    alloc, _ = counted(B)
    if not alloc: raise BuildError('no counted arrays in the records')
    ty = {t for t, _ in alloc}
    if len(ty) != 1: raise BuildError('several record types')
    ty = next(iter(ty))
    off = lambda k: m.idx_off(ty, ['0', str(k)])
    arrays = {off(k): {off(c) for c in v} for (t, k), v in alloc.items()}
    for f in m.funcs.values():
        if f.is_decl: continue
        P = Paths(B, f, arrays)
        for i in f.insts():
            if i.op != 'call': continue
            n = service(f, i)
            if n == 'fprintf':
                fm = m.string(i.ops[1])
                if fm is None or '\t' not in fm or not fm.endswith('\n') or fm.startswith(' -'): continue
                vals = [P.value(a) for a in i.ops[2:]]
                if any(v is None for v in vals): continue
                kinds = {v[0][:1] + ((v[0][1],) if v[0][0] == 'arg' else ()) for v in vals}
                if len(kinds) != 1: continue
                kind = next(iter(kinds))
                if kind == ('rec',) and len(vals) < 6: continue          # log lines
                cols, k = [], 0
                for c in fm[:-1].split('\t'):
                    cv = CONV.findall(c)
                    if len(cv) > 1 or cv and CONV.sub('', c): cols.append(('?', c)); k += len(cv); continue
                    if not cv: cols.append(('text', c)); continue
                    if k >= len(vals): cols.append(('?', c)); continue
                    cols.append((vals[k][0], vals[k][1], cv[0], vals[k][3])); k += 1
                W.setdefault(kind, []).append((f, i, cols, vals))
            if n in ('strtol', 'strcpy', 'strncpy'):
                src = i.ops[0] if n == 'strtol' else i.ops[1]
                d = f.defs.get(src)
                if d is None or d.op != 'load': continue
                root, o = m.addr(f, d.ops[0])
                if o is None or o % 8 or root not in m.globals and (f.defs.get(root) is None or f.defs[root].op != 'alloca'): continue
                col = o // 8
                if n == 'strtol':
                    st, seen = [i.name], set()
                    while st:
                        v = st.pop()
                        if v in seen: continue
                        seen.add(v)
                        for u in f.users(v):
                            if u.op in ('trunc', 'sext', 'zext', 'shl', 'ashr', 'lshr', 'and', 'freeze'): st.append(u.name)
                            elif u.op == 'store' and u.ops[0] == v:
                                p = P.of(u.ops[1])
                                w = re.match(r'i(\d+)$', u.optypes[0])
                                o, kept = peel(f, v)
                                R.setdefault(root, []).append((col, p[0] if p and o == i.name else None, min(int(w.group(1)), kept) // 8 if w else 0, f, u, p))
                            elif u.op not in ('icmp', 'br'): R.setdefault(root, []).append((col, None, 0, f, u, None))
                else:
                    p = P.of(i.ops[0])
                    R.setdefault(root, []).append((col, p[0] if p else None, 0, f, i, p))
    return B, W, R, arrays

def facts(B, f, blk): return B.rng(f).facts(blk)

def line(B, i, f): return B.m.loc(i) or f.name

def run(rep, tier):
    rep.rule = RULE
    mapsem.decide(rep, 'map: ')
    logger_exits(rep)
    b = bk.B['vprec']
    fl = ('-fno-builtin',)
    try: m = residual([bc(s, fl) for s in b.allsrcs()] + [bc(s, fl) for s in std()], ENTRY, pipe=PIPE, edit=mark, attrs=NORET, opaque=('logger_error', '_interflop_err') + MAP)
    except BuildError as e: rep.unknown('vprec', str(e)[:300]); return
    try: B, W, R, arrays = analyse(rep, m, {})
    except BuildError as e: rep.unknown('profile', str(e)); return
    rep.count('line formats written', len(W)); rep.count('columns read', sum(len(v) for v in R.values()))
    # ---- reader: kind -> column -> (path, width)
    rd, odd = {}, set()
    for root, es in R.items():
        for col, p, w, f, i, pp in es:
            if p is None: odd.add(col); rep.unknown('destination of column %d of %s' % (col, root), line(B, i, f)); continue
            kind = p[:1] + ((p[1],) if p[0] == 'arg' else ())
            rd.setdefault(kind, {}).setdefault(col, []).append((p, w, f, i, pp))
    what = lambda k: 'function' if k == ('rec',) else 'argument list at offset %d' % k[1]
    if not W or not rd: rep.unknown('profile', 'writer or reader not recognised')
    for kind in sorted(set(W) | set(rd), key=str):
        if kind not in W or kind not in rd:
            rep.unknown('lines of the %s' % what(kind), 'not recognised in the %s' % ('reader' if kind in W else 'writer')); continue
        for f, i, cols, vals in W[kind]:
            n = len(cols)
            at = line(B, i, f)
            if any(c[0] == '?' for c in cols): rep.unknown('columns of the %s' % what(kind), at); continue
            for k, c in enumerate(cols):
                key = '%s: column %d' % (what(kind), k)
                got = rd[kind].get(k)
                if c[0] == 'text':
                    if got: rep.bad(key, at, 'the writer puts the fixed text "%s" where the reader expects a field' % c[1])
                    else: rep.ok(key)
                    continue
                if not got:
                    rep.unknown(key, 'not read') if c[0][-1] == 0 or k in odd else rep.bad(key, at, 'the column written from field %s is not read back' % (c[0],)); continue
                lm, cv = c[2]
                if any(g[0] != c[0] for g in got): rep.bad(key, at, 'written from offset %d of the record but read into offset %d (%s)' % (c[0][-1], next(g[0][-1] for g in got if g[0] != c[0]), line(B, got[0][3], got[0][2]))); continue
                if cv == 's':
                    rep.check(c[1] == 0 and all(g[1] == 0 for g in got), key, at, 'a text is written where a number is read'); continue
                if cv not in 'diu': rep.bad(key, at, 'written with %%%s, which the decimal reader does not read back' % cv) if cv in 'xXofeEgGa' else rep.unknown(key, 'conversion'); continue
                if any(g[1] == 0 for g in got): rep.bad(key, at, 'a number is written where a text is read'); continue
                if c[3] < 8 * c[1]: rep.bad(key, at, 'only %d bits of a field of %d bytes are written' % (c[3], c[1])); continue
                if WIDTH.get(lm, 4) < c[1]: rep.bad(key, at, 'a field of %d bytes is written with %%%s%s, which keeps %d bytes of it' % (c[1], lm or '', cv, WIDTH[lm])); continue
                rep.check(all(g[1] == c[1] for g in got), key, at, 'the field is read with %d bytes and written with %d' % (got[0][1], c[1]))
            extra = [k for k in rd[kind] if k >= n]
            rep.check(not extra, '%s: columns' % what(kind), at, 'the reader uses column %s, the writer writes %d columns' % (extra, n))
            # number of columns accepted by the reader
            for k, gs in rd[kind].items():
                for p, w, g, j, pp in gs:
                    cs = [(a, int(c)) for a, q, c in facts(B, g, j.block) if q == 'eq' and re.match(r'\d+$', c) and counts_tokens(g, a)]
                    key = '%s: number of columns accepted before column %d is used' % (what(kind), k)
                    if not cs: rep.unknown(key, 'no test of the number of columns found'); continue
                    rep.check(any(c == n for a, c in cs), key, line(B, j, g), 'the reader only accepts lines of %s columns, the writer writes %d' % ([c for a, c in cs], n))
            # number of lines
            if kind != ('rec',):
                cnt = arrays[kind[1]]
                for who, g, j in [('writer', f, i)] + [('reader', p[2], p[3]) for ps in rd[kind].values() for p in ps][:1]:
                    key = '%s: number of lines of the %s' % (what(kind), who)
                    P = Paths(B, g, arrays)
                    bounds = []
                    for a, q, c in facts(B, g, j.block):
                        for x, y, pr in ((a, c, q), (c, a, {'sgt': 'slt', 'slt': 'sgt'}.get(q, q))):
                            v = P.value(y)
                            if v is not None and v[0][0] == 'rec' and v[1] == 4 and pr in ('slt', 'ult', 'ne', 'sle') and B.f_phi(g, x): bounds.append((v[0][1], pr, x))
                    if not bounds: rep.unknown(key, 'no bound found'); continue
                    ok = [x for x in bounds if x[0] in cnt and x[1] in ('slt', 'ult', 'ne')]
                    rep.check(bool(ok), key, line(B, j, g), 'the lines are counted by the field at offset %d, the elements by %s' % (bounds[0][0], sorted(cnt)) if not any(x[1] == 'sle' for x in bounds) else 'one line too many')
                    ph = g.defs.get(unext(g, ok[0][2])) if ok else None
                    if ph is not None and ph.op == 'phi':
                        init = [v for v, l in ph.extra['inc'] if re.match(r'-?\d+$', v)]
                        if init: rep.check(init == ['0'], key + ' start', line(B, j, g), 'the first element is left out')
    order(rep, B, W, rd, what)
    whole(rep, B, W, R, what)
    keys(rep, B, m, arrays)
    rep.floor('line formats written', 3)
    ends(rep)
    tool(rep)

def whole(rep, B, W, R, what):
    """all records are written; all the lines are read; the reader splits the lines where the writer joined the columns"""
    m = B.m
    try: cap = maps.capacity_offset()
    except BuildError: cap = None
    for f, i, cols, vals in W.get(('rec',), ()):
        root = vals[0][2]
        if cap is None: rep.unknown('all records are written', 'layout of the map'); continue
        ok, why = maps.visited(m, f, root, lambda b: facts(B, f, b), cap)
        if ok is None: rep.unknown('all records are written', why)
        else: rep.check(ok, 'all records are written', line(B, i, f), why)
        P = Paths(B, f, {})
        sel = []
        for a, q, c in facts(B, f, i.block):
            for v in (a, c):
                x = P.value(v)
                if x is not None and x[0][0] == 'rec' and x[2] == root: sel.append(x[0][1])
        rep.check(not sel, 'records are written whatever they hold', line(B, i, f), 'a record is only written when the field at offset %s satisfies a condition' % sel)
    texts = {k: {c[1] for w in v for c in w[2] if c[0] == 'text'} for k, v in W.items() if k != ('rec',)}
    ks = list(texts)
    for a in range(len(ks)):
        for b in range(a): rep.check(not (texts[ks[a]] & texts[ks[b]]), 'input and output lines are told apart', line(B, W[ks[a]][0][1], W[ks[a]][0][0]), 'both kinds of lines start with %s' % (texts[ks[a]] & texts[ks[b]]))
    fs = {id(e[3]): e[3] for es in R.values() for e in es}
    for f in fs.values():
        for i in f.insts():
            if i.op != 'call' or service(f, i) != 'strtok_r': continue
            key = 'columns are split at tabulations: ' + line(B, i, f)
            d = m.string(i.ops[1])
            if d is None: rep.unknown(key, 'delimiters not constant'); continue
            feeds = reads_file(B, f, i)
            if not feeds: continue
            rep.check('\t' in d, key, line(B, i, f), 'the line is not split at the tabulations that separate its columns (delimiters %r)' % d)
            ex = set(d) - set('\t\r\n')
            rep.check(not ex, key + ' only', line(B, i, f), 'the line is also split at %r, which an identifier may contain' % ''.join(sorted(ex)))
    # reading goes on after a record was inserted
    for f in fs.values():
        for i in f.insts():
            if i.op == 'call' and ir.callee(i) == 'vfc_hashmap_insert':
                gets = [j for j in f.insts() if j.op == 'call' and service(f, j) == 'fgets']
                pre = [j for j in gets if i.block in f.reach(j.block)]
                if not pre: continue
                rep.check(any(j.block in f.reach(i.block) for j in pre), 'reading goes on after a record', line(B, i, f), 'only the first record of the file is read')

def reads_file(B, f, i):
    """the text split by strtok_r call i was read by fgets (or the call goes on with the same state)"""
    if i.ops[0] != 'null':
        r = B.root(f, i.ops[0])
        return any(j.op == 'call' and service(f, j) == 'fgets' and B.root(f, j.ops[0]) == r for j in f.insts())
    st = B.root(f, i.ops[2])
    return any(j.op == 'call' and service(f, j) == 'strtok_r' and j.ops[0] != 'null' and B.root(f, j.ops[2]) == st and reads_file(B, f, j) for j in f.insts())

def counts_tokens(f, v):
    """v is counted in a loop over strtok_r"""
    for x in ir.cone(f, v, stop=lambda y: y.op in ('call', 'load'))[0]:
        if x.op != 'phi': continue
        lp = natural(f, x.block)
        if len(lp) > 1 and any(i.op == 'call' and (service(f, i) or '').startswith('strtok') for l in lp for i in f.blocks[l].insts): return True
    return False

def order(rep, B, W, rd, what):
    """lines of one record: the function, then its argument lists in one order"""
    def rank(sites):
        """sites: kind -> (function, block) of one line of each kind; order of the kinds after the record line"""
        head = sites.get(('rec',))
        if head is None: return None
        ks = [k for k in sites if k != ('rec',)]
        if any(sites[k][0] is not head[0] for k in ks): return None
        f = head[0]
        def before(a, b): return sites[b][1] in f.reach(sites[a][1], stop={head[1]})
        out = []
        for k in ks:
            if not f.dominates(head[1], sites[k][1]): return None
        for a in ks:
            for b in ks:
                if a != b:
                    x, y = before(a, b), before(b, a)
                    if x == y: return None
        return sorted(ks, key=lambda k: sum(before(j, k) for j in ks if j != k))
    w = rank({k: (v[0][0], v[0][1].block) for k, v in W.items()})
    r = rank({k: (x[0][2], x[0][3].block) for k, v in rd.items() for x in [next(iter(v.values()))]})
    if w is None or r is None: rep.unknown('order of the lines of a record', 'writer %s, reader %s' % (w, r)); return
    i = W[w[0]][0]
    rep.check(w == r, 'order of the lines of a record', B.m.loc(i[1]) or i[0].name, 'the writer writes %s, the reader reads %s' % ([what(k) for k in w], [what(k) for k in r]))

def keys(rep, B, m, arrays):
    """records are inserted under the hash of their identifier and looked up under the hash of the identifier of the function"""
    for f in m.funcs.values():
        if f.is_decl: continue
        P = Paths(B, f, arrays)
        for i in f.insts():
            c = ir.callee(i) if i.op == 'call' else None
            if c not in ('vfc_hashmap_insert', 'vfc_hashmap_get'): continue
            rep.count('map accesses')
            key = '%s in %s' % (c, line(B, i, f))
            h = f.defs.get(i.ops[1])
            if h is None or h.op != 'call' or ir.callee(h) != 'vfc_hashmap_str_function': rep.unknown(key, 'key not recognised'); continue
            def text(p):
                p = B.strip(f, p); d = f.defs.get(p)
                return ('at',) + tuple(m.addr(f, d.ops[0])) if d is not None and d.op == 'load' else p
            ids = text(h.ops[0])
            if c == 'vfc_hashmap_get': rep.ok(key); continue
            rec = i.ops[2]
            # the record that is inserted: its identifier must be the hashed text or a copy of it
            srcs = {text(j.ops[1]) for j in f.insts() if j.op == 'call' and service(f, j) in ('strcpy', 'strncpy') and B.strip(f, j.ops[0]) in (rec, B.strip(f, rec)) or
                    j.op == 'call' and service(f, j) in ('strcpy',) and B.root(f, j.ops[0]) == B.root(f, rec) and m.addr(f, B.strip(f, j.ops[0]))[1] == 0}
            cps = {j.ops[1] for j in f.insts() if j.op == 'call' and (ir.callee(j) or '').startswith('llvm.memcpy') and j.ops[0] == rec}
            if ids in srcs or ids in cps or isinstance(ids, str) and B.root(f, ids) in {B.root(f, c) for c in cps}: rep.ok(key)
            elif other(P, f, h.ops[0], rec, cps, B): rep.bad(key, line(B, i, f), 'the record is inserted under the hash of another text than its identifier: %s' % (other(P, f, h.ops[0], rec, cps, B),))
            else: rep.unknown(key, 'the hashed identifier could not be related to the record')

def other(P, f, p, rec, cps, B):
    """the hashed text is a field of the record other than the one at offset 0 (the identifier), or belongs to one of its arguments"""
    r = P.of(B.strip(f, p))
    if r is None:
        # first element of an array of arguments
        d = f.defs.get(B.strip(f, p))
        q = P.base(d.ops[0]) if d is not None and d.op == 'load' else None
        return ('arg', q[1], 0) if q is not None and q[1] in P.arrays else None
    if r[0][0] == 'arg': return r[0]
    d = f.defs.get(r[1])
    if d is not None and d.op == 'load':
        q = P.base(d.ops[0])
        if q is not None and q[1] in P.arrays: return ('arg', q[1], r[0][1])
    if r[0][1] != 0 and (r[1] == rec or B.root(f, r[1]) in {B.root(f, c) for c in cps}): return r[0]
    return None

FUNCS = [('a.c/main/f/3/2', 0, 0, 0, 1, 5, [('input:', 'a', 1), ('input:', 'b', 0), ('output:', 'return_value', 1)]),
         ('a.c/main/sin/4/3', 1, 0, 0, 1, 5, [('input:', 'x', 1), ('output:', 'return_value', 1)]),
         ('b.c/g/h/9/12', 0, 0, 1, 1, 11, [('input:', 'p', 3), ('input:', 'q', 4), ('input:', 'n', 0), ('output:', 'p', 3), ('output:', 'q', 4)]),
         ('a.c//main/1/1', 0, 0, 1, 0, 1, []), ('a.c/main/llvm.fma.f64/7/4', 0, 1, 0, 1, 2, [('input:', 'x', 1), ('output:', 'return_value', 1)])]

FILES = '''
static char OUTF, INF;
static File *my_fopen(const char *n, const char *m, int *e) { *e = 0; return n == (const char *)&OUTF ? (File *)&OUTF : n == (const char *)&INF ? (File *)&INF : (File *)0; }
extern void READ(void *);
static char *my_fgets(char *s, int n, File *f) { READ(f); return (char *)0; }
interflop_fopen_t interflop_fopen = (interflop_fopen_t)my_fopen;
interflop_fgets_t interflop_fgets = (interflop_fgets_t)my_fgets;
extern int WFPRINTF(File *f, const char *fmt, ...);
interflop_fprintf_t interflop_fprintf = (interflop_fprintf_t)WFPRINTF;
static int my_fclose(File *f) { return 0; }
interflop_fclose_t interflop_fclose = (interflop_fclose_t)my_fclose;
'''

def ends(rep):
    """a profile is written at the end when an output file is given, read at the start when an input file is given"""
    b = bk.B['vprec']
    t = bk.prelude(b) + '#include "interflop_vprec_function_instrumentation.h"\n' + FILES
    wr, _ = bk.wiring(b)
    if wr.get('finalize') is None:
        rep.bad('profile files', b.srcs[0], 'the backend offers no finalize entry: no profile is written')
        return
    t += 'struct interflop_backend_interface_t interflop_init(void *); extern void %s(void *);\n' % wr['finalize']
    for n, (i, o) in enumerate(((0, 0), (1, 0), (0, 1), (1, 1))):
        setup = 'vprec_context_t x; t_context_vfi v; __builtin_memset(&v, 0, sizeof v); __builtin_memset(&x, 0, sizeof x); x.vfi = &v; v.map = m; v.vprec_input_file = %s; v.vprec_output_file = %s;' % (
            '(const char *)&INF' if i else '0', '(const char *)&OUTF' if o else '0')
        t += 'void i%d(vfc_hashmap_t m) { %s interflop_init(&x); }\nvoid f%d(vfc_hashmap_t m) { %s %s(&x); }\n' % (n, setup, n, setup, wr['finalize'])
    try:
        m = residual(c19.vbcs() + [bc_text(t, [b.dir])], ['i%d' % n for n in range(4)] + ['f%d' % n for n in range(4)], attrs=c19.NORET, opaque=MAP)
    except BuildError as e:
        rep.unknown('profile files', str(e)[-200:])
        return
    for n, (i, o) in enumerate(((0, 0), (1, 0), (0, 1), (1, 1))):
        for fn, on, cal, ref, what in (('i', i, 'READ', '@INF', 'an input file is read at the start'), ('f', o, 'WFPRINTF', '@OUTF', 'an output file is written at the end')):
            f = m.funcs.get('%s%d' % (fn, n))
            k = 'profile files/%s/%s%s' % (what, 'input' if i else 'no input', ', output' if o else ', no output')
            rep.count('profile file cases')
            if f is None or f.is_decl:
                rep.unknown(k, 'not found')
                continue
            loc = next((m.loc(x) for x in f.insts() if m.loc(x) and 'harness' not in m.loc(x)), fn)
            cs = [x for x in f.insts() if x.op == 'call' and ir.callee(x) == cal and x.ops[0] == ref]
            if on and not cs:
                if [x for x in f.insts() if x.op == 'call' and ir.callee(x) in m.funcs and (not m.funcs[ir.callee(x)].is_decl or ir.callee(x) == cal)]:
                    rep.unknown(k, 'another function does it')
                else:
                    rep.bad(k, loc, 'does not happen')
            elif cs and not on:
                rep.bad(k, m.loc(cs[0]) or loc, 'happens without such a file')
            else:
                rep.ok(k)

def tool(rep):
    """the exploration tool reads the profiles the backend writes and writes profiles the backend reads, for the same functions and arguments"""
    from engine import precexp as px
    from engine.pyabs import Unk
    try: src = px.source()
    except Unk as e: rep.unknown('vfc_precexp', str(e)); return
    prof = px.profile(FUNCS)
    for mode in ('operations', 'arguments', 'all'):
        for names in ([], ['f', 'h'], ['main']):
            key = 'vfc_precexp -m %s %s' % (mode, ' '.join(names))
            w = px.World(src, ['-m', mode, 'run.sh', 'cmp.sh'] + names, prof, lambda c: True)
            try: rc = w.go()
            except Unk as e: rep.unknown(key, 'line %d: %s' % (w.it.line, e)); continue
            rep.count('abstract explorations')
            want, _ = w.parse(prof)
            keep = {i: v for i, v in want.items() if not names or i.split('/')[-3] in names or i.split('/')[-4] in names}
            bad = [b for b in w.bad if b[0] == 'configuration readable']
            if rc != 0: rep.bad(key, px.TOOL, 'the exploration ends with %s' % rc); continue
            if bad: rep.bad(key, '%s:%d' % (px.TOOL, bad[0][2]), bad[0][1]); continue
            msg = None
            for e in w.log:
                if e[0] != 'run' or msg: continue
                c = e[2]
                if set(c) != set(keep): msg = 'the configuration lists %s, the profile %s' % (sorted(c), sorted(keep)); break
                for i, (h, args) in c.items():
                    H, A = keep[i]
                    ch = [k for k in range(12) if h[k] != H[k] and (mode == 'arguments' or k not in (5, 6, 7, 8))]
                    if ch: msg = 'column %d of %s changes from %s to %s' % (ch[0], i, H[ch[0]], h[ch[0]])
                    if len(A) != len(args): msg = 'the number of arguments of %s changes' % i
                    for a, b in zip(A, args):
                        ch = [k for k in range(7) if a[k] != b[k] and (mode == 'operations' or k not in (3, 4))]
                        if ch and not msg: msg = 'column %d of argument %s of %s changes from %s to %s' % (ch[0], a[1], i, a[ch[0]], b[ch[0]])
            rep.check(msg is None and any(e[0] == 'run' for e in w.log), key, px.TOOL, msg or 'no configuration is run')
