"""Sizes of buffers, lengths of strings and intervals of indices over the residual IR (buffer-overrun obligations)."""
import re
from . import ir

INF = 1 << 62
PIPE = ('internalize,globaldce,globalopt,cgscc(inline,function(sroa<modify-cfg>,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>)),'
        'globaldce,function(sroa<modify-cfg>,gvn,sccp,correlated-propagation,instcombine<no-verify-fixpoint>,dse,adce,simplifycfg)')

def mark(txt):
    """array-to-pointer decays of character arrays become calls that keep the size of the array (a field at offset 0 would be folded away)"""
    used = set()
    def rep(m):
        used.add(m.group(2))
        return '%s = call ptr @vp.decay.%s(ptr %s)' % (m.group(1), m.group(2), m.group(3))
    txt = re.sub(r'^(\s+%[\w.]+) = getelementptr inbounds \[(\d+) x i8\], ptr (%[\w.]+|@[\w.]+), i64 0, i64 0', rep, txt, flags=re.M)
    return txt + ''.join('\ndeclare ptr @vp.decay.%s(ptr) memory(none) nounwind willreturn\n' % n for n in sorted(used))

def bits(ty):
    m = re.match(r'i(\d+)$', ty or '')
    return int(m.group(1)) if m else None

SWAP = {'sgt': 'slt', 'slt': 'sgt', 'sge': 'sle', 'sle': 'sge', 'ugt': 'ult', 'ult': 'ugt', 'uge': 'ule', 'ule': 'uge', 'eq': 'eq', 'ne': 'ne'}
NEG = {'sgt': 'sle', 'sle': 'sgt', 'sge': 'slt', 'slt': 'sge', 'ugt': 'ule', 'ule': 'ugt', 'uge': 'ult', 'ult': 'uge', 'eq': 'ne', 'ne': 'eq'}

class Rng:
    """intervals of the integer values of one function, refined by the branches that dominate a use"""
    def __init__(self, f):
        self.f = f
        f.cfg()
        self.consts = sorted({int(o) + d for i in f.insts() if i.op == 'icmp' for o in i.ops if re.match(r'-?\d+$', o) for d in (-1, 0, 1)})
        self.val = {}
        self.conds = {}
        self.solve()
    # ---- conditions that hold on entry to a block
    def facts(self, block):
        if block in self.conds: return self.conds[block]
        f, out = self.f, []
        self.conds[block] = out
        b = block
        idom = f.idom()
        chain = [b]
        while idom.get(b) not in (None, b):
            b = idom[b]; chain.append(b)
        for x in chain:
            for p in f.blocks[x].preds if len(f.blocks[x].preds) == 1 else ():
                out += self.edge(p, x)
        return out
    def edge(self, p, s):
        t = self.f.blocks[p].insts[-1]
        out = []
        if t.op == 'br' and t.ops and len(set(t.extra['labels'])) == 2:
            self.atoms(t.ops[0], t.extra['labels'][0] == s, out)
        elif t.op == 'switch':
            for v, l in t.extra.get('cases', ()):
                if l == s and sum(1 for _, m in t.extra['cases'] if m == s) == 1 and t.extra['default'] != s: out.append((t.ops[0], 'eq', str(v)))
                elif t.extra['default'] == s and l != s: out.append((t.ops[0], 'ne', str(v)))
        return out
    def atoms(self, c, truth, out, n=0):
        d = self.f.defs.get(c)
        if d is None or n > 8: return
        if d.op == 'icmp':
            p = d.extra['pred']
            out.append((d.ops[0], p if truth else NEG[p], d.ops[1]))
        elif d.op == 'xor' and d.ops[1] in ('true', '-1', '1'): self.atoms(d.ops[0], not truth, out, n + 1)
        elif d.op == 'and' and truth or d.op == 'or' and not truth:
            for o in d.ops: self.atoms(o, truth, out, n + 1)
        elif d.op == 'select' and d.type == 'i1':
            if truth and d.ops[2] == 'false': self.atoms(d.ops[0], True, out, n + 1); self.atoms(d.ops[1], True, out, n + 1)
            if not truth and d.ops[1] == 'true': self.atoms(d.ops[0], False, out, n + 1); self.atoms(d.ops[2], False, out, n + 1)
        elif d.op == 'freeze': self.atoms(d.ops[0], truth, out, n + 1)
    # ---- values
    def full(self, v):
        d = self.f.defs.get(v)
        n = bits(d.type if d is not None else next((a[0] for a in self.f.args if a[1] == v), 'i64'))
        n = n or 64
        return (-(1 << (n - 1)), (1 << (n - 1)) - 1)
    def base(self, v):
        if re.match(r'-?\d+$', v): return (int(v), int(v))
        if v in ('true', 'false'): return (int(v == 'true'),) * 2
        if v in self.val: return self.val[v]
        return None
    def refine(self, v, r, facts, n=0):
        if r is None: return None
        lo, hi = r
        for a, p, b in facts:
            if a != v:
                if b != v:
                    # (v + constant) compared without sign with a constant: a range modulo the width
                    d = self.f.defs.get(a)
                    if d is None or d.op != 'add' or d.ops[0] != v or p[0] != 'u' or not re.match(r'-?\d+$', d.ops[1]) or not re.match(r'-?\d+$', b) or not bits(d.type): continue
                    w = 1 << bits(d.type)
                    k, c = int(b) % w, int(d.ops[1])
                    L, U = {'ult': (0, k - 1), 'ule': (0, k), 'ugt': (k + 1, w - 1), 'uge': (k, w - 1)}[p]
                    hit = [(max(lo, L - c + j * w), min(hi, U - c + j * w)) for j in range(-2, 3)]
                    hit = [h for h in hit if h[0] <= h[1]]
                    if not hit: return 'empty'
                    lo, hi = min(h[0] for h in hit), max(h[1] for h in hit)
                    continue
                a, p, b = b, SWAP[p], a
            rb = self.base(b)
            if rb is None: continue
            if p in ('ult', 'ule') and rb[0] >= 0: lo, hi = max(lo, 0), min(hi, rb[1] - (p == 'ult'))
            elif p in ('slt', 'sle'): hi = min(hi, rb[1] - (p == 'slt'))
            elif p in ('sgt', 'sge'): lo = max(lo, rb[0] + (p == 'sgt'))
            elif p in ('ugt', 'uge') and lo >= 0 and rb[0] >= 0: lo = max(lo, rb[0] + (p == 'ugt'))
            elif p == 'eq': lo, hi = max(lo, rb[0]), min(hi, rb[1])
            elif p == 'ne' and rb[0] == rb[1]:
                if lo == rb[0]: lo += 1
                if hi == rb[0]: hi -= 1
        return (lo, hi) if lo <= hi else 'empty'
    def at(self, v, block, extra=(), n=0):
        """interval of v at the start of the block (None: not known yet, 'empty': not reachable)"""
        facts = list(extra) + self.facts(block)
        r = self.base(v)
        d = self.f.defs.get(v)
        if d is not None and n < 6:
            s = None
            if d.op in ('zext', 'sext', 'freeze') or d.op == 'trunc':
                s = self.at(d.ops[0], block, extra, n + 1)
                if d.op == 'zext' and isinstance(s, tuple) and s[0] < 0: s = None
                if d.op == 'trunc' and isinstance(s, tuple):
                    w = self.full(v)
                    if s[0] < w[0] or s[1] > w[1]: s = None
            elif d.op in ('add', 'sub') and re.match(r'-?\d+$', d.ops[1]):
                s = self.at(d.ops[0], block, extra, n + 1)
                if isinstance(s, tuple):
                    k = int(d.ops[1]) * (1 if d.op == 'add' else -1)
                    s = (s[0] + k, s[1] + k)
                    w = self.full(v)
                    if s[0] < w[0] or s[1] > w[1]: s = None
            if s == 'empty': return s
            if isinstance(s, tuple) and isinstance(r, tuple):
                r = (max(s[0], r[0]), min(s[1], r[1]))
                if r[0] > r[1]: return 'empty'
        return self.refine(v, r, facts)
    def transfer(self, i):
        w = self.full(i.name)
        g = lambda o: self.at(o, i.block)
        clip = lambda lo, hi: (lo, hi) if lo >= w[0] and hi <= w[1] else w
        if i.op == 'phi':
            out = None
            for v, l in i.extra['inc']:
                r = self.at(v, l, self.edge(l, i.block))
                if r in (None, 'empty'): continue
                out = r if out is None else (min(out[0], r[0]), max(out[1], r[1]))
            if out is not None and out[0] < 0 and i.type == 'i64':
                # a 64-bit counter does not wrap around
                vs = [v for v, l in i.extra['inc']]
                ds = [self.f.defs.get(v) for v in vs if not re.match(r'\d+$', v)]
                if len(ds) < len(vs) and all(d is not None and d.op == 'add' and d.ops[0] == i.name and re.match(r'\d+$', d.ops[1]) for d in ds):
                    out = (min(int(v) for v in vs if re.match(r'\d+$', v)), out[1])
            return out
        if i.op == 'select':
            fa, fb = [], []
            self.atoms(i.ops[0], True, fa); self.atoms(i.ops[0], False, fb)
            rs = [r for r in (self.at(i.ops[1], i.block, fa), self.at(i.ops[2], i.block, fb)) if r not in (None, 'empty')]
            return (min(r[0] for r in rs), max(r[1] for r in rs)) if rs else None
        ops = [g(o) for o in i.ops[:2]] if i.op in ('add', 'sub', 'mul', 'and', 'shl', 'lshr', 'urem', 'srem', 'udiv', 'sdiv', 'zext', 'sext', 'trunc', 'freeze', 'or', 'xor', 'ashr') else []
        if any(o in (None, 'empty') for o in ops): return None
        if i.op == 'add': return clip(ops[0][0] + ops[1][0], ops[0][1] + ops[1][1])
        if i.op == 'sub': return clip(ops[0][0] - ops[1][1], ops[0][1] - ops[1][0])
        if i.op == 'mul':
            c = [a * b for a in ops[0] for b in ops[1]]
            return clip(min(c), max(c))
        if i.op == 'and':
            k = [o[1] for o in ops if o[0] >= 0]
            return (0, min(k)) if k else w
        if i.op == 'urem' and ops[1][0] > 0: return (0, ops[1][1] - 1)
        if i.op == 'srem' and ops[1][0] > 0: return (-(ops[1][1] - 1) if ops[0][0] < 0 else 0, ops[1][1] - 1)
        if i.op == 'lshr' and ops[1][0] == ops[1][1]:
            n = bits(i.type)
            hi = ops[0][1] if ops[0][0] >= 0 else (1 << n) - 1
            return (0, hi >> ops[1][0]) if (hi >> ops[1][0]) <= w[1] else w
        if i.op in ('udiv', 'sdiv') and ops[0][0] >= 0 and ops[1][0] > 0: return (0, ops[0][1] // ops[1][0])
        if i.op == 'shl' and ops[1][0] == ops[1][1]: return clip(ops[0][0] << ops[1][0], ops[0][1] << ops[1][0])
        if i.op == 'sext' or i.op == 'freeze': return ops[0]
        if i.op == 'zext':
            if ops[0][0] >= 0: return ops[0]
            d = self.f.defs.get(i.ops[0])
            n = bits(d.type) if d is not None else bits(i.optypes[0])
            return (0, (1 << (n or 32)) - 1)
        if i.op == 'trunc': return ops[0] if ops[0][0] >= w[0] and ops[0][1] <= w[1] else w
        if i.op == 'call' and ir.callee(i) in ('strlen', 'strnlen', 'strspn', 'strcspn'): return (0, INF)
        return w
    def solve(self):
        f = self.f
        ints = [i for l in f.rpo() for i in f.blocks[l].insts if i.name and bits(i.type)]
        for t, a in ((x[0], x[1]) for x in f.args):
            if bits(t): self.val[a] = self.full(a)
        count = {}
        for rnd in range(60):
            ch = False
            for i in ints:
                r = self.transfer(i)
                if r is None or r == 'empty': continue
                o = self.val.get(i.name)
                if o is not None: r = (min(o[0], r[0]), max(o[1], r[1]))
                if r == o: continue
                count[i.name] = count.get(i.name, 0) + 1
                if i.op == 'phi' and count[i.name] > 3 and o is not None:
                    w = self.full(i.name)
                    if r[1] > o[1]: r = (r[0], next((c for c in self.consts if c >= r[1]), w[1]))
                    if r[0] < o[0]: r = (next((c for c in reversed(self.consts) if c <= r[0]), w[0]), r[1])
                if count[i.name] > 40: r = self.full(i.name)
                self.val[i.name] = r
                ch = True
            if not ch: break

# ---------------------------------------------------------------- linear sizes
def ladd(a, b, k=1):
    if a is None or b is None: return None
    r = dict(a)
    for s, c in b.items(): r[s] = r.get(s, 0) + k * c
    return {s: c for s, c in r.items() if c}
def lc(n): return {1: n} if n else {}
def nonneg(a): return a is not None and all(c >= 0 for c in a.values())

SVC = 'interflop_'
def service(f, i):
    """name of the library function called, directly or through a runtime service pointer"""
    c = ir.callee(i)
    if c is not None: return c
    d = f.defs.get(i.extra['callee'])
    if d is not None and d.op == 'load' and d.ops[0].startswith('@' + SVC): return d.ops[0][1 + len(SVC):]
    return None

class Bounds:
    def __init__(self, m, keep=()):
        self.m, self._rng, self._stores, self.keep, self._callers = m, {}, None, set(keep), {}
        for f in m.funcs.values():
            if not f.is_decl:
                f.cfg()
                for l in f.order:
                    for n, i in enumerate(f.blocks[l].insts): i.idx = n
    def rng(self, f):
        if f.name not in self._rng: self._rng[f.name] = Rng(f)
        return self._rng[f.name]
    def stores(self):
        """global root -> [(function, stored operand)] over the module"""
        if self._stores is None:
            self._stores = {}
            for f in self.m.funcs.values():
                if f.is_decl: continue
                for i in f.insts():
                    if i.op == 'store':
                        r, o = self.m.addr(f, i.ops[1])
                        if r.startswith('@'): self._stores.setdefault(r, []).append((f, i.ops[0]))
        return self._stores
    def gsize(self, g):
        t = self.m.globals.get(g) if hasattr(self.m, 'globals') else None
        if t is None: return None
        mm = re.search(r'(?:global|constant) (.*)$', t.text)
        if not mm: return None
        try: return self.m.layout(ir.take_type(mm.group(1))[0])[0]
        except Exception: return None
    # ---- size of what a pointer points to, from the pointer on: list of linear forms, None where unknown
    def cap(self, f, p, seen=()):
        if p in seen: return []
        seen = seen + (p,)
        if p.startswith('@') and not p.startswith('@.str'):
            n = self.gsize(p)
            return [lc(n) if n else None]
        mm = re.match(r'getelementptr', p)
        if mm:
            r, o = self.m.addr(f, p)
            return [ladd(c, lc(o), -1) if c is not None and o is not None else None for c in self.cap(f, r, seen)]
        d = f.defs.get(p)
        if d is None: return [None]
        if d.op == 'alloca':
            try: return [lc(self.m.layout(d.extra['alloc'])[0] * (int(d.ops[0]) if d.ops and re.match(r'\d+$', d.ops[0]) else 1))]
            except Exception: return [None]
        if d.op in ('phi', 'select'):
            vs = [v for v, l in d.extra['inc']] if d.op == 'phi' else d.ops[1:3]
            return [c for v in vs if v != 'null' for c in self.cap(f, v, seen)]
        if d.op == 'getelementptr':
            # a field that is an array of characters has its own size
            o = self.m.idx_off(d.extra['src'], d.ops[1:])
            if o is None: return [None]
            return [ladd(c, lc(o), -1) if c is not None else None for c in self.cap(f, d.ops[0], seen)]
        if d.op == 'call':
            n = service(f, d)
            if n and n.startswith('vp.decay.'): return [lc(int(n.split('.')[2]))]
            if n == 'malloc': return [self.lin(f, d.ops[0])]
            if n == 'calloc':
                a, b = self.lin(f, d.ops[0]), self.lin(f, d.ops[1])
                for x, y in ((a, b), (b, a)):
                    if x is not None and set(x) <= {1} and y is not None: return [{s: c * x.get(1, 0) for s, c in y.items()}]
                return [None]
            if n == 'realloc': return [self.lin(f, d.ops[1])]
            if n in ('strdup', ): return [ladd({('len', d.ops[0]): 1}, lc(1))]
            return [None]
        if d.op == 'load':
            r, o = self.m.addr(f, d.ops[0])
            vs = self.reaching(f, d, r, o)
            if vs: return [c for v in vs if v != 'null' for c in self.cap(f, v, seen)]
            if r.startswith('@') and r in self.stores():
                out = []
                for g, v in self.stores()[r]:
                    if v == 'null': continue
                    out += [c if c is not None and set(c) <= {1} else None for c in self.cap(g, v, seen if g is f else ())]
                return out or [None]
            return [None]
        return [None]
    def f_phi(self, f, v):
        """v is a loop counter"""
        d = f.defs.get(v)
        while d is not None and d.op in ('sext', 'zext', 'trunc', 'freeze'): d = f.defs.get(d.ops[0])
        return d is not None and d.op == 'phi'
    def reaching(self, f, i, r, o):
        """values a local variable (alloca r, offset o) can hold when instruction i is reached; None when not known"""
        a = f.defs.get(r)
        if a is None or a.op != 'alloca' or o is None: return None
        out, seen, st = [], set(), [(i.block, i.idx)]
        while st:
            l, k = st.pop()
            for x in reversed(f.blocks[l].insts[:k]):
                if x.op == 'store':
                    rx, ox = self.m.addr(f, x.ops[1])
                    if rx == r:
                        if ox != o: return None
                        out.append(x.ops[0]); break
                elif x.op == 'call' and not (ir.callee(x) or '').startswith('llvm.lifetime') and any(p.startswith('%') and self.m.addr(f, p)[0] == r for p in x.ops): return None
                elif x is a: return None
            else:
                ps = f.blocks[l].preds
                if not ps: return None
                for q in ps:
                    if q not in seen: seen.add(q); st.append((q, len(f.blocks[q].insts)))
        return list(dict.fromkeys(out))
    def lin(self, f, v, n=0):
        if re.match(r'-?\d+$', v): return lc(int(v))
        d = f.defs.get(v)
        if d is None or n > 12: return {v: 1} if d is None else None
        if d.op == 'add': return ladd(self.lin(f, d.ops[0], n + 1), self.lin(f, d.ops[1], n + 1))
        if d.op == 'sub': return ladd(self.lin(f, d.ops[0], n + 1), self.lin(f, d.ops[1], n + 1), -1)
        if d.op in ('mul', 'shl'):
            a, b = self.lin(f, d.ops[0], n + 1), self.lin(f, d.ops[1], n + 1)
            if b is not None and set(b) <= {1} and a is not None:
                k = b.get(1, 0) if d.op == 'mul' else 1 << b.get(1, 0)
                return {s: c * k for s, c in a.items()}
            return {v: 1}
        if d.op in ('zext', 'sext', 'freeze'): return self.lin(f, d.ops[0], n + 1)
        if d.op == 'call' and service(f, d) == 'strlen':
            t = self.m.string(d.ops[0])
            return lc(len(t.encode())) if t is not None else {('len', self.strip(f, d.ops[0])): 1}
        return {v: 1}
    def strip(self, f, p):
        d = f.defs.get(p)
        if d is not None and d.op == 'call' and (ir.callee(d) or '').startswith('vp.decay.'): return self.strip(f, d.ops[0])
        if d is not None and d.op == 'getelementptr' and all(re.match('0$', o) for o in d.ops[1:]): return self.strip(f, d.ops[0])
        return p
    # ---- length of a string: (linear form or None, external?, why)
    def length(self, f, s, block, depth=0):
        t = self.m.string(s)
        if t is not None: return lc(len(t.encode())), False, 'a constant'
        g = self.guard(f, s, block)
        if g is not None: return lc(g), True, 'guarded'
        d = f.defs.get(s)
        c = self.cap(f, s)
        if d is not None and d.op == 'call':
            n = service(f, d)
            if n in ('strtok_r', 'strtok'):
                src = self.tok(f, d)
                if src is not None and depth < 4:
                    l, e, w = self.length(f, src, d.block, depth + 1)
                    return l, True, 'a token of ' + w
                return None, False, 'strtok_r'
            if n in ('getenv', 'secure_getenv'): return {('len', s): 1}, True, 'the environment'
        if d is not None and d.op in ('phi', 'select') and depth < 4:
            vs = [(v, l) for v, l in d.extra['inc']] if d.op == 'phi' else [(o, block) for o in d.ops[1:3]]
            rs = [self.length(f, v, l, depth + 1) for v, l in vs if v not in ('null', s)]
            if rs and all(r[0] is not None and set(r[0]) <= {1} for r in rs):
                m = max(rs, key=lambda r: r[0].get(1, 0)); return m[0], any(r[1] for r in rs), m[2]
            bad = [r for r in rs if (r[0] is None or not set(r[0]) <= {1}) and r[1]]
            if bad: return bad[0]
            return None, False, 'several sources'
        if len(c) >= 1 and all(x is not None and set(x) <= {1} for x in c):
            return lc(max(x.get(1, 0) for x in c) - 1), self.filled(f, s), 'a buffer of %d bytes' % max(x.get(1, 0) for x in c)
        if d is None and s in f.argnames() and depth < 4:
            cs = self.callers(f)
            if cs is not None:
                k = f.argnames().index(s)
                rs = [self.length(g, i.ops[k], i.block, depth + 1) for g, i in cs if k < len(i.ops)]
                if rs and all(r[0] is not None and set(r[0]) <= {1} for r in rs):
                    m = max(rs, key=lambda r: r[0].get(1, 0)); return m[0], any(r[1] for r in rs), m[2]
                bad = [r for r in rs if r[1] and (r[0] is None or not set(r[0]) <= {1})]
                if bad: return {('len', s): 1}, True, bad[0][2]
                return {('len', s): 1}, False, s
        if d is None and s.startswith('%') or d is not None and d.op == 'load':
            return {('len', self.strip(f, s)): 1}, True, 'text given from outside (%s)' % s
        return {('len', self.strip(f, s)): 1}, False, s
    def root(self, f, p):
        """the object a pointer comes from: an alloca or allocation of the function, or the global whose content it is"""
        while True:
            p = self.strip(f, p)
            r, o = self.m.addr(f, p)
            d = f.defs.get(r)
            if d is not None and d.op == 'call' and (ir.callee(d) or '').startswith('vp.decay.'): p = d.ops[0]; continue
            if d is not None and d.op == 'load':
                g, o = self.m.addr(f, d.ops[0])
                return g + ' content' if g.startswith('@') else r
            return r
    def filled(self, f, s):
        """the buffer receives text from outside"""
        r = self.root(f, s)
        for g in (self.m.funcs.values() if r.startswith('@') else [f]):
            if g.is_decl: continue
            for i in g.insts():
                if i.op != 'call': continue
                n = service(g, i)
                if n in ('fgets', 'fread', 'gets') and self.root(g, i.ops[0]) == r or n == 'read' and self.root(g, i.ops[1]) == r: return True
                if n in ('strcpy', 'strncpy', 'strcat', 'stpcpy', 'strncat') and self.root(g, i.ops[0]) == r:
                    d = g.defs.get(i.ops[1])
                    if d is not None and d.op == 'call' and service(g, d) in ('strtok_r', 'strtok', 'getenv') or d is None and i.ops[1].startswith('%') or d is not None and d.op in ('load', 'phi'): return True
        return False
    def callers(self, f):
        """call sites of a function, None when it can be called from outside or through a pointer"""
        if f.name in self.keep: return None
        if f.name not in self._callers:
            out, esc = [], False
            at = re.compile(r'@"?%s"?(?![\w.$])' % re.escape(f.name))
            for g in self.m.globals.values():
                if at.search(g.text): esc = True
            for g in self.m.funcs.values():
                if g.is_decl: continue
                for i in g.insts():
                    if ir.callee(i) == f.name:
                        out.append((g, i))
                        if any(at.search(o) for o in i.ops): esc = True
                    elif at.search(i.text): esc = True
            self._callers[f.name] = None if esc or not out else out
        return self._callers[f.name]
    def tok(self, f, call):
        """the string a strtok_r chain works on"""
        if call.ops[0] != 'null':
            d = f.defs.get(call.ops[0])
            return call.ops[0]
        sv = call.ops[2] if len(call.ops) > 2 else None
        for i in f.insts():
            if i.op == 'call' and service(f, i) == service(f, call) and i.ops[0] != 'null' and (sv is None or i.ops[2] == sv): return i.ops[0]
        return None
    def guard(self, f, s, block):
        """largest length of s allowed by the branches before the block, or None"""
        r, best = self.rng(f), None
        key = self.strip(f, s)
        for i in f.insts():
            if i.op == 'call' and service(f, i) in ('strlen', 'strnlen') and self.strip(f, i.ops[0]) == key and f.dominates(i.block, block):
                v = r.at(i.name, block)
                if isinstance(v, tuple) and v[1] < (1 << 30) and (best is None or v[1] < best): best = v[1]
        # a counter of characters up to the terminator
        for a, p, b in r.facts(block):
            d = f.defs.get(a)
            if p == 'eq' and b == '0' and d is not None and d.op == 'load' and d.type == 'i8':
                g = f.defs.get(d.ops[0])
                if g is not None and g.op == 'getelementptr' and len(g.ops) == 2 and self.strip(f, g.ops[0]) == key:
                    v = r.at(g.ops[1], block)
                    if isinstance(v, tuple) and v[1] < (1 << 30) and (best is None or v[1] < best): best = v[1]
        return best
    def looks_guarded(self, f, s, block):
        """some branch before the block examines the length or content of s in a way that is not understood"""
        key = self.strip(f, s)
        for a, p, b in self.rng(f).facts(block):
            for v in (a, b):
                for x in ir.cone(f, v)[0] if v in f.defs else ():
                    if x.op == 'call' and (service(f, x) or '') in ('strlen', 'strnlen', 'snprintf', 'strchr', 'memchr', 'strspn', 'strcspn') and any(self.strip(f, o) == key for o in x.ops): return True
                    if x.op == 'load' and x.type == 'i8' and self.strip(f, self.m.addr(f, x.ops[0])[0]) == key and not (p in ('eq', 'ne') and self.m.addr(f, x.ops[0])[1] == 0): return True
        return False

def fmt_need(B, f, call, fmt, args, block):
    """(linear length, external, why) of a formatted text; None length where unknown"""
    tot, ext, why = {}, False, '' if args else 'a constant'
    k = 0
    for mm in re.finditer(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([a-zA-Z%])|([^%]+)', fmt):
        if mm.group(6) is not None: tot = ladd(tot, lc(len(mm.group(6).encode()))); continue
        fl, w, pr, lm, cv = mm.groups()[:5]
        if cv == '%': tot = ladd(tot, lc(1)); continue
        if w == '*' or pr == '*': return None, False, 'variable width'
        if k >= len(args): return None, False, 'missing argument'
        a = args[k]; k += 1
        width = int(w or 0)
        if cv == 's':
            l, e, y = B.length(f, a, block)
            if pr is not None:
                l, e = lc(max(int(pr), width)), False
            elif width and l is not None: l = ladd(l, lc(width))
            if l is None: return None, e, y
            tot = ladd(tot, l); ext |= e
            if e: why = y
        elif cv in 'di': tot = ladd(tot, lc(max(width, 20 if lm in ('l', 'll', 'z', 'j', 't') else 11)))
        elif cv in 'uxXo': tot = ladd(tot, lc(max(width, 22 if lm in ('l', 'll', 'z', 'j', 't') else 11) + (2 if '#' in (fl or '') else 0)))
        elif cv == 'c': tot = ladd(tot, lc(max(width, 1)))
        elif cv == 'p': tot = ladd(tot, lc(max(width, 18)))
        elif cv == 'a' or cv == 'A': tot = ladd(tot, lc(max(width, 30)))
        elif cv in 'eEgG' and int(pr or 6) < 40: tot = ladd(tot, lc(max(width, int(pr or 6) + 10)))
        else: return None, False, '%' + cv
    return tot, ext, why
