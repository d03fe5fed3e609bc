"""Terms: the value of an SSA name with phis/selects resolved under an abstract
interpretation result.  A term is a tuple (op, type, attr, children...)."""
from . import ir
from .absint import AbsInt, FP, Int, FPT, parse_fp

class Terms:
    def __init__(self, fn, ai):
        self.f, self.ai = fn, ai
        self.memo = {}
        self.stack = set()
    def reachable_stores(self, ptr):
        return [i for i in self.f.insts() if i.op == 'store' and i.ops[1] == ptr and i.block in self.ai.exec_blocks]
    def resolve(self, v):
        """follow copies: phi with one live value, decided select, freeze"""
        seen = set()
        while v in self.f.defs and v not in seen:
            seen.add(v)
            d = self.f.defs[v]
            if d.op == 'phi':
                live = {self.resolve(x) for x, l in d.extra['inc'] if (l, d.block) in self.ai.exec_edges}
                live.discard(v)
                if len(live) == 1:
                    v = live.pop()
                    continue
                return v
            if d.op == 'select':
                c = self.ai.get(d.ops[0], 'i1')
                if isinstance(c, Int) and c.const is not None:
                    v = d.ops[1 if c.const else 2]
                    continue
                a, b = self.resolve(d.ops[1]), self.resolve(d.ops[2])
                if a == b:
                    v = a
                    continue
                return v
            if d.op == 'freeze':
                v = d.ops[0]
                continue
            return v
        return v
    def term(self, v, ty=None):
        v = self.resolve(v)
        if v in self.memo:
            return self.memo[v]
        d = self.f.defs.get(v)
        if d is None:
            for t, n in self.f.args:
                if n == v:
                    r = ('arg', t, v)
                    break
            else:
                r = ('const', ty, v)
            return r
        a = self.ai.val.get(v)
        if isinstance(a, Int) and a.const is not None:
            r = ('const', d.type, str(a.const))
            self.memo[v] = r
            return r
        if v in self.stack:
            return ('rec', d.type, v)
        self.stack.add(v)
        try:
            kids = tuple(self.term(o, t) for o, t in zip(d.ops, d.optypes) if t != 'metadata')
            op = d.op
            attr = None
            if op == 'phi':
                kids = tuple(self.term(x, d.type) for x, l in d.extra['inc'] if (l, d.block) in self.ai.exec_edges)
                attr = v
            elif op in ('fcmp', 'icmp'):
                attr = d.extra['pred']
            elif op in ('call', 'invoke'):
                attr = (ir.callee(d), v)
            elif op == 'load':
                attr = v
            elif op == 'getelementptr':
                attr = d.extra['src']
            elif op in ('extractvalue', 'insertvalue'):
                attr = tuple(d.extra['idx'])
            elif op == 'alloca':
                attr = v
            r = (op, d.type, attr) + kids
        finally:
            self.stack.discard(v)
        self.memo[v] = r
        return r

    def name_of(self, t):
        """SSA names whose term is (structurally) t"""
        return [v for v, x in self.memo.items() if x is t or x == t]

def walk(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        for c in x[3:]:
            if isinstance(c, tuple):
                st.append(c)

def show(t, depth=6):
    if t[0] in ('arg', 'const'):
        return t[2]
    if depth == 0:
        return '...'
    nm = t[0]
    if t[0] == 'call':
        nm = str(t[2][0])
    elif t[0] in ('fcmp', 'icmp'):
        nm += ' ' + t[2]
    return '%s(%s)' % (nm, ', '.join(show(c, depth - 1) for c in t[3:]))
