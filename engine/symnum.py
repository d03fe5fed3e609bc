"""Numbers as terms for the abstract interpretation of the Python tools: every comparison of terms is split both ways, the outcome of each path is a term."""
import math
from .pyabs import Unk

class Paths:
    """all the paths of fn(): list of (conditions, ('val', x) or ('exc', exception))"""
    cur = None
    def __init__(self): self.pre, self.k, self.conds = [], 0, []
    def decide(self, t):
        if self.k == len(self.pre): self.pre.append(True)
        c = self.pre[self.k]; self.k += 1
        self.conds.append((t, c))
        return c
    @classmethod
    def explore(cls, fn, limit=2000):
        out, p = [], cls()
        while True:
            p.k, p.conds = 0, []
            old, Paths.cur = Paths.cur, p
            try:
                try: r = ('val', fn())
                except Exception as e: r = ('exc', e)
            finally: Paths.cur = old
            out.append((list(p.conds), r))
            while p.pre and not p.pre[-1]: p.pre.pop()
            if not p.pre: return out
            p.pre[-1] = False
            if len(out) > limit: raise Unk('too many paths')

def term(x): return x.t if isinstance(x, Sym) else ('c', x)

class Sym:
    """a number (or a truth value) given by a term; py: division by zero raises, as for the language's own floats"""
    def __init__(self, t, py=True): self.t, self.py = t, py
    def _b(self, o, op, rev=False):
        if isinstance(o, Sym): py = self.py and o.py
        elif isinstance(o, (int, float)): py = self.py
        else: return NotImplemented
        a, b = (term(o), self.t) if rev else (self.t, term(o))
        if op in ('/', '//', '%') and py:
            if b[0] == 'c':
                if b[1] == 0: raise ZeroDivisionError('division by zero')
            elif Paths.cur.decide(('==', b, ('c', 0.0))): raise ZeroDivisionError('division by zero')
        return Sym((op, a, b), py)
    def __add__(s, o): return s._b(o, '+')
    def __radd__(s, o): return s._b(o, '+', True)
    def __sub__(s, o): return s._b(o, '-')
    def __rsub__(s, o): return s._b(o, '-', True)
    def __mul__(s, o): return s._b(o, '*')
    def __rmul__(s, o): return s._b(o, '*', True)
    def __truediv__(s, o): return s._b(o, '/')
    def __rtruediv__(s, o): return s._b(o, '/', True)
    def __pow__(s, o): return s._b(o, '**')
    def __lt__(s, o): return s._b(o, '<')
    def __le__(s, o): return s._b(o, '<=')
    def __gt__(s, o): return s._b(o, '>')
    def __ge__(s, o): return s._b(o, '>=')
    def __eq__(s, o): return s._b(o, '==')
    def __ne__(s, o): return s._b(o, '!=')
    def __and__(s, o): return Sym(('and', s.t, term(o)))
    def __or__(s, o): return Sym(('or', s.t, term(o)))
    def __neg__(s): return Sym(('neg', s.t), s.py)
    def __pos__(s): return s
    def __abs__(s): return Sym(('abs', s.t), s.py)
    def __invert__(s): return Sym(('not', s.t), s.py)
    def __bool__(s): return Paths.cur.decide(s.t)
    def __float__(s): raise Unk('conversion of a term')
    def __getattr__(s, k):
        if k.startswith('__'): raise AttributeError(k)
        raise Unk('attribute %s of a number' % k)
    __hash__ = object.__hash__

def div(a, b):
    if b == 0: return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b

def quantile(v, q):
    s = sorted(v); k = (len(s) - 1) * q; i = int(math.floor(k)); j = min(i + 1, len(s) - 1)
    return s[i] + (s[j] - s[i]) * (k - i)

def std(v, ddof=0):
    if any(math.isinf(x) or x != x for x in v): return math.nan
    m = math.fsum(v) / len(v)
    return math.sqrt(div(math.fsum((x - m) ** 2 for x in v), len(v) - ddof))

def mean(v):
    if any(x != x for x in v) or (math.inf in v and -math.inf in v): return math.nan
    return math.fsum(v) / len(v)

def value(t, env):
    """value of a term"""
    k = t[0]
    if k == 'c': return t[1]
    if k == 'v': return env[t[1]]
    if k == 'fn': return env[t]
    a = [value(x, env) if isinstance(x, tuple) else x for x in t[1:]]
    if k == '+': return a[0] + a[1]
    if k == '-': return a[0] - a[1]
    if k == '*': return a[0] * a[1]
    if k == '/': return div(float(a[0]), float(a[1]))
    if k == '**':
        try: return float(a[0]) ** a[1]
        except (OverflowError, ZeroDivisionError): return math.inf
    if k == '<': return a[0] < a[1]
    if k == '<=': return a[0] <= a[1]
    if k == '>': return a[0] > a[1]
    if k == '>=': return a[0] >= a[1]
    if k == '==': return a[0] == a[1]
    if k == '!=': return a[0] != a[1]
    if k == 'and': return bool(a[0]) and bool(a[1])
    if k == 'or': return bool(a[0]) or bool(a[1])
    if k == 'not': return not a[0]
    if k == 'neg': return -a[0]
    if k == 'abs': return abs(a[0])
    if k == 'sqrt': return math.sqrt(a[0]) if a[0] >= 0 else math.nan
    if k == 'log2': return math.log2(a[0]) if a[0] > 0 and not math.isinf(a[0]) else a[0] if a[0] > 0 else -math.inf if a[0] == 0 else math.nan
    if k == 'log10': return value(('log2', ('c', a[0])), env) * math.log10(2)
    if k == 'log': return value(('log2', ('c', a[0])), env) * math.log(2)
    if k == 'isnan': return a[0] != a[0]
    if k == 'isinf': return math.isinf(a[0])
    if k == 'isfinite': return math.isfinite(a[0])
    if k == 'mean': return mean(a[0])
    if k == 'std': return std(a[0], a[1])
    if k == 'var': return std(a[0], a[1]) ** 2
    if k == 'min': return math.nan if any(x != x for x in a[0]) else min(a[0])
    if k == 'max': return math.nan if any(x != x for x in a[0]) else max(a[0])
    if k == 'quantile': return math.nan if any(x != x for x in a[0]) else quantile(a[0], a[1])
    if k == 'len': return len(a[0])
    if k == 'sum': return math.fsum(a[0])
    raise Unk('term ' + str(k))

def close(a, b):
    if isinstance(a, bool) or isinstance(b, bool): return a == b
    if not isinstance(a, (int, float)) or not isinstance(b, (int, float)): return a == b
    if math.isinf(a) or math.isinf(b): return a == b
    return a == b or a != a and b != b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))
