"""Conditional constant propagation along the only feasible path of a residual function (loops over constant text unrolled by the analysis).
Arguments stay symbols; a branch on a symbol stops the analysis."""
import re
from . import ir

class Stuck(Exception): pass
SZ = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}

def stores(m, f, limit=60000):
    """(pointer, value) of every store on the feasible path"""
    env, out = {}, []
    def val(o, ty=None):
        if o in env: return env[o]
        if re.match(r'-?\d+$', o): return int(o)
        if o in ('true', 'false'): return int(o == 'true')
        if o == 'null': return 0
        g = re.match(r'getelementptr (?:inbounds )?\(i8, ptr (@\S+), i64 (\d+)\)$', o)
        if g: return ('p', g.group(1), int(g.group(2)))
        if o.startswith('@'): return ('p', o, 0)
        return ('s', o)
    def wrap(v, ty): return v & ((1 << SZ[ty]) - 1) if isinstance(v, int) and ty in SZ else v
    def sg(v, ty): return v - (1 << SZ[ty]) if v >> (SZ[ty] - 1) & 1 else v
    text = {}
    def byte(g, k):
        if g not in text:
            s = m.string(g)
            text[g] = None if s is None else s.encode('latin-1', 'replace') + b'\0'
        t = text[g]
        if t is None or not 0 <= k < len(t): raise Stuck('load from %s' % g)
        return t[k]
    lab, prev, n = f.order[0], None, 0
    while True:
        b = f.blocks[lab]
        ph = {}
        for i in b.insts:
            if i.op == 'phi':
                for v, l in i.extra['inc']:
                    if l.lstrip('%') == (prev or '').lstrip('%'): ph[i.name] = val(v)
        env.update(ph)
        for i in b.insts:
            n += 1
            if n > limit: raise Stuck('too long')
            if i.op == 'phi' or ir.is_intrinsic_noise(i): continue
            if i.op == 'ret': return out
            if i.op in ('br', 'switch'):
                ls = i.extra['labels']
                if i.op == 'br' and not i.ops: prev, lab = lab, ls[0]
                elif i.op == 'br':
                    c = val(i.ops[0])
                    if not isinstance(c, int): raise Stuck('branch on %s' % (c,))
                    prev, lab = lab, ls[0] if c else ls[1]
                else: raise Stuck('switch')
                lab = lab.lstrip('%') if lab.lstrip('%') in f.blocks else lab
                break
            o = [val(x) for x in i.ops]
            ty = i.type
            if i.op == 'store': out.append((o[1], o[0])); continue
            if i.op == 'getelementptr':
                if i.extra.get('src') == 'i8' and len(o) == 2 and isinstance(o[1], int) and o[0][0] == 'p': env[i.name] = ('p', o[0][1], o[0][2] + sg(o[1] & (1 << 64) - 1, 'i64'))
                else: raise Stuck(i.text)
            elif i.op == 'load':
                if ty == 'i8' and isinstance(o[0], tuple) and o[0][0] == 'p': env[i.name] = byte(o[0][1], o[0][2])
                else: env[i.name] = ('s', i.name)
            elif i.op == 'icmp':
                a, c = o
                p = i.extra['pred']
                if isinstance(a, int) and isinstance(c, int):
                    t = (i.optypes or ['i64'])[0] if i.optypes else 'i64'
                    t = t if t in SZ else 'i64'
                    if p[0] == 's': a, c = sg(wrap(a, t), t), sg(wrap(c, t), t)
                    else: a, c = wrap(a, t), wrap(c, t)
                    env[i.name] = int({'eq': a == c, 'ne': a != c, 'lt': a < c, 'le': a <= c, 'gt': a > c, 'ge': a >= c}[p if p in ('eq', 'ne') else p[1:]])
                elif a[0:1] == ('p',) and c == 0 or c == a: env[i.name] = int(p == 'ne') if c == 0 else int(p == 'eq')
                else: env[i.name] = ('s', i.name)
            elif i.op in ('zext', 'trunc', 'sext', 'freeze', 'bitcast'):
                v = o[0]
                if isinstance(v, int) and i.op == 'sext': v = sg(v, (i.optypes or ['i32'])[0])
                env[i.name] = wrap(v, ty)
            elif i.op in ('add', 'sub', 'mul', 'and', 'or', 'xor') and all(isinstance(x, int) for x in o):
                a, c = o
                env[i.name] = wrap({'add': a + c, 'sub': a - c, 'mul': a * c, 'and': a & c, 'or': a | c, 'xor': a ^ c}[i.op], ty)
            elif i.op in ('and',) and 0 in o: env[i.name] = 0
            elif i.op == 'select' and isinstance(o[0], int): env[i.name] = o[1] if o[0] else o[2]
            elif i.op == 'call':
                c = ir.callee(i)
                if c in ('strcmp', 'strcasecmp', 'interflop_strcmp') and all(isinstance(x, tuple) and x[0] == 'p' for x in o[:2]):
                    a, b2 = (m.string(x[1]) for x in o[:2])
                    env[i.name] = int(a != b2)
                else: raise Stuck('call ' + str(c))
            else: raise Stuck(i.text)
        else:
            raise Stuck('block end')
