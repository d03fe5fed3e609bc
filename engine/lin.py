"""Linear forms over integer terms, and the shape of a noise term.

An integer term is turned into a set of alternatives (one per phi/select leaf),
each a dict {atom: coefficient} with the constant under key 1.  Atoms:
('E', fp term)   exponent field of the floating-point term
('F', offset)    context field at that byte offset
('max', a, b)    maximum of two linear forms
('t', term)      anything else"""
from .absint import FPT, parse_fp
from .opsem import norm_conv
from .terms import walk, show

MBITS = {'float': 23, 'double': 52, 'fp128': 112}
EBITS = {'float': 8, 'double': 11, 'fp128': 15}
BIAS = {'float': 127, 'double': 1023, 'fp128': 16383}
INTOF = {'float': 'i32', 'double': 'i64', 'fp128': 'i128'}

def w_of(ty):
    return int(ty[1:]) if ty and ty[0] == 'i' and ty[1:].isdigit() else None

def cint(t):
    if t[0] == 'const':
        s = t[2]
        if s in ('true', 'false'):
            return int(s == 'true')
        try:
            return int(s)
        except ValueError:
            return None
    return None

def add(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        r[x] = r.get(x, 0) + k * c
    return {x: c for x, c in r.items() if c != 0}

def scale(a, k):
    return {x: c * k for x, c in a.items() if c * k}

def freeze(l):
    return frozenset(l.items())

def strip_int(t):
    while t[0] in ('zext', 'sext', 'trunc', 'freeze'):
        t = t[3]
    return t

def bits_of(t):
    """t = bitcast of an fp term -> that term"""
    t = strip_int(t)
    if t[0] == 'bitcast' and t[3][1] in FPT:
        return t[3]
    return None

def exp_field(t):
    """t denotes the exponent field of an fp term -> (fp term) or None"""
    t = strip_int(t)
    if t[0] == 'and':
        for a, b in ((t[3], t[4]), (t[4], t[3])):
            m = cint(b)
            if m is None:
                continue
            a = strip_int(a)
            if a[0] == 'lshr' or a[0] == 'ashr':
                x = bits_of(a[3])
                s = cint(a[4])
                if x is not None and x[1] in MBITS and s == MBITS[x[1]] and (m & 0xffff) == (1 << EBITS[x[1]]) - 1 and m >= 0:
                    return x
    if t[0] in ('lshr',):
        # (bits & expmask) >> mbits, or (bits << 1) >> (mbits+1), or bits >> mbits of a non-negative value
        s = cint(t[4])
        a = strip_int(t[3])
        if a[0] == 'and':
            for p, q in ((a[3], a[4]), (a[4], a[3])):
                m = cint(q)
                x = bits_of(p)
                if m is not None and x is not None and x[1] in MBITS and s == MBITS[x[1]]:
                    w = (1 << EBITS[x[1]]) - 1
                    if (m >> s) & (2 * w + 1) == w:
                        return x
        if a[0] == 'shl' and cint(a[4]) == 1:
            x = bits_of(a[3])
            if x is not None and x[1] in MBITS and s == MBITS[x[1]] + 1:
                return x
    return None

def field(t):
    """context field load -> byte offset (of a scalar load, or of the part of a wider load selected)"""
    if t[0] == 'load':
        o = ctx_off(t[3])
        if o is not None:
            return o
    return None

def ctx_off(p):
    if p[0] == 'arg' and p[2] == '%ctx0':
        return 0
    if p[0] == 'getelementptr' and len(p) == 5:
        b = ctx_off(p[3])
        k = cint(p[4])
        if b is not None and k is not None:
            sz = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'float': 4, 'double': 8, 'ptr': 8}.get(p[2])
            if sz:
                return b + k * sz
    return None

def lins(t, depth=60):
    """alternatives of linear forms"""
    if depth == 0:
        return [{('t', t): 1}]
    k = cint(t)
    if k is not None:
        return [{1: k}] if k else [{}]
    op = t[0]
    x = exp_field(t)
    if x is not None:
        return [{('E', x): 1}]
    f = field(t)
    if f is not None:
        return [{('F', f): 1}]
    if op in ('zext', 'sext', 'freeze'):
        return lins(t[3], depth - 1)
    if op == 'trunc':
        a = strip_int(t)
        if a[0] == 'lshr' and field(a[3]) is not None and cint(a[4]) is not None and cint(a[4]) % 8 == 0:
            return [{('F', field(a[3]) + cint(a[4]) // 8): 1}]
        return lins(t[3], depth - 1)
    if op in ('add', 'sub', 'or'):
        if op == 'or' and cint(t[4]) is not None:
            pass
        out = []
        for a in lins(t[3], depth - 1):
            for b in lins(t[4], depth - 1):
                out.append(add(a, b, -1 if op == 'sub' else 1))
        return dd(out)
    if op == 'xor' and cint(t[4]) == -1:
        return dd([add(scale(a, -1), {1: -1}) for a in lins(t[3], depth - 1)])
    if op == 'mul' and cint(t[4]) is not None:
        return dd([scale(a, cint(t[4])) for a in lins(t[3], depth - 1)])
    if op == 'shl' and cint(t[4]) is not None:
        return dd([scale(a, 1 << cint(t[4])) for a in lins(t[3], depth - 1)])
    if op == 'phi':
        out = []
        for c in t[3:]:
            if c[0] != 'rec':
                out += lins(c, depth - 1)
        return dd(out)
    if op == 'select':
        c = t[3]
        if c[0] == 'icmp' and len(c) == 5:
            a, b = lins(c[3], depth - 1), lins(c[4], depth - 1)
            p, q = lins(t[4], depth - 1), lins(t[5], depth - 1)
            if len(a) == len(b) == len(p) == len(q) == 1:
                s = {freeze(p[0]), freeze(q[0])}
                if s == {freeze(a[0]), freeze(b[0])}:
                    gt = c[2] in ('sgt', 'sge', 'ugt', 'uge')
                    lt = c[2] in ('slt', 'sle', 'ult', 'ule')
                    if gt or lt:
                        ismax = gt == (freeze(p[0]) == freeze(a[0]))
                        return [{('max' if ismax else 'min', s if False else frozenset(s)): 1}]
                # shifted form: max(a,b)+k on both sides
                d1, d2 = add(p[0], a[0], -1), add(q[0], b[0], -1)
                e1, e2 = add(p[0], b[0], -1), add(q[0], a[0], -1)
                gt = c[2] in ('sgt', 'sge', 'ugt', 'uge')
                lt = c[2] in ('slt', 'sle', 'ult', 'ule')
                if (gt or lt) and d1 == d2:
                    return [add({('max' if gt else 'min', frozenset({freeze(a[0]), freeze(b[0])})): 1}, d1)]
                if (gt or lt) and e1 == e2:
                    return [add({('max' if lt else 'min', frozenset({freeze(a[0]), freeze(b[0])})): 1}, e1)]
        return dd(lins(t[4], depth - 1) + lins(t[5], depth - 1))
    if op == 'call' and t[2][0] and t[2][0].startswith(('llvm.smax', 'llvm.umax', 'llvm.smin', 'llvm.umin')):
        mx = 'max' if 'max' in t[2][0] else 'min'
        a, b = lins(t[3], depth - 1), lins(t[4], depth - 1)
        if len(a) == len(b) == 1:
            return [norm_max(mx, a[0], b[0])]
    if op == 'and' and cint(t[4]) is not None:
        m = cint(t[4])
        # a mask that keeps a low field: overflow of the field apart, the value itself
        w = w_of(t[1])
        mm = m & ((1 << w) - 1) if w else m
        if mm and (mm & (mm + 1)) == 0:
            return lins(t[3], depth - 1)
        return [{('t', t): 1}]
    return [{('t', t): 1}]

def norm_max(kind, a, b):
    """max(a,b) with the common constant pulled out"""
    k = min(a.get(1, 0), b.get(1, 0)) if a.get(1, 0) == b.get(1, 0) else 0
    if k:
        a, b = add(a, {1: -k}), add(b, {1: -k})
    return add({(kind, frozenset({freeze(a), freeze(b)})): 1}, {1: k} if k else {})

def dd(ls):
    out = []
    for l in ls:
        if l not in out:
            out.append(l)
    return out

def norm_lin(l):
    """pull constants out of max atoms"""
    r = {}
    for x, c in l.items():
        if isinstance(x, tuple) and x[0] in ('max', 'min') and len(x[1]) == 2:
            a, b = [dict(s) for s in x[1]]
            r = add(r, scale(norm_max(x[0], a, b), c))
        else:
            r = add(r, {x: c})
    return r

def showl(l):
    def at(x):
        if x == 1:
            return ''
        if x[0] == 'E':
            return 'exp(%s)' % show(x[1], 3)
        if x[0] == 'F':
            return 'ctx[%d]' % x[1]
        if x[0] in ('max', 'min'):
            return '%s{%s}' % (x[0], ', '.join(showl(dict(s)) for s in x[1]))
        return show(x[1], 3)
    return ' + '.join('%s%s' % ((str(c) + '*') if c != 1 or x == 1 else '', at(x)) for x, c in l.items()) or '0'

DRAW01 = 'get_rand_double01'

def centred(t):
    """t = draw - 1/2 -> (True, draw call term) ; (False, why) if it is a draw with another offset; None if not that shape"""
    base, steps = norm_conv(t)
    if steps:
        return None
    if base[0] in ('fadd', 'fsub'):
        for i in (3, 4):
            d, ds = norm_conv(base[i])
            o = base[7 - i]
            c = parse_fp(o[2], o[1]) if o[0] == 'const' else None
            if d[0] == 'call' and d[2][0] == DRAW01 and c is not None:
                val = fpval(c)
                if base[0] == 'fsub' and i == 3:
                    val = -val
                elif base[0] == 'fsub':
                    val = -val          # c - draw: centred iff c = 1/2
                if val == -0.5:
                    return True, d
                return False, 'the draw is shifted by %s instead of being centred around zero' % val
    if base[0] == 'call' and base[2][0] == DRAW01:
        return False, 'the draw is not centred around zero'
    return None

def fpval(c):
    if c[0] == 'num':
        return -c[2] if c[1] else c[2]
    return float('nan')

def noise_shape(t):
    """t: an fp term expected to be noise.  -> list of alternatives: ('zero',) | ('scaled', draw, [exponent linear forms])
    | ('bad', why) | ('unknown', term).  The exponent form is that of 2^e with value = (draw-1/2) * 2^e"""
    from .noise import alternatives, uniq
    out = []
    for a in uniq(alternatives(t)):
        out += one_noise(a)
    return out

def through(t, ty):
    """a format narrower than ty that (scaled) noise t passes through, or None"""
    from .noise import alternatives, uniq
    from .opsem import PREC
    for a in uniq(alternatives(t)):
        base, steps = norm_conv(a)
        if not is_zero(base):
            for s in steps:
                if PREC[s] < PREC[ty]:
                    return s
    return None

def is_zero(t):
    if t[0] == 'const' and t[1] in FPT:
        c = parse_fp(t[2], t[1])
        return bool(c) and c[0] == 'num' and c[2] == 0
    if t[0] in ('fpext', 'fptrunc'):
        return is_zero(t[3])
    return False

def one_noise(a):
    base, steps = norm_conv(a)
    if is_zero(base):
        return [('zero',)]
    if base[0] == 'fmul':
        for p, q in ((base[3], base[4]), (base[4], base[3])):
            c = parse_fp(q[2], q[1]) if q[0] == 'const' else None
            if c is not None:
                import math
                v = fpval(c)
                m, e = math.frexp(v) if c[0] == 'num' else (0, 0)
                m = abs(m)
                subs = one_noise(p)
                if any(s[0] == 'unknown' for s in subs):
                    return [('unknown', a)]
                if m != 0.5:
                    return [('bad', 'the noise is multiplied by %s' % v)]
                return [('scaled', s[1], [add(l, {1: e - 1}) for l in s[2]]) if s[0] == 'scaled' else s for s in subs]
        return [('unknown', a)]
    c = centred(base)
    if c is not None:
        if c[0]:
            return [('scaled', c[1], [{}])]
        return [('bad', c[1])]
    if base[0] == 'call' and base[2][0] in ('ldexp', 'ldexpf', 'ldexpl', 'scalbn', 'scalbnf', 'llvm.ldexp.f64.i32', 'llvm.ldexp.f32.i32', 'scalbnq', 'ldexpq', 'scalbln'):
        c = centred(base[3])
        if c is None:
            return [('unknown', a)]
        if not c[0]:
            return [('bad', c[1])]
        return [('scaled', c[1], lins(base[4]))]
    if base[0] == 'bitcast' and w_of(base[3][1]):
        ty = base[1]
        if ty not in MBITS:
            return [('unknown', a)]
        m, e = MBITS[ty], EBITS[ty]
        emask = ((1 << e) - 1) << m
        wid = w_of(base[3][1])
        full = (1 << wid) - 1
        t = base[3]
        if t[0] in ('or', 'add', 'xor'):
            for p, q in ((t[3], t[4]), (t[4], t[3])):
                if p[0] == 'and' and cint(p[4]) is not None and (cint(p[4]) & full) == (full & ~emask):
                    r = bits_of(p[3])
                    if r is None:
                        continue
                    c = centred(r)
                    if c is None:
                        return [('unknown', a)]
                    if not c[0]:
                        return [('bad', c[1])]
                    ex = exp_part(q, m, emask, full)
                    if ex is None:
                        return [('unknown', a)]
                    return [('scaled', c[1], [add(l, {('E', r): 1}, -1) for l in ex])]
                if t[0] == 'add':
                    r = bits_of(p)
                    if r is not None:
                        c = centred(r)
                        ex = exp_part(q, m, emask, full)
                        if c is None or ex is None:
                            continue
                        if not c[0]:
                            return [('bad', c[1])]
                        return [('scaled', c[1], ex)]
    return [('unknown', a)]

def exp_part(q, m, emask, full):
    """q = (E << m) possibly masked -> linear forms of E"""
    while q[0] == 'and' and cint(q[4]) is not None and (cint(q[4]) & full) == emask:
        q = q[3]
    if q[0] in ('shl',) and cint(q[4]) == m:
        return lins(q[3])
    if q[0] in ('phi', 'select'):
        kids = q[3:] if q[0] == 'phi' else q[4:6]
        out = []
        for k in kids:
            r = exp_part(k, m, emask, full)
            if r is None:
                return None
            out += r
        return dd(out)
    if cint(q) is not None:
        return [{1: cint(q) >> m}]
    ls = lins(q)
    if all(all(c % (1 << m) == 0 for c in l.values()) for l in ls):
        return [{x: c >> m for x, c in l.items()} for l in ls]
    return None
