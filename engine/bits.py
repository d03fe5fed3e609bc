"""Bit provenance: every bit of a term as an XOR of input bits (GF(2) linear form) or unknown.
A bit is a frozenset of atoms; the atom 1 is the constant one; None means unknown."""
from .absint import FPT, fmt, parse_fp, encode
from .lin import cint, w_of

ZERO_, ONE_ = frozenset(), frozenset([1])

def width(ty):
    if ty in FPT:
        e, m, _ = fmt(ty)
        return 1 + e + m
    return w_of(ty)

def const_bits(v, w):
    return [ONE_ if (v >> i) & 1 else ZERO_ for i in range(w)]

def prov(t, memo=None):
    memo = {} if memo is None else memo
    k = id(t)
    if k in memo:
        return memo[k][0]
    r = _prov(t, memo)
    memo[k] = (r, t)
    return r

def _prov(t, memo):
    w = width(t[1])
    if w is None:
        return None
    op = t[0]
    if op == 'const':
        if t[1] in FPT:
            c = parse_fp(t[2], t[1])
            b = encode(c, t[1]) if c else None
            return const_bits(b, w) if b is not None else [None] * w
        c = cint(t)
        return const_bits(c & ((1 << w) - 1), w) if c is not None else [None] * w
    if op in ('bitcast', 'freeze') and width(t[3][1]) == w:
        return prov(t[3], memo)
    if op in ('zext', 'sext', 'trunc'):
        a = prov(t[3], memo)
        if a is None:
            return [None] * w
        if op == 'trunc':
            return a[:w]
        return a + [a[-1] if op == 'sext' else ZERO_] * (w - len(a))
    if op in ('and', 'or', 'xor', 'add', 'sub'):
        a, b = prov(t[3], memo), prov(t[4], memo)
        if a is None or b is None:
            return [None] * w
        out = []
        if op in ('add', 'sub'):
            carry = False
            for x, y in zip(a, b):
                if carry:
                    out.append(None)
                elif y == ZERO_:
                    out.append(x)
                elif x == ZERO_ and op == 'add':
                    out.append(y)
                else:
                    # lowest overlapping bit: the sum bit is the xor, a carry may follow
                    out.append(x ^ y if x is not None and y is not None else None)
                    carry = True
            return out
        for x, y in zip(a, b):
            if op == 'xor':
                out.append(None if x is None or y is None else x ^ y)
            elif op == 'and':
                if x == ZERO_ or y == ZERO_:
                    out.append(ZERO_)
                elif x == ONE_:
                    out.append(y)
                elif y == ONE_ or x == y:
                    out.append(x)
                else:
                    out.append(None)
            else:
                if x == ONE_ or y == ONE_:
                    out.append(ONE_)
                elif x == ZERO_:
                    out.append(y)
                elif y == ZERO_ or x == y:
                    out.append(x)
                else:
                    out.append(None)
        return out
    if op in ('shl', 'lshr', 'ashr') and cint(t[4]) is not None and 0 <= cint(t[4]) < w:
        a = prov(t[3], memo)
        k = cint(t[4])
        if a is None:
            return [None] * w
        if op == 'shl':
            return [ZERO_] * k + a[:w - k]
        return a[k:] + [a[-1] if op == 'ashr' else ZERO_] * k
    if op == 'fneg':
        a = prov(t[3], memo)
        return a[:-1] + [a[-1] ^ ONE_ if a[-1] is not None else None]
    if op in ('phi', 'select'):
        kids = t[3:] if op == 'phi' else t[4:6]
        ps = [prov(k, memo) for k in kids]
        if any(p is None for p in ps):
            return [None] * w
        return [x[0] if all(y == x[0] for y in x) else None for x in zip(*ps)]
    return [frozenset([('b', t, i)]) for i in range(w)]
