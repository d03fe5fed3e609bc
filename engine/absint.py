"""Conditional constant / FP-class propagation over residual IR (no solver, no
execution): SCCP with a domain of FP classes, known bits, unsigned intervals and
"bit field of an FP value"."""
from fractions import Fraction
import struct
from . import ir

SNAN, QNAN, NINF, NNORM, NSUB, NZERO, PZERO, PSUB, PNORM, PINF = [1 << i for i in range(10)]
NAN = SNAN | QNAN
INF = NINF | PINF
ZERO = NZERO | PZERO
SUB = NSUB | PSUB
NORM = NNORM | PNORM
ALL = 1023
FPT = {'half': (5, 10), 'bfloat': (8, 7), 'float': (8, 23), 'double': (11, 52), 'fp128': (15, 112)}
ORDER = [NINF, NNORM, NSUB, ZERO, PSUB, PNORM, PINF]

def fmt(ty):
    e, m = FPT[ty]
    bias = (1 << (e - 1)) - 1
    return e, m, bias

def parse_fp(s, ty):
    """constant text -> ('nan',sign)|('inf',sign)|('num',sign,Fraction) or None"""
    s = s.strip()
    try:
        if s.startswith('0xL'):
            h = s[3:]
            lo, hi = int(h[:16], 16), int(h[16:], 16)
            return decode((hi << 64) | lo, 'fp128')
        if s.startswith('0x'):
            return decode(int(s[2:], 16), 'double')
        f = float(s)
        if s in ('nan', 'inf'):
            return None
        bits = struct.unpack('<Q', struct.pack('<d', f))[0]
        return decode(bits, 'double')
    except ValueError:
        return None

def decode(bits, ty):
    e, m, bias = fmt(ty)
    sg = bits >> (e + m)
    ex = (bits >> m) & ((1 << e) - 1)
    mant = bits & ((1 << m) - 1)
    if ex == (1 << e) - 1:
        return ('nan', sg) if mant else ('inf', sg)
    if ex == 0:
        v = Fraction(mant, 1 << m) * Fraction(2) ** (1 - bias)
    else:
        v = (1 + Fraction(mant, 1 << m)) * Fraction(2) ** (ex - bias)
    return ('num', sg, v)

def minnorm(ty):
    e, m, bias = fmt(ty)
    return Fraction(2) ** (1 - bias)

def maxnorm(ty):
    e, m, bias = fmt(ty)
    return (2 - Fraction(1, 1 << m)) * Fraction(2) ** bias

def const_class(c, ty):
    k, sg = c[0], c[1]
    if k == 'nan':
        return QNAN
    if k == 'inf':
        return NINF if sg else PINF
    v = c[2]
    if v == 0:
        return NZERO if sg else PZERO
    if v < minnorm(ty):
        return NSUB if sg else PSUB
    return NNORM if sg else PNORM

class FP:
    __slots__ = ('cls', 'const', 'ty', 'kz', 'ko', 'iv')
    def __init__(self, cls, ty, const=None, kz=0, ko=0, iv=None):
        # iv: bounds (inclusive) of the encoding as an unsigned integer
        self.cls, self.ty, self.const, self.kz, self.ko, self.iv = cls, ty, const, kz, ko, iv
    def __eq__(self, o):
        return isinstance(o, FP) and self.cls == o.cls and self.const == o.const and \
            (self.kz, self.ko, self.iv) == (o.kz, o.ko, o.iv)
    def __repr__(self):
        return 'FP(%x,%s)' % (self.cls, self.const)

class Int:
    """width w, known zero/one masks, unsigned interval, optional field (v,off,len) of bits of FP value v (zero extended)"""
    __slots__ = ('w', 'kz', 'ko', 'lo', 'hi', 'field')
    def __init__(self, w, kz=0, ko=0, lo=0, hi=None, field=None):
        m = (1 << w) - 1
        hi = m if hi is None else hi
        # mutual refinement
        lo = max(lo, ko)
        hi = min(hi, m & ~kz)
        if lo <= hi:
            # leading bits common to both bounds are known
            n = (lo ^ hi).bit_length()
            pm = m & ~((1 << n) - 1)
            ko |= lo & pm
            kz |= ~lo & pm
        if lo == hi:
            ko, kz = lo, m & ~lo
        self.w, self.kz, self.ko, self.lo, self.hi, self.field = w, kz, ko, lo, hi, field
        if (kz | ko) == m:
            self.lo = self.hi = ko
    @property
    def const(self):
        return self.lo if self.lo == self.hi else None
    def __eq__(self, o):
        return isinstance(o, Int) and (self.w, self.kz, self.ko, self.lo, self.hi, self.field) == \
            (o.w, o.kz, o.ko, o.lo, o.hi, o.field)
    def __repr__(self):
        return 'Int%d(%s..%s,%s)' % (self.w, self.lo, self.hi, self.field)

def iconst(w, v):
    v &= (1 << w) - 1
    return Int(w, ~v & ((1 << w) - 1), v, v, v)

def addbits(w, az, ao, bz, bo, carry):
    """known bits of a+b+carry"""
    M = (1 << w) - 1
    z = o = 0
    # possible carries into each position
    smax = ((M & ~az) + (M & ~bz) + carry)
    smin = (ao + bo + carry)
    # carry known zero where smax ^ az ^ bz is zero, known one where smin ^ ao ^ bo is one (as in LLVM's KnownBits)
    ckz = ~(smax ^ az ^ bz) & M
    cko = (smin ^ ao ^ bo) & M
    known = (az | ao) & (bz | bo) & (ckz | cko)
    return (~smax & known) & M, (smin & known) & M

class _Top:
    def __repr__(self):
        return 'TOP'
TOP = _Top()

def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a is TOP or b is TOP:
        return TOP
    if isinstance(a, FP) and isinstance(b, FP):
        return FP(a.cls | b.cls, a.ty, a.const if a.const == b.const else None, a.kz & b.kz, a.ko & b.ko,
                  (min(a.iv[0], b.iv[0]), max(a.iv[1], b.iv[1])) if a.iv and b.iv else None)
    if isinstance(a, Int) and isinstance(b, Int) and a.w == b.w:
        return Int(a.w, a.kz & b.kz, a.ko & b.ko, min(a.lo, b.lo), max(a.hi, b.hi), a.field if a.field == b.field else None)
    return TOP

def intw(ty):
    if ty and ty[0] == 'i' and ty[1:].isdigit():
        return int(ty[1:])
    return None

def top(ty):
    if ty in FPT:
        return FP(ALL, ty)
    w = intw(ty)
    if w:
        return Int(w)
    return TOP

def fcmp_outcomes(a, b):
    """set of {'l','e','g','u'} possible"""
    out = set()
    if (a.cls & NAN) or (b.cls & NAN):
        out.add('u')
    def parts(x):
        return [(i, c & x.cls) for i, c in enumerate(ORDER) if c & x.cls]
    for i, ca in parts(a):
        for j, cb in parts(b):
            if i < j:
                out.add('l')
            elif i > j:
                out.add('g')
            elif ORDER[i] in (NINF, PINF, ZERO):
                out.add('e')
            else:
                s = {'l', 'e', 'g'}
                if a.const and b.const:
                    va = a.const[2] * (-1 if a.const[1] else 1)
                    vb = b.const[2] * (-1 if b.const[1] else 1)
                    s = {'l' if va < vb else 'g' if va > vb else 'e'}
                else:
                    for x, y, lt, gt in ((a, b, 'l', 'g'), (b, a, 'g', 'l')):
                        if y.const and ORDER[i] in (PNORM, NNORM):
                            neg = ORDER[i] == NNORM
                            lo_, hi_ = (lt, gt) if not neg else (gt, lt)
                            if y.const[2] == minnorm(y.ty):
                                s.discard(lo_)
                            if y.const[2] == maxnorm(y.ty):
                                s.discard(hi_)
                out |= s
    return out

PRED = {'oeq': 'e', 'ogt': 'g', 'oge': 'ge', 'olt': 'l', 'ole': 'le', 'one': 'lg', 'ord': 'leg', 'ueq': 'eu', 'ugt': 'gu',
        'uge': 'geu', 'ult': 'lu', 'ule': 'leu', 'une': 'lgu', 'uno': 'u', 'true': 'legu', 'false': ''}

POS = PINF | PNORM | PSUB | PZERO
NEG = NINF | NNORM | NSUB | NZERO

def bits_class(x, ty):
    """classes possible for the FP value with the known bits of x"""
    e, m, bias = fmt(ty)
    k = ALL
    s = 1 << (e + m)
    if x.kz & s:
        k &= POS | NAN
    if x.ko & s:
        k &= NEG | NAN
    em = ((1 << e) - 1) << m
    mm = (1 << m) - 1
    if x.kz & em:
        k &= ~(INF | NAN)
    if x.ko & em:
        k &= ~(ZERO | SUB)
    if (x.ko & em) == em:
        k &= INF | NAN
    if (x.kz & em) == em:
        k &= ZERO | SUB
    if x.ko & mm:
        k &= ~(INF | ZERO)
    if (x.kz | x.ko) & s and x.w == 1 + e + m:
        lo, hi = x.lo & ~s, x.hi & ~s
        if hi < em:
            k &= ~(INF | NAN)
        elif hi == em:
            k &= ~NAN
        if hi < 1 << m:
            k &= ZERO | SUB
        if lo >= 1 << m:
            k &= ~(ZERO | SUB)
        if lo >= em:
            k &= INF | NAN
    return k

def rn_encode(v, ty):
    """magnitude encoding of the non-negative rational v rounded to nearest even"""
    e, m, bias = fmt(ty)
    if v == 0:
        return 0
    ex = v.numerator.bit_length() - v.denominator.bit_length()
    if Fraction(2) ** ex > v:
        ex -= 1
    ex = max(ex, 1 - bias)
    q = v / Fraction(2) ** (ex - m)
    n = int(q)
    r = q - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1):
        n += 1
    enc = ((ex + bias - 1) << m) + n          # the leading bit of n carries into the exponent
    return min(enc, ((1 << e) - 1) << m)

def mag_bounds(x):
    """(sign, lowest, highest magnitude encoding) of a value of known sign that is not a NaN, else None"""
    e, m, bias = fmt(x.ty)
    s = 1 << (e + m)
    if x.cls & NAN or not x.cls:
        return None
    sg = 0 if not x.cls & ~POS else 1 if not x.cls & ~NEG else None
    if sg is None:
        return None
    if x.const:
        b = encode(x.const, x.ty)
        if b is None:
            return None
        return sg, b & ~s, b & ~s
    lo, hi = x.ko & (s - 1), (s - 1) & ~x.kz
    if x.iv:
        lo, hi = max(lo, x.iv[0] & (s - 1)), min(hi, x.iv[1] & (s - 1))
    inf = ((1 << e) - 1) << m
    if not x.cls & (ZERO | SUB):
        lo = max(lo, 1 << m)
    hi = min(hi, inf if x.cls & INF else inf - 1)
    return sg, lo, hi

def sum_bounds(a, b):
    """bounds of the encoding of a+b for operands of the same sign, or None"""
    A, B = mag_bounds(a), mag_bounds(b)
    if not A or not B or A[0] != B[0]:
        return None
    ty = a.ty
    e, m, bias = fmt(ty)
    inf = ((1 << e) - 1) << m
    def val(x):
        return decode(x, ty)[2]
    lo = inf if inf in (A[1], B[1]) else rn_encode(val(A[1]) + val(B[1]), ty)
    hi = inf if inf in (A[2], B[2]) else rn_encode(val(A[2]) + val(B[2]), ty)
    sb = A[0] << (e + m)
    return sb | lo, sb | hi

def diff_bounds(op, a, b):
    """bounds of the encoding of a+b or a-b when they have one sign and stay clear of zero, or None"""
    A, B = mag_bounds(a), mag_bounds(b)
    ty = a.ty
    e, m, bias = fmt(ty)
    inf = ((1 << e) - 1) << m
    if not A or not B or inf in A[1:] + B[1:]:
        return None
    def rng(x, neg):
        lo, hi = decode(x[1], ty)[2], decode(x[2], ty)[2]
        return (-hi, -lo) if x[0] ^ neg else (lo, hi)
    p, q = rng(A, 0), rng(B, op == 'fsub')
    lo, hi = p[0] + q[0], p[1] + q[1]
    if lo > 0:
        return rn_encode(lo, ty), rn_encode(hi, ty)
    if hi < 0:
        s = 1 << (e + m)
        return s | rn_encode(-hi, ty), s | rn_encode(-lo, ty)
    return None

def exact(x):
    """the constant that an FP value is known to be, or None"""
    if x.const:
        return x.const
    n = 1 + sum(fmt(x.ty)[:2])
    if (x.kz | x.ko) == (1 << n) - 1:
        return decode(x.ko, x.ty)
    if x.iv and x.iv[0] == x.iv[1]:
        return decode(x.iv[0], x.ty)
    return None

def widen_fp(x, ty):
    """bits of the extension of x to the wider format ty, when its exponent is known and normal"""
    c = exact(x)
    if c and c[0] != 'nan':
        return FP(const_class(c, ty), ty, c)
    e, m, bias = fmt(x.ty)
    E, M, B = fmt(ty)
    em = ((1 << e) - 1) << m
    if not x.cls or x.cls & ~NORM or (x.kz | x.ko) & em != em:
        return None
    mm = (1 << m) - 1
    ex = ((x.ko & em) >> m) - bias + B
    kz, ko = (x.kz & mm) << (M - m) | (1 << (M - m)) - 1, (x.ko & mm) << (M - m)
    ko |= ex << M
    kz |= (((1 << E) - 1) ^ ex) << M
    if not x.cls & ~POS:
        kz |= 1 << (E + M)
    elif not x.cls & ~NEG:
        ko |= 1 << (E + M)
    return FP(x.cls, ty, None, kz, ko)

def narrow_fp(x, ty):
    """bits of x rounded to the narrower format ty, when that is exact and normal"""
    c = exact(x)
    if c and c[0] == 'num':
        b = rn_encode(c[2], ty) | c[1] << sum(fmt(ty)[:2])
        c = decode(b, ty)
        return FP(const_class(c, ty), ty, c)
    if not x.cls or x.cls & ~NORM:
        return None
    e, m, bias = fmt(ty)
    E, M, B = fmt(x.ty)
    low = (1 << (M - m)) - 1
    b = mag_bounds(x)
    if x.kz & low != low or b is None:
        return None
    lo, hi = (b[1] >> M) - B, (b[2] >> M) - B
    if not (1 - bias <= lo and hi <= bias):
        return None
    mm = (1 << m) - 1
    kz, ko = (x.kz >> (M - m)) & mm, (x.ko >> (M - m)) & mm
    if b[0]:
        ko |= 1 << (e + m)
    else:
        kz |= 1 << (e + m)
    f = lambda q: (((q >> M) - B + bias) << m) | ((q & ((1 << M) - 1)) >> (M - m)) | b[0] << (e + m)
    return FP(x.cls, ty, None, kz, ko, (f(b[1]), f(b[2])))

def arith_class(op, a, b):
    """sound class of the IEEE result, by sign and infinity reasoning only"""
    if not a or not b:
        return ALL
    if (a | b) & NAN:
        return ALL
    if op == 'fsub':
        nb = 0
        for n, p in ((NINF, PINF), (NNORM, PNORM), (NSUB, PSUB), (NZERO, PZERO)):
            if b & n:
                nb |= p
            if b & p:
                nb |= n
        b, op = nb, 'fadd'
    if op == 'fadd':
        for side, inf, nrm in ((POS, PINF, PNORM), (NEG, NINF, NNORM)):
            if not (a | b) & ~side:
                r = side
                if not (a & ~inf) or not (b & ~inf):
                    return inf
                if not (a & ~(nrm | inf)) or not (b & ~(nrm | inf)):
                    r = nrm | inf           # a sum of same-sign values is at least as large as either
                return r
        return ALL
    if op in ('fmul', 'fdiv'):
        same = (not a & ~POS and not b & ~POS) or (not a & ~NEG and not b & ~NEG)
        diff = (not a & ~POS and not b & ~NEG) or (not a & ~NEG and not b & ~POS)
        side = POS if same else NEG if diff else POS | NEG
        r = side | NAN
        if op == 'fmul':
            if not ((a & ZERO) and (b & INF)) and not ((b & ZERO) and (a & INF)):
                r &= ~NAN
            if (not a & ~INF and not b & ZERO) or (not b & ~INF and not a & ZERO):
                r &= INF
            if (not a & ~ZERO and not b & INF) or (not b & ~ZERO and not a & INF):
                r &= ZERO
        return r
    return ALL

class AbsInt:
    def __init__(self, fn, assume=None, callmodel=None, precise=False):
        """assume: value name -> FP class mask, (class mask, zero bits, one bits) or Int const; applied where the value is defined (meet)"""
        self.f = fn
        self.assume = assume or {}
        self.callmodel = callmodel
        self.precise = precise
        self.val = {}
        self.exec_edges = set()
        self.exec_blocks = set()
        self.run()
    # ---------------------------------------------------------------- operands
    def get(self, o, ty):
        if o in self.f.defs:
            return self.val.get(o)
        if o.startswith('%'):
            if o in self.val:
                return self.val[o]
            v = top(ty)
            v = self._assume(o, v, ty)
            self.val[o] = v
            return v
        if ty in FPT:
            c = parse_fp(o, ty)
            if c:
                return FP(const_class(c, ty), ty, c)
            return FP(ALL, ty)
        w = intw(ty)
        if w:
            if o == 'true':
                return iconst(w, 1)
            if o == 'false':
                return iconst(w, 0)
            try:
                return iconst(w, int(o))
            except ValueError:
                return Int(w)
        return TOP
    def _assume(self, name, v, ty):
        a = self.assume.get(name)
        if a is None:
            return v
        if isinstance(v, FP):
            if isinstance(a, tuple):        # (class mask, known-zero bits, known-one bits)
                return FP(v.cls & a[0], v.ty, v.const, v.kz | a[1], v.ko | a[2])
            return FP(v.cls & a, v.ty, v.const, v.kz, v.ko)
        if isinstance(v, Int):
            return iconst(v.w, a)
        return v
    # ---------------------------------------------------------------- engine
    def run(self):
        f = self.f
        e = f.order[0]
        self.exec_blocks.add(e)
        count = {}
        work = [e]
        changed = True
        # simple round-robin until stable; functions are small
        for rounds in range(200):
            changed = False
            for l in f.order:
                if l not in self.exec_blocks:
                    continue
                for i in f.blocks[l].insts:
                    if i.name:
                        nv = self.eval(i)
                        if nv is None:
                            continue
                        nv = self._assume(i.name, nv, i.type)
                        ov = self.val.get(i.name)
                        if ov is not None:
                            nv = join(ov, nv)
                            count[i.name] = count.get(i.name, 0) + (0 if nv == ov else 1)
                            if count[i.name] > 8:
                                nv = top(i.type)
                        if ov is None or not (nv == ov or nv is ov):
                            self.val[i.name] = nv
                            changed = True
                t = f.blocks[l].insts[-1]
                for s in self.targets(t):
                    if (l, s) not in self.exec_edges:
                        self.exec_edges.add((l, s))
                        self.exec_blocks.add(s)
                        changed = True
            if not changed:
                return
        # no convergence: everything reachable
        for l in f.order:
            self.exec_blocks.add(l)
            for s in f.blocks[l].succs:
                self.exec_edges.add((l, s))
        for i in f.insts():
            if i.name:
                self.val[i.name] = top(i.type)
    def targets(self, t):
        if t.op == 'br' and t.ops:
            c = self.get(t.ops[0], 'i1')
            if c is None:
                return []
            if isinstance(c, Int) and c.const is not None:
                return [t.extra['labels'][0 if c.const else 1]]
            return t.extra['labels']
        if t.op == 'switch':
            c = self.get(t.ops[0], t.optypes[0])
            if c is None:
                return []
            if isinstance(c, Int) and c.const is not None:
                for k, l in t.extra['cases']:
                    if (int(k) if k not in ('true', 'false') else int(k == 'true')) & ((1 << c.w) - 1) == c.const:
                        return [l]
                return [t.extra['default']]
            return t.extra['labels']
        return t.extra.get('labels', [])
    # ---------------------------------------------------------------- transfer
    def eval(self, i):
        op, ty = i.op, i.type
        g = lambda k: self.get(i.ops[k], i.optypes[k])
        if op == 'phi':
            r = None
            for v, l in i.extra['inc']:
                if (l, i.block) in self.exec_edges:
                    x = self.get(v, ty)
                    r = join(r, x)
            return r
        if op == 'select':
            c = g(0)
            if c is None:
                return None
            if isinstance(c, Int) and c.const is not None:
                return g(1 if c.const else 2)
            a, b = g(1), g(2)
            if a is None or b is None:
                return None
            return join(a, b)
        if op == 'freeze':
            return g(0)
        vals = [g(k) for k in range(len(i.ops))] if op not in ('call', 'invoke') else None
        if vals is not None and any(v is None for v in vals):
            return None
        if op in ('call', 'invoke'):
            c = ir.callee(i)
            if c and c.startswith('llvm.is.fpclass'):
                x = g(0)
                if x is None:
                    return None
                m = int(i.ops[1])
                if isinstance(x, FP):
                    if x.cls & ~m == 0 and x.cls:
                        return iconst(1, 1)
                    if x.cls & m == 0 and x.cls:
                        return iconst(1, 0)
                return Int(1)
            if c and c.startswith('llvm.fabs'):
                x = g(0)
                if x is None:
                    return None
                k = x.cls
                r = k & (NAN | PINF | PNORM | PSUB | PZERO)
                for n, p in ((NINF, PINF), (NNORM, PNORM), (NSUB, PSUB), (NZERO, PZERO)):
                    if k & n:
                        r |= p
                return FP(r, ty, None if not x.const else (x.const[0], 0) + tuple(x.const[2:]))
            if c and (c.startswith('llvm.copysign') or c in ('copysign', 'copysignf')):
                x, y = g(0), g(1)
                if x is None or y is None:
                    return None
                if isinstance(x, FP) and isinstance(y, FP):
                    r = x.cls & NAN
                    for n, p in ((NINF, PINF), (NNORM, PNORM), (NSUB, PSUB), (NZERO, PZERO)):
                        if x.cls & (n | p):
                            r |= p if y.cls & (POS | NAN) else 0
                            r |= n if y.cls & (NEG | NAN) else 0
                    sg = 0 if y.cls and not y.cls & ~POS else 1 if y.cls and not y.cls & ~NEG else None
                    if sg is not None and x.const and x.const[0] != 'nan':
                        c = (x.const[0], sg) + tuple(x.const[2:])
                        return FP(const_class(c, ty), ty, c)
                    return FP(r, ty)
            if c and c.startswith('llvm.') and c.split('.')[1] in ('cttz', 'ctlz', 'ctpop', 'umin', 'umax', 'smin', 'smax', 'abs', 'fshl'):
                vs = [g(k) for k in range(len(i.ops))]
                if any(v is None for v in vs):
                    return None
                r = self.bitfn(c.split('.')[1], ty, vs)
                if r is not None:
                    return r
            if self.callmodel:
                r = self.callmodel(self, i)
                if r is not None:
                    return r
            return top(ty)
        if op == 'fneg':
            x = vals[0]
            if isinstance(x, FP):
                r = x.cls & NAN
                for n, p in ((NINF, PINF), (NNORM, PNORM), (NSUB, PSUB), (NZERO, PZERO)):
                    if x.cls & n:
                        r |= p
                    if x.cls & p:
                        r |= n
                return FP(r, ty)
            return top(ty)
        if op == 'fpext':
            x = vals[0]
            if not isinstance(x, FP) or ty not in FPT:
                return top(ty)
            r = x.cls & ~(SUB | SNAN)
            if x.cls & SNAN:
                r |= QNAN
            if x.cls & PSUB:
                r |= PNORM
            if x.cls & NSUB:
                r |= NNORM
            if self.precise:
                y = widen_fp(x, ty)
                if y is not None:
                    return FP(r & (const_class(y.const, ty) if y.const else r), ty, y.const, y.kz, y.ko, y.iv)
            return FP(r, ty, x.const)
        if op == 'fptrunc':
            x = vals[0]
            if not isinstance(x, FP) or ty not in FPT:
                return top(ty)
            r = x.cls & (INF | ZERO | QNAN)
            if x.cls & SNAN:
                r |= QNAN
            if x.cls & PNORM:
                r |= PNORM | PSUB | PZERO | PINF
            if x.cls & NNORM:
                r |= NNORM | NSUB | NZERO | NINF
            tiny = minnorm(x.ty) * 2 <= minnorm(ty) / (1 << fmt(ty)[1]) / 2     # rounds to zero
            if x.cls & PSUB:
                r |= PZERO if tiny else PZERO | PSUB
            if x.cls & NSUB:
                r |= NZERO if tiny else NZERO | NSUB
            # exact trunc of an extension
            d = self.f.defs.get(i.ops[0])
            if d is not None and d.op == 'fpext' and d.optypes[0] == ty:
                y = self.get(d.ops[0], ty)
                if y is not None:
                    return y
            if self.precise:
                y = narrow_fp(x, ty)
                if y is not None:
                    return FP(y.cls & r if y.cls & r else r, ty, y.const, y.kz, y.ko, y.iv)
            return FP(r, ty, None)
        if op == 'fcmp':
            a, b = vals
            if not isinstance(a, FP) or not isinstance(b, FP):
                return top(ty)
            if not a.cls or not b.cls:
                return Int(1)
            o = fcmp_outcomes(a, b)
            if self.precise and len(o) > 1 and a.ty == b.ty:
                A, B = mag_bounds(a), mag_bounds(b)
                if A and B:
                    # encodings order the magnitudes
                    ra = (-A[2], -A[1]) if A[0] else A[1:]
                    rb = (-B[2], -B[1]) if B[0] else B[1:]
                    if ra[1] < rb[0]:
                        o &= {'l'}
                    elif ra[0] > rb[1]:
                        o &= {'g'}
                    elif ra[0] == ra[1] == rb[0] == rb[1]:
                        o &= {'e'}
                    else:
                        if ra[0] >= rb[1]:
                            o -= {'l'}
                        if ra[1] <= rb[0]:
                            o -= {'g'}
            if i.ops[0] == i.ops[1]:
                o &= {'e', 'u'}
            tset = set(PRED[i.extra['pred']])
            if o <= tset:
                return iconst(1, 1)
            if not (o & tset):
                return iconst(1, 0)
            return Int(1)
        if op == 'bitcast':
            x = vals[0]
            w = intw(ty)
            if isinstance(x, FP) and w:
                return self.field(i.ops[0], x, 0, w, w)
            if isinstance(x, Int) and ty in FPT:
                if x.const is not None:
                    c = decode(x.const, ty)
                    return FP(const_class(c, ty), ty, c)
                return FP(bits_class(x, ty), ty, None, x.kz, x.ko, (x.lo, x.hi)) if self.precise else FP(ALL, ty)
            return top(ty)
        if self.precise and op in ('fadd', 'fmul', 'fsub', 'fdiv') and ty in FPT and isinstance(vals[0], FP) and isinstance(vals[1], FP):
            if op == 'fadd':
                for u, v in (vals, vals[::-1]):
                    if v.const == ('num', 1, 0) and not u.cls & NAN:
                        return u                # x + -0.0 = x
                a, b = exact(vals[0]), exact(vals[1])
                if a and b and a[0] == b[0] == 'num' and a[2] and b[2]:
                    t = (-a[2] if a[1] else a[2]) + (-b[2] if b[1] else b[2])
                    c = decode(rn_encode(abs(t), ty) | (t < 0) << sum(fmt(ty)[:2]), ty)
                    return FP(const_class(c, ty), ty, c)
            iv = sum_bounds(vals[0], vals[1]) if op == 'fadd' else None
            if iv is None and op in ('fadd', 'fsub'):
                iv = diff_bounds(op, vals[0], vals[1])
            k = arith_class(op, vals[0].cls, vals[1].cls)
            if iv:
                k &= bits_class(Int(1 + sum(fmt(ty)[:2]), 0, 0, iv[0], iv[1]), ty) if iv[0] == iv[1] else \
                    bits_class(Int(1 + sum(fmt(ty)[:2]), 0 if iv[0] >> sum(fmt(ty)[:2]) else 1 << sum(fmt(ty)[:2]),
                                   0 if not iv[0] >> sum(fmt(ty)[:2]) else 1 << sum(fmt(ty)[:2]), iv[0], iv[1]), ty)
            return FP(k, ty, None, 0, 0, iv)
        w = intw(ty)
        if op == 'icmp':
            a, b = vals
            if not isinstance(a, Int) or not isinstance(b, Int):
                return Int(1)
            r = self.icmp(i.extra['pred'], a, b)
            return Int(1) if r is None else iconst(1, r)
        if w and all(isinstance(v, Int) for v in vals):
            return self.intop(i, op, w, vals)
        if op == 'sitofp' or op == 'uitofp':
            x = vals[0]
            if ty in FPT and isinstance(x, Int):
                return FP(PZERO | NORM | PINF | NINF, ty)
        return top(ty)
    def bitfn(self, fn, ty, vs):
        w = intw(ty)
        a = vs[0]
        if not w or not isinstance(a, Int):
            return None
        M = (1 << w) - 1
        if fn == 'cttz':
            lo = 0
            while lo < w and (a.kz >> lo) & 1:
                lo += 1
            hi = (a.ko & -a.ko).bit_length() - 1 if a.ko else w
            if not a.ko and a.lo > 0:
                hi = w - 1
            return Int(w, 0, 0, lo, max(lo, hi))
        if fn == 'ctlz':
            return Int(w, 0, 0, w - a.hi.bit_length(), w - a.lo.bit_length())
        if fn == 'ctpop':
            return Int(w, 0, 0, bin(a.ko).count('1'), w - bin(a.kz).count('1'))
        if len(vs) < 2 or not isinstance(vs[1], Int):
            return None
        b = vs[1]
        if fn == 'umin':
            return Int(w, 0, 0, min(a.lo, b.lo), min(a.hi, b.hi))
        if fn == 'umax':
            return Int(w, 0, 0, max(a.lo, b.lo), max(a.hi, b.hi))
        h = 1 << (w - 1)
        if fn in ('smin', 'smax') and a.hi < h and b.hi < h:
            f = min if fn == 'smin' else max
            return Int(w, 0, 0, f(a.lo, b.lo), f(a.hi, b.hi))
        if fn == 'smax' and (a.const == 0 or b.const == 0):
            o = b if a.const == 0 else a
            if o.lo >= h:
                return iconst(w, 0)
            return Int(w, 0, 0, 0, h - 1)
        return None
    def field(self, name, x, off, length, w):
        """bits [off,off+length) of FP x, zero extended to w"""
        e, m, bias = fmt(x.ty)
        full = 1 + e + m
        kz, ko = ((1 << w) - 1) & ~((1 << length) - 1), 0
        lo, hi = 0, (1 << length) - 1
        def setbits(lo_b, n, val):
            nonlocal kz, ko
            for k in range(n):
                p = lo_b + k - off
                if 0 <= p < length:
                    if (val >> k) & 1:
                        ko |= 1 << p
                    else:
                        kz |= 1 << p
        c = x.cls
        fm = (1 << length) - 1
        kz |= (x.kz >> off) & fm
        ko |= (x.ko >> off) & fm
        if x.const and x.const[0] != 'nan':
            b = encode(x.const, x.ty)
            if b is not None:
                setbits(0, full, b)
        neg = NINF | NNORM | NSUB | NZERO
        if c and not c & (neg | NAN):
            setbits(full - 1, 1, 0)
        elif c and not c & ~neg:
            setbits(full - 1, 1, 1)
        if c and not c & ~(INF | NAN):
            setbits(m, e, (1 << e) - 1)
        if c and not c & ~(ZERO | SUB):
            setbits(m, e, 0)
        if c and not c & ~(INF | ZERO):
            setbits(0, m, 0)
        # exponent interval for normals
        if c and not c & ~NORM and off == m and length == e:
            lo, hi = 1, (1 << e) - 2
        if c and not c & ~(NORM | SUB | ZERO) and off == m and length == e:
            hi = min(hi, (1 << e) - 2)
        if c and not c & ~(NAN | SUB) and off == 0 and length == m:
            lo = 1
        # magnitude field
        if off == 0 and length == e + m:
            if c and not c & ~NORM:
                lo, hi = 1 << m, (((1 << e) - 1) << m) - 1
            elif c and not c & ~SUB:
                lo, hi = 1, (1 << m) - 1
            elif c and not c & ~NAN:
                lo, hi = (((1 << e) - 1) << m) + 1, (1 << (e + m)) - 1
        if x.iv and off + length >= full - 1:
            l, h = x.iv
            sb = 1 << (full - 1)
            if off + length == full:
                lo, hi = max(lo, l >> off), min(hi, h >> off)
            elif l & sb == h & sb:
                lo, hi = max(lo, (l & ~sb) >> off), min(hi, (h & ~sb) >> off)
        return Int(w, kz, ko, lo, hi, (name, off, length))
    def icmp(self, p, a, b):
        m = (1 << a.w) - 1
        if p in ('eq', 'ne'):
            dis = (a.hi < b.lo or b.hi < a.lo or (a.kz & b.ko) or (a.ko & b.kz))
            if dis:
                return int(p == 'ne')
            if a.const is not None and a.const == b.const:
                return int(p == 'eq')
            return None
        if p[0] == 'u':
            q = p[1:]
            al, ah, bl, bh = a.lo, a.hi, b.lo, b.hi
        else:
            q = p[1:]
            h = 1 << (a.w - 1)
            def s(x):
                if x.hi < h:
                    return x.lo, x.hi
                if x.lo >= h:
                    return x.lo - 2 * h, x.hi - 2 * h
                return -h, h - 1
            (al, ah), (bl, bh) = s(a), s(b)
        if q in ('gt', 'ge'):
            al, ah, bl, bh = bl, bh, al, ah
            q = {'gt': 'lt', 'ge': 'le'}[q]
        if q == 'lt':
            if ah < bl:
                return 1
            if al >= bh:
                return 0
        else:
            if ah <= bl:
                return 1
            if al > bh:
                return 0
        return None
    def intop(self, i, op, w, vals):
        M = (1 << w) - 1
        a = vals[0]
        b = vals[1] if len(vals) > 1 else None
        if op == 'trunc':
            if a.field:
                v, off, ln = a.field
                x = self.get(v, self._fpty(v))
                if isinstance(x, FP):
                    return self.field(v, x, off, min(ln, w), w)
            if a.hi <= M:
                return Int(w, a.kz & M, a.ko & M, a.lo, a.hi)
            return Int(w, a.kz & M, a.ko & M)
        if op == 'zext':
            return Int(w, a.kz | (M & ~((1 << a.w) - 1)), a.ko, a.lo, a.hi, a.field)
        if op == 'sext':
            if a.hi < (1 << (a.w - 1)):
                return Int(w, a.kz | (M & ~((1 << a.w) - 1)), a.ko, a.lo, a.hi, a.field)
            if a.const is not None:
                return iconst(w, a.const - (1 << a.w))
            return Int(w)
        if op == 'and':
            if b.const is None and a.const is not None:
                a, b = b, a
            r = Int(w, a.kz | b.kz, a.ko & b.ko)
            if b.const is not None and a.field:
                v, off, ln = a.field
                k = b.const & ((1 << ln) - 1)
                if k and (k & (k + 1)) == 0:
                    x = self.get(v, self._fpty(v))
                    if isinstance(x, FP):
                        return self.field(v, x, off, k.bit_length(), w)
            if b.const is not None:
                # masked field with zero low bits: comparisons against zero of exponent-in-place
                hi = min(a.hi, b.const)
                r = Int(w, r.kz, r.ko, 0, hi)
                if a.field and a.field[1] == 0:
                    v, off, ln = a.field
                    x = self.get(v, self._fpty(v))
                    if isinstance(x, FP):
                        k = b.const
                        sh = (k & -k).bit_length() - 1 if k else 0
                        kk = k >> sh
                        if k and (kk & (kk + 1)) == 0:
                            fl = self.field(v, x, sh, kk.bit_length(), w)
                            return Int(w, (fl.kz << sh | ((1 << sh) - 1)) & M, fl.ko << sh, fl.lo << sh, fl.hi << sh)
            return r
        if op == 'or':
            return Int(w, a.kz & b.kz, a.ko | b.ko, max(a.lo, b.lo))
        if op == 'xor':
            return Int(w, (a.kz & b.kz) | (a.ko & b.ko), (a.kz & b.ko) | (a.ko & b.kz))
        if op in ('shl', 'lshr', 'ashr') and b.const is not None and b.const < w:
            k = b.const
            if a.const is not None and op == 'shl':
                return iconst(w, a.const << k)
            if op == 'ashr' and a.lo >= 1 << (w - 1):
                fill = M & ~(M >> k)
                return Int(w, 0, fill, (a.lo >> k) | fill, (a.hi >> k) | fill)
            if op == 'shl':
                hi = a.hi << k
                if hi <= M:
                    return Int(w, ((a.kz << k) | ((1 << k) - 1)) & M, (a.ko << k) & M, a.lo << k, hi)
                return Int(w, ((a.kz << k) | ((1 << k) - 1)) & M, (a.ko << k) & M)
            if op == 'lshr' or a.hi < (1 << (w - 1)):
                if a.field and op == 'lshr':
                    v, off, ln = a.field
                    x = self.get(v, self._fpty(v))
                    if isinstance(x, FP) and ln > k:
                        return self.field(v, x, off + k, ln - k, w)
                top_ = M & ~(M >> k)
                return Int(w, (a.kz >> k) | top_, a.ko >> k, a.lo >> k, a.hi >> k)
            return Int(w)
        if op == 'add':
            kz, ko = addbits(w, a.kz, a.ko, b.kz, b.ko, 0)
            lo, hi = a.lo + b.lo, a.hi + b.hi
            if hi <= M:
                return Int(w, kz, ko, lo, hi)
            if lo > M:
                return Int(w, kz, ko, lo - M - 1, hi - M - 1)
            return Int(w, kz, ko)
        if op == 'sub':
            kz, ko = addbits(w, a.kz, a.ko, b.ko, b.kz, 1)
            lo, hi = a.lo - b.hi, a.hi - b.lo
            if lo >= 0:
                return Int(w, kz, ko, lo, hi)
            if hi < 0:
                return Int(w, kz, ko, lo + M + 1, hi + M + 1)
            return Int(w, kz, ko)
        if op == 'mul' and a.hi * b.hi <= M:
            return Int(w, 0, 0, a.lo * b.lo, a.hi * b.hi)
        return Int(w)
    def _fpty(self, v):
        d = self.f.defs.get(v)
        if d is not None:
            return d.type
        for t, n in self.f.args:
            if n == v:
                return t
        return 'double'

def encode(c, ty):
    e, m, bias = fmt(ty)
    if c[0] == 'inf':
        return (c[1] << (e + m)) | (((1 << e) - 1) << m)
    if c[0] != 'num':
        return None
    v = c[2]
    if v == 0:
        return c[1] << (e + m)
    ex = 0
    x = v
    # normalise
    import math
    ex = x.numerator.bit_length() - x.denominator.bit_length()
    if Fraction(2) ** ex > x:
        ex -= 1
    if ex < 1 - bias:
        mant = v / Fraction(2) ** (1 - bias) * (1 << m)
        if mant.denominator != 1:
            return None
        return (c[1] << (e + m)) | int(mant)
    mant = (v / Fraction(2) ** ex - 1) * (1 << m)
    if mant.denominator != 1:
        return None
    return (c[1] << (e + m)) | ((ex + bias) << m) | int(mant)
