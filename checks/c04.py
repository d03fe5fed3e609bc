"""C04: comparisons keep IEEE semantics."""
from engine import backends as bk, opsem
from engine.absint import *
from engine.terms import Terms, show
from checks.c01 import exact_cfgs

TECH = 'static analysis: conditional constant propagation over ordering outcomes, complete truth tables'
NOTE = 'All sixteen predicates, both formats, all debug and counting options, all ordering outcomes including NaN, signed zeros and infinities.'
RULE = ('For every backend whose table has a comparison entry, the entry is specialised to each of the sixteen predicates (numbered '
        'as in the LLVM comparison predicates the pass forwards) and abstractly interpreted for every ordering outcome of the '
        'operands (less, equal, greater, unordered through either or both operands) and for signed zeros and infinities; the '
        'stored answer must be the constant truth value of the predicate on every executable path.')
# LLVM numbering
PREDS = ['false', 'oeq', 'ogt', 'oge', 'olt', 'ole', 'one', 'ord', 'uno', 'ueq', 'ugt', 'uge', 'ult', 'ule', 'une', 'true']

class CmpAI(AbsInt):
    def __init__(self, fn, assume, outcome):
        self.outcome = outcome
        super().__init__(fn, assume)
    def origin(self, v):
        while True:
            d = self.f.defs.get(v)
            if d is not None and d.op in ('fpext', 'freeze'):
                v = d.ops[0]
                continue
            return v
    def eval(self, i):
        if i.op == 'fcmp' and self.outcome in ('l', 'e', 'g'):
            x, y = self.origin(i.ops[0]), self.origin(i.ops[1])
            if (x, y) in (('%a', '%b'), ('%b', '%a')):
                o = self.outcome
                if x == '%b':
                    o = {'l': 'g', 'g': 'l', 'e': 'e'}[o]
                return iconst(1, int(o in PRED[i.extra['pred']]))
        if i.op in ('fsub',) and self.outcome in ('l', 'e', 'g'):
            return top(i.type)
        return super().eval(i)

CASES = [('a<b', NORM, NORM, 'l'), ('a=b', NORM, NORM, 'e'), ('a>b', NORM, NORM, 'g'),
         ('subnormal a<b', SUB, SUB, 'l'), ('subnormal a>b', SUB, SUB, 'g'),
         ('a NaN', NAN, NORM, 'u'), ('b NaN', NORM, NAN, 'u'), ('both NaN', NAN, NAN, 'u'), ('a NaN, b inf', NAN, INF, 'u'),
         ('+0,-0', PZERO, NZERO, 'e'), ('-0,+0', NZERO, PZERO, 'e'), ('+inf,+inf', PINF, PINF, 'e'), ('-inf,+inf', NINF, PINF, 'l'),
         ('+inf,x', PINF, NORM, 'g'), ('x,+inf', NORM, PINF, 'l'), ('0,x>0', ZERO, PNORM, 'l'), ('0,x<0', ZERO, NNORM, 'g')]

def run(rep, tier):
    rep.rule = RULE
    for key, b in bk.B.items():
        w, _ = bk.wiring(b)
        slots = [s for s in bk.CMPS if isinstance(w[s], str)]
        if not slots:
            continue
        rep.count('backends with comparisons')
        if key == 'ieee':
            cfgs = exact_cfgs(b)[0]
        else:
            cfgs = [('any', {}, '')]
        hs, keys = [], []
        for s in slots:
            for ci, (cn, sets, pre) in enumerate(cfgs):
                for p in range(16):
                    h = 'h_%s_%d_%d' % (s, ci, p)
                    hs.append((h, bk.op_harness(b, w[s], s, h, sets, {'p': str(p)}, pre)))
                    keys.append((s, cn, p))
        mod = bk.op_module(b, hs)
        for (s, cn, p), (h, _) in zip(keys, hs):
            f = mod.funcs[h]
            rep.count('specialised comparisons')
            bad = None
            for nm, ca, cb, o in CASES:
                ai = CmpAI(f, {'%a': ca, '%b': cb}, o)
                T = Terms(f, ai)
                t, stores, why = opsem.final_store(f, ai, T, '%res')
                loc = (mod.loc(stores[0]) if stores else None) or w[s]
                want = int(o in PRED[PREDS[p]])
                if t is None:
                    bad = why
                elif t[0] != 'const':
                    # single value known abstractly?
                    bad = 'the answer for %s is %s, not decided by the ordering of the operands (expected %d)' % (nm, show(t, 4), want)
                else:
                    try:
                        c = {'true': 1, 'false': 0}.get(t[2])
                        c = int(t[2]) if c is None else c
                    except ValueError:
                        c = None
                    if c is None or (c != 0) != bool(want) or (c & 1) != want:
                        bad = 'predicate %s answers %s for %s, expected %d' % (PREDS[p], t[2], nm, want)
                rep.count('truth-table entries')
                if bad:
                    break
            k = '%s/%s/%s/%s' % (key, s, cn, PREDS[p])
            if bad:
                rep.bad(k, loc, bad)
            else:
                rep.ok(k)
    rep.floor('backends with comparisons', 1)
    rep.floor('specialised comparisons', 32)
