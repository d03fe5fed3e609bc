"""C31: the precision exploration (vfc_precexp) reports accepted precisions that cannot be lowered."""
from engine import precexp as px
from engine.pyabs import Unk

TECH = ('static analysis: path-sensitive abstract interpretation of the syntax tree of the exploration tool; the verdict of each trial is an unknown that is split both ways '
        '(all verdict histories of a search), the facts "accepted with" / "refused with" are collected along each path and judged at its end')
NOTE = ('one searched field at a time takes all the verdict histories the search can meet, the other fields being always accepted, always refused at their smallest value or given a threshold; '
        'profiles of one to five functions of each kind. The scripts, pandas and the operating system are modelled; the VPREC backend itself is the subject of C16, C17 and C24.')
RULE = ('For each verdict history: the search ends; the value reported for each explored field was accepted in a trial in which the other fields had their final or later lowered values, and the value just below was '
        'refused in such a trial, or is not allowed; a field none of whose values is accepted keeps its largest; a trial runs the program with the written configuration and compares with the reference; a failed or '
        'timed-out run is refused; functions and arguments that were not asked for are left as they were.')

OPS = {'Prec64': (5, 1, 52), 'Range64': (6, 2, 11), 'Prec32': (7, 1, 23), 'Range32': (8, 2, 8)}
ARG = {0: {'Prec': (3, 1, 23), 'Range': (4, 2, 8)}, 1: {'Prec': (3, 1, 52), 'Range': (4, 2, 11)}}
ARG[3], ARG[4] = ARG[0], ARG[1]

def fields(funcs, mode, names):
    """the fields that a mode explores: (function, argument index or None, column, smallest, largest)"""
    out = []
    for id, lib, intr, fl, db, nc, args in funcs:
        fn, parent = id.split('/')[-3], id.split('/')[-4]
        if names and fn not in names and parent not in names: continue
        if mode != 'operations':
            for k, (io, n, ty) in enumerate(args):
                for nm, (c, lo, hi) in ARG.get(ty, {}).items(): out.append((id, k, c, lo, hi))
        if mode != 'arguments' and not lib and not intr:
            for nm, (c, lo, hi) in OPS.items():
                if db and '64' in nm or fl and '32' in nm: out.append((id, None, c, lo, hi))
    return out

def get(conf, x):
    h, args = conf[x[0]]
    return int(h[x[2]] if x[1] is None else args[x[1]][x[2]])

def results(w, mode, funcs):
    """final configuration, from the result tables"""
    fin = {}
    ops = w.csv.get('vfc_exp_data/' + {'all': 'AllOpsResults.csv', 'operations': 'OperationsResults.csv'}.get(mode, ''))
    args = w.csv.get('vfc_exp_data/' + {'all': 'AllArgsResults.csv', 'arguments': 'ArgumentsResults.csv'}.get(mode, ''))
    col = {v[0]: k for k, v in OPS.items()}
    if ops is not None:
        for r in ops.rows:
            for c, n in col.items(): fin[(r[ops.col('ID')], None, c)] = r[ops.col(n)]
    if args is not None:
        for f in funcs:
            rows = [r for r in args.rows if r[args.col('ID')] == f[0]]
            for k, r in enumerate(rows):
                if r[args.col('ArgID')] != f[6][k][1]: return None
                fin[(f[0], k, 3)] = r[args.col('Prec')]; fin[(f[0], k, 4)] = r[args.col('Range')]
    return fin

def judge(w, rc, mode, funcs, names):
    """one path: the tool ended, its result was accepted and cannot be lowered; returns what is wrong"""
    if rc == 'endless': return 'the search never ends'
    if rc != 0: return 'the exploration ends with %s' % rc
    if w.bad: return '%s (line %d)' % (w.bad[0][1], w.bad[0][2])
    sel = [f for f in funcs if not names or f[0].split('/')[-3] in names or f[0].split('/')[-4] in names]
    fin = results(w, mode, sel)
    if fin is None: return 'the result table mixes the arguments of functions'
    full = True
    for x in w.xs:
        k = x[:3]
        if k not in fin: return 'no result for column %d of %s' % (x[2], x[0])
        v = fin[k]
        tried = {q[1]: d == 'ok' for q, d in w.memo.items() if q[0] == x}
        if not x[3] <= v <= x[4]: return 'column %d of %s ends at %s, outside %d..%d' % (x[2], x[0], v, x[3], x[4])
        if tried.get(v) is None and v == x[4] and tried.get(v - 1) is False: full = False; continue    # the precision of the reference
        if tried.get(v) is None: return 'column %d of %s ends at %s, with which the program was not run' % (x[2], x[0], v)
        if not tried[v]:
            full = False
            if v != x[4] or any(tried.values()): return 'column %d of %s ends at %s, which was refused (%s)' % (x[2], x[0], v, w.memo[(x, v)])
        elif v > x[3] and tried.get(v - 1) is not False: return 'column %d of %s ends at %s although %d was not refused' % (x[2], x[0], v, v - 1)
    if full and not any(all(get(c, x) == fin[x[:3]] for x in w.xs) for c in w.acc): return 'the values reported were never accepted together'
    # what is not explored stays
    prof = w.parse(w.profile)[0]
    ex = {x[:3] for x in w.xs}
    for f in sel:
        if mode != 'arguments' and (f[1] or f[2]):
            for nm, (c, lo, hi) in OPS.items():
                if (f[0], None, c) in fin and fin[(f[0], None, c)] != int(prof[f[0]][0][c]): return 'the operations of %s, which is not compiled with verificarlo, are changed' % f[0]
        for k in range(len(f[6])):
            for c in (3, 4):
                if (f[0], k, c) in fin and (f[0], k, c) not in ex and fin[(f[0], k, c)] != int(prof[f[0]][1][k][c]): return 'argument %d of %s changes' % (k, f[0])
    return None

class W(px.World):
    """world whose verdicts are decided per trial; each trial belongs to the field that it varies"""
    def __init__(self, src, argv, prof, xs, decide, mode):
        super().__init__(src, argv, prof, None)
        self.xs, self.decide, self.mode = xs, decide, mode
        self.keep, self.memo, self.cursor, self.acc, self.now = [], {}, None, [], None
        self.oracle = self.compare
        self.runrc = self.ran
        self.slow = lambda c: self.now == 'slow'
    def whose(self, c):
        prev = self.keep[-1] if self.keep else self.parse(self.profile)[0]
        d = [x for x in self.xs if x[0] in c and x[0] in prev and get(c, x) != get(prev, x)]
        # a field that goes back to a value that was tried before is settled
        if len(d) > 1: d = [x for x in d if (x, get(c, x)) not in self.memo and not (get(c, x) == x[4] and self.seen(x))]
        if len(d) > 1: d = [x for x in d if not self.seen(x)]
        if len(d) == 1: self.cursor = d[0]
        elif len(d) > 1: raise Unk('a trial varies %d fields' % len(d))
        return self.cursor
    def seen(self, x): return any(q[0] == x for q in self.memo)
    def ran(self, c):
        x = self.whose(c)
        if x is None: raise Unk('a trial varies no explored field')
        self.keep.append(c)
        q = (x, get(c, x))
        if q not in self.memo: self.memo[q] = self.decide(x, q[1])
        self.now = self.memo[q]
        ins, b = self.setting
        if ins != self.mode: self.fault('mode', 'the program is run with --instrument=%s in mode %s' % (ins, self.mode))
        return 1 if self.now == 'run' else 0
    def compare(self, c):
        if c is not self.keep[-1]: self.fault('compared', 'the comparison does not judge the last run')
        ok = self.now != 'cmp'        # what a failed or slow run left behind may compare well
        if ok: self.acc.append(c)
        return ok

KINDS = [('d', [('a.c/main/f/3/2', 0, 0, 0, 1, 5, [])], 'operations'),
         ('f', [('a.c/main/f/3/2', 0, 0, 1, 0, 5, [])], 'operations'),
         ('args', [('a.c/main/f/3/2', 0, 0, 0, 1, 5, [('input:', 'a', 1), ('input:', 'b', 0)])], 'arguments'),
         ('pointers', [('a.c/main/f/3/2', 1, 0, 0, 1, 5, [('input:', 'a', 4), ('output:', 'b', 3)])], 'arguments'),
         ('all', [('a.c/main/f/3/2', 0, 0, 0, 1, 5, [('input:', 'a', 1), ('output:', 'return_value', 0)]), ('a.c/main/sin/4/3', 1, 0, 0, 1, 7, [('input:', 'x', 1)])], 'all')]

def histories(src, funcs, mode, names, target, other, opts=(), refuse='cmp', limit=400):
    """all verdict histories of the search of one field; yields (world, outcome)"""
    prof = px.profile(funcs)
    xs = fields(funcs, mode, names)
    prefix = []
    for _ in range(limit):
        seq = []
        def decide(x, v):
            if x != target: return 'ok' if other(x, v) else 'cmp'
            k = len(seq)
            seq.append(prefix[k] if k < len(prefix) else True)
            return 'ok' if seq[k] else refuse
        w = W(src, ['-m', mode] + list(opts) + ['run.sh', 'cmp.sh'] + names, prof, xs, decide, mode)
        yield w, w.go(), seq
        while seq and not seq[-1]: seq.pop()
        if not seq: return
        prefix = seq[:-1] + [False]

OTHERS = {'accepted': lambda x, v: True, 'accepted from the middle': lambda x, v: v >= (x[3] + x[4]) // 2, 'refused': lambda x, v: False, 'accepted at the largest only': lambda x, v: v == x[4]}

def run(rep, tier):
    rep.rule = RULE
    try: src = px.source()
    except Unk as e: rep.unknown('vfc_precexp', str(e)); return
    def explore(key, funcs, mode, names, target, other, **k):
        n = 0
        try:
            for w, rc, seq in histories(src, funcs, mode, names, target, other, **k):
                n += 1
                rep.count('verdict histories')
                msg = judge(w, rc, mode, funcs, names)
                if msg is None and k.get('refuse') == 'slow':
                    ts = [t for c, t in w.timeouts if 'run' in c and t is not None]
                    if not all(abs(t - 1.5) < 1e-9 for t in ts): msg = 'runs get %s s when --maxTimeout is 1500 ms' % sorted(set(ts))[0]
                if msg:
                    rep.bad(key, px.TOOL, '%s (verdicts of the search: %s)' % (msg, ' '.join('accepted' if s else 'refused' for s in seq[:12]) or 'all accepted')); return
        except Unk as e: rep.unknown(key, 'line %d: %s' % (getattr(e, 'line', 0), e)); return
        rep.ok(key) if n else rep.unknown(key, 'no history')
    for nm, funcs, mode in KINDS:
        for x in fields(funcs, mode, []):
            what = '%s: column %d of %s%s' % (nm, x[2], x[0], '' if x[1] is None else ' argument %d' % x[1])
            for on, other in OTHERS.items():
                if tier == 'quick' and on not in ('accepted', 'accepted from the middle') : continue
                explore('%s, others %s' % (what, on), funcs, mode, [], x, other)
            if nm in ('f', 'args') or tier != 'quick':
                explore(what + ', failing runs', funcs, mode, [], x, OTHERS['accepted'], refuse='run', limit=60)
                explore(what + ', slow runs', funcs, mode, [], x, OTHERS['accepted'], refuse='slow', opts=('--maxTimeout', '1500'), limit=60)
    # several functions, a selection of them
    from checks.c24 import FUNCS
    for mode in ('operations', 'arguments', 'all'):
        for names in ([], ['f', 'h'], ['main'], ['h']):
            for on, other in OTHERS.items():
                xs = fields(FUNCS, mode, names)
                if not xs: continue
                explore('-m %s %s, %s' % (mode, ' '.join(names), on), FUNCS, mode, names, xs[-1], other, limit=1 if tier == 'quick' else 30)
    rep.floor('verdict histories', 200)
