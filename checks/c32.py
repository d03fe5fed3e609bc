"""C32: the CI tool runs what its configuration asks for and its verdicts follow the documented table."""
import itertools, math
from engine import ciworld as cw, frames as fr, symnum as sn
from engine.pyabs import Interp, NS, Unk
from engine.symnum import Sym, Paths, value, close

TECH = ('static analysis: abstract interpretation of the CI tool over its syntax tree - the verdict and statistics functions are reduced to terms with every comparison split both ways and compared with '
        'the documented table on each region of the values; the run loop is interpreted in a model of programs, environment, files and tables')
NOTE = ('Verdicts and statistics: all paths, terms compared on a grid with zeros, negative thresholds, equal bounds, infinities and not-a-number. Run loop: a family of configurations and program behaviours '
        '(several executables, backends, repetitions, runs that die, hang or lose probes). The significantdigits and scipy packages, and pandas itself (modelled), are trusted.')
RULE = ('Verdict: without check always true; non-deterministic |sigma| < |threshold| or sigma/|mu| < |threshold|; deterministic |reference - value| < |threshold| or divided by |reference|; '
        'never an exception. Every executable is run with its parameters, once per repetition (once when none is given) under each of its backends, values are grouped by test, variable and backend, '
        'references come from a run with the IEEE backend and from the same test and variable, runs without data are reported.')

class Row(fr.Row):
    """a table row: what is stored in it comes back as one of the language's own floats"""
    def __setitem__(self, k, v):
        if isinstance(v, Sym): v = Sym(v.t, True)
        super().__setitem__(k, v)

class Vals(Sym):
    """the values of a probe"""
    def __len__(self): raise Unk('number of values')
    @property
    def size(self): return Sym(('len', self.t))
    def mean(self): return Sym(('mean', self.t), False)
    def std(self, ddof=0): return Sym(('std', self.t, ('c', ddof)), False)
    def min(self): return Sym(('min', self.t), False)
    def max(self): return Sym(('max', self.t), False)
    def sum(self): return Sym(('sum', self.t), False)
    def reshape(self, *a): return self

def world():
    un = lambda k: (lambda x: Sym((k, sn.term(x)), False) if isinstance(x, Sym) else value((k, ('c', x)), {}))
    def ag(k, dd=False):
        def f(v, axis=None, ddof=0, **kw):
            if not isinstance(v, Sym) or axis is not None or kw: raise Unk('numpy.' + k)
            return Sym((k, v.t, ('c', ddof)) if dd else (k, v.t), False)
        return f
    def quant(v, q, **kw):
        if kw or not isinstance(v, Sym): raise Unk('quantile')
        if isinstance(q, (list, tuple)): return [quant(v, x) for x in q]
        return Sym(('quantile', v.t, ('c', q)), False)
    def array(x, **k): return x
    np = NS('numpy', average=ag('mean'), mean=ag('mean'), std=ag('std', True), var=ag('var', True), min=ag('min'), max=ag('max'), amin=ag('min'), amax=ag('max'), sum=ag('sum'),
            quantile=quant, percentile=lambda v, q: quant(v, [x / 100 for x in q] if isinstance(q, (list, tuple)) else q / 100), median=lambda v: quant(v, 0.5), abs=abs, absolute=abs, fabs=abs, sqrt=un('sqrt'), log2=un('log2'), log10=un('log10'), log=un('log'),
            isnan=un('isnan'), isinf=un('isinf'), isfinite=un('isfinite'), array=array, asarray=array, inf=math.inf, nan=math.nan, bool_=lambda x: x, float64=lambda x: x)
    class Sh:
        def __init__(s, v):
            if not isinstance(v, Sym): raise Unk('shapiro')
            s.pvalue = Sym(('fn', 'shapiro', v.t), False); s.statistic = Sym(('fn', 'shapiro_stat', v.t), False)
        def __iter__(s): return iter((s.statistic, s.pvalue))
        def __getitem__(s, k): return (s.statistic, s.pvalue)[k]
    st = NS('stats', shapiro=Sh)
    class E:
        def __init__(s, n): s.n = n
        def __getattr__(s, k):
            if k.startswith('__'): raise AttributeError(k)
            return (s.n, k)
    def sig(d, ref=None, reference=None, error='?', method='?', probability=None, confidence=None, **k):
        ref = reference if ref is None else ref
        if k or not isinstance(d, Sym): raise Unk('significant_digits')
        if isinstance(ref, (list, tuple)) and len(ref) == 1: ref = ref[0]
        return [Sym(('fn', 'sd', d.t, sn.term(ref), error, method, probability, confidence), False)]
    def basis(x, b): return Sym(('fn', 'basis', sn.term(x), b), False)
    sd = NS('significantdigits', significant_digits=sig, change_basis=basis, Error=E('Error'), Method=E('Method'))
    mods = {'numpy': np, 'scipy': NS('scipy', stats=st), 'scipy.stats': st, 'significantdigits': sd, 'math': NS('math', fabs=abs, isnan=un('isnan'), isinf=un('isinf'), isfinite=un('isfinite'), sqrt=un('sqrt'), inf=math.inf, nan=math.nan, log2=un('log2'))}
    def length(x): return Sym(('len', x.t)) if isinstance(x, Vals) else len(x)
    def flt(x=0.0): return x if isinstance(x, Sym) else float(x)
    def bl(x=False): return x if isinstance(x, Sym) else bool(x)
    it = Interp(modules=mods, extra={'len': length, 'float': flt, 'bool': bl}, budget=2000000)
    return it, it.module(cw.text(cw.PROC), 'proc', 'test_data_processing.py')

G = [0.0, -0.0, 1.0, -1.0, 0.5, 2.0, -3.0, 1e-300, 5e-324, 1e308, math.inf, -math.inf, math.nan]

def taken(conds, env): return all(bool(value(t, env)) == c for t, c in conds)

def outcome(paths, env):
    """the outcome for a valuation: ('exc', e) / ('val', term value) / None"""
    hit = [r for c, r in paths if taken(c, env)]
    return hit[0] if len(hit) == 1 else None

def show(env): return ', '.join('%s=%r' % (k, v) for k, v in env.items() if isinstance(k, str))

def deterministic(rep):
    it, g = world()
    f = g.v.get('validate_deterministic_probe')
    if f is None: rep.unknown('deterministic verdict', 'no validate_deterministic_probe'); return
    for mode in ('none', 'absolute', 'relative'):
        def go():
            r = Row([], [])
            for k, v in (('test', 't'), ('variable', 'x'), ('vfc_backend', 'b'), ('value', Sym(('v', 'value'))), ('accuracy_threshold', Sym(('v', 'threshold'))), ('check_mode', mode), ('reference_value', Sym(('v', 'reference')))): r[k] = v
            return f(r)
        try: paths = Paths.explore(go)
        except Unk as e: rep.unknown('deterministic verdict: ' + mode, str(e)); continue
        rep.count('verdict paths', len(paths))
        grid(rep, 'deterministic verdict: ' + mode, paths, ('value', 'reference', 'threshold'), [G, G, G], lambda e: det(mode, e), it)

def det(mode, e):
    if mode == 'none': return (True,)
    d = abs(e['value'] - e['reference'])
    if mode == 'relative':
        if e['reference'] == 0 and d == 0: return (True, False)
        d = sn.div(d, abs(e['reference']))
    return (d < abs(e['threshold']),)

def grid(rep, key, paths, names, vals, want, it):
    bad = None; n = 0; null = None
    for vs in itertools.product(*vals):
        env = dict(zip(names, vs))
        r = outcome(paths, env)
        if r is None: rep.unknown(key, 'no path for ' + show(env)); return
        n += 1
        w = want(env)
        if r[0] == 'exc' and isinstance(r[1], ZeroDivisionError) and env.get('reference') == 0: null = null or 'for %s the verdict ends with %s' % (show(env), r[1])
        elif r[0] == 'exc': bad = 'for %s the verdict ends with %s' % (show(env), r[1])
        else:
            got = value(sn.term(r[1]), env)
            if bool(got) not in w or not isinstance(got, (bool, int)): bad = 'for %s the verdict is %r instead of %s' % (show(env), got, w[0])
        if bad: break
    rep.count('regions of values', n)
    rep.check(bad is None, key, cw.PROC, bad)
    if key.endswith('relative'): rep.check(null is None, key + ': null reference value', cw.PROC, null)

LISTS = [[0.0, 2.0], [1.0, 1.0, 1.0], [-1.0, 1.0], [0.0, 0.0, 0.0], [1.0, 2.0, 4.0, 8.0], [-1.0, -2.0, -4.5], [1e-3, 1.5e-3, 2e-3], [math.nan, 1.0], [math.inf, 1.0], [-math.inf, -1.0], [3.0], [5.0, 1.0, 4.0, 2.0, 3.0]]

def statistics(rep):
    it, g = world()
    f = g.v.get('apply_data_pocessing')
    if f is None: rep.unknown('statistics', 'no apply_data_pocessing'); return
    STAT = {'mu': lambda v: sn.mean(v), 'sigma': lambda v: sn.std(v), 'min': lambda v: value(('min', ('c', v)), {}), 'max': lambda v: value(('max', ('c', v)), {}),
            'quantile25': lambda v: value(('quantile', ('c', v), ('c', .25)), {}), 'quantile50': lambda v: value(('quantile', ('c', v), ('c', .5)), {}), 'quantile75': lambda v: value(('quantile', ('c', v), ('c', .75)), {})}
    for mode in ('none', 'absolute', 'relative'):
        def go():
            r = Row([], [])
            for k, v in (('values', Vals(('v', 'values'))), ('accuracy_threshold', Sym(('v', 'threshold'))), ('check_mode', mode)): r[k] = v
            r.v[0] = Vals(('v', 'values'))
            return f(r)
        try: paths = Paths.explore(go)
        except Unk as e: rep.unknown('verdict: ' + mode, str(e)); continue
        rep.count('verdict paths', len(paths))
        bad = None; odd = None; n = 0; null = None
        for v in LISTS:
            s = sn.std(v); mu = sn.mean(v)
            rel = sn.div(s, abs(mu))
            for th in G + [s, -s, rel, s * 1.01, s * .99, rel * 1.01, rel * .99]:
                env = {'values': v, 'threshold': th}
                env[('fn', 'shapiro', ('v', 'values'))] = .5; env[('fn', 'shapiro_stat', ('v', 'values'))] = .9
                r = outcome(paths, env)
                if r is None: odd = 'no path for ' + show(env); continue
                n += 1
                if r[0] == 'exc' and isinstance(r[1], ZeroDivisionError) and mu == 0: null = null or 'for %s the processing ends with %s' % (show(env), r[1]); continue
                if r[0] == 'exc': bad = bad or 'for %s the processing ends with %s: %s' % (show(env), type(r[1]).__name__, r[1]); continue
                row = r[1]
                if not isinstance(row, fr.S): odd = 'result is no row'; continue
                for c, w in STAT.items():
                    if c not in row.ix: bad = bad or 'no column ' + c; continue
                    t = sn.term(row[c])
                    if 'std' in str(t) and "'std', ('v', 'values'), ('c', 0)" not in str(t): odd = 'another estimator of the standard deviation'; continue
                    got = value(t, env)
                    if not close(got, w(v)): bad = bad or 'for %s the column %s is %r instead of %r' % (show(env), c, got, w(v))
                w = (True,) if mode == 'none' else (s < abs(th),) if mode == 'absolute' else (True, False) if mu == 0 and s == 0 else (rel < abs(th),)
                if mode == 'relative' and rel == abs(th) and mu not in (0, 1): w = (True, False)         # rounding of the quotient
                if 'check' not in row.ix: bad = bad or 'no verdict'; continue
                got = value(sn.term(row['check']), env)
                if got not in w: bad = bad or 'for %s the verdict is %r instead of %s' % (show(env), got, w[0])
        rep.count('regions of values', n)
        if odd and not bad: rep.unknown('verdict: ' + mode, odd)
        else: rep.check(bad is None, 'verdict: ' + mode, cw.PROC, bad)
        if mode == 'relative' and not odd: rep.check(null is None, 'verdict: relative: null average', cw.PROC, null)

def digits(rep):
    """significant digits: the estimator follows the normality test"""
    it, g = world()
    V = ('v', 'values')
    def table():
        d = fr.D({'values': [Vals(V)]})
        for k, v in (('accuracy_threshold', Sym(('v', 'threshold'))), ('check_mode', 'none')): d.c[k] = [v]
        d.ix = [('t', 'x', 'b')]; d.names = ['test', 'variable', 'vfc_backend']
        return d
    f = g.v.get('data_processing')
    if f is None: rep.unknown('significant digits', 'no data_processing'); return
    try: paths = Paths.explore(lambda: f(table()))
    except Unk as e: rep.unknown('significant digits', str(e)); return
    rep.count('processing paths', len(paths))
    bad = odd = None; n = 0
    for v in LISTS:
        for p in (0.0, .04999, .05, .3, 1.0, math.nan):
            mu, s = sn.mean(v), sn.std(v)
            env = {'values': v, 'threshold': 0.0, ('fn', 'shapiro', V): p, ('fn', 'shapiro_stat', V): .9}
            class Env(dict):
                def __missing__(s_, k):
                    if isinstance(k, tuple) and k[0] == 'fn' and k[1] == 'sd':
                        if k[2] != V: raise Unk('significant digits of something else than the values')
                        return ('sd', value(k[3], s_), k[4], k[5], k[6], k[7])
                    if isinstance(k, tuple) and k[0] == 'fn' and k[1] == 'basis': return ('basis', value(k[2], s_), k[3])
                    raise KeyError(k)
            env = Env(env)
            def run_value(t):
                try: return value(t, env)
                except TypeError: return None
            hit = []
            for c, r in paths:
                ok = True
                for t, x in c:
                    try:
                        b = bool(value(t, env))
                    except (TypeError, KeyError, Unk): b = None
                    if b is None or b != x: ok = False; break
                if ok: hit.append(r)
            if len(hit) != 1: odd = odd or 'no path for values=%r, p-value %r' % (v, p); continue
            n += 1
            r = hit[0]
            if r[0] == 'exc': bad = bad or 'for values=%r and the p-value %r the processing ends with %s: %s' % (v, p, type(r[1]).__name__, r[1]); continue
            d = r[1]
            gen = ('sd', mu, ('Error', 'Relative'), ('Method', 'General'), .9, .95)
            cnh = ('sd', mu, ('Error', 'Relative'), ('Method', 'CNH'), .9, .95)
            x = -value(('log2', ('c', abs(sn.div(s, mu)))), {})
            sp = x if x != x else min(x, 53)
            s2 = 53 if mu == 0 else gen if p < .05 else sp
            lb = s2 if p < .05 else 53 if mu == 0 else cnh
            for col, w in (('s2', s2), ('s10', ('basis', s2, 10)), ('s2_lower_bound', lb), ('s10_lower_bound', ('basis', lb, 10)), ('nsamples', len(v))):
                if col not in d.c: bad = bad or 'no column ' + col; continue
                try: got = value(sn.term(d.c[col][0]), env)
                except (TypeError, Unk) as e: odd = odd or str(e); continue
                if not near(got, w):
                    if not close_kind(got, w): odd = odd or '%s: %r' % (col, got); continue
                    bad = bad or 'for values=%r (mean %r, standard deviation %r) and the p-value %r of the normality test, %s is %r instead of %r' % (v, mu, s, p, col, got, w)
    rep.count('regions of values', n)
    if odd and not bad: rep.unknown('significant digits', odd)
    else: rep.check(bad is None, 'significant digits', cw.PROC, bad)

def near(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) or isinstance(b, tuple): return False
    return close(a, b)

def close_kind(a, b): return a is not None

def probes(rows):
    t = 'test,variable,value,accuracy_threshold,check_mode\n'
    return t + ''.join('%s,%s,%s,%s,%s\n' % (a, b, 'nan' if v != v else v.hex(), float(h).hex(), m) for a, b, v, h, m in rows)

IEEE = 'libinterflop_ieee.so'
B1, B2, B3 = 'libinterflop_mca.so --mode=rr', 'libinterflop_vprec.so --precision-binary64=20', 'libinterflop_bitmask.so'

class Prog:
    """behaviour of the programs: rows(exe, args, backend, k-th run of that kind) -> rows, None (dies), 'hang', or '' (dumps nothing)"""
    def __init__(self, rows): self.rows, self.n, self.log = rows, {}, []
    def __call__(self, cmd, env, no):
        b = env.get('VFC_BACKENDS'); k = (tuple(cmd), b)
        self.n[k] = self.n.get(k, 0) + 1
        r = self.rows(cmd[0], tuple(cmd[1:]), b, self.n[k])
        self.log.append((k[0], b, r))
        if r == 'hang': return cw.HANG
        return None if r is None else r if isinstance(r, str) else probes(r)

def val(exe, args, b, k, extra=0.0): return 1.0 + len(exe) * 8 + len(b or '') / 4 + k / 64 + len(args) * 100 + extra

def behaviours():
    def plain(e, a, b, k):
        if b == IEEE: return [('t', 'y', 3.0, 0.0, 'none'), ('t', 'x', 1.0, .5, 'absolute'), ('u', 'x', 7.0, .25, 'relative'), ('u', 'extra', 2.0, .25, 'relative')]
        v = val(e, a, b, k)
        return [('t', 'x', v, .5, 'absolute'), ('t', 'y', v + .25, 0.0, 'none'), ('u', 'x', 7.0 + v / 4096, .25, 'relative'), ('u', 'z', 1.0, 0.0, 'none')]
    def lost(e, a, b, k):
        if b == IEEE: return None
        return plain(e, a, b, k)
    def nocheck(e, a, b, k):
        return [('t', 'x', val(e, a, b, k), 0.0, 'none')]
    def dies(e, a, b, k): return None if k % 2 == 0 else plain(e, a, b, k)
    def empty(e, a, b, k): return 'test,variable,value,accuracy_threshold,check_mode\n' if k == 2 else '' if k == 3 else plain(e, a, b, k)
    def hang(e, a, b, k): return 'hang' if k == 2 or (b == B2 and k == 1) else plain(e, a, b, k)
    def zero(e, a, b, k): return [('t', 'x', 0.0, 0.0, 'absolute'), ('t', 'y', 1.5, 0.0, 'relative'), ('t', 'w', -1.5, -2.0, 'absolute')] if b != IEEE else [('t', 'x', 0.0, 0.0, 'absolute'), ('t', 'y', 0.5, 0.0, 'relative'), ('t', 'w', 0.0, -2.0, 'absolute')]
    def nullref(e, a, b, k): return [('t', 'x', 0.0, 0.0, 'absolute'), ('t', 'y', 1.5, 0.0, 'relative')] if b != IEEE else [('t', 'x', 0.0, 0.0, 'absolute'), ('t', 'y', 0.0, 0.0, 'relative')]
    def cancelling(e, a, b, k): return [('t', 'x', 1.0, .5, 'absolute'), ('t', 'y', 9.0, -.5, 'relative')] if b != IEEE else [('t', 'x', 1.25, .5, 'absolute'), ('t', 'y', 8.0, -.5, 'relative')]
    def allzero(e, a, b, k): return [('t', 'x', 2.0, 0.0, 'absolute'), ('t', 'y', 2.0, 0.0, 'relative')]
    def notnum(e, a, b, k): return [('t', 'x', math.nan, .5, 'absolute'), ('t', 'y', 9.0, .5, 'relative')]
    return [plain, lost, nocheck, dies, empty, hang, zero, nullref, cancelling, notnum, allzero]

def configs():
    ex = lambda n, bs, **k: dict({'executable': n, 'vfc_backends': [dict({'name': b}, **({'repetitions': r} if r is not None else {})) for b, r in bs]}, **k)
    return [[ex('p', [(B1, 3)])], [ex('p', [(B2, None)])], [ex('p', [(B1, 3), (B2, None), (B3, 5)], parameters='a bc')], [ex('p', [(B2, None), (B1, 2)]), ex('bin/q', [(B1, 4)], parameters='12')],
            [ex('p', [(B2, None), (B3, None)]), ex('bin/q', [(B2, None)]), ex('r', [(B3, 1)])], [ex('p', [(B1, 1)])], [ex('p', [(B1, 2)], parameters='first'), ex('q', [(B1, 2), (B2, None)])]]

def loop(rep, tier):
    seen = set()
    for bi, beh in enumerate(behaviours()):
        for ci, cfg in enumerate(configs()):
            key = 'run loop: %s, configuration %d' % (beh.__name__, ci)
            pr = Prog(beh)
            config = {'make_command': 'make', 'executables': cfg}
            try:
                w = cw.Ci(pr)
                data, dd, warn = w.fn('run_tests')(config)
            except Unk as e: rep.unknown(key, str(e)); continue
            except Exception as e:
                if isinstance(e, ZeroDivisionError) and beh.__name__ == 'nullref': key = 'run loop: relative check with a null reference value'
                rep.bad(key, '%s:%d' % (cw.TEST, w.it.line), 'the run ends with %s: %s' % (type(e).__name__, e)); continue
            rep.count('configurations interpreted')
            rep.count('program runs', len(pr.log))
            try: msg = judge(config, beh, pr, data, dd, warn)
            except (KeyError, AttributeError, IndexError, TypeError) as e: rep.unknown(key, 'result: %r' % e); continue
            left = [p for p in w.procs if p.hang]
            if msg is None and left: msg = 'a run that exceeded its time is left running'
            rep.check(msg is None, key, cw.TEST, msg)

def judge(config, beh, pr, data, dd, warn):
    runs = {}
    for c, b, r in pr.log: runs[(c, b)] = runs.get((c, b), 0) + 1
    exp, expv, det, ew = {}, {}, [], []
    cnt = {}
    def rows(c, b):
        cnt[(c, b)] = cnt.get((c, b), 0) + 1
        r = beh(c[0], c[1:], b, cnt[(c, b)])
        return [] if r is None or isinstance(r, str) else r
    for e in config['executables']:
        c = tuple(['./' + e['executable']] + e.get('parameters', '').split())
        for b in e['vfc_backends']:
            n = b['name']
            if 'repetitions' in b:
                for k in range(b['repetitions']):
                    exp[(c, n)] = exp.get((c, n), 0) + 1
                    rs = rows(c, n)
                    if not rs: ew.append((e['executable'], n, k + 1))
                    for t, x, v, h, m in rs: expv.setdefault((t, x, n), ([], h, m))[0].append(v)
            else:
                exp[(c, n)] = exp.get((c, n), 0) + 1
                rs = rows(c, n)
                if not rs: ew.append((e['executable'], n, 1))
                ref = {}
                chk = any(m != 'none' for *_, m in rs)
                if chk:
                    exp[(c, IEEE)] = exp.get((c, IEEE), 0) + 1
                    rr = rows(c, IEEE)
                    if not rr: ew.append((e['executable'], None, 1))
                    ref = {(t, x): v for t, x, v, h, m in rr}
                for t, x, v, h, m in rs: det.append((t, x, n, v, h, m, ref.get((t, x), math.nan) if chk else None))
    for k, n in exp.items():
        if runs.get(k, 0) < n: return '%s is run %d times with VFC_BACKENDS="%s" instead of %d' % (' '.join(k[0]), runs.get(k, 0), k[1], n)
    for k, n in runs.items():
        if k[1] != IEEE and n > exp.get(k, 0): return '%s is run %d times with VFC_BACKENDS="%s" instead of %d' % (' '.join(k[0]), n, k[1], exp.get(k, 0))
    got = {}
    if len(data.ix):
        for j, k in enumerate(data.ix): got[k] = (data.c['values'][j], data.c['accuracy_threshold'][j], data.c['check_mode'][j])
    for k in sorted(set(got) | set(expv)):
        if k not in got: return 'the probe %s of the backend %s is lost' % ('/'.join(k[:2]), k[2])
        if k not in expv: return 'the probe %s of the backend %s was not recorded' % ('/'.join(k[:2]), k[2])
        a, b = list(got[k][0]), expv[k][0]
        if sorted(map(repr, a)) != sorted(map(repr, b)): return 'the values of %s with the backend %s are %r instead of %r' % ('/'.join(k[:2]), k[2], a[:6], b[:6])
        if got[k][1:] != expv[k][1:]: return 'the threshold and mode of %s with the backend %s are %r instead of %r' % ('/'.join(k[:2]), k[2], got[k][1:], expv[k][1:])
    if len(dd) != len(det): return '%d deterministic probes instead of %d' % (len(dd), len(det))
    left = [(dd.c['test'][j], dd.c['variable'][j], dd.c['vfc_backend'][j], dd.c['value'][j], dd.c['accuracy_threshold'][j], dd.c['check_mode'][j], dd.c['reference_value'][j], dd.c['check'][j]) for j in range(len(dd))]
    for d in det:
        hit = [l for l in left if l[:3] == d[:3] and close(l[3], d[3]) and l[4:6] == d[4:6] and (d[6] is None or close(l[6], d[6]))]
        name = '%s/%s with the backend %s' % d[:3]
        if not hit:
            near_ = [l for l in left if l[:3] == d[:3]]
            return 'deterministic probe %s: recorded value, threshold, mode, reference %r instead of %r' % (name, near_[:1], d[3:])
        want = (True,) if d[6] is None else globals()['det'](d[5], {'value': d[3], 'reference': d[6], 'threshold': d[4]})
        if hit[0][7] not in want: return 'deterministic probe %s: the verdict is %r (value %r, reference %r, threshold %r, mode %s)' % (name, hit[0][7], d[3], d[6], d[4], d[5])
        left.remove(hit[0])
    gw = sorted((x['executable'], x['backend'], x['repetition']) for x in warn)
    for x in ew:
        m = [g for g in gw if g[0] == x[0] and g[2] == x[2] and (g[1] == x[1] if x[1] else IEEE in g[1])]
        if not m: return 'the run %d of %s with the backend %s gave no data and is not reported' % (x[2], x[0], x[1] or IEEE)
        gw.remove(m[0])
    if gw: return 'a run that gave data is reported as failed: %r' % (gw[0],)
    return None

def reported(rep):
    """the runs without data are shown"""
    for n in (1, 2, 4):
        key = 'warnings shown: %d' % n
        ws = [{'executable': 'exe%d' % k, 'backend': 'backend%d' % k, 'repetition': 100 + k} for k in range(n)]
        try:
            w = cw.Ci(Prog(behaviours()[0]))
            w.out.clear()
            w.fn('show_warnings')(ws)
        except Unk as e: rep.unknown(key, str(e)); continue
        except Exception as e: rep.bad(key, '%s:%d' % (cw.TEST, w.it.line), 'ends with %s: %s' % (type(e).__name__, e)); continue
        t = '\n'.join(w.out)
        lost = [v for x in ws for v in x.values() if str(v) not in t]
        rep.check(not lost, key, cw.TEST, '%s of a run without data is not shown' % lost[:1])

def export(rep):
    """files written by a run"""
    for (dry, raw), cfg, git in itertools.product(itertools.product((False, True), repeat=2), (2, 0, 1), (False, True)):
        key = 'export: %s%s, configuration %d%s' % ('dry run' if dry else 'run', ' with raw values' if raw else '', cfg, ', commit' if git else '')
        try:
            w = cw.Ci(Prog(behaviours()[0]), {'make_command': 'm', 'executables': configs()[cfg]})
            w.test.v['data_processing'] = lambda d: d.assign(check=True)
            w.fn('run')(git, raw, dry)
        except Unk as e: rep.unknown(key, str(e)); continue
        except Exception as e: rep.bad(key, '%s:%d' % (cw.TEST, w.it.line), 'the run ends with %s: %s' % (type(e).__name__, e)); continue
        rep.count('exports interpreted')
        files, names = {}, set()
        for d, name, k in w.hdf: files.setdefault(name.split('.', 1)[-1], {})[k] = d; names.add(name.split('.', 1)[0])
        want = [] if dry else ['vfcrun.h5'] + (['vfcraw.h5'] if raw else [])
        msg = None
        if sorted(files) != sorted(want): msg = 'files written: %s instead of %s' % (sorted(files), sorted(want))
        elif not dry and names != {'0123456' if git else '1234'}: msg = 'the result file is named %s' % sorted(names)
        for n in want:
            if msg: break
            f = files[n]
            if set(f) != {'metadata', 'data', 'deterministic_data'}: msg = '%s holds %s' % (n, sorted(f)); break
            md = f['metadata']
            exp = {'is_git_commit': git, 'remote_url': 'the url' if git else '', 'branch': 'b' if git else '', 'hash': '0123456' if git else '', 'author': 'A. U. Thor <me@here>' if git else '', 'message': 'first line' if git else ''}
            for k, v in exp.items():
                if k not in md.c: msg = msg or 'no metadata ' + k
                elif md.c[k] != [v]: msg = msg or 'the metadata %s is %r instead of %r' % (k, md.c[k][0], v)
            if md.ix != [77 if git else 1234]: msg = msg or 'the time of the run is %r' % md.ix
            for k, some in (('data', cfg != 1), ('deterministic_data', cfg != 0)):
                if not some: continue
                if len(f[k]) == 0: msg = msg or '%s of %s is empty' % (k, n)
                elif 'timestamp' not in f[k].c or any([x] != md.ix for x in f[k].c['timestamp']): msg = msg or '%s of %s is not linked to the metadata of the run' % (k, n)
                elif f[k].names != ['test', 'variable', 'vfc_backend'] or 'check' not in f[k].c: msg = msg or '%s of %s has labels %s, columns %s' % (k, n, f[k].names, list(f[k].c))
                elif n == 'vfcraw.h5' and k == 'data' and 'values' not in f[k].c: msg = msg or 'the raw values are not in the raw file'
        rep.check(msg is None, key, cw.TEST, msg)

def run(rep, tier):
    rep.rule = RULE
    for g in (deterministic, statistics, digits, reported, export):
        try: g(rep)
        except Unk as e: rep.unknown(g.__name__, str(e))
    loop(rep, tier)
    rep.floor('configurations interpreted', 40)
