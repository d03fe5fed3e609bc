"""Model of the tables (pandas) that the CI tools use, for their abstract interpretation. What is not modelled is unknown (undecided)."""
import csv as _csv, math, re
from .pyabs import Unk, Unknown

NAN = float('nan')
# texts that the CSV reader turns into "not a number" unless told otherwise
NA = {'', '#N/A', '#N/A N/A', '#NA', '-1.#IND', '-1.#QNAN', '-NaN', '-nan', '1.#IND', '1.#QNAN', '<NA>', 'N/A', 'NA', 'NULL', 'NaN', 'None', 'n/a', 'nan', 'null'}

class S:
    """a column or a row: labels and values"""
    def __init__(self, vals, index=None): self.v = list(vals); self.ix = list(index) if index is not None else list(range(len(self.v)))
    def _b(self, o, f):
        if isinstance(o, S):
            if o.ix != self.ix: raise Unk('operation on columns with different labels')
            return S([f(a, b) for a, b in zip(self.v, o.v)], self.ix)
        return S([f(a, o) for a in self.v], self.ix)
    def __eq__(self, o): return self._b(o, lambda a, b: a == b)
    def __ne__(self, o): return self._b(o, lambda a, b: a != b)
    def __lt__(self, o): return self._b(o, lambda a, b: a < b)
    def __gt__(self, o): return self._b(o, lambda a, b: a > b)
    def __le__(self, o): return self._b(o, lambda a, b: a <= b)
    def __ge__(self, o): return self._b(o, lambda a, b: a >= b)
    def __and__(self, o): return self._b(o, lambda a, b: bool(a) and bool(b))
    def __or__(self, o): return self._b(o, lambda a, b: bool(a) or bool(b))
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __truediv__(self, o): return self._b(o, lambda a, b: a / b if b else NAN if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b))
    def __invert__(self): return S([not a for a in self.v], self.ix)
    def __abs__(self): return S([abs(a) for a in self.v], self.ix)
    abs = __abs__
    def __iter__(self): return iter(self.v)
    def __len__(self): return len(self.v)
    def __getitem__(self, k):
        if isinstance(k, S): return S([v for v, b in zip(self.v, k.v) if b], [i for i, b in zip(self.ix, k.v) if b])
        if k not in self.ix: raise KeyError(k)
        return self.v[self.ix.index(k)]
    def get(self, k, d=None): return self.v[self.ix.index(k)] if k in self.ix else d
    def apply(self, f, *a, **k): return S([f(v, *a, **k) for v in self.v], self.ix)
    def map(self, f): return S([f.get(v, NAN) if isinstance(f, dict) else f(v) for v in self.v], self.ix)
    def any(self): return any(self.v)
    def all(self): return all(self.v)
    def sum(self): return sum(self.v)
    def tolist(self): return list(self.v)
    to_list = tolist
    def copy(self, deep=True): return S(self.v, self.ix)
    def isin(self, xs): return S([v in xs for v in self.v], self.ix)
    def isna(self): return S([v != v for v in self.v], self.ix)
    def fillna(self, x): return S([x if v != v else v for v in self.v], self.ix)
    def astype(self, t): return S([t(v) for v in self.v], self.ix) if t in (str, float, int, bool) else Unknown('astype')
    @property
    def values(self): return list(self.v)
    @property
    def str(self): raise Unk('Series.str')
    def __bool__(self): raise ValueError('the truth value of a Series is ambiguous')
    __hash__ = None
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        return Unknown('Series.' + k)

class Row(S):
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        if k in self.__dict__.get('ix', ()): return self[k]
        return Unknown('row.' + k)
    def __setitem__(self, k, v):
        if k in self.ix: self.v[self.ix.index(k)] = v
        else: self.ix.append(k); self.v.append(v)

def row(labels, vals):
    r = Row(vals, labels); return r

class D:
    """a table"""
    def __init__(self, data=None, columns=None, index=None, **k):
        if k: raise Unk('DataFrame(%s)' % k)
        self.c = {}
        if isinstance(data, D): self.c = {n: list(v) for n, v in data.c.items()}; self.ix = list(data.ix)
        elif isinstance(data, dict):
            for n, v in data.items(): self.c[n] = list(v)
            self.ix = list(range(max([len(v) for v in self.c.values()] or [0])))
        elif data is None or not list(data):
            self.c = {n: [] for n in columns or ()}; self.ix = []
        else:
            data = list(data)
            if isinstance(data[0], dict):
                for n in data[0]: self.c[n] = [d[n] for d in data]
            else:
                for j, n in enumerate(columns if columns is not None else range(len(data[0]))): self.c[n] = [r[j] for r in data]
            self.ix = list(range(len(data)))
        if index is not None: self.ix = list(index)
        self.names = None                       # names of the label columns after set_index
    @classmethod
    def from_dict(cls, x): return cls(x)
    def take(self, rows, ix=None):
        d = D(); d.c = {n: [v[j] for j in rows] for n, v in self.c.items()}
        d.ix = [self.ix[j] for j in rows] if ix is None else ix; d.names = self.names
        return d
    @property
    def columns(self): return list(self.c)
    @property
    def index(self): return list(self.ix)
    @property
    def empty(self): return not self.ix or not self.c
    @property
    def shape(self): return (len(self.ix), len(self.c))
    def __len__(self): return len(self.ix)
    def copy(self, deep=True): return self.take(range(len(self.ix)))
    def __contains__(self, k): return k in self.c
    def __getitem__(self, k):
        if isinstance(k, list):
            for n in k:
                if n not in self.c: raise KeyError(n)
            d = self.copy(); d.c = {n: d.c[n] for n in k}; return d
        if isinstance(k, S): return self.take([j for j, b in enumerate(k.v) if b])
        if k not in self.c: raise KeyError(k)
        return S(self.c[k], self.ix)
    def __setitem__(self, k, v):
        n = len(self.ix)
        if isinstance(v, S):
            if v.ix == self.ix: self.c[k] = list(v.v)
            else:
                if len(set(map(str, v.ix))) != len(v.ix): raise ValueError('cannot reindex on an axis with duplicate labels')
                if not self.c and not self.ix: self.ix = list(v.ix); self.c[k] = list(v.v); return
                self.c[k] = [v.v[v.ix.index(i)] if i in v.ix else NAN for i in self.ix]
        elif isinstance(v, (list, tuple)):
            if len(v) != n: raise ValueError('length of values does not match length of index')
            self.c[k] = list(v)
        elif isinstance(v, D) and len(v.c) > 1: raise ValueError('Cannot set a DataFrame with multiple columns to the single column %s' % k)
        elif isinstance(v, (Unknown, D)): raise Unk('assignment of an unknown column')
        else: self.c[k] = [v] * n
    def __delitem__(self, k):
        if k not in self.c: raise KeyError(k)
        del self.c[k]
    def drop(self, labels=None, axis=0, columns=None, inplace=False, errors='raise'):
        cs = columns if columns is not None else labels
        if columns is None and axis not in (1, 'columns'): raise Unk('drop of rows')
        cs = [cs] if isinstance(cs, str) else list(cs)
        d = self if inplace else self.copy()
        for n in cs:
            if n in d.c: del d.c[n]
            elif errors == 'raise': raise KeyError(n)
        return None if inplace else d
    def pop(self, k): s = self[k]; del self.c[k]; return s
    def rename(self, columns=None, inplace=False, **k):
        if k or not isinstance(columns, dict): raise Unk('rename')
        d = self if inplace else self.copy()
        d.c = {columns.get(n, n): v for n, v in d.c.items()}
        return None if inplace else d
    def apply(self, f, axis=0, **k):
        if axis not in (1, 'columns') or k: raise Unk('apply')
        out = [f(row(list(self.c), [v[j] for v in self.c.values()])) for j in range(len(self.ix))]
        if not out: return self.copy()
        if all(isinstance(r, S) for r in out):
            d = D(); d.ix, d.names = list(self.ix), self.names
            for n in out[0].ix: d.c[n] = [r[n] for r in out]
            return d
        return S(out, self.ix)
    def assign(self, **k):
        d = self.copy()
        for n, v in k.items(): d[n] = v(d) if callable(v) else v
        return d
    def merge(self, o, how='inner', on=None, **k):
        if k or not isinstance(o, D): raise Unk('merge')
        on = [on] if isinstance(on, str) else list(on) if on is not None else [n for n in self.c if n in o.c]
        for n in on:
            if n not in self.c or n not in o.c: raise KeyError(n)
        extra = [n for n in o.c if n not in on]
        both = [n for n in extra if n in self.c]
        if how not in ('inner', 'left'): raise Unk('merge ' + how)
        rows = []
        key = lambda t, j: tuple(t.c[n][j] for n in on)
        for j in range(len(self.ix)):
            ms = [i for i in range(len(o.ix)) if key(o, i) == key(self, j)]
            if not ms and how == 'left': rows.append((j, None))
            rows += [(j, i) for i in ms]
        d = D()
        for n, v in self.c.items(): d.c[n + '_x' if n in both else n] = [v[j] for j, i in rows]
        for n in extra: d.c[n + '_y' if n in both else n] = [NAN if i is None else o.c[n][i] for j, i in rows]
        d.ix = list(range(len(rows)))
        return d
    def set_index(self, ks, inplace=False, **k):
        if k: raise Unk('set_index')
        ks = [ks] if isinstance(ks, str) else list(ks)
        d = self if inplace else self.copy()
        d.ix = [tuple(d.c[n][j] for n in ks) if len(ks) > 1 else d.c[ks[0]][j] for j in range(len(d.ix))]
        for n in ks: del d.c[n]
        d.names = ks
        return None if inplace else d
    def reset_index(self, drop=False, inplace=False, **k):
        if k: raise Unk('reset_index')
        d = self if inplace else self.copy()
        if not drop:
            ns = d.names or ['index']
            old = d.c
            d.c = {n: [i[j] if isinstance(i, tuple) and d.names else i for i in d.ix] for j, n in enumerate(ns)}
            d.c.update(old)
        d.ix = list(range(len(d.ix))); d.names = None
        return None if inplace else d
    def sort_index(self, **k):
        if k: raise Unk('sort_index')
        return self.take(sorted(range(len(self.ix)), key=lambda j: self.ix[j]))
    def drop_duplicates(self, subset=None, keep='first', **k):
        if k or keep not in ('first', 'last'): raise Unk('drop_duplicates')
        ks = list(subset) if subset is not None else list(self.c)
        if isinstance(subset, str): ks = [subset]
        seen, out = set(), []
        js = range(len(self.ix)) if keep == 'first' else reversed(range(len(self.ix)))
        for j in js:
            t = tuple(self.c[n][j] for n in ks)
            if t not in seen: seen.add(t); out.append(j)
        return self.take(sorted(out))
    def groupby(self, ks, **k):
        if set(k) - {'sort'}: raise Unk('groupby')
        return G(self, [ks] if isinstance(ks, str) else list(ks))
    def iterrows(self):
        for j in range(len(self.ix)): yield self.ix[j], row(list(self.c), [v[j] for v in self.c.values()])
    def __iter__(self): return iter(list(self.c))
    def __bool__(self): raise ValueError('the truth value of a DataFrame is ambiguous')
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        c = self.__dict__.get('c')
        if c is not None and k in c: return S(c[k], self.ix)
        return Unknown('DataFrame.' + k)

class G:
    """groups of the rows of a table"""
    def __init__(self, d, ks, col=None):
        self.d, self.ks, self.col = d, ks, col
    def groups(self):
        out = {}
        for j in range(len(self.d.ix)): out.setdefault(tuple(self.d.c[n][j] for n in self.ks), []).append(j)
        return {k: out[k] for k in sorted(out)}
    def __getitem__(self, c):
        if not isinstance(c, str): raise Unk('groupby column')
        return G(self.d, self.ks, c)
    def apply(self, f):
        if self.col is None: raise Unk('apply on groups of rows')
        g = self.groups()
        return GS([f(S([self.d.c[self.col][j] for j in js])) for js in g.values()], list(g), self.ks, self.col)
    agg = apply
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        if k in self.__dict__['d'].c: return self[k]
        return Unknown('groupby.' + k)

class GS(S):
    def __init__(self, v, ix, names, col): super().__init__(v, [i if len(names) > 1 else i[0] for i in ix]); self.names, self.col = names, col
    def reset_index(self, **k):
        if k: raise Unk('reset_index')
        d = D()
        for j, n in enumerate(self.names): d.c[n] = [i[j] if len(self.names) > 1 else i for i in self.ix]
        d.c[self.col] = list(self.v); d.ix = list(range(len(self.v)))
        return d
    def to_frame(self):
        d = D(); d.c = {self.col: list(self.v)}; d.ix = list(self.ix); d.names = list(self.names); return d

def concat(ds, sort=False, ignore_index=False, axis=0, **k):
    ds = [d for d in ds]
    if k or axis != 0 or not all(isinstance(d, D) for d in ds): raise Unk('concat')
    if not ds: raise ValueError('no objects to concatenate')
    cols = []
    for d in ds: cols += [n for n in d.c if n not in cols]
    o = D()
    for n in cols: o.c[n] = [x for d in ds for x in (d.c[n] if n in d.c else [NAN] * len(d.ix))]
    o.ix = [i for d in ds for i in d.ix] if not ignore_index else list(range(sum(len(d.ix) for d in ds)))
    return o

class EmptyDataError(ValueError): pass

def read_csv(text, **k):
    """the CSV reader: what it makes of a text, with the options that are modelled"""
    known = {'dtype', 'keep_default_na', 'na_filter', 'quoting', 'sep', 'delimiter', 'encoding', 'engine', 'header', 'skipinitialspace', 'na_values', 'usecols', 'names', 'converters', 'float_precision'}
    if set(k) - known: raise Unk('read_csv option %s' % sorted(set(k) - known))
    if k.get('header', 0) != 0 or 'names' in k or 'usecols' in k or k.get('na_values') is not None: raise Unk('read_csv')
    sep = k.get('sep', k.get('delimiter', ','))
    if not isinstance(sep, str) or len(sep) != 1: raise Unk('separator')
    q = k.get('quoting', _csv.QUOTE_MINIMAL)
    if q not in (_csv.QUOTE_NONE, _csv.QUOTE_MINIMAL): raise Unk('quoting')
    if not text.strip('\r\n'): raise EmptyDataError('No columns to parse from file')
    if q == _csv.QUOTE_NONE: rows = [l.split(sep) for l in re.split(r'\r\n|\r|\n', text) if l]
    else: rows = [r for r in _csv.reader(re.split(r'(?<=\n)', text), delimiter=sep) if r]
    head, rows = rows[0], rows[1:]
    if any(len(r) > len(head) for r in rows): raise Unk('more fields than columns')
    rows = [r + [''] * (len(head) - len(r)) for r in rows]
    if k.get('skipinitialspace'): rows = [[x.lstrip(' ') for x in r] for r in rows]
    dt = k.get('dtype'); conv = k.get('converters') or {}
    na = set() if k.get('na_filter', True) is False or not k.get('keep_default_na', True) else NA
    d = D(); d.ix = list(range(len(rows)))
    for j, n in enumerate(head):
        t = dt.get(n) if isinstance(dt, dict) else dt
        xs = [r[j] for r in rows]
        if n in conv: d.c[n] = [conv[n](x) for x in xs]; continue
        if t in (str, 'str', 'string', object, 'object'): d.c[n] = [NAN if x in na else x for x in xs]; continue
        if t is not None: raise Unk('dtype %s' % t)
        num = re.compile(r'\s*[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?\s*$')
        spec = re.compile(r'\s*[-+]?inf(inity)?\s*$', re.I)
        def isnum(x): return num.match(x) or spec.match(x)
        rest = [x for x in xs if x not in na]
        if xs and all(isnum(x) for x in rest) and (rest or na):
            if len(rest) == len(xs) and all(re.match(r'\s*[-+]?\d+\s*$', x) for x in xs): d.c[n] = [int(x) for x in xs]
            else: d.c[n] = [NAN if x in na else float(x) for x in xs]
        elif xs and all(x in ('True', 'False', 'TRUE', 'FALSE', 'true', 'false') for x in xs): d.c[n] = [x.lower() == 'true' for x in xs]
        else: d.c[n] = [NAN if x in na else x for x in xs]
    return d
