"""C23: probe files are complete and readable by the analysis tools."""
import math, os, re
from engine import mapsem
from engine import ir, maps
from engine.bounds import PIPE
from engine.build import REPO, bc, residual, BuildError
from engine.pyabs import Unk

SRC = os.path.join(REPO, 'src/common/vfc_probes.c')
TECH = ('static analysis: value and text dataflow over the inlined IR of the probe library (which argument reaches which column, which names are refused on every path before the insertion, '
        'which items the dump visits), joined with an abstract interpretation of the reader over the classes of names and values the format allows')
NOTE = ('all entry points (C and Fortran wrappers), all columns; the reader is interpreted on the texts that the extracted header and format produce for each class of names and values. '
        'Names of 4 GB and more and the behaviour of the map itself (C33) are outside.')
RULE = ('Each entry point stores its value, threshold and mode unchanged in the record that the dump prints, under the key "test,variable"; the insertion is only reached after both names were scanned '
        'for separators and line breaks and the key was compared with those of all records with the same hash; the dump prints every record once in the columns the header announces, with a lossless format; '
        'the reader gives back exactly the names, values, thresholds and modes.')

ENTRY = {'vfc_probe': (0, 'none', False), 'vfc_probe_check': (1, 'absolute', False), 'vfc_probe_check_relative': (1, 'relative', False),
         'vfc_probe_f': (0, 'none', True), 'vfc_probe_check_f': (1, 'absolute', True), 'vfc_probe_check_relative_f': (1, 'relative', True)}
OPAQUE = ('get_value_at', 'get_key_at', 'vfc_hashmap_get', 'vfc_hashmap_have', 'vfc_hashmap_insert', 'vfc_hashmap_str_function', 'vfc_hashmap_free', 'vfc_hashmap_create', 'vfc_hashmap_num_items')
READ = {'strlen', 'strcpy', 'strcat', 'fprintf', 'printf', 'sprintf', 'snprintf', 'strchr', 'strpbrk', 'strcspn', 'strcmp', 'stpcpy', 'memcpy', 'strdup', 'fputs', 'puts'}

def calls(f, *n): return [i for i in f.insts() if i.op == 'call' and ir.callee(i) in n]

def line(m, i, f): return m.loc(i) or f.name

def pieces(m, f, buf):
    """texts that make up a buffer, in order: ('arg', value) or ('text', constant); None when not understood"""
    out = None
    for i in f.insts():
        if i.op != 'call': continue
        c = ir.callee(i)
        if not i.ops or i.ops[0] != buf or c not in ('strcpy', 'strcat', 'sprintf', 'snprintf', 'stpcpy', 'strncpy', 'strncat', 'memcpy'):
            continue
        def part(v):
            s = m.string(v)
            return ('text', s) if s is not None else ('arg', v)
        if c == 'strcpy': out = [part(i.ops[1])]
        elif c == 'strcat':
            if out is None: return None
            out.append(part(i.ops[1]))
        elif c in ('sprintf', 'snprintf'):
            k = 1 if c == 'sprintf' else 2
            fm = m.string(i.ops[k])
            if fm is None: return None
            out, a = [], list(i.ops[k + 1:])
            for t in re.split(r'(%s)', fm):
                if t == '%s':
                    if not a: return None
                    out.append(part(a.pop(0)))
                elif '%' in t: return None
                elif t: out.append(('text', t))
        else: return None
    return out

def scanned(m, f, p, c, ins):
    """is the text p refused when it contains character c? -> True / (False, why) / None not understood"""
    tests = []
    odd = False
    def refuses(blk): return not any(j.block in f.reach(blk) for j in ins)
    def ptr_users(v, idx, n=0):
        nonlocal odd
        for u in f.users(v):
            if u.op == 'getelementptr' and u.ops[0] == v and n < 3: ptr_users(u.name, u.ops[-1], n + 1)
            elif u.op == 'load' and u.type == 'i8': tests.append((u, idx))
            elif u.op == 'phi': ptr_users(u.name, u.name, n + 1) if n < 2 else None
            elif u.op == 'call':
                k = ir.callee(u)
                if k in ('strchr', 'strpbrk', 'strcspn') and u.ops[0] == v: tests.append((u, None))
                elif k not in READ: odd = True
            elif u.op == 'icmp': pass
            else: odd = True
    ptr_users(p, '0')
    found = None
    for u, idx in tests:
        if u.op == 'load':
            hit = []
            st, seen = [u.name], set()
            while st:
                v = st.pop()
                if v in seen: continue
                seen.add(v)
                for w in f.users(v):
                    if w.op in ('sext', 'zext', 'freeze'): st.append(w.name)
                    elif w.op == 'switch': hit += [l for val, l in w.extra['cases'] if int(val) & 255 == c]
                    elif w.op == 'icmp' and w.extra['pred'] in ('eq', 'ne') and re.match(r'-?\d+$', w.ops[1]):
                        if int(w.ops[1]) & 255 != c: continue
                        for x in f.users(w.name):
                            if x.op == 'br': hit.append(x.extra['labels'][0 if w.extra['pred'] == 'eq' else 1])
                            else: odd = True
                    elif w.op == 'icmp': odd = True
                    else: odd = True
            for l in hit:
                if not refuses(l): continue
                r = covers(m, f, p, u, idx, ins)
                if r is True: return True
                found = r if found is None or r is not None else found
                if r is None: odd = True
        else:
            k = ir.callee(u)
            if k == 'strchr':
                if not u.ops[1].lstrip('-').isdigit(): odd = True; continue
                chars = chr(int(u.ops[1]) & 255)
            else:
                chars = m.string(u.ops[1])
                if chars is None: odd = True; continue
            if chr(c) not in chars: continue
            if k == 'strcspn': odd = True; continue
            for w in f.users(u.name):
                if w.op == 'icmp' and w.ops[1] == 'null':
                    for x in f.users(w.name):
                        if x.op == 'br':
                            l = x.extra['labels'][1 if w.extra['pred'] == 'eq' else 0]
                            if refuses(l):
                                if all(f.dominates(x.block, j.block) for j in ins): return True
                                found = (False, 'the insertion is also reached without this test')
                        else: odd = True
                else: odd = True
    if found is not None and not odd: return found
    if odd: return None
    return (False, 'no test refuses it')

def covers(m, f, p, u, idx, ins):
    """the loop that loads p[idx] visits all characters before the insertion"""
    d = f.defs.get(idx)
    while d is not None and d.op in ('zext', 'sext', 'trunc'): idx = d.ops[0]; d = f.defs.get(idx)
    if d is None or d.op != 'phi': return (False, 'only one character is tested') if re.match(r'-?\d+$', idx) and idx != '0' else None
    isptr = d.type == 'ptr'
    init = [v for v, l in d.extra['inc'] if re.match(r'-?\d+$', v) or v == p]
    step = [f.defs.get(v) for v, l in d.extra['inc'] if not (re.match(r'-?\d+$', v) or v == p)]
    if len(init) != 1 or len(step) != 1 or step[0] is None: return None
    if init[0] not in ('0', p): return (False, 'the scan starts at character %s' % init[0])
    s = step[0]
    if s.op not in ('add', 'getelementptr') or s.ops[0] != idx: return None
    if s.ops[-1] != '1': return (False, 'the scan advances by %s characters' % s.ops[-1])
    # the loop header dominates the insertion
    if not all(f.dominates(d.block, j.block) for j in ins): return (False, 'the insertion is also reached without this scan')
    # end of the loop
    for w in f.users(idx):
        if w.op == 'icmp' and w.extra['pred'] in ('ult', 'slt', 'ne', 'eq', 'uge', 'sge', 'ule'):
            b = w.ops[1] if w.ops[0] == idx else w.ops[0]
            e = f.defs.get(b)
            while e is not None and e.op in ('trunc', 'zext', 'sext'): b = e.ops[0]; e = f.defs.get(b)
            if e is None: continue
            if e.op == 'call' and ir.callee(e) == 'strlen':
                return True if e.ops[0] == p else (False, 'the scan stops at the length of another text')
            if e.op == 'add' and e.ops[1].startswith('-'):
                x = f.defs.get(e.ops[0])
                while x is not None and x.op in ('trunc', 'zext', 'sext'): x = f.defs.get(x.ops[0])
                if x is not None and x.op == 'call' and ir.callee(x) == 'strlen' and x.ops[0] == p: return (False, 'the scan leaves out the last character')
            return None
    # until the terminating zero
    for w in f.users(u.name):
        if w.op == 'switch' and any(int(v) == 0 for v, l in w.extra['cases']) or w.op == 'icmp' and w.ops[1] == '0': return True
    return None

CONV = re.compile(r'%([-+ #0]*)(\d+)?(?:\.(\d+))?(hh|h|ll|l|z|L)?([a-zA-Z])')

def dump(rep, m, cap):
    """columns of the dump: list of (kind, offset, conversion) and the header; checks that all the records are written"""
    f = m.funcs.get('vfc_dump_probes')
    if f is None or f.is_decl: rep.unknown('dump', 'not found'); return None
    from engine.bounds import Bounds
    B = Bounds(m, ('vfc_dump_probes',))
    fo = calls(f, 'fopen')
    for i in fo:
        e = f.defs.get(i.ops[0])
        if e is not None and e.op == 'call' and ir.callee(e) in ('getenv', 'secure_getenv'):
            rep.check(m.string(e.ops[0]) == 'VFC_PROBES_OUTPUT', 'dump: output file', line(m, i, f), 'the probes are written to the file named by %s' % m.string(e.ops[0]))
        else: rep.unknown('dump: output file', 'name not recognised')
        md = m.string(i.ops[1])
        if md is None: rep.unknown('dump: mode', 'not constant')
        else: rep.check(md[:1] == 'w', 'dump: the file only holds this dump', line(m, i, f), 'the file is opened with mode "%s"' % md)
    head, rows = [], []
    for i in calls(f, 'fprintf', 'fputs', 'fwrite'):
        c = ir.callee(i)
        if c == 'fputs':
            s = m.string(i.ops[0]); fp = i.ops[1]
        elif c == 'fprintf': s = m.string(i.ops[1]); fp = i.ops[0]
        else: rep.unknown('dump: output', c); return None
        if not any(fp == o.name for o in fo): continue
        if s is None: rep.unknown('dump: format', line(m, i, f)); return None
        (rows if '%' in s else head).append((i, s))
    if len(head) != 1 or len(rows) != 1: rep.unknown('dump: lines', '%d headers, %d formats' % (len(head), len(rows))); return None
    hi, hs = head[0]; ri, rs = rows[0]
    if not rep.check(hs.endswith('\n') and rs.endswith('\n') and hs.count('\n') == 1 == rs.count('\n'), 'dump: one line per record', line(m, ri, f), 'header %r, record %r' % (hs, rs)): return None
    rep.check(f.dominates(hi.block, ri.block) and hi is not ri, 'dump: the header comes first', line(m, hi, f), 'a record may be written before the header')
    cols = []
    vals = list(ri.ops[2:])
    for t in rs[:-1].split(','):
        cv = CONV.fullmatch(t)
        if cv is None or not vals: rep.unknown('dump: columns', rs); return None
        v = vals.pop(0)
        d = f.defs.get(v)
        narrow = None
        while d is not None and d.op in ('fpext', 'fptrunc'):
            if d.op == 'fptrunc': narrow = d
            d = f.defs.get(d.ops[0])
        if narrow is not None: rep.bad('dump: no loss', line(m, ri, f), 'a value is rounded to single precision before it is written')
        if d is None or d.op != 'load': rep.unknown('dump: columns', 'value of %s' % t); return None
        root, off = m.addr(f, d.ops[0])
        cols.append((off, cv, root))
    roots = {r for _, _, r in cols}
    if len(roots) != 1 or any(o is None for o, _, _ in cols): rep.unknown('dump: columns', 'not all from one record'); return None
    root = next(iter(roots))
    fx = lambda b: B.rng(f).facts(b)
    if cap is None: rep.unknown('dump: all records', 'layout of the map')
    else:
        ok, why = maps.visited(m, f, root, fx, cap)
        if ok is None: rep.unknown('dump: all records', why)
        else: rep.check(ok, 'dump: all records', line(m, ri, f), why)
    sel = []
    cd = f.control_deps()
    todo, seenb = [ri.block], set()
    while todo:
        b = todo.pop()
        if b in seenb: continue
        seenb.add(b)
        for d in cd.get(b, ()):
            d = d[0] if isinstance(d, tuple) else d
            todo.append(d)
            t = f.blocks[d].insts[-1]
            cond = t.ops[0] if t.op in ('br', 'switch') and t.ops else None
            c = f.defs.get(cond) if cond else None
            if c is None or c.op == 'icmp' and 'null' in c.ops: continue
            for x in ir.cone(f, cond, stop=lambda i: i.op in ('phi', 'load'))[0]:
                if x.op == 'load' and m.addr(f, x.ops[0])[0] == root: sel.append(m.addr(f, x.ops[0])[1])
    rep.check(not sel, 'dump: whatever the record holds', line(m, ri, f), 'a record is only written when its field at offset %s satisfies a condition' % sel)
    # nothing freed before it is written
    fr = [i for i in f.insts() if i.op == 'call' and ir.callee(i) in ('free', 'vfc_hashmap_free', 'vfc_hashmap_destroy')]
    bad = [i for i in fr if ri.block in f.reach(i.block) and i.block != ri.block]
    rep.check(not bad, 'dump: records are freed after they are written', line(m, bad[0], f) if bad else line(m, ri, f), 'records are freed before they are written')
    return hs[:-1].split(','), cols, line(m, ri, f)

def entry(rep, m, f, spec, cols, cap):
    from engine.bounds import Bounds
    k, mode, byref = spec
    B = Bounds(m, (f.name,))
    args = f.argnames()
    if len(args) != 4 + k: rep.unknown(f.name, 'parameters'); return
    ins = calls(f, 'vfc_hashmap_insert')
    if not ins: rep.bad(f.name, f.name, 'no probe is recorded'); return
    rep.count('entry points')
    if len(ins) > 1: rep.unknown(f.name, 'several insertions'); return
    i = ins[0]; at = line(m, i, f)
    node = i.ops[2]
    nd = f.defs.get(node)
    if nd is None or nd.op != 'call' or ir.callee(nd) not in ('malloc', 'calloc'): rep.unknown(f.name, 'record not recognised'); return
    st = {}
    for j in f.insts():
        if j.op == 'store':
            r, o = m.addr(f, j.ops[1])
            if r == node: st.setdefault(o, []).append(j)
    names = ('test,variable', 'value', 'accuracy_threshold', 'check_mode')
    offs = [o for o, _, _ in cols]
    joined = len(cols) == 4
    if len(cols) not in (4, 5): rep.unknown(f.name, '%d columns' % len(cols)); return
    def one(o):
        js = st.get(o)
        if not js: return None
        return js[-1].ops[0] if len(js) == 1 else None
    key = one(offs[0])
    def want(v, a, what):
        keyn = '%s: %s' % (f.name, what)
        if v is None: rep.unknown(keyn, 'not stored once'); return
        d = f.defs.get(v)
        if d is not None and d.op in ('fpext', 'fptrunc') and any(x.op == 'fptrunc' for x in ir.cone(f, v)[0]): rep.bad(keyn, at, 'the value is rounded to single precision'); return
        if byref:
            if d is None or d.op != 'load': rep.bad(keyn, at, 'recorded from %s' % v) if v in args or re.match(r'-?[\d.]', v) else rep.unknown(keyn, 'recorded from %s' % v); return
            rep.check(d.ops[0] == a, keyn, at, 'recorded from parameter %s instead of %s' % (d.ops[0], a)) if d.ops[0] in args else rep.unknown(keyn, 'origin')
        else:
            if v == a: rep.ok(keyn)
            elif v in args or d is None and re.match(r'-?[\d.]', v) or d is not None and d.op in ('fneg', 'fadd', 'fmul', 'fsub', 'fdiv') or d is not None and d.op == 'call' and 'fabs' in (ir.callee(d) or ''): rep.bad(keyn, at, 'recorded from %s instead of parameter %s' % (v, a))
            else: rep.unknown(keyn, 'origin of %s' % v)
    n0 = 1 if joined else 2
    want(one(offs[n0]), args[3], 'value')
    if k: want(one(offs[n0 + 1]), args[4], 'threshold')
    else:
        v = one(offs[n0 + 1])
        if v is None: rep.unknown(f.name + ': threshold', 'not stored once')
        else: rep.check(re.match(r'-?0\.0+e\+00$|0x0+$', v) is not None, f.name + ': threshold', at, 'a probe without check has the threshold %s' % v) if f.defs.get(v) is None else rep.unknown(f.name + ': threshold', 'origin')
    # mode
    mv = one(offs[n0 + 2])
    if mv is None: rep.unknown(f.name + ': mode', 'not stored once')
    else:
        t = m.string(mv)
        if t is None:
            d = f.defs.get(mv)
            ps = [('text', m.string(d.ops[0]))] if d is not None and d.op == 'call' and ir.callee(d) == 'strdup' else pieces(m, f, mv)
            t = ''.join(x[1] for x in ps) if ps and all(x[0] == 'text' and x[1] is not None for x in ps) else None
        if t is None: rep.unknown(f.name + ': mode', 'text not recognised')
        else: rep.check(t == mode, f.name + ': mode', at, 'recorded with the mode "%s" instead of "%s"' % (t, mode))
    # key
    if joined:
        if key is None: rep.unknown(f.name + ': key', 'not stored once')
        else:
            ps = pieces(m, f, key)
            if ps is None: rep.unknown(f.name + ': key', 'text not recognised')
            else: rep.check(ps == [('arg', args[1]), ('text', ','), ('arg', args[2])], f.name + ': key', at, 'the key is made of %s' % (ps,))
            h = f.defs.get(i.ops[1])
            if h is None or h.op != 'call' or ir.callee(h) != 'vfc_hashmap_str_function': rep.unknown(f.name + ': hash', 'not recognised')
            else: rep.check(h.ops[0] == key, f.name + ': hash', at, 'the record is inserted under the hash of another text') if h.ops[0] == key or h.ops[0] in args else rep.unknown(f.name + ': hash', 'origin')
    # names
    for p, what in ((args[1], 'test'), (args[2], 'variable')):
        for c, cn in ((44, "','"), (10, 'line feed'), (13, 'carriage return')):
            rep.count('names scanned')
            kn = '%s: %s name with %s refused' % (f.name, what, cn)
            r = scanned(m, f, p, c, ins)
            if r is True: rep.ok(kn)
            elif r is None: rep.unknown(kn, 'scan not recognised')
            else: rep.bad(kn, at, r[1])
    # duplicates
    kn = f.name + ': duplicates refused'
    cm = [j for j in calls(f, 'strcmp') if key in j.ops]
    if not cm:
        oth = calls(f, 'strncmp', 'memcmp', 'strcasecmp', 'bcmp')
        rep.unknown(kn, 'comparison not recognised') if oth else rep.bad(kn, at, 'no comparison with the recorded keys')
        return
    best = None
    for j in cm:
        o = [x for x in j.ops if x != key]
        d = f.defs.get(o[0]) if o else None
        if d is None or d.op != 'load': best = best or (None, 'compared text'); continue
        root, off = m.addr(f, d.ops[0])
        if off != offs[0]: best = best or (False, 'the key is compared with the field at offset %s' % off); continue
        ok = False
        for w in f.users(j.name):
            if w.op == 'icmp' and w.ops[1] == '0' and w.extra['pred'] in ('eq', 'ne'):
                for x in f.users(w.name):
                    if x.op == 'br':
                        l = x.extra['labels'][0 if w.extra['pred'] == 'eq' else 1]
                        ok |= i.block not in f.reach(l)
                        if i.block in f.reach(l): best = (False, 'an equal key is not refused')
        if not ok: best = best or (None, 'outcome of the comparison'); continue
        rd = f.defs.get(root)
        g = rd
        if g is not None and g.op == 'call' and ir.callee(g) == 'vfc_hashmap_get':
            best = best or (False, 'the key is only compared with the first record that has the same hash'); continue
        if cap is None: best = best or (None, 'layout of the map'); continue
        v = maps.visited(m, f, root, lambda b: B.rng(f).facts(b), cap)
        if v[0]: best = (True, None); break
        best = v if best is None or best[0] is None else best
    if best[0] is None: rep.unknown(kn, best[1])
    else: rep.check(best[0], kn, at, best[1])

NAMES = [('t', 'x'), ('NA', 'null'), ('1', '2.50'), ('"q', 'q"'), (' a b ', 'x y'), ('nan', '0x1p+0'), ('True', 'False'), ('', 'v'), ('t', 'y'), ('#c', "it's"), ('u', 'x')]
VALUES = [0.0, -0.0, 1.5, -2.25, 5e-324, 1.7976931348623157e308, math.inf, -math.inf, math.nan, 0.1, 1 / 3]

def show(cv, v):
    """text of a value with a C conversion; None when the conversion is not understood"""
    fl, w, pr, ln, c = cv.groups()
    if w or fl or ln: return None
    if isinstance(v, str): return v if c == 's' and not pr else None
    if c in 'aA':
        if v != v: return '-nan' if math.copysign(1, v) < 0 else 'nan'
        if math.isinf(v): return 'inf' if v > 0 else '-inf'
        if pr is not None and int(pr) < 13: v = float.fromhex(round_hex(v, int(pr)))
        h = v.hex()
        return h.upper() if c == 'A' else h
    if c in 'eEfFgG': return ('%.' + (pr or '6') + c) % v
    return None

def round_hex(v, p):
    if v == 0 or math.isinf(v) or v != v: return v.hex()
    m, e = math.frexp(v)
    m = round(m * 2 ** (1 + 4 * p)) / 2 ** (1 + 4 * p)
    try: return math.ldexp(m, e).hex()
    except OverflowError: return 'inf' if v > 0 else '-inf'

def reader(rep, head, cols, at):
    from engine import ciworld as cw
    joined = len(cols) == 4
    sets = [[(n, VALUES[k % len(VALUES)], 0.0 if k % 3 == 0 else 0.5 / (k + 1), ('none', 'absolute', 'relative')[k % 3]) for k, n in enumerate(NAMES)],
            [(('t', 'v%d' % k), v, v, 'absolute') for k, v in enumerate(VALUES)], [(('1', '2'), 3.0, 4.0, 'relative')], [(('1', '2'), math.nan, math.nan, 'relative'), (('1.0', '3'), math.inf, 1.0, 'none')], [(('NA', 'nan'), 1.0, 0.0, 'none')], []]
    sets += [[(n, v, v, md)] for n in NAMES for v in VALUES for md in ('none', 'absolute', 'relative')]
    for k, rows in enumerate(sets):
        key = 'reader: class %d' % k
        text = ','.join(head) + '\n'
        for (t, x), v, a, md in rows:
            fields = [t + ',' + x] if joined else [t, x]
            parts = [show(cv, val) for (o, cv, r), val in zip(cols, fields + [v, a, md])]
            if None in parts: rep.unknown('reader', 'format'); return
            text += ','.join(parts) + '\n'
        try:
            w = cw.Ci()
            w.fs['probes'] = text
            warn = []
            res, chk = w.fn('read_probes_csv')('probes', warn, {'backend': 'B', 'executable': 'E', 'repetition': 1})
        except Unk as e: rep.unknown(key, str(e)); continue
        except Exception as e:
            rep.bad(key, '%s:%d' % (cw.TEST, w.it.line), 'reading the probes %s ends with %s: %s' % (str([r[:2] for r in rows][:3]), type(e).__name__, e)); continue
        rep.count('probe files read')
        try: msg = compare(res, chk, rows, warn)
        except KeyError as e: msg = 'no column %s' % e
        rep.check(msg is None, key, at + ' / ' + cw.TEST, msg)

def same(a, b):
    if isinstance(a, float) and isinstance(b, float): return a != a and b != b or a == b and math.copysign(1, a) == math.copysign(1, b)
    return type(a) is type(b) and a == b

def compare(res, chk, rows, warn):
    if len(res) != len(rows) or len(chk) != len(rows): return '%d probes are read, %d were recorded' % (len(res), len(rows))
    if not rows: return None if warn else 'an empty probe file raises no warning'
    for j, ((t, x), v, a, md) in enumerate(rows):
        for tab, col, val in ((res, 'test', t), (res, 'variable', x), (res, 'values', v), (res, 'vfc_backend', 'B'), (chk, 'test', t), (chk, 'variable', x), (chk, 'accuracy_threshold', a), (chk, 'check_mode', md), (chk, 'vfc_backend', 'B')):
            got = tab.c[col][j]
            if not same(got, val): return '%s of the probe %s,%s is read as %r instead of %r' % (col, t, x, got, val)
    return None

def run(rep, tier):
    rep.rule = RULE
    mapsem.decide(rep, 'map: ')
    fl = ('-fno-builtin',)
    names = tuple(ENTRY) + ('vfc_dump_probes',)
    try: m = residual([bc(SRC, fl)], names, pipe=PIPE, opaque=OPAQUE)
    except BuildError as e: rep.unknown('vfc_probes', str(e)[:300]); return
    try: cap = maps.capacity_offset()
    except BuildError: cap = None
    r = dump(rep, m, cap)
    if r is None: return
    head, cols, at = r
    for n, spec in ENTRY.items():
        f = m.funcs.get(n)
        if f is None or f.is_decl: rep.unknown(n, 'not found'); continue
        entry(rep, m, f, spec, cols, cap)
    reader(rep, head, cols, at)
    rep.floor('entry points', 6); rep.floor('probe files read', 100)
