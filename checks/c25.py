"""C25: text given by the user or the program never overruns a buffer of the runtime."""
import os, re
from engine import ir, backends as bk, wrapper as w
from engine.bounds import Bounds, PIPE, mark, service, fmt_need, ladd, lc, nonneg, INF
from engine.build import SRC, STD, bc, bc_text, residual, BuildError
from engine.errors import logger_exits
from checks.c27 import std, ENTRY

TECH = ('static analysis: buffer-size / string-length analysis (linear sizes, taint of external text, intervals of indices refined by dominating branches) over the '
        'linked and inlined IR of the wrapper, the backends, the support libraries and the probes')
NOTE = ('every call that writes text into a buffer (strcpy, strcat, sprintf, strncpy, snprintf, fgets, read, memcpy, scanf) and every write at a variable index of an '
        'array of known size; relations between a heap size and a count kept in another structure are only covered for the profile arguments. '
        'What is not understood is reported as undecided, not as an alarm.')
RULE = ('For each writer the size of the destination (stack, global, field, heap as a linear form in string lengths) must be at least the length of what is written: '
        'constant texts, tokens and buffers have their size as bound, environment variables, parameters and loaded text are unbounded unless a dominating branch '
        'bounds their length. For each write at a variable index the interval of the index must lie inside the array.')

NORET = {'logger_error': 'noreturn nounwind', '_interflop_err': 'noreturn nounwind'}
WRITERS = {'strcpy', 'stpcpy', 'strcat', 'sprintf', 'vsprintf', 'strncpy', 'snprintf', 'vsnprintf', 'fgets', 'gets', 'read', 'fread', 'memcpy', 'memmove', 'memset', 'sscanf', 'fscanf',
           '__isoc99_sscanf', '__isoc99_fscanf', '__isoc23_sscanf', '__isoc23_fscanf', 'strncat', 'readlink', 'recv', 'getcwd', 'getline', '__getline', 'getdelim', '__getdelim'}
INPUT = {'strtok_r', 'strtok', 'fgets', 'getline', 'fgetc', 'getc', 'strchr', 'strpbrk', 'strsep', 'read', 'fread', 'sscanf'}

def modules(tier):
    """(name, list of bitcode makers, entry points)"""
    fl = ('-fno-builtin',)
    lib = lambda: [bc(s, fl) for s in std()]
    for b in bk.B.values():
        yield b.key, lambda b=b: [bc(s, fl) for s in b.allsrcs()] + lib(), ENTRY, ()
    yield 'wrapper', lambda: [bc_text(w.source(('DDEBUG', 'INST_FUNC', 'INST_FCMP', 'INST_FMA', 'INST_CAST')) + '\n#line 1 "harness"\nvoid run_init(void) { vfc_init(); }\nvoid run_exit(void) { vfc_atexit(); }\n', [w.W], fl + ('-O2',), gcc_branch=False)] + [
        bc(s, fl) for s in std()], ['run_init', 'run_exit', 'vfc_enter_function', 'vfc_exit_function', 'vfc_call_stack_push', 'vfc_call_stack_pop', 'vfc_call_stack_print'], ()
    p = os.path.join(SRC, 'common', 'vfc_probes.c')
    if os.path.exists(p):
        t = open(p).read()
        names = re.findall(r'^\w[\w \*]*?\b(vfc_\w+)\s*\([^;{]*\)\s*\{', t, re.M)
        yield 'probes', lambda: [bc(p, fl)] + lib(), names or ['vfc_probe'], ()

def finddefs(txt):
    return mark(txt)

def show(l):
    if l is None: return 'unknown'
    s = [str(l[1])] if l.get(1) else []
    s += ['%slength of %s' % ('' if c == 1 else '%d x ' % c, k[1] if isinstance(k, tuple) else k) for k, c in l.items() if k != 1]
    return ' + '.join(s) or '0'

def judge(rep, B, f, i, name, key, where, need, ext, why, dst, src=None):
    caps = B.cap(f, dst)
    if not caps or any(c is None for c in caps):
        rep.count('destinations of unknown size'); rep.unknown(key, 'size of the destination unknown'); return
    for c in caps:
        if need is None:
            if ext and set(c) <= {1}:
                if src is not None and B.looks_guarded(f, src, i.block): rep.unknown(key, 'guard not understood'); return
                rep.bad(key, where, '%s writes %s, of unbounded length, into %s bytes' % (name, why, show(c))); return
            rep.unknown(key, why); return
        d = ladd(c, need, -1)
        if nonneg(d): continue
        if set(d) <= {1} or all(v < 0 for v in d.values()) or (ext and (set(c) <= {1} or any(v < 0 for s, v in d.items() if isinstance(s, tuple)))):
            if not (set(d) <= {1}) and src is not None and B.looks_guarded(f, src, i.block): rep.unknown(key, 'guard not understood'); return
            if not ext and not (set(d) <= {1} and why == 'a constant'): rep.unknown(key, 'length of %s' % why); return
            if set(need) <= {1}: t = 'up to %s bytes (%s)' % (show(need), why)
            else: t = '%s, of unbounded length,' % why
            rep.bad(key, where, '%s writes %s into %s bytes' % (name, t, show(c))); return
        rep.unknown(key, 'size %s, written %s' % (show(c), show(need))); return
    rep.ok(key)

def texts(rep, B, mod, f):
    seen = {}
    for i in f.insts():
        if i.op != 'call': continue
        n = service(f, i)
        if n and n.startswith('llvm.mem'):
            if re.match(r'\d+$', i.ops[2]): continue             # assignment of a structure
            n = n.split('.')[1]
        if n not in WRITERS: continue
        k = '%s: %s in %s' % (mod, n, (B.m.loc(i) or f.name))
        seen[k] = seen.get(k, 0) + 1
        key = k + (' #%d' % seen[k] if seen[k] > 1 else '')
        where = B.m.loc(i) or f.name
        rep.count('text writers')
        o = i.ops
        if n in ('strcpy', 'stpcpy'):
            l, e, y = B.length(f, o[1], i.block)
            judge(rep, B, f, i, n, key, where, ladd(l, lc(1)), e, y, o[0], o[1])
        elif n in ('strcat', 'strncat'):
            tot, ext, why = lc(1), False, ''
            for j in f.insts():
                if j.op == 'call' and service(f, j) in ('strcpy', 'strcat', 'stpcpy') and B.strip(f, j.ops[0]) == B.strip(f, o[0]):
                    l, e, y = B.length(f, j.ops[1], i.block)
                    tot = ladd(tot, l); ext |= e; why = y if e else why
            def again(j):
                """j can be executed twice without the first copy into the buffer in between"""
                st = [first[0].block] if first else []
                return any(j.block in f.reach(s, stop=st) for s in f.blocks[j.block].succs if s not in st)
            first = [j for j in f.insts() if j.op == 'call' and service(f, j) in ('strcpy', 'stpcpy') and B.strip(f, j.ops[0]) == B.strip(f, o[0])]
            if len(first) != 1 or again(i): rep.unknown(key, 'concatenation in a function with loops') if not nonneg(ladd((B.cap(f, o[0]) or [None])[0], tot, -1)) else rep.ok(key); continue
            judge(rep, B, f, i, n, key, where, tot, ext, why, o[0], o[1])
        elif n == 'sprintf':
            fm = B.m.string(o[1])
            if fm is None:
                rep.unknown(key, 'format not constant'); continue
            l, e, y = fmt_need(B, f, i, fm, o[2:], i.block)
            sa = [a for a in o[2:] if B.m.string(a) is None and i.optypes[o.index(a)] == 'ptr']
            judge(rep, B, f, i, n, key, where, ladd(l, lc(1)), e, y, o[0], sa[0] if sa else None)
        elif n in ('strncpy', 'memcpy', 'memmove', 'memset', 'snprintf', 'fgets', 'read', 'fread'):
            pos = {'snprintf': (0, 1), 'fgets': (0, 1), 'read': (1, 2)}.get(n, (0, 2))
            if n == 'fread':
                a, b = B.lin(f, o[1]), B.lin(f, o[2])
                sz = {s: c * a[1] for s, c in b.items()} if a is not None and set(a) <= {1} and a and b is not None else None
            else: sz = B.lin(f, o[pos[1]])
            if sz is not None and not set(sz) <= {1}:
                r = B.rng(f).at(o[pos[1]], i.block)
                if isinstance(r, tuple) and 0 <= r[0] and r[1] < (1 << 31): sz = lc(r[1])
            ln = {k for k in (sz or {}) if isinstance(k, tuple)}
            e = bool(ln) or n in ('fgets', 'read', 'fread')
            if n == 'snprintf' and B.m.string(o[2]) is not None:
                l, e2, y = fmt_need(B, f, i, B.m.string(o[2]), o[3:], i.block)
                l = ladd(l, lc(1))
                if l is not None and set(l) <= {1} and sz is not None and set(sz) <= {1} and l.get(1, 0) < sz.get(1, 0): sz, e = l, e2
                else: e |= e2
            judge(rep, B, f, i, n, key, where, sz, e, 'its length argument', o[pos[0]], None)
        elif n in ('getline', '__getline', 'getdelim', '__getdelim'):
            p, z = [B.reaching(f, i, *B.m.addr(f, a)) for a in o[:2]]
            if p is not None and all(v == 'null' for v in p) or z is not None and all(v == '0' for v in z): rep.ok(key); continue
            if not p or not z or not all(re.match(r'\d+$', v) for v in z): rep.unknown(key, 'buffer given to getline'); continue
            for v in p:
                if v != 'null': judge(rep, B, f, i, n, key, where, lc(max(map(int, z))), True, 'a line of the file', v)
        elif 'scanf' in n:
            fm = B.m.string(o[1])
            if fm is None: rep.unknown(key, 'format not constant'); continue
            k = 2
            bad = False
            for mm in re.finditer(r'%(\*)?(\d+)?(hh|h|ll|l|z|j|t|L|m)?([a-zA-Z\[%])', fm):
                if mm.group(4) == '%' or mm.group(1): continue
                if mm.group(4) in 's[' and mm.group(3) != 'm':
                    if mm.group(2) is None:
                        judge(rep, B, f, i, n, key, where, None, True, 'a word of the input', o[k]); bad = True
                    else:
                        judge(rep, B, f, i, n, key, where, lc(int(mm.group(2)) + 1), True, 'a word of the input', o[k]); bad = True
                k += 1
            if not bad: rep.ok(key)
        elif n in ('gets', 'vsprintf'):
            judge(rep, B, f, i, n, key, where, None, True, 'its input', o[0])
        else: rep.unknown(key, 'not modelled')

def natural(f, h):
    """blocks of the loop whose header is h"""
    preds = {}
    for l in f.order:
        for s in f.blocks[l].succs: preds.setdefault(s, []).append(l)
    st, loop = [l for l in preds.get(h, []) if f.dominates(h, l)], {h}
    while st:
        l = st.pop()
        if l not in loop:
            loop.add(l)
            st += preds.get(l, [])
    return loop

def loops_on_input(B, f, v):
    """the index is counted in a loop that input decides to leave"""
    phis = [x for x in ir.cone(f, v)[0] if x.op == 'phi']
    for p in phis:
        loop = natural(f, p.block)
        for l in loop:
            t = f.blocks[l].insts[-1]
            if t.op not in ('br', 'switch') or not t.ops or all(s in loop for s in f.blocks[l].succs): continue
            for x in ir.cone(f, t.ops[0], stop=lambda y: y.op in ('call', 'load'))[0]:
                if x.op == 'call' and service(f, x) in INPUT: return service(f, x)
                if x.op == 'load' and x.type == 'i8':
                    ln, e, y = B.length(f, B.m.addr(f, x.ops[0])[0], x.block)
                    if e and (ln is None or not set(ln) <= {1}): return 'the characters of a text given from outside'
    return None

def indices(rep, B, mod, f):
    for i in f.insts():
        ptr = i.ops[1] if i.op == 'store' else None
        if i.op == 'call' and (service(f, i) or '') in ('strcpy',): ptr = None
        if i.op == 'load' and i.type == 'ptr' and any(u.op == 'call' and (service(f, u) or '') in WRITERS and u.ops[0] == i.name for u in f.users(i.name)): ptr = i.ops[0]
        if ptr is None: continue
        g = f.defs.get(ptr)
        if g is None or g.op != 'getelementptr' or all(re.match(r'-?\d+$', o) for o in g.ops[1:]): continue
        vi = [k for k, o in enumerate(g.ops) if k and not re.match(r'-?\d+$', o)]
        mm = re.match(r'\[(\d+) x (.*)\]$', g.extra['src'])
        n = None
        if mm and vi == [2] and g.ops[1] == '0': n, v = int(mm.group(1)), g.ops[2]
        elif vi == [1] and len(g.ops) == 2:
            v = g.ops[1]
            try: sz = B.m.layout(g.extra['src'])[0]
            except Exception: continue
            caps = B.cap(f, g.ops[0])
            if not caps or any(c is None or not set(c) <= {1} for c in caps): rep.count('writes at an index of an array of unknown size'); continue
            n = min(c.get(1, 0) for c in caps) // sz
        if not n: continue
        rep.count('indexed writes')
        key = '%s: write at an index in %s' % (mod, B.m.loc(i) or f.name)
        r = B.rng(f).at(v, i.block)
        if r == 'empty' or r is None: rep.ok(key); continue
        if 0 <= r[0] and r[1] < n: rep.ok(key); continue
        why = loops_on_input(B, f, v)
        if why and r[1] >= n:
            if r[1] >= (1 << 30):
                if n >= 1024: rep.unknown(key, 'large array'); continue
                rep.bad(key, B.m.loc(i) or f.name, 'the index is counted by %s without any bound, the array has %d elements' % (why, n))
            else: rep.bad(key, B.m.loc(i) or f.name, 'the index reaches %d (counted by %s), the array has %d elements' % (r[1], why, n))
        else: rep.unknown(key, 'index %s of %d' % (r, n))

def field(B, f, p):
    """pointer to a field of a structure -> (object, structure type, field number)"""
    d = f.defs.get(p)
    if d is None or d.op != 'getelementptr' or not d.extra['src'].startswith('%struct') or len(d.ops) != 3 or not all(re.match(r'\d+$', o) for o in d.ops[1:]) or d.ops[1] != '0': return None
    return d.ops[0], d.extra['src'], int(d.ops[2])

def counted(B):
    """structure fields that hold an array whose number of elements is another field: (type, array field) -> count field"""
    out, sizes = {}, {}
    for f in B.m.funcs.values():
        if f.is_decl: continue
        for i in f.insts():
            if i.op != 'store': continue
            fl = field(B, f, i.ops[1])
            d = f.defs.get(i.ops[0])
            if fl is None or d is None or d.op != 'call' or service(f, d) not in ('calloc', 'malloc'): continue
            vals, cnts = set(), set()
            for x in ir.cone(f, d.ops[0], stop=lambda y: y.op in ('load', 'call', 'phi'))[0] | (ir.cone(f, d.ops[1], stop=lambda y: y.op in ('load', 'call', 'phi'))[0] if len(d.ops) > 1 else set()):
                vals.add(x.name)
                if x.op != 'load': vals |= set(x.ops)
                elif (field(B, f, x.ops[0]) or (0,))[0] == fl[0]: cnts.add(field(B, f, x.ops[0])[2])
            vals |= set(d.ops)
            for j in f.insts():
                if j.op == 'store' and j.ops[0] in vals and j.ops[0].startswith('%'):
                    fj = field(B, f, j.ops[1])
                    if fj is not None and fj[1] == fl[1] and fj[0] == fl[0] and fj[2] != fl[2]: cnts.add(fj[2])
            if len(cnts) == 1:
                out.setdefault((fl[1], fl[2]), {}).setdefault(next(iter(cnts)), B.m.loc(d) or f.name)
                if service(f, d) == 'calloc':
                    k = [int(o) for o in d.ops[:2] if re.match(r'\d+$', o)]
                    if len(k) == 1: sizes.setdefault((fl[1], fl[2]), []).append((k[0], B.m.loc(d) or f.name))
    return out, sizes

def arrays(rep, B, mod):
    """writes into an array held by a structure together with its size: the size must have been compared with the index or its bound"""
    alloc, sizes = counted(B)
    cnt = {k: next(iter(v)) for k, v in alloc.items() if len(v) == 1}
    for (ty, k), v in sorted(alloc.items()):
        key = '%s: number of elements of field %d of %s' % (mod, k, ty)
        rep.check(len(v) == 1, key, list(v.values())[-1], 'the array has the size given by field %s in one place and by field %s in another: one of them is overrun' % tuple((list(v) * 2)[:2]))
    for f in B.m.funcs.values():
        if f.is_decl: continue
        seen = set()
        for g in f.insts():
            if g.op != 'getelementptr': continue
            base = f.defs.get(g.ops[0])
            if base is None: continue
            loads = [x for x in ([base] if base.op == 'load' else [f.defs[v] for v, l in base.extra['inc'] if v in f.defs and f.defs[v].op == 'load'] if base.op == 'phi' else [])]
            fl = [y for y in (field(B, f, x.ops[0]) for x in loads) if y is not None and (y[1], y[2]) in cnt]
            if not fl or all(re.match(r'-?\d+$', o) for o in g.ops[1:2]): continue
            obj, ty, k = fl[0]
            if not any(u.op in ('store', 'call', 'getelementptr') for u in f.users(g.name)): continue
            key = '%s: elements of field %d of %s in %s' % (mod, k, ty, B.m.loc(g) or f.name)
            if key in seen: continue
            seen.add(key)
            rep.count('writes into counted arrays')
            c = cnt[(ty, k)]
            # comparisons that look at the count
            def looks(v):
                return v in f.defs and any(x.op == 'load' and (field(B, f, x.ops[0]) or (0, 0, 0))[1:] == (ty, c) for x in ir.cone(f, v)[0])
            near = [i for i in f.insts() if i.op == 'icmp' and any(looks(o) for o in i.ops)]
            bound = [i for i in near if f.dominates(i.block, g.block)]
            try: esz = B.m.layout(g.extra['src'])[0] if g.extra['src'].startswith('%struct') and len(g.ops) >= 2 else 0
            except Exception: esz = 0
            small = [x for x in sizes.get((ty, k), ()) if x[0] < esz]
            def more(v):
                d = f.defs.get(v)
                return d is not None and d.op == 'add' and re.match(r'[1-9]\d*$', d.ops[1]) and looks(d.ops[0])
            if small: rep.bad(key, small[0][1], 'elements of %d bytes are allocated, %d bytes are used for each' % (small[0][0], esz))
            elif bound and all(any(more(o) for o in i.ops) for i in bound): rep.bad(key, B.m.loc(g) or f.name, 'the index is compared with more than the number of elements (field %d)' % c)
            elif bound: rep.ok(key)
            elif near: rep.unknown(key, 'the number of elements is compared elsewhere')
            else: rep.bad(key, B.m.loc(g) or f.name, 'the index is never compared with the number of elements (field %d): an array of another size, read from a file, is overrun' % c)

def run(rep, tier):
    rep.rule = RULE
    logger_exits(rep)
    for name, mk, keep, _ in modules(tier):
        try: m = residual(mk(), keep, pipe=PIPE, edit=mark, attrs=NORET, opaque=('logger_error', '_interflop_err'))
        except BuildError as e:
            rep.unknown(name, str(e)[:300]); continue
        B = Bounds(m, keep)
        for f in m.funcs.values():
            if f.is_decl: continue
            rep.count('functions')
            texts(rep, B, name, f)
            indices(rep, B, name, f)
        arrays(rep, B, name)
    rep.floor('text writers', 10)
