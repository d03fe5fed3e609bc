"""C17: delta-debug filters select exactly the listed operations."""
from engine import mapsem
from engine import wrapper as w, ir
from engine.absint import AbsInt, iconst, Int
from engine.terms import Terms, show, walk
from engine.build import BuildError, bc, residual, STD
from engine.slice import root
import os, re

TECH = 'static analysis: partial evaluation of the delta-debug wrapper per filter configuration and abstract interpretation per filter outcome'
NOTE = ('Scalar wrappers of the eight arithmetic operations and fma, for every configuration of the three environment variables and every '
        'outcome of the two lookups; the lookup structure itself by comparing probe sequences. Line-number resolution of addresses and the '
        'contents of the filter files are outside the analysis.')
RULE = ('With the exclusion, inclusion and generation settings fixed and the outcome of each lookup assumed, each wrapper must either call no '
        'backend and return the native operation on its own operands, or call every backend, as exclusion-first filtering prescribes; lookups '
        'and recording use the return address; the filter reader and the generator agree on the address offset; inclusion with generation '
        'is refused; insertion and lookup in the address map follow the same probe sequence.')

BIN = {'add': 'fadd', 'sub': 'fsub', 'mul': 'fmul', 'div': 'fdiv'}

def native(t, wn, args):
    """the term is the native operation on the wrapper's arguments"""
    a = [('arg', None, x) for x in args]
    def isarg(x, k):
        return x[0] == 'arg' and x[2] == args[k]
    for op, ll in BIN.items():
        if wn.endswith(op):
            if t[0] != ll:
                return False
            if isarg(t[3], 0) and isarg(t[4], 1):
                return True
            return ll in ('fadd', 'fmul') and isarg(t[3], 1) and isarg(t[4], 0)
    if wn.endswith('fma'):
        if t[0] == 'call' and t[2][0] and re.match(r'(llvm\.fma\.|llvm\.fmuladd\.|fmaf?$|interflop_fma_binary)', t[2][0]):
            k = t[3:6]
            return isarg(k[2], 2) and ((isarg(k[0], 0) and isarg(k[1], 1)) or (isarg(k[0], 1) and isarg(k[1], 0)))
        if t[0] == 'fadd':
            for m, c in ((t[3], t[4]), (t[4], t[3])):
                if m[0] == 'fmul' and isarg(c, 2) and ((isarg(m[3], 0) and isarg(m[4], 1)) or (isarg(m[3], 1) and isarg(m[4], 0))):
                    return True
        return False
    return False

def retaddr(t):
    return any(x[0] == 'call' and x[2][0] == 'llvm.returnaddress' or x[0] == 'call' and (x[2][0] or '').startswith('llvm.returnaddress') for x in walk(t))

def wrappers(rep):
    ops = [o for o in w.OPS if not o.endswith('cmp') and 'cast' not in o]
    for ex in (0, 1):
        for inc in (0, 1):
            for gen in (0, 1):
                if inc and gen:
                    continue
                h = w.table(w.opmembers(), [1, 1])
                h += 'char *KX = %s; char *KI = %s; char *KG = %s;\n' % tuple('"x"' if v else '(char *)0' for v in (ex, inc, gen))
                h += 'extern struct vfc_hashmap_st MAPI, MAPX; vfc_hashmap_t KMI = &MAPI; vfc_hashmap_t KMX = &MAPX;\n'
                m = w.module(h, ops, defs=('DDEBUG',), consts=dict(w.TABLES, dd_exclude_path='KX', dd_include_path='KI', dd_generate_path='KG',
                                                                  dd_must_instrument='KMI', dd_mustnot_instrument='KMX'))
                for wn in ops:
                    f = m.funcs.get(wn)
                    if f is None:
                        rep.unknown(wn, 'wrapper not found')
                        continue
                    for E in ((0, 1) if ex else (0,)):
                        for I in ((0, 1) if inc else (0,)):
                            one(rep, m, f, wn, ex, inc, gen, E, I)

def one(rep, m, f, wn, ex, inc, gen, E, I):
    cfg = []
    if ex:
        cfg.append('excluded' if E else 'not excluded')
    if inc:
        cfg.append('included' if I else 'not included')
    if gen:
        cfg.append('generating')
    k = '%s/%s' % (wn, ', '.join(cfg) or 'no filter')
    rep.count('filter cases')
    def model(ai, i):
        c = ir.callee(i)
        if c == 'vfc_hashmap_have':
            if i.ops[0] == '@MAPX':
                return iconst(8, E)
            if i.ops[0] == '@MAPI':
                return iconst(8, I)
        return None
    ai = AbsInt(f, {}, model)
    T = Terms(f, ai)
    calls = [i for i in f.insts() if i.op == 'call' and i.block in ai.exec_blocks and ir.callee(i) and not ir.callee(i).startswith('llvm.')]
    mocks = [i for i in calls if ir.callee(i).startswith('interflop_') and ir.callee(i).rsplit('_', 1)[-1].isdigit()]
    loc = m.loc(calls[0]) if calls else None
    if not loc:
        loc = next((m.loc(i) for i in f.insts() if m.loc(i)), None) or f.name
    for i in calls:
        if ir.callee(i) in ('vfc_hashmap_have', 'vfc_hashmap_insert'):
            if i.ops[0] not in ('@MAPX', '@MAPI'):
                rep.unknown(k, 'lookup in %s' % i.ops[0])
                return
            if not retaddr(T.term(i.ops[1], 'i64')):
                rep.bad(k, m.loc(i) or loc, 'the filter is consulted with %s, not the return address' % show(T.term(i.ops[1]), 3))
                return
    want_native = (ex and E) or (inc and not I)
    rets = [i for l in f.order if l in ai.exec_blocks for i in f.blocks[l].insts[-1:] if i.op == 'ret']
    if len(rets) != 1:
        rep.unknown(k, '%d returns' % len(rets))
        return
    v = T.resolve(rets[0].ops[0])
    undecided = [l for l in f.order if l in ai.exec_blocks and len({e for e in ai.exec_edges if e[0] == l}) > 1]
    if undecided:
        c = f.blocks[undecided[0]].insts[-1]
        ct = T.term(c.ops[0], 'i1') if c.ops else None
        rep.unknown(k, 'depends on %s' % (show(ct, 4) if ct else '?'))
        return
    ins = [i for i in calls if ir.callee(i) == 'vfc_hashmap_insert']
    if want_native:
        if mocks:
            rep.bad(k, m.loc(mocks[0]) or loc, 'a filtered operation is sent to the backends')
            return
        t = T.term(v)
        if not native(t, wn, [a for _, a in f.args]):
            if t[0] in ('fadd', 'fsub', 'fmul', 'fdiv', 'arg', 'const', 'load'):
                rep.bad(k, loc, 'a filtered operation yields %s' % show(t, 4))
            else:
                rep.unknown(k, 'native result %s' % show(t, 4))
            return
        rep.ok(k)
        return
    mem = w.OPS[wn][0]
    got = [ir.callee(i) for i in mocks]
    if got != [mem + '_0', mem + '_1']:
        rep.bad(k, loc, 'an operation that is not filtered calls %s' % (got or 'no backend'))
        return
    d = f.defs.get(v)
    if d is None or d.op != 'load' or root(f, d.ops[0]) != root(f, mocks[-1].ops[-2]):
        rep.bad(k, loc, 'the result of the backends is not returned')
        return
    if gen and not [i for i in ins if i.ops[0] == '@MAPI']:
        rep.bad(k, loc, 'an executed operation is not recorded while generating')
        return
    for i in ins:
        if gen and not retaddr(T.term(i.ops[2], 'ptr')):
            rep.bad(k, m.loc(i) or loc, 'records %s' % show(T.term(i.ops[2]), 3))
            return
    if not gen and ins and (ex or inc):
        rep.bad(k, m.loc(ins[0]) or loc, 'the filter is modified while filtering')
        return
    rep.ok(k)

def setup(rep):
    """vfc_init: which file fills which map, and the refusal"""
    for ex in (0, 1):
        for inc in (0, 1):
            for gen in (0, 1):
                env = {}
                t = 'extern char XP[], IP[], GP[], BP[];\n'
                env['VFC_BACKENDS'] = 'BP'
                for on, nm, g in ((ex, 'VFC_DDEBUG_EXCLUDE', 'XP'), (inc, 'VFC_DDEBUG_INCLUDE', 'IP'), (gen, 'VFC_DDEBUG_GEN', 'GP')):
                    if on:
                        env[nm] = g
                k = 'initialisation/%s' % (', '.join(n for n, o in (('exclude', ex), ('include', inc), ('generate', gen)) if o) or 'no filter')
                h = t + w.env_harness(env, 'void run_init(void) { vfc_init(); }\n')
                try:
                    m = w.module(h, ['run_init', 'dd_must_instrument', 'dd_mustnot_instrument'], defs=('DDEBUG', w.ENVDEF), opaque=('vfc_read_filter_file',))
                except BuildError as e:
                    rep.unknown(k, 'harness: %s' % str(e)[-200:])
                    continue
                f = m.funcs['run_init']
                rep.count('initialisation cases')
                reads, refuse = [], []
                created = {}
                for i in f.insts():
                    if i.op == 'call' and ir.callee(i) == 'vfc_read_filter_file':
                        reads.append(i)
                    if i.op == 'store' and i.ops[1] in ('@dd_must_instrument', '@dd_mustnot_instrument'):
                        created[i.ops[0]] = i.ops[1]
                    if i.op == 'call' and ir.callee(i) == 'logger_error':
                        s = m.string(i.ops[0]) if hasattr(m, 'string') else None
                        if s and 'VFC_DDEBUG_INCLUDE' in s and 'VFC_DDEBUG_GEN' in s:
                            refuse.append(i)
                ai = AbsInt(f, {})
                T = Terms(f, ai)
                got = {}
                bad = unk = None
                for i in reads:
                    mp = T.resolve(i.ops[1])
                    d = f.defs.get(mp)
                    g = created.get(mp) or (d.ops[0] if d is not None and d.op == 'load' else None)
                    got[i.ops[0]] = (g, i)
                want = {}
                if ex:
                    want['@XP'] = '@dd_mustnot_instrument'
                if inc:
                    want['@IP'] = '@dd_must_instrument'
                loc = m.loc(reads[0]) if reads else f.name
                for p, g in want.items():
                    if p not in got:
                        bad = 'the filter file %s is not read' % ('VFC_DDEBUG_EXCLUDE' if p == '@XP' else 'VFC_DDEBUG_INCLUDE')
                    elif got[p][0] is None:
                        unk = 'map of %s' % p
                    elif got[p][0] != g:
                        bad = '%s fills %s' % ('VFC_DDEBUG_EXCLUDE' if p == '@XP' else 'VFC_DDEBUG_INCLUDE', got[p][0])
                        loc = m.loc(got[p][1]) or loc
                for p in got:
                    if p not in want:
                        if p.startswith('@'):
                            bad = 'file %s is read as a filter' % p
                        else:
                            unk = 'filter path %s' % p
                if inc and gen and not refuse:
                    bad = 'inclusion and generation together are not refused'
                if not (inc and gen) and refuse:
                    bad = 'a valid configuration is refused'
                if bad:
                    rep.bad(k, loc, bad)
                elif unk:
                    rep.unknown(k, unk)
                else:
                    rep.ok(k)

def lin_add(T, v):
    """(base value, constant added) of an integer or pointer"""
    t = T.term(v)
    off = 0
    while True:
        if t[0] in ('ptrtoint', 'inttoptr', 'bitcast', 'zext', 'freeze'):
            t = t[3]
        elif t[0] in ('add', 'sub') and t[4][0] == 'const' and t[4][2].lstrip('-').isdigit():
            off += int(t[4][2]) * (1 if t[0] == 'add' else -1)
            t = t[3]
        elif t[0] == 'getelementptr' and len(t) == 5 and t[4][0] == 'const' and t[2] == 'i8':
            off += int(t[4][2])
            t = t[3]
        else:
            if off >= 1 << 63:
                off -= 1 << 64
            return t, off

def offsets(rep):
    """the reader adds to each address what the generator subtracts"""
    h = 'void rd(const char *p, vfc_hashmap_t m) { vfc_read_filter_file(p, m); }\nvoid gn(char *p, vfc_hashmap_t m) { ddebug_generate_inclusion(p, m); }\n'
    try:
        m = w.module(h, ['rd', 'gn'], defs=('DDEBUG',))
    except BuildError as e:
        rep.unknown('address offset', str(e)[-200:])
        return
    f = m.funcs['rd']
    T = Terms(f, AbsInt(f, {}))
    ins = [i for i in f.insts() if i.op == 'call' and ir.callee(i) == 'vfc_hashmap_insert']
    offs = set()
    for i in ins:
        b1, o1 = lin_add(T, i.ops[1])
        b2, o2 = lin_add(T, i.ops[2])
        offs.add(o1)
        rep.count('filter file insertions')
        k = 'filter reader'
        if b1[0] != 'load' or b2[0] != 'load':
            rep.unknown(k, 'key %s' % show(b1, 3))
        else:
            rep.check(o1 == o2 and root(f, b1[3][2] if len(b1[3]) > 2 and isinstance(b1[3][2], str) else '') is not None, k, m.loc(i) or 'rd',
                      'inserts key offset %d with value offset %d' % (o1, o2))
    if not ins:
        rep.bad('filter reader', 'vfc_read_filter_file', 'no address is ever inserted')
    g = m.funcs['gn']
    T = Terms(g, AbsInt(g, {}))
    outs = []
    for i in g.insts():
        if i.op == 'call' and ir.callee(i) in ('snprintf', 'sprintf', 'dprintf', 'fprintf'):
            a = i.ops
            for s in a[:3]:
                if m.string(s) and '%p' in m.string(s) or m.string(s) and '%lx' in (m.string(s) or ''):
                    outs.append((i, a[a.index(s) + 1]))
    go = {lin_add(T, v)[1] for _, v in outs}
    k = 'generated file lists every recorded address'
    idx = set()
    for i, v in outs:
        d = g.defs.get(v)
        while d is not None and d.op in ('inttoptr', 'add', 'getelementptr', 'ptrtoint') and d.ops[0] in g.defs and (d.op != 'add' or d.ops[1].lstrip('-').isdigit()):
            d = g.defs.get(d.ops[0])
        ge = g.defs.get(d.ops[0]) if d is not None and d.op == 'load' else None
        e = g.defs.get(ge.ops[1]) if ge is not None and ge.op == 'getelementptr' and len(ge.ops) == 2 else None
        if e is not None and (e.op == 'shl' and e.ops[1] == '1' or e.op == 'mul' and e.ops[1] == '2'):
            idx.add(e.ops[0])
        if d is not None and d.op == 'call' and ir.callee(d) == 'get_value_at':
            idx.add(d.ops[1])
    if len(idx) == 1:
        st, msg = scan(g, idx.pop())
        where = m.loc(outs[0][0]) or 'ddebug_generate_inclusion'
        if st == 'ok':
            rep.ok(k)
        elif st == 'bad':
            rep.bad(k, where, '%s are written' % msg)
        else:
            rep.unknown(k, msg)
    else:
        rep.unknown(k, 'index not found')
    k = 'address offset'
    if len(offs) == 1 and len(go) == 1:
        rep.check(list(offs)[0] == -list(go)[0], k, m.loc(outs[0][0]) or 'ddebug_generate_inclusion',
                  'the generator writes addresses with offset %d, the reader adds %d' % (list(go)[0], list(offs)[0]))
    else:
        rep.unknown(k, 'offsets %s %s' % (offs, go))

def reach(f, ai, a, stop):
    """blocks that can execute after block a before any block of stop"""
    todo, seen = [t for s, t in ai.exec_edges if s == a], set()
    while todo:
        x = todo.pop()
        if x in seen or x in stop:
            continue
        seen.add(x)
        todo += [t for s, t in ai.exec_edges if s == x]
    return seen

def reader_lines(rep):
    """each line of a filter file that is an address is entered, each other line refused"""
    h = 'void rd(const char *p, vfc_hashmap_t m) { vfc_read_filter_file(p, m); }\n'
    try:
        m = w.module(h, ['rd'], defs=('DDEBUG',))
    except BuildError as e:
        rep.unknown('filter file lines', str(e)[-200:])
        return
    f = m.funcs['rd']
    for got, what in ((1, 'a line with an address'), (0, 'a line that is not an address'), (-1, 'an empty line')):
        k = 'filter file: ' + what
        rep.count('filter file lines')
        scan_ = []
        def model(ai, i):
            if ir.callee(i) in ('sscanf', '__isoc99_sscanf', '__isoc23_sscanf'):
                scan_.append(i)
                return iconst(32, got)
            return None
        ai = AbsInt(f, {}, model)
        on = [i for i in f.insts() if i.op == 'call' and i.block in ai.exec_blocks]
        ins = [i for i in on if ir.callee(i) == 'vfc_hashmap_insert']
        err = [i for i in on if ir.callee(i) == 'logger_error']
        read = [i for i in on if ir.callee(i) in ('fgets', 'getline', 'getdelim', '__getdelim')]
        if not read or not scan_ or len({i.name for i in scan_}) != 1:
            rep.unknown(k, 'reads lines otherwise')
            continue
        loc = m.loc(scan_[0]) or 'vfc_read_filter_file'
        if got == 1:
            if not ins:
                rep.bad(k, loc, 'no address is entered')
            elif err and any(f.dominates(scan_[0].block, e.block) for e in err):
                rep.bad(k, m.loc(err[0]) or loc, 'is refused')
            elif [b for b in reach(f, ai, ins[0].block, {r.block for r in read} | {e.block for e in err}) if f.blocks[b].insts[-1].op == 'ret']:
                rep.bad(k, m.loc(ins[0]) or loc, 'ends the reading: later lines are ignored')
            else:
                rep.ok(k)
        else:
            if [i for i in ins if f.dominates(scan_[0].block, i.block)]:
                rep.bad(k, m.loc(ins[0]) or loc, 'an address is entered')
            elif not err:
                rep.bad(k, loc, 'is accepted silently')
            else:
                rep.ok(k)

def generator_slots(rep):
    """the generator writes the occupied slots of the map and no other, through addr2line's standard output"""
    h = 'extern int KSL; void gn(char *p, vfc_hashmap_t m) { ddebug_generate_inclusion(p, m); }\n'
    try:
        m = w.module(h, ['gn'], defs=('DDEBUG',), opaque=('get_value_at',))
    except BuildError as e:
        rep.unknown('generator slots', str(e)[-200:])
        return
    f = m.funcs['gn']
    if not [i for i in f.insts() if i.op == 'call' and ir.callee(i) == 'get_value_at']:
        rep.unknown('generator slots', 'the slots are read otherwise')
        return
    for val, what in ((0, 'a free slot'), (0x401234, 'an occupied slot')):
        k = 'generated file: ' + what
        rep.count('generator slots')
        def model(ai, i):
            c = ir.callee(i)
            if c == 'get_value_at':
                return iconst(64, val)
            if c == 'fork':
                return iconst(32, 0)
            return None
        ai = AbsInt(f, {}, model)
        T = Terms(f, ai)
        on = [i for i in f.insts() if i.op == 'call' and i.block in ai.exec_blocks]
        out = [i for i in on if ir.callee(i) in ('execlp', 'execl', 'execvp', 'execv')]
        op = [i for i in on if ir.callee(i) in ('open', 'open64')]
        loc = m.loc((out or op or on)[0]) or 'ddebug_generate_inclusion'
        if val >= 2:
            kk = 'generated file: earlier contents'
            fl = op[0].ops[1] if len(op) == 1 else ''
            if [i for i in on if ir.callee(i) in ('unlink', 'remove', 'ftruncate', 'ftruncate64', 'truncate', 'truncate64', 'fopen', 'fopen64', 'creat')] or not re.fullmatch(r'\d+', fl):
                rep.unknown(kk, 'the file is opened otherwise')
            else:
                rep.check(bool(int(fl) & 0o1000) or int(fl) & 0o300 == 0o300, kk, m.loc(op[0]) or loc, 'lines of an earlier file can remain in the list of executed operations')
        if val < 2:
            rep.check(not out, k, loc, 'is written to the inclusion file')
            continue
        if not out:
            any_ = [i for i in f.insts() if i.op == 'call' and ir.callee(i) in ('execlp', 'execl', 'execvp', 'execv')]
            if any_:
                rep.bad(k, m.loc(any_[0]) or loc, 'is not written to the inclusion file')
            else:
                rep.unknown(k, 'resolves addresses otherwise')
            continue
        dup = [i for i in on if ir.callee(i) == 'dup2' and f.dominates(i.block, out[0].block)]
        if not dup or not op:
            rep.unknown(k, 'redirects the output otherwise')
            continue
        if dup[0].ops[1].isdigit() and dup[0].ops[1] != '1' and len(dup) == 1:
            rep.bad(k, m.loc(dup[0]) or loc, 'descriptor %s instead of the standard output is sent to the inclusion file' % dup[0].ops[1])
            continue
        rep.ok(k)

def expander(f):
    """v, k -> normalised text of v in iteration k of the loop it belongs to (None: not understood)"""
    back = {}
    for i in f.insts():
        if i.op == 'phi':
            ini = [v for v, l in i.extra['inc'] if not f.dominates(i.block, l.lstrip('%') if l not in f.blocks else l)]
            bk = [v for v, l in i.extra['inc'] if f.dominates(i.block, l.lstrip('%') if l not in f.blocks else l)]
            if bk:
                back[i.name] = (ini, bk)
    argi = {a: n for n, (_, a) in enumerate(f.args)}
    def ex(v, k, d=0):
        if d > 60:
            return None
        if v in argi:
            return 'A%d' % argi[v]
        i = f.defs.get(v)
        if i is None:
            return v
        if v in back:
            ini, bk = back[v]
            src = ini if k == 0 else bk
            ts = {ex(x, 0 if k == 0 else k - 1, d + 1) for x in src}
            return ts.pop() if len(ts) == 1 else None
        if i.op == 'phi':
            ts = {ex(x, k, d + 1) for x, _ in i.extra['inc']}
            return ts.pop() if len(ts) == 1 else None
        if i.op in ('call', 'alloca'):
            return None
        ks = [ex(o, k, d + 1) for o in i.ops]
        if None in ks:
            return None
        op = i.op
        if op == 'shl' and ks[1].isdigit():
            op, ks[1] = 'mul', str(1 << int(ks[1]))
        if op in ('add', 'mul', 'and', 'or', 'xor'):
            ks.sort()
        x = ''
        if op == 'getelementptr':
            x = str(i.extra.get('elty') or i.extra.get('srcty') or i.optypes[0] if i.extra else '')
        return '%s%s(%s)' % (op, x, ','.join(ks))
    return ex

def slots(f, m):
    """terms of the first slots of the item array the function looks at, in order"""
    ex = expander(f)
    seen = set()
    for i in f.insts():
        if i.op != 'load' or i.type != 'i64':
            continue
        g = f.defs.get(i.ops[0])
        if g is None or g.op != 'getelementptr' or len(g.ops) != 2:
            continue
        for k in (0, 1):
            t = ex(g.ops[1], k)
            if t is None:
                return None
            t = re.sub(r'^(?:or|add)\(1,(.*)\)$', r'\1', t)
            mm = re.match(r'^mul\(2,(.*)\)$', t) or re.match(r'^mul\((.*),2\)$', t)
            if not mm:
                return None
            seen.add(mm.group(1))
    return sorted(seen, key=len)

def probes(rep):
    """insertion and lookup of the address map walk the same slots, and growing it keeps every entry"""
    src = os.path.join(STD, 'hashmap', 'vfc_hashmap.c')
    b = bc(src, ('-O2', '-U__VFC_HASHMAP_HEADER__'), gcc_branch=False)
    fns = ['vfc_hashmap_insert', 'vfc_hashmap_have', 'vfc_hashmap_get']
    m = residual([b], fns, opaque=('maybe_rehash_map',))
    k = 'address map probe sequence'
    ref = None
    for n in fns:
        f = m.funcs.get(n)
        sl = slots(f, m) if f is not None and not f.is_decl else None
        rep.count('probe sequences')
        if not sl or len(sl) < 2:
            rep.unknown('%s/%s' % (k, n), 'slots %s' % sl)
            if ref is None:
                return
            continue
        if ref is None:
            ref = sl
            continue
        loc = next((m.loc(i) for i in f.insts() if m.loc(i)), src)
        rep.check(sl[:2] == ref[:2], '%s/%s' % (k, n), loc, 'looks at %s, insertion at %s' % (sl[:2], ref[:2]))
    rehash(rep, b, src)

def rehash(rep, b, src):
    k = 'address map growth'
    m = residual([b], ['vfc_hashmap_insert'], opaque=('hashmap_add_member',))
    f = m.funcs['vfc_hashmap_insert']
    calls = [i for i in f.insts() if i.op == 'call' and ir.callee(i) == 'hashmap_add_member']
    loop = [i for i in calls if any(f.dominates(s, l) and i.block in natural(f, s, l) for l in f.order for s in f.blocks[l].succs if f.dominates(s, l))]
    if len(loop) != 1:
        rep.unknown(k, '%d reinsertion sites' % len(loop))
        return
    c = loop[0]
    loc = m.loc(c) or src
    idx = []
    base = []
    for o in (c.ops[1], c.ops[2]):
        d = f.defs.get(o)
        while d is not None and d.op in ('inttoptr', 'ptrtoint', 'bitcast'):
            d = f.defs.get(d.ops[0])
        g = f.defs.get(d.ops[0]) if d is not None and d.op == 'load' else None
        if g is None:
            rep.unknown(k, 'reinserts %s' % o)
            return
        if g.op == 'phi':
            rep.unknown(k, 'reinserts through %s' % g.name)
            return
        if g.op != 'getelementptr' or len(g.ops) != 2:
            rep.unknown(k, 'reinserts from %s' % g.text.strip())
            return
        base.append(g.ops[0])
        off = 0
        e = f.defs.get(g.ops[1])
        if e is not None and e.op in ('or', 'add') and e.ops[1] == '1':
            off = 1
            e = f.defs.get(e.ops[0])
        if e is None or not (e.op == 'shl' and e.ops[1] == '1' or e.op == 'mul' and e.ops[1] == '2'):
            rep.unknown(k, 'index %s' % (e.text.strip() if e is not None else g.text.strip()))
            return
        idx.append((e.ops[0], off))
    rep.count('growth loops')
    if base[0] != base[1]:
        rep.unknown(k, 'two tables')
        return
    (i0, o0), (i1, o1) = idx
    if i0 != i1 or (o0, o1) != (1, 0):
        rep.bad(k, loc, 'an entry is reinserted with key slot %d and value slot %d of %s entries' % (o0, o1, 'different' if i0 != i1 else 'the same'))
        return
    st, msg = scan(f, i0)
    if st == 'ok':
        rep.ok(k)
    elif st == 'bad':
        rep.bad(k, loc, '%s are kept when the map grows' % msg)
    else:
        rep.unknown(k, msg)

def scan(f, i0):
    """the loop counter i0 runs over every slot of the map: ('ok'|'bad'|'unknown', text)"""
    ph = f.defs.get(i0)
    if ph is None or ph.op != 'phi':
        return 'unknown', 'counter %s' % i0
    ini = [v for v, l in ph.extra['inc'] if not f.dominates(ph.block, l)]
    bk = [v for v, l in ph.extra['inc'] if f.dominates(ph.block, l)]
    st = f.defs.get(bk[0]) if len(bk) == 1 else None
    if len(ini) != 1 or st is None or st.op != 'add' or st.ops[0] != i0:
        return 'unknown', 'counter %s' % ph.text.strip()
    if not ini[0].isdigit() or not st.ops[1].isdigit():
        return 'unknown', 'counter from %s in steps of %s' % (ini[0], st.ops[1])
    if ini[0] != '0' or st.ops[1] != '1':
        return 'bad', 'entries from %s in steps of %s' % (ini[0], st.ops[1])
    cmp = [u for u in f.users(st.name) + f.users(ph.name) if u.op == 'icmp']
    if len(cmp) != 1:
        return 'unknown', 'loop bound'
    o = cmp[0].ops[1] if cmp[0].ops[0] in (st.name, ph.name) else cmp[0].ops[0]
    d = f.defs.get(o)
    off = 0
    while d is not None and d.op == 'add' and re.match(r'-?\d+$', d.ops[1]):
        off += int(d.ops[1])
        d = f.defs.get(d.ops[0])
    if d is None or d.op != 'load':
        return 'unknown', 'loop bound %s' % o
    g = f.defs.get(d.ops[0])
    if g is None or g.op != 'getelementptr' or not g.ops[-1].isdigit():
        return 'unknown', 'loop bound %s' % d.text.strip()
    if off < 0:
        return 'bad', 'all entries but the last %d' % -off
    if off:
        return 'unknown', 'loop bound %s' % o
    stores = [i for i in f.insts() if i.op == 'store' and i.ops[1] == d.ops[0]]
    if any((f.dominates(x.block, d.block) and x.block != d.block) or (x.block == d.block and x.idx < d.idx) for x in stores):
        return 'unknown', 'loop bound loaded after the capacity changed'
    # struct vfc_hashmap_st: nbits, mask, capacity, items, nitems, n_deleted_items
    fld = int(g.ops[-1])
    if len(g.ops) == 2:
        fld //= 8
    if fld == 2:
        return 'ok', ''
    return ('bad', 'only as many entries as the map has items') if fld == 4 else ('unknown', 'loop bound field %d' % fld)

def natural(f, h, l):
    """blocks of the natural loop with header h and latch l"""
    s, st = {h}, [l]
    while st:
        x = st.pop()
        if x not in s:
            s.add(x)
            st.extend(f.blocks[x].preds)
    return s

def run(rep, tier):
    rep.rule = RULE
    mapsem.decide(rep, 'map: ')
    wrappers(rep)
    setup(rep)
    offsets(rep)
    reader_lines(rep)
    generator_slots(rep)
    probes(rep)
    rep.floor('filter cases', 80)
    rep.floor('initialisation cases', 8)
    rep.assumptions += ['vfc_hashmap_have answers whether the key was inserted (its probing is compared with insertion\'s)',
                        'the scalar wrapper is called from the instrumented operation (vector operations call it from the wrapper library)']
