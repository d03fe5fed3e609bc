"""C08: operations in different threads do not interfere."""
import re
from engine import backends as bk, wrapper as w, ir, rng
from engine.build import residual, bc_text
from engine.slice import root

TECH = 'static analysis: effect analysis (write set, atomicity and thread-privacy of every written object) of the fully inlined IR of every operation'
NOTE = ('Every operation entry point of every backend under all configurations at once, with the random generator linked in, and every wrapper '
        'of the runtime; delta-debug runs, function hooks and user calls are outside.')
RULE = ('In the inlined IR of each operation, every write (store, memory intrinsic, atomic) is resolved to its base object. It may be the '
        'result, the operation\'s own stack or a thread-local object; a write to a global or to the shared context must be one atomic '
        'read-modify-write. Library routines with process-wide hidden state may not be called.')

HIDDEN = set('''rand srand random srandom drand48 lrand48 mrand48 srand48 strtok localtime gmtime asctime ctime setlocale tmpnam
strerror ecvt fcvt gcvt putenv setenv unsetenv initstate setstate'''.split())

def base(f, p):
    """set of base objects a pointer can denote: ('tls', g) ('global', g) ('arg', n) ('stack', i) ('?', text)"""
    out, st, seen = set(), [p], set()
    while st:
        p = st.pop()
        if p in seen:
            continue
        seen.add(p)
        g = re.search(r'@[\w.$]+', p) if not p.startswith('%') else None
        if g:
            out.add(('global', g.group(0)))
            continue
        d = f.defs.get(p)
        if d is None:
            out.add(('arg', p) if p in f.argnames() else ('?', p))
        elif d.op in ('getelementptr', 'bitcast', 'freeze'):
            st.append(d.ops[0])
        elif d.op == 'phi':
            st += [v for v, _ in d.extra['inc']]
        elif d.op == 'select':
            st += d.ops[1:3]
        elif d.op == 'alloca':
            out.add(('stack', p))
        elif d.op == 'call' and 'threadlocal.address' in d.text:
            g = re.search(r'threadlocal\.address\.p0\(ptr [^@]*(@[\w.$]+)', d.text)
            out.add(('tls', g.group(1) if g else '?'))
        elif d.op == 'load':
            b = base(f, d.ops[0])
            out.add(('via', ','.join(sorted(x[1] for x in b))))
        else:
            out.add(('?', d.text.strip()[:60]))
    return out

def threadlocal(m):
    return {g for g, t in re.findall(r'^(@[\w.$]+) = ([^\n]*)', m.text, re.M) if 'thread_local' in t.split(' global ')[0]}

def sourceop(f, v, seen=None):
    """loads feeding v without going through memory"""
    seen = set() if seen is None else seen
    if v in seen or v not in f.defs:
        return []
    seen.add(v)
    d = f.defs[v]
    if d.op == 'load':
        return [d]
    return [x for o in d.ops for x in sourceop(f, o, seen)]

def effects(rep, m, f, key, shared_ok=(), resarg='%res'):
    tl = threadlocal(m)
    def judge(i, p, what, value=None):
        for kind, nm in base(f, p):
            k = '%s: %s %s' % (key, what, nm)
            rep.count('writes')
            if kind in ('tls', 'stack') or nm in tl or (kind == 'arg' and nm == resarg):
                rep.ok(k)
            elif kind in ('global', 'arg'):
                obj = 'the global %s' % nm[1:] if kind == 'global' else 'the shared context'
                if i.op == 'store' and re.search(r'store (?:volatile )?atomic|store atomic', i.text):
                    ld = [x for x in sourceop(f, value) if m.addr(f, x.ops[0]) == m.addr(f, p)]
                    if not ld:
                        rep.ok(k)
                        continue
                    rep.bad(k, m.loc(i) or f.name, 'the update of %s is a separate load and store: a concurrent update is lost' % obj)
                else:
                    rep.bad(k, m.loc(i) or f.name, 'the operation writes %s without an atomic update: operations of different threads interfere' % obj)
            else:
                rep.unknown(k, 'written object not identified')
    for i in f.insts():
        if i.op == 'store':
            judge(i, i.ops[1], 'store to', i.ops[0])
        elif i.op in ('atomicrmw', 'cmpxchg'):
            rep.count('writes')
            rep.ok('%s: atomic %s' % (key, i.ops[0]))
        elif i.op == 'call':
            c = ir.callee(i) or ''
            if c.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')) or c in ('memcpy', 'memset', 'memmove', 'strcpy', 'strncpy', 'sprintf', 'snprintf'):
                judge(i, i.ops[0], 'copy to')
            elif c in HIDDEN:
                rep.bad('%s: %s' % (key, c), m.loc(i) or f.name, 'the operation calls %s, whose hidden state is shared by all threads' % c)

def run(rep, tier):
    rep.rule = RULE
    for key, b in bk.B.items():
        wr, _ = bk.wiring(b)
        syms = {}
        for s in bk.ALLSLOTS:
            if isinstance(wr[s], str):
                syms[s] = wr[s]
        t = bk.prelude(b)
        keep = []
        for s, sym in syms.items():
            if s in bk.SLOTS:
                params, rt = bk.SLOTS[s]
                ps = [p for p in params]
            else:
                ty = bk.CMPS[s]
                ps, rt = [('enum FCMP_PREDICATE', 'p'), (ty, 'a'), (ty, 'b')], 'int'
            if not sym.startswith(b.prefix):
                t += 'extern void %s(%s, %s *, void *);\n' % (sym, ', '.join(p for p, _ in ps), rt)
            t += 'void k_%s(%s, %s *res, void *ctx) { %s(%s, res, ctx); }\n' % (s, ', '.join('%s %s' % p for p in ps), rt, sym, ', '.join(n for _, n in ps))
            keep.append('k_' + s)
        # the other entry points keep what they read alive
        rest = [wr[s] for s in ('user_call', 'finalize', 'enter_function', 'exit_function') if isinstance(wr[s], str)]
        m = residual(b.bcs() + rng.bcs() + [bc_text(t, [b.dir])], keep + rest + ['interflop_init', 'interflop_pre_init', b.prefix + 'pre_init'])
        for s in syms:
            f = m.funcs.get('k_' + s)
            if f is None or f.is_decl:
                continue
            rep.count('operations')
            left = [g.name for g in m.funcs.values() if not g.is_decl and not g.name.startswith('k_')]
            for c in {ir.callee(i) for i in f.insts() if i.op == 'call' and ir.callee(i) in left}:
                if c.startswith('get_rand') or c.startswith('_'):
                    rep.unknown('%s/%s/%s' % (key, s, c), 'not inlined')
            effects(rep, m, f, '%s/%s' % (key, s))
    # the runtime's own wrappers
    n = 2
    members = w.opmembers()
    m = w.module(w.table(members, [1] * n), list(w.OPS), consts=w.TABLES)
    for nm in w.OPS:
        f = m.funcs.get(nm)
        if f is None or f.is_decl:
            rep.unknown('runtime/' + nm, 'wrapper not found')
            continue
        rep.count('operations')
        effects(rep, m, f, 'runtime/' + nm)
    rep.floor('operations', 60)
    rep.assumptions += ['the services of the runtime (stream output, logging) are themselves thread safe',
                        'one context is shared by all threads; the result pointer is private to the caller']
