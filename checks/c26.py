"""C26: backend loading is all or nothing."""
import re
from engine import wrapper as w, ir
from engine.build import whatif, BuildError
from engine.errors import logger_exits, paths_avoid
from engine.slice import root
from engine.absint import AbsInt
from engine.terms import Terms, show

TECH = 'static analysis: partial evaluation of the start-up and exit routines under assumed outcomes of each external call; dominance and def-use rules over the residual loading loop'
NOTE = ('Start-up for each presence of the two environment variables, each failing outcome (dlopen, each entry point, list file, empty list, '
        'full table, operation not implemented) and the registration step of the loading loop for every iteration; exit for one to sixteen '
        'backends. The splitting of the list by strtok_r and what dlopen does are library behaviour.')
RULE = ('Under each assumed outcome no later step may remain reachable in the residual program (the error reporter is shown to end the '
        'program); in the loading loop pre_init, cli and init of the library just opened are each called once, in this order, on '
        'contexts[n] with n the number of backends loaded so far, the interface is stored in backends[n] and n advances by one; the exit '
        'routine reduces to one finalize call per backend with its own context.')

NORET = {'logger_error': 'noreturn nounwind'}
KEEP = ['run_init', 'contexts', 'backends', 'loaded_backends', 'KP']
HAR = 'extern char BP[], FP[];\nvoid *KP[] = {BP, FP};\nvoid run_init(void) { vfc_init(); }\n'

def last_write(f, call, p):
    """text last written to the buffer p on every path to the call, or None"""
    m = f.module
    best = None
    for i in f.insts():
        if i.op != 'call' or not i.ops or i.ops[0] != p:
            continue
        c = ir.callee(i) or ''
        if c.startswith('llvm.memcpy') or c in ('strcpy', 'memcpy', 'sprintf', 'stpcpy'):
            if not (f.dominates(i.block, call.block) and (i.block != call.block or i.idx < call.idx)):
                continue
            if best is None or f.dominates(best.block, i.block) and (best.block != i.block or best.idx < i.idx):
                best = i
    return m.string(best.ops[1]) if best is not None else None

def env_name(f, i):
    return f.module.string(i.ops[0]) or last_write(f, i, i.ops[0])

def init_module(defs=()):
    m = w.module(HAR, KEEP, defs=defs, attrs=NORET)
    return prep(m)

def prep(m):
    for f in m.funcs.values():
        f.module = m
        if not f.is_decl:
            for l in f.order:
                for n, i in enumerate(f.blocks[l].insts):
                    i.idx = n
    return m

def assume(m, **k):
    """k: env={name: operand or null}, ret={callee: operand}, load={global: value}"""
    env, ret, load = k.get('env', {}), k.get('ret', {}), k.get('load', {})
    unk = []
    def repl(f, i):
        if i.op == 'call':
            c = ir.callee(i)
            if c == 'getenv' and k.get('env') is not None:
                n = env_name(f, i)
                if n is None:
                    unk.append(i)
                    return None
                return env.get(n, 'null') if n in ('VFC_BACKENDS', 'VFC_BACKENDS_FROM_FILE') else None
            if c in ret:
                return ret[c]
        if i.op == 'load' and i.ops[0] in load:
            v = load[i.ops[0]]
            return ('true' if v else 'false') if i.type == 'i1' else str(v)
        return None
    r = prep(whatif(m, KEEP, repl))
    r.unresolved = unk
    return r

def indirect(f):
    return [i for i in f.insts() if i.op == 'call' and ir.callee(i) is None and not i.extra['callee'].startswith('asm')]

def calls(f, *names):
    return [i for i in f.insts() if i.op == 'call' and ir.callee(i) in names]

def has_ret(f):
    return any(i.op == 'ret' for i in f.insts())

def sources(rep, m0):
    """which list is used"""
    for b in (0, 1):
        for p in (0, 1):
            env = {}
            if b:
                env['VFC_BACKENDS'] = '@BP'
            if p:
                env['VFC_BACKENDS_FROM_FILE'] = '@FP'
            k = 'backend list/%s' % (' and '.join(env) or 'none given')
            rep.count('environment cases')
            m = assume(m0, env=env, load={'@already_initialized': 0})
            if m.unresolved:
                rep.unknown(k, 'the name of an environment variable is not constant')
                continue
            f = m.funcs['run_init']
            toks = [i for i in calls(f, 'strtok_r', '__strtok_r', 'strtok', 'strsep')]
            opens = [i for i in calls(f, 'fopen', 'open', 'fopen64') if i.ops[0] == '@FP']
            dl = calls(f, 'dlopen')
            loc = f.name
            for i in (toks or dl or list(f.insts()))[:1]:
                loc = m.loc(i) or loc
            if b:
                if opens:
                    rep.bad(k, m.loc(opens[0]) or loc, 'the list file is read although VFC_BACKENDS is set')
                elif not dl:
                    rep.bad(k, loc, 'no backend is ever loaded')
                elif any(i.ops[0] == '@BP' for i in toks) or any('@BP' in i.ops for i in calls(f, 'strdup', '__strdup', 'strcpy', 'strncpy')):
                    rep.ok(k)
                else:
                    rep.unknown(k, 'VFC_BACKENDS is not handed to strtok_r')
            elif p:
                if not dl:
                    rep.bad(k, loc, 'no backend is ever loaded')
                elif not opens:
                    rep.bad(k, loc, 'the list file is not opened')
                else:
                    rep.ok(k)
                    k2 = 'backend list/unreadable list file'
                    r = assume(m0, env=env, load={'@already_initialized': 0}, ret={'fopen': 'null', 'fopen64': 'null'}).funcs['run_init']
                    if calls(r, 'dlopen') or has_ret(r):
                        rep.bad(k2, m.loc(opens[0]) or loc, 'start-up goes on when the list file cannot be opened')
                    else:
                        rep.ok(k2)
                    k2 = 'backend list/empty list file'
                    gl = calls(f, 'getline', '__getdelim', 'getdelim')
                    if not gl:
                        rep.unknown(k2, 'the list file is not read with getline')
                    else:
                        r = assume(m0, env=env, load={'@already_initialized': 0}, ret={'getline': '-1', '__getdelim': '-1', 'getdelim': '-1'}).funcs['run_init']
                        if calls(r, 'dlopen') or has_ret(r):
                            rep.bad(k2, m.loc(gl[0]) or loc, 'start-up goes on when the list file cannot be read')
                        else:
                            rep.ok(k2)
            else:
                if dl or has_ret(f):
                    rep.bad(k, loc, 'start-up goes on without a list of backends')
                else:
                    rep.ok(k)

def failures(rep, m0):
    env = {'VFC_BACKENDS': '@BP'}
    base = {'@already_initialized': 0}
    f0 = m0.funcs['run_init']
    k = 'missing library'
    r = assume(m0, env=env, load=base, ret={'dlopen': 'null'}).funcs['run_init']
    d = calls(f0, 'dlopen')
    loc = (f0.module.loc(d[0]) if d else None) or 'vfc_init'
    rep.count('failure cases')
    if not d:
        rep.unknown(k, 'no dlopen')
    elif indirect(r) or calls(r, 'dlsym'):
        rep.bad(k, loc, 'a library that could not be opened is used')
    else:
        rep.ok(k)
    k = 'no backend in the list'
    rep.count('failure cases')
    tok = {'strtok_r': 'null', '__strtok_r': 'null'}
    r = assume(m0, env=env, load=dict(base, **{'@loaded_backends': 0}), ret=tok).funcs['run_init']
    if has_ret(r):
        rep.bad(k, loc, 'start-up succeeds with an empty list of backends')
    else:
        rep.ok(k)
    k = 'more than the maximum number of backends'
    mx = table_size(m0)
    rep.count('failure cases')
    if mx is None:
        rep.unknown(k, 'size of the table of backends')
    else:
        r = assume(m0, env=env, load=dict(base, **{'@loaded_backends': mx})).funcs['run_init']
        used = [i for i in indirect(r) if any('@contexts' in o or '@backends' in o for o in addresses(r, i))]
        if used:
            rep.bad(k, r.module.loc(used[0]) or loc, 'a backend is registered beyond the %d entries of the table' % mx)
        else:
            rep.ok(k)
        k = 'maximum number of backends accepted'
        r = assume(m0, env=env, load=dict(base, **{'@loaded_backends': mx - 1})).funcs['run_init']
        used = [i for i in indirect(r) if any('@contexts' in o or '@backends' in o for o in addresses(r, i))]
        if used:
            rep.ok(k)
        else:
            rep.bad(k, loc, 'the last entry of the table of backends can never be used')
    k = 'second start-up does nothing'
    rep.count('failure cases')
    r = assume(m0, env=env, load={'@already_initialized': 1}).funcs['run_init']
    c = [i for i in r.insts() if i.op in ('call', 'store') and not (ir.callee(i) or '').startswith('llvm.')]
    if not has_ret(r):
        rep.unknown(k, 'no return')
    elif calls(r, 'dlopen') or indirect(r):
        rep.bad(k, r.module.loc(c[0]) or loc, 'the backends are loaded again')
    elif '@already_initialized' not in m0.globals:
        rep.unknown(k, 'guard variable')
    else:
        rep.ok(k)

def addresses(f, i):
    out = []
    for o in i.ops:
        out.append(root(f, o))
        d = f.defs.get(o)
        if d is not None and d.op == 'load':
            out.append(root(f, d.ops[0]))
    return out

def table_size(m):
    g = m.globals.get('@backends')
    mm = re.search(r'\[(\d+) x ', g.text) if g else None
    return int(mm.group(1)) if mm else None

def kind(f, v):
    """n: ('n', k) the loaded-backends counter plus k; ('c', k) constant; None otherwise"""
    off = 0
    while True:
        if re.match(r'-?\d+$', v):
            return ('c', int(v) + off)
        d = f.defs.get(v)
        if d is None:
            return None
        if d.op in ('zext', 'sext', 'trunc', 'freeze'):
            v = d.ops[0]
        elif d.op == 'add' and re.match(r'-?\d+$', d.ops[1]):
            off += int(d.ops[1])
            v = d.ops[0]
        elif d.op == 'load' and d.ops[0] == '@loaded_backends':
            return ('n', off, d)
        else:
            return None

def slot(f, v, table):
    """index of the table element whose address v is: kind, or None"""
    if v == table:
        return ('c', 0)
    mm = re.match(r'getelementptr [^@]*\(.*%s, (?:i64 0, )?i64 (\d+)\)' % re.escape(table), v)
    if mm:
        return ('c', int(mm.group(1)))
    d = f.defs.get(v)
    if d is None or d.op != 'getelementptr' or d.ops[0] != table:
        return None
    idx = d.ops[2] if len(d.ops) > 2 and d.ops[1] == '0' else d.ops[1]
    return kind(f, idx)

def loop(rep, m0):
    env = {'VFC_BACKENDS': '@BP'}
    m = assume(m0, env=env, load={'@already_initialized': 0})
    f = m.funcs['run_init']
    where = lambda i: m.loc(i) or 'vfc_init'
    by = {}
    for i in indirect(f):
        d = f.defs.get(i.extra['callee'])
        n = m.string(d.ops[1]) if d is not None and d.op == 'call' and ir.callee(d) == 'dlsym' else None
        if n is None:
            rep.unknown('registration', 'indirect call %s' % i.text.strip()[:80])
            return
        by.setdefault(n, []).append((i, d))
    dl = calls(f, 'dlopen')
    if len(dl) != 1:
        rep.unknown('registration', '%d dlopen calls' % len(dl))
        return
    dl = dl[0]
    steps = ['interflop_pre_init', 'interflop_cli', 'interflop_init']
    seq = []
    for s in steps:
        k = 'registration/' + s
        rep.count('registration steps')
        c = by.get(s, [])
        if len(c) != 1:
            rep.bad(k, where(c[1][0] if c else dl), 'called %s for each backend' % ('twice' if len(c) > 1 else 'never')) if len(c) != 1 and straight(f, [x for x, _ in c]) \
                else rep.unknown(k, '%d call sites' % len(c))
            return
        i, d = c[0]
        if d.ops[0] != dl.name:
            rep.unknown(k, 'handle %s' % d.ops[0])
            return
        seq.append(i)
        rep.ok(k)
    def before(a, b):
        return f.dominates(a.block, b.block) and (a.block != b.block or a.idx < b.idx)
    for a, b, n in ((seq[0], seq[1], 'interflop_cli before interflop_pre_init'), (seq[1], seq[2], 'interflop_init before interflop_cli')):
        k = 'registration order/' + n
        if before(a, b):
            rep.ok(k)
        elif before(b, a):
            rep.bad(k, where(b), 'calls %s' % n)
        else:
            rep.unknown(k, 'order')
    # services before pre_init
    sh = by.get('interflop_set_handler', [])
    k = 'services handed over before initialisation'
    if sh:
        late = [i for i, _ in sh if before(seq[0], i)]
        rep.check(not late, k, where(late[0]) if late else '', 'a service is handed over after interflop_pre_init')
    else:
        rep.unknown(k, 'no set_handler call')
    # same context
    pre, cli, ini = seq
    stores = [i for i in f.insts() if i.op == 'store' and i.ops[1] == '@loaded_backends']
    def ctx(i, o, addr):
        if addr:
            return slot(f, o, '@contexts')
        d = f.defs.get(o)
        return slot(f, d.ops[0], '@contexts') if d is not None and d.op == 'load' else None
    for i, o, addr, n in ((pre, pre.ops[-1], True, 'interflop_pre_init'), (cli, cli.ops[-1], False, 'interflop_cli'), (ini, ini.ops[-1], False, 'interflop_init')):
        k = 'context of ' + n
        rep.count('registration steps')
        s = ctx(i, o, addr)
        ok = s is not None and s[0] == 'n' and s[1] == 0
        if s is None:
            rep.unknown(k, 'argument %s' % o)
        elif ok and not any(before(x, i) and not before(i, x) and in_iteration(f, x, i, dl) for x in stores):
            rep.ok(k)
        elif ok:
            rep.bad(k, where(i), 'the counter has already advanced')
        else:
            rep.bad(k, where(i), 'gets %s' % ('contexts[%d]' % s[1] if s[0] == 'c' else 'contexts[n%+d]' % s[1]))
    # the interface
    k = 'interface stored for the backend'
    dest = None
    if len(ini.ops) == 2:
        s = slot(f, ini.ops[0], '@backends')
        if s is None:
            cp = [i for i in f.insts() if i.op == 'call' and (ir.callee(i) or '').startswith('llvm.memcpy') and i.ops[1] == ini.ops[0]]
            s = slot(f, cp[0].ops[0], '@backends') if len(cp) == 1 else None
            dest = cp[0] if len(cp) == 1 else None
            if len(cp) == 0:
                rep.bad(k, where(ini), 'the interface returned by interflop_init is dropped')
                s = 0
        if s is None:
            rep.unknown(k, 'destination')
        elif s != 0:
            rep.check(s[0] == 'n' and s[1] == 0, k, where(dest or ini), 'stored in %s' % ('backends[%d]' % s[1] if s[0] == 'c' else 'backends[n%+d]' % s[1]))
    else:
        rep.unknown(k, 'interflop_init does not return through a pointer')
    k = 'counter of loaded backends'
    if len(stores) != 1:
        rep.unknown(k, '%d updates' % len(stores)) if stores else rep.bad(k, where(ini), 'never advances')
    else:
        v = kind(f, stores[0].ops[0])
        st = stores[0]
        if v is None:
            rep.unknown(k, 'set to %s' % st.ops[0])
        elif v[:2] != ('n', 1):
            rep.bad(k, where(st), 'set to %s' % ('%d' % v[1] if v[0] == 'c' else 'n%+d' % v[1]))
        elif any(not before(i, st) for i in seq) and before(st, pre):
            rep.bad(k, where(st), 'advances before the backend is initialised')
        elif not before(ini, st):
            rep.unknown(k, 'position of the update')
        else:
            rep.ok(k)
    # arguments
    k = 'arguments of interflop_cli'
    a = root(f, cli.ops[1])
    nul = [i for i in f.insts() if i.op == 'store' and i.ops[0] == 'null' and root(f, i.ops[1]) == a]
    put = [i for i in f.insts() if i.op == 'store' and i.ops[0] != 'null' and root(f, i.ops[1]) == a]
    if cli.ops[1] == a and f.defs.get(a) is not None and f.defs[a].op == 'alloca':
        n0 = f.defs.get(dl.ops[0])
        first = n0 is not None and n0.op == 'load' and n0.ops[0] == a
        if not put:
            rep.bad(k, where(cli), 'the argument vector is never filled')
        elif not nul:
            rep.bad(k, where(cli), 'the argument vector is not terminated')
        elif len(nul) == 1 and idxof(f, nul[0].ops[1]) == strip(f, cli.ops[0]) and before(nul[0], cli):
            rep.ok(k)
        elif len(nul) == 1 and idxof(f, nul[0].ops[1]) is not None:
            rep.bad(k, where(cli), 'interflop_cli gets %s arguments, the vector has another length' % cli.ops[0])
        else:
            rep.unknown(k, 'terminator')
        k = 'library opened'
        if first:
            rep.ok(k)
        elif n0 is not None and n0.op == 'load' and root(f, n0.ops[0]) == a:
            rep.bad(k, where(dl), 'dlopen gets another element of the argument vector than the first')
        else:
            rep.unknown(k, 'dlopen gets %s' % dl.ops[0])
    else:
        rep.unknown(k, 'argument vector %s' % cli.ops[1])
    # entry points checked
    for n, cs in sorted(by.items()):
        k = 'missing entry point/' + n
        rep.count('failure cases')
        i, d = cs[0]
        st = checked(m, f, d, i)
        if st == 'ok':
            rep.ok(k)
        elif st == 'bad':
            rep.bad(k, where(d), '%s is called without checking that the library defines it' % n)
        else:
            rep.unknown(k, st)

def straight(f, cs):
    """the call sites are not alternatives of each other"""
    return len(cs) == 0 or all(f.dominates(a.block, b.block) or f.dominates(b.block, a.block) for a in cs for b in cs)

def in_iteration(f, x, i, start):
    return f.dominates(start.block, x.block)

def strip(f, v):
    d = f.defs.get(v)
    while d is not None and d.op in ('zext', 'sext', 'trunc', 'freeze'):
        v = d.ops[0]
        d = f.defs.get(v)
    return v

def idxof(f, p):
    d = f.defs.get(p)
    if d is None or d.op != 'getelementptr':
        return None
    return strip(f, d.ops[-1])

def checked(m, f, d, use):
    """assume that the lookup d failed: its use must be unreachable"""
    errs = set()
    for i in f.insts():
        if i.op == 'call' and ir.callee(i) == 'dlerror' and f.dominates(d.block, i.block) and (i.block != d.block or i.idx > d.idx):
            others = [x for x in f.insts() if x.op == 'call' and ir.callee(x) == 'dlsym' and x is not d and
                      f.dominates(d.block, x.block) and (x.block != d.block or x.idx > d.idx) and
                      f.dominates(x.block, i.block) and (x.block != i.block or x.idx < i.idx)]
            if not others and i.name:
                errs.add(i)
    errs = sorted(errs, key=lambda i: (sum(f.dominates(j.block, i.block) and (j.block != i.block or j.idx < i.idx) for j in errs)))[:1]
    for u in f.users(d.name):
        if u.op not in ('call', 'icmp') or u.op == 'call' and d.name in u.ops:
            return 'the entry point is also used by %s' % u.text.strip()[:60]
    def repl(g, i):
        if i in errs:
            return '@BP'
        if i.op == 'icmp' and d.name in i.ops and 'null' in i.ops:
            return 'true' if i.extra['pred'] == 'eq' else 'false'
        return None
    n = m.string(d.ops[1])
    r = prep(whatif(m, KEEP, repl))
    g = r.funcs['run_init']
    for i in indirect(g):
        x = g.defs.get(i.extra['callee'])
        if x is not None and ir.callee(x) == 'dlsym' and r.string(x.ops[1]) == n:
            return 'bad'
    return 'ok'

REQ = {'': [('add', 'float'), ('sub', 'float'), ('mul', 'float'), ('div', 'float'), ('add', 'double'), ('sub', 'double'), ('mul', 'double'), ('div', 'double')],
       'INST_FCMP': [('cmp', 'float'), ('cmp', 'double')], 'INST_FMA': [('fma', 'float'), ('fma', 'double')], 'INST_CAST': [('cast', 'double_to_float')]}

def required(rep):
    """with the table of loaded backends constant, start-up fails exactly when an instrumented operation is implemented by none"""
    mem = w.opmembers()
    allm = list(mem)
    base = {'interflop_%s_%s' % x for x in REQ['']}
    for defs in ((), ('INST_FCMP',), ('INST_FMA',), ('INST_CAST',), ('INST_FCMP', 'INST_FMA', 'INST_CAST')):
        need = {'interflop_%s_%s' % x for d in ('',) + defs for x in REQ[d]}
        for miss in [None] + allm:
            if defs and len(defs) == 1 and miss in base:
                continue
            pats = [[0, 0]] if miss else [[1, 1]]
            if miss in need:
                pats += [[0, 1], [1, 0]]
            for pat in pats:
                masks = {x: [1, 1] for x in allm}
                if miss:
                    masks[miss] = pat
                k = 'operations/%s/%s' % ('+'.join(defs) or 'arithmetic', '%s implemented by %s' % (miss, {(0, 0): 'none', (0, 1): 'the second', (1, 0): 'the first'}.get(tuple(pat))) if miss else 'all implemented')
                rep.count('operation cases')
                from checks.c05 import tables
                h = tables(masks, 2) + HAR
                h += 'char *my_getenv(const char *n) { return BP; }\nchar *my_strtok_r(char *s, const char *d, char **p) { return (char *)0; }\n'
                try:
                    m = prep(w.module(h, ['run_init'], defs=defs + ('getenv=my_getenv', 'strtok_r=my_strtok_r'), attrs=NORET, consts=w.TABLES))
                except BuildError as e:
                    rep.unknown(k, str(e)[-200:])
                    continue
                m = prep(whatif(m, ['run_init'], lambda f, i: ('false' if i.type == 'i1' else '0') if i.op == 'load' and i.ops[0] == '@already_initialized' else None))
                f = m.funcs['run_init']
                errs = calls(f, 'logger_error')
                und = [i for i in errs if not (m.string(i.ops[0]) or '')]
                done = has_ret(f)
                want = miss in need and pat == [0, 0]
                loc = (m.loc(errs[0]) if errs else None) or 'vfc_init'
                if done and not errs:
                    rep.check(not want, k, loc, 'start-up succeeds although no backend implements %s' % miss)
                elif not done and errs:
                    rep.check(want, k, loc, 'start-up is refused although every instrumented operation is implemented')
                else:
                    rep.unknown(k, 'outcome depends on something else')

def final(rep, tier):
    ns = (1, 2, 3, 16) if tier == 'quick' else range(1, 17)
    for n in ns:
        pats = [[1] * n]
        if n > 1:
            pats += [[int(i != j) for i in range(n)] for j in (range(n) if n < 4 or tier != 'quick' else (0, n - 1))]
        for pat in pats:
            for defs in ((), ('DDEBUG',), ('INST_FUNC',)) if n == 2 else ((),):
                k = 'finalisation/%d backends, %s%s' % (n, 'pattern ' + ''.join(map(str, pat)), ' ' + defs[0] if defs else '')
                rep.count('finalisation cases')
                h = w.table({'interflop_finalize': lambda nm: 'extern void %s(void *);\n' % nm}, pat) + 'void run_exit(void) { vfc_atexit(); }\n'
                m = w.module(h, ['run_exit'], defs=defs, consts=w.TABLES)
                f = m.funcs['run_exit']
                cs = [i for i in f.insts() if i.op == 'call' and (ir.callee(i) or '').startswith('interflop_finalize_')]
                got = [(ir.callee(i).rsplit('_', 1)[1], i.ops[0]) for i in cs]
                want = [(str(i), '@K%d' % i) for i in range(n) if pat[i]]
                loc = (m.loc(cs[0]) if cs else None) or 'vfc_atexit'
                if any(ir.callee(i) is None for i in f.insts() if i.op == 'call') and got != want:
                    rep.unknown(k, 'indirect call left')
                elif not has_ret(f):
                    rep.bad(k, loc, 'a finalisation entry point that a backend does not provide is called')
                elif sorted(got) == sorted(want) and paths_all(f, cs):
                    rep.ok(k)
                elif sorted(got) == sorted(want):
                    rep.unknown(k, 'conditional finalisation')
                else:
                    rep.bad(k, loc, 'finalises %s, loaded are %s' % (got, want))

def paths_all(f, cs):
    return all(paths_avoid(f, lambda i, c=c: i is c) is None for c in cs)

def shared(rep):
    """finalising one instance of a backend leaves nothing dangling for another instance of the same library"""
    from engine import backends as bk
    from engine.build import residual
    for b in bk.B.values():
        finalize_one(rep, b)

def finalize_one(rep, b):
    from engine import backends as bk
    from engine.build import residual
    k = 'finalisation of %s leaves no dangling shared state' % b.key
    fn = b.prefix + 'finalize'
    srcs = [x for x in b.srcs]
    import os
    from engine.build import bc
    fi = os.path.join(b.dir, 'interflop_vprec_function_instrumentation.c')
    if os.path.exists(fi):
        srcs.append(fi)
    m = residual([bc(x) for x in srcs], [fn])
    f = m.funcs.get(fn)
    if f is None or f.is_decl:
        rep.ok(k)
        return
    rep.count('finalisation functions')
    for i in f.insts():
        if i.op != 'call':
            continue
        c = ir.callee(i)
        if c is None:
            d = f.defs.get(i.extra['callee'])
            c = d.ops[0][1:] if d is not None and d.op == 'load' and d.ops[0].startswith('@') else None
        if c not in ('interflop_free', 'interflop_fclose', 'free', 'fclose') or not i.ops:
            continue
        d = f.defs.get(i.ops[0])
        if d is None or d.op != 'load' or not root(f, d.ops[0]).startswith('@'):
            continue
        st = [s for s in f.insts() if s.op == 'store' and s.ops[1] == d.ops[0]]
        if not st:
            rep.bad(k, m.loc(i) or fn, 'releases what %s refers to and leaves the reference: a second instance of the backend releases it again' % root(f, d.ops[0]))
            return
    rep.ok(k)

def run(rep, tier):
    rep.rule = RULE
    logger_exits(rep)
    m0 = init_module()
    sources(rep, m0)
    failures(rep, m0)
    loop(rep, m0)
    required(rep)
    final(rep, tier)
    shared(rep)
    rep.floor('environment cases', 4)
    rep.floor('failure cases', 6)
    rep.floor('operation cases', 60)
    rep.floor('finalisation cases', 8)
    rep.assumptions += ['the exit service ends the program', 'strtok_r splits its argument at the separators it is given']
