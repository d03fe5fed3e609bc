"""C27: every runtime service a backend calls has been provided."""
import os, re
from checks import c26
from engine import ir, backends as bk
from engine.constprop import stores, Stuck
from engine.build import SRC, STD, bc, bc_text, residual, BuildError

TECH = ('static analysis: call inventory over the linked IR of each backend with the support libraries (indirect calls through service pointers and direct '
        'library calls), matched with the hand-over calls that dominate initialisation in the residual start-up routine and with the partially evaluated '
        'registration function')
NOTE = ('all code reachable from the entry points of each backend and of the start-up routine; which option or operation reaches a call does not matter. '
        'The behaviour of the library functions handed over is trusted.')
RULE = ('Each pointer interflop_X called in code reachable from a backend must be set before interflop_pre_init is called: the start-up routine must hand over "X" '
        'on every path to that call, registering "X" must store the pointer in interflop_X and nowhere else, and the function given must be the library '
        'function X or an adapter defined in the wrapper. Backend code must not call C library functions directly.')

STDBITS = ['interflop_stdlib.c', 'iostream/logger.c', 'hashmap/vfc_hashmap.c', 'rng/vfc_rng.c', 'rng/splitmix64.c', 'rng/xoroshiro128.c', 'fma/interflop_fma.c']
ENTRY = ['interflop_pre_init', 'interflop_cli', 'interflop_init', 'interflop_configure', 'interflop_finalize', 'interflop_set_handler']
ADAPT = {'strtol', 'strtod'}         # these do not follow the C library interface: an adapter is required
ALIAS = {'gettid': {'gettid', 'get_tid', 'syscall'}}
LIBC = set('''abort access aligned_alloc argp_parse asprintf atof atoi atol calloc close dlopen dlsym err errx execv exit _exit fclose fdopen fflush fgetc fgets fopen fprintf fputc
fputs fread free freopen fscanf fseek ftell fwrite getchar getenv getline getpid gettid gettimeofday gmtime localtime malloc mmap open perror pipe printf pthread_create
pthread_mutex_lock putchar puts qsort rand random read readlink realloc register_printf_specifier remove rename scanf setenv signal sleep snprintf sprintf srand srandom sscanf
stat strcasecmp strcat strchr strcmp strcpy strdup strerror strncasecmp strncat strncmp strncpy strrchr strspn strstr strtod strtof strtok strtok_r strtol strtold strtoll
strtoul strtoull syscall system time unlink usleep vfprintf vprintf vsnprintf vsprintf vwarnx vwarn warn warnx write __errno_location __isoc99_sscanf __isoc23_strtol'''.split())

def std():
    return [os.path.join(STD, s) for s in STDBITS if os.path.exists(os.path.join(STD, s))]

def handed(rep):
    """services handed over on every path to interflop_pre_init: name -> function operand"""
    m0 = c26.init_module()
    m = c26.assume(m0, env={'VFC_BACKENDS': '@BP'}, load={'@already_initialized': 0})
    f = m.funcs['run_init']
    by = {}
    for i in c26.indirect(f):
        d = f.defs.get(i.extra['callee'])
        n = m.string(d.ops[1]) if d is not None and d.op == 'call' and ir.callee(d) == 'dlsym' else None
        if n is None: return None, None, None
        by.setdefault(n, []).append(i)
    pre = by.get('interflop_pre_init', [])
    if len(pre) != 1: return None, None, None
    pre = pre[0]
    out, late = {}, {}
    for i in by.get('interflop_set_handler', []):
        n = m.string(i.ops[0])
        if n is None: return None, None, None
        if f.dominates(i.block, pre.block) and (i.block != pre.block or i.idx < pre.idx): out.setdefault(n, []).append((i.ops[1], m.loc(i)))
        else: late[n] = m.loc(i)
    # services of the wrapper itself: direct calls before the logger starts
    own = {}
    lg = c26.calls(f, 'logger_init')
    for i in c26.calls(f, 'interflop_set_handler'):
        n = m.string(i.ops[0])
        if n is None or not lg: continue
        if f.dominates(i.block, lg[0].block) and (i.block != lg[0].block or i.idx < lg[0].idx): own.setdefault(n, []).append((i.ops[1], m.loc(i)))
    return out, late, own

def used(m, decls):
    """service pointers called: name -> location; direct calls of declared functions"""
    svc, ext = {}, {}
    for fn in m.funcs.values():
        if fn.is_decl: continue
        for i in fn.insts():
            if i.op != 'call': continue
            c = ir.callee(i)
            if c is None:
                todo, seen = [i.extra['callee']], set()
                while todo:
                    v = todo.pop()
                    if v in seen: continue
                    seen.add(v)
                    d = fn.defs.get(v)
                    if d is None: continue
                    if d.op == 'load' and d.ops[0].startswith('@interflop_'): svc.setdefault(d.ops[0][11:], (fn.name, m.loc(i) or fn.name))
                    elif d.op in ('phi', 'select'): todo += [o for o in d.ops if isinstance(o, str)]
            elif c in m.funcs and m.funcs[c].is_decl or c not in m.funcs:
                if not c.startswith('llvm.'): ext.setdefault(c, (fn.name, m.loc(i) or fn.name))
    return svc, ext

why = {}
def registration(rep, names):
    """name -> set of globals the registration writes the pointer to"""
    t = 'void interflop_set_handler(const char *, void *);\n' + ''.join('void h_%d(void *p) { interflop_set_handler("%s", p); }\n' % (k, n) for k, n in enumerate(names))
    src = os.path.join(STD, 'interflop_stdlib.c')
    glob = re.findall(r'^\s*interflop_\w+_t\s+(interflop_\w+)', open(src).read(), re.M)
    m = residual([bc(src), bc_text(t)], ['h_%d' % k for k in range(len(names))] + glob)
    out = {}
    why.clear()
    for k, n in enumerate(names):
        f = m.funcs['h_%d' % k]
        try: out[n] = stores(m, f)
        except Stuck as e: out[n] = None; why[n] = str(e)
    return out

def run(rep, tier):
    rep.rule = RULE
    got, late, own = handed(rep)
    if got is None:
        rep.unknown('hand-over', 'the start-up routine is not in the expected form')
        return
    where = 'src/vfcwrapper/main.c.in'
    names = sorted(set(got) | set(own))
    try: reg = registration(rep, names)
    except BuildError as e:
        rep.unknown('registration', str(e)[:200]); reg = {}
    arg = lambda st: st
    for n in names:
        r = reg.get(n)
        key = 'registration of ' + n
        rep.count('services registered')
        if r is None: rep.unknown(key, why.get(n, 'not reduced')); continue
        ok = len(r) == 1 and r[0] == (('p', '@interflop_' + n, 0), ('s', '%p'))
        rep.check(ok, key, 'src/interflop-stdlib/interflop_stdlib.c (interflop_set_handler)',
                  'registering "%s" writes %s' % (n, ', '.join(x[0][1] for x in r) or 'nothing'))
    for which, tab in (('backend', got), ('wrapper', own)):
        for n, vs in tab.items():
            for v, loc in vs:
                key = 'function handed to the %s as %s' % (which, n)
                rep.count('functions handed over')
                if not v.startswith('@'):
                    if v in ('null', 'zeroinitializer'): rep.bad(key, loc or where, 'a null pointer is handed over')
                    else: rep.unknown(key, v)
                    continue
                f = v[1:].strip('"')
                base = re.sub(r'^(__isoc\d+_|__)', '', f)
                if f in LIBC or base in LIBC:
                    good = (f == n or base == n or f in ALIAS.get(n, ())) and n not in ADAPT
                    rep.check(good, key, loc or where, 'the library function %s is handed over as %s' % (f, n))
                else: rep.ok(key)                       # an adapter of the wrapper
    stdb = None
    for b in bk.B.values():
        for tls in ((), ) + ((('-DNO_TLS=1',),) if tier == 'thorough' else ()):
            try:
                m = residual([bc(s, tuple(tls)) for s in b.allsrcs()] + [bc(s) for s in std()], ENTRY)
            except BuildError as e:
                rep.unknown(b.key, str(e)[:200]); continue
            svc, ext = used(m, None)
            for n, (fn, loc) in sorted(svc.items()):
                key = '%s calls %s' % (b.key, n)
                rep.count('services called')
                if n == 'panic':
                    rep.ok(key); continue               # handed over by interflop_pre_init itself
                if n in got: rep.ok(key)
                elif n in late: rep.bad(key, loc, 'the service %s is handed over only after initialisation has begun (%s)' % (n, late[n]))
                else: rep.bad(key, loc, '%s reaches the service %s, which the runtime never hands over' % (fn, n))
            for n, (fn, loc) in sorted(ext.items()):
                rep.count('external calls')
                key = '%s direct call of %s' % (b.key, n)
                if n in LIBC: rep.bad(key, loc, '%s calls the C library function %s directly' % (fn, n))
                else: rep.ok(key)
    # panic: interflop_pre_init must install it
    for b in bk.B.values():
        try: m = residual(b.bcs(), ENTRY, opaque=('logger_init',))
        except BuildError: continue
        f = m.funcs.get('interflop_pre_init')
        if f is None: continue
        c26.prep(m)
        inst = [i for i in c26.calls(f, 'interflop_set_handler') if (m.string(i.ops[0]) == 'panic')] + c26.calls(f, 'logger_init')
        use = [i for i in f.insts() if i.op == 'call' and ir.callee(i) is None and f.defs.get(i.extra['callee']) is not None and f.defs[i.extra['callee']].op == 'load' and f.defs[i.extra['callee']].ops[0] == '@interflop_panic']
        key = b.key + ' installs panic'
        if not inst: rep.bad(key, 'interflop_pre_init of ' + b.key, 'the panic service is never installed'); continue
        early = [u for u in use if not any(f.dominates(i.block, u.block) and (i.block != u.block or i.idx < u.idx) for i in inst)]
        # a missing service would be reported through panic: it must be there first
        if early: rep.bad(key, m.loc(early[0]) or b.key, 'interflop_pre_init can call panic before installing it')
        else: rep.ok(key)
    # the wrapper's own use of the support libraries
    try:
        m = residual([bc(s) for s in std()], ['logger_init', 'logger_error', 'logger_info', 'logger_warning', 'logger_debug', 'vfc_hashmap_create', 'vfc_hashmap_insert', 'vfc_hashmap_get',
                                              'vfc_hashmap_have', 'vfc_hashmap_destroy', 'vfc_hashmap_free', 'vfc_hashmap_remove', 'vfc_hashmap_size', 'vfc_hashmap_str_function'])
        svc, ext = used(m, None)
        for n, (fn, loc) in svc.items():
            if n == 'panic': continue
            rep.count('services called')
            rep.check(n in own, 'wrapper libraries call ' + n, loc, '%s reaches the service %s, which the runtime never sets for itself' % (fn, n))
    except BuildError as e:
        rep.unknown('wrapper libraries', str(e)[:200])
    rep.floor('services called', 40); rep.floor('services registered', 20)
