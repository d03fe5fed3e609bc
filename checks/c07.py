"""C07: a chosen seed makes runs reproducible."""
import re, os
from engine import backends as bk, ir, rng
from engine.build import residual, bc_text, STD
from engine.slice import backward, root

TECH = 'static analysis: information-flow (source-to-seed dataflow) on the generator and every noisy operation specialised to a fresh thread'
NOTE = ('The three draw functions of the generator and every operation of the four randomised backends in every noise mode, specialised to a '
        'thread that has not drawn yet, with and without a chosen seed, and to a thread that has. Statistical quality is not addressed.')
RULE = ('Specialised to a chosen seed, no ambient source (clock, process or thread identifier, environment, hardware counter, object address) may '
        'remain reachable in the seeding or the draw, and the value given to the seeding function must be an invertible function of the full 64-bit '
        'seed, combined with the number obtained by one atomic increment of a process-wide counter. Specialised to no seed, an ambient source must be '
        'read. In a thread that has drawn, further draws neither reseed nor take a new number, and they advance the state.')

AMB_G = re.compile(r'@interflop_(gettimeofday|gettid|getpid|time|clock_gettime|rdtsc|getenv|getrandom)\b')
AMB_C = set('''gettimeofday gettid getpid time clock clock_gettime getrandom getentropy pthread_self rdtsc syscall getenv getppid rand random
drand48 lrand48 arc4random times getrusage llvm.readcyclecounter llvm.x86.rdtsc llvm.x86.rdtscp llvm.x86.rdrand.64 llvm.x86.rdseed.64'''.split())
ATTR = {'next_seed': 'memory(none) nounwind willreturn',
        r'logger_(?:info|warning|debug)': 'nounwind willreturn memory(inaccessiblemem: readwrite)',
        'logger_error': 'noreturn nounwind memory(inaccessiblemem: readwrite)',
        r'interflop_fma_binary\d+': 'memory(none) nounwind willreturn'}
DRAWS = {'get_rand_uint32': 'uint32_t', 'get_rand_uint64': 'uint64_t', 'get_rand_double01': 'double'}
RAND = ('mcaquad', 'mcaint', 'bitmask', 'cancellation')

def ambient(f):
    out = []
    for i in f.insts():
        if i.op != 'call':
            continue
        c = ir.callee(i)
        if c is None:
            d = f.defs.get(i.extra['callee'])
            g = d is not None and d.op == 'load' and AMB_G.search(d.ops[0])
            if g:
                out.append((i, g.group(1)))
            elif ' asm ' in i.text and re.search(r'rdtsc|rdrand|rdseed|syscall', i.text):
                out.append((i, 'an inline instruction'))
        elif c in AMB_C:
            out.append((i, c))
    return out

def guarded_by_state(m, f, i):
    """the call depends on a test of the (not folded) generator state"""
    for j in backward(f, [i], mem=False):
        if j.op == 'load' and m.addr(f, j.ops[0])[0] in STATE(m):
            return True
    return False

def STATE(m):
    return {g for g in re.findall(r'^(@[\w.]*)\s*=', m.text, re.M) if 'rng' in g or 'state' in g}

INV = ('xor', 'add', 'sub')
class Lin:
    """is v = seed combined by invertible operations with other values?  ('inv', note) / ('lossy', inst) / ('none', None) / ('?', inst)"""
    def __init__(self, f, isseed):
        self.f, self.isseed = f, isseed
        self.other, self.memo = [], {}
    def get(self, v):
        if v in self.memo:
            return self.memo[v]
        self.memo[v] = ('none', None)
        self.memo[v] = r = self._get(v)
        return r
    def _get(self, v):
        f = self.f
        if self.isseed(v):
            return 'inv', None
        d = f.defs.get(v)
        if d is None:
            return 'none', None
        if d.op == 'load' or d.op == 'atomicrmw' or d.op == 'call':
            if d.op == 'call':
                rs = [self.get(o) for o in d.ops]
                if any(r[0] != 'none' for r in rs):
                    return '?', d
            self.other.append(d)
            return 'none', None
        if d.op == 'phi':
            rs = [self.get(x) for x, _ in d.extra['inc']]
            for k in ('lossy', '?'):
                for r in rs:
                    if r[0] == k:
                        return r
            return ('inv', None) if all(r[0] == 'inv' for r in rs) else ('?', d) if any(r[0] == 'inv' for r in rs) else ('none', None)
        rs = [self.get(o) for o in d.ops]
        dep = [r for r in rs if r[0] != 'none']
        if not dep:
            return 'none', None
        for r in dep:
            if r[0] in ('lossy', '?'):
                return r
        if d.op in INV:
            return ('inv', None) if len(dep) == 1 else ('?', d)
        if d.op in ('bitcast', 'freeze'):
            return 'inv', None
        if d.op in ('trunc', 'and', 'or', 'lshr', 'ashr', 'shl', 'udiv', 'urem', 'sdiv', 'srem', 'fptoui', 'fptosi', 'uitofp', 'sitofp'):
            if d.op == 'trunc' and len(dep) == 1:
                return 'lossy', d
            if len([o for o in d.ops if not self.const(o)]) == 1:
                return 'lossy', d
        if d.op in ('zext', 'sext'):
            return dep[0]
        return '?', d
    def const(self, o):
        return not o.startswith('%')

def seed_obl(rep, m, f, key, isseed, loc0, tid_needed=True):
    seeds = [i for i in f.insts() if i.op == 'call' and ir.callee(i) == 'next_seed']
    if not seeds:
        rep.unknown(key + '/seeding', 'no call of the seeding function left')
        return
    for s in seeds:
        L = Lin(f, isseed)
        r = L.get(s.ops[0])
        loc = m.loc(s) or loc0
        rep.count('seedings')
        k = key + '/seed value'
        if r[0] == 'inv':
            rep.ok(k)
        elif r[0] == 'lossy':
            rep.bad(k, m.loc(r[1]) or loc, 'part of the chosen seed is lost before it reaches the generator (%s)' % r[1].op)
        elif r[0] == 'none':
            rep.bad(k, loc, 'the generator is not seeded from the chosen seed')
        else:
            rep.unknown(k, 'seed expression not understood')
        if r[0] != 'inv':
            continue
        k = key + '/thread number'
        rm = [d for d in L.other if d.op == 'atomicrmw']
        if rm:
            g = m.addr(f, rm[0].ops[0])[0] or ''
            glob = g.startswith('@') and not re.search(r'^%s = [^\n]*thread_local' % re.escape(g), m.text, re.M)
            if glob or g in f.argnames():
                rep.ok(k)
            else:
                rep.unknown(k, 'counter not identified')
        elif tid_needed and not L.other:
            rep.bad(k, loc, 'the seed of a thread does not depend on the order in which threads first draw: every thread would draw the same stream')
        else:
            rep.unknown(k, 'thread number not identified')
        for d in L.other:
            if d.op == 'load' and d.type == 'i32' and (m.addr(f, d.ops[0])[0] or '').startswith('@'):
                rep.unknown(key + '/thread number read', 'plain load of a shared counter')
    for i in backward(f, seeds, mem=False):
        if i.op == 'ptrtoint':
            rep.bad(key + '/address', m.loc(i) or loc0, 'an object address enters the seed: it changes between runs')

def no_ambient(rep, m, f, key, loc0):
    k = key + '/no ambient source'
    am = ambient(f)
    if not am:
        rep.ok(k)
        return
    i, what = am[0]
    if guarded_by_state(m, f, i):
        rep.unknown(k, 'an ambient source is read under a test of the generator state that did not fold')
    else:
        rep.bad(k, m.loc(i) or loc0, 'with a chosen seed the generator reads an ambient source (%s)' % what)

def generator(rep):
    src = os.path.join(STD, 'rng', 'vfc_rng.c')
    t = '#include <stdbool.h>\n#include <stdint.h>\n#include "%s/rng/vfc_rng.h"\n' % STD
    t += 'pid_t TID;\n'
    keep = []
    for d, ty in DRAWS.items():
        for ch in (0, 1):
            t += '%s h_%s_%d(uint64_t seed) { rng_state_t s = {0}; _init_rng_state_struct(&s, %d, seed, false); return %s(&s, &TID); }\n' % (ty, d, ch, ch, d)
            keep.append('h_%s_%d' % (d, ch))
            # the second draw of a thread
            t += ('%s h_%s_2_%d(rng_state_t *p, uint64_t seed) { rng_state_t s = *p; s.random_state_valid = true; s.choose_seed = %d; '
                  '_init_rng_state_struct(&s, %d, seed, false); %s r = %s(&s, &TID); *p = s; return r; }\n' % (ty, d, ch, ch, ch, ty, d))
            keep.append('h_%s_2_%d' % (d, ch))
            t += ('int h_%s_v_%d(uint64_t seed) { rng_state_t s = {0}; _init_rng_state_struct(&s, %d, seed, false); %s(&s, &TID); '
                  'return s.random_state_valid; }\n' % (d, ch, ch, d))
            keep.append('h_%s_v_%d' % (d, ch))
            # what the state becomes must be a function of what it was
            t += ('int h_%s_s_%d(rng_state_t *p, uint64_t seed, int k) { rng_state_t s = *p; s.random_state_valid = true; '
                  '_init_rng_state_struct(&s, %d, seed, false); return s.random_state_valid && s.random_state[0] == p->random_state[0] && '
                  's.random_state[1] == p->random_state[1]; }\n' % (d, ch, ch))
            keep.append('h_%s_s_%d' % (d, ch))
    m = residual(rng.bcs() + [bc_text(t)], keep, opaque=('next_seed',), extmem=None, attrs=ATTR)
    n = residual([bc_text(t.split('pid_t TID')[0] + 'int o(void) { return __builtin_offsetof(rng_state_t, random_state); }\n')], ['o'])
    off = int([i for i in n.funcs['o'].insts() if i.op == 'ret'][0].ops[0])
    for d in DRAWS:
        f = m.funcs['h_%s_1' % d]
        rep.count('generator specialisations', 6)
        k = 'generator/%s, seed chosen' % d
        no_ambient(rep, m, f, k, src)
        seed_obl(rep, m, f, k, lambda v: v == '%seed', src)
        if not any(i.op == 'call' and ir.callee(i) == 'next_seed' for i in f.insts()) and not ambient(f):
            if not [i for i in f.insts() if i.op == 'call' and not (ir.callee(i) or '').startswith('llvm.')] and \
                    not any('%seed' in i.ops for i in f.insts()):
                rep.bad(k + '/seeding', src, 'the first draw of a thread does not use the chosen seed')
        f = m.funcs['h_%s_0' % d]
        k = 'generator/%s, no seed' % d
        others = [i for i in f.insts() if i.op == 'call' and ir.callee(i) is None]
        if ambient(f):
            rep.ok(k)
        elif others or any(i.op == 'call' and ir.callee(i) not in (None, 'next_seed') and not ir.callee(i).startswith('llvm.') for i in f.insts()):
            rep.unknown(k, 'entropy source not identified')
        else:
            rep.bad(k, src, 'without a chosen seed the generator is not seeded from an ambient source: runs do not differ')
        # no use of the chosen value when there is none
        for ch in (0, 1):
            f = m.funcs['h_%s_2_%d' % (d, ch)]
            k = 'generator/%s, second draw, choose_seed=%d' % (d, ch)
            re_ = [i for i in f.insts() if i.op == 'atomicrmw' or i.op == 'call' and ir.callee(i) == 'next_seed'] + [i for i, _ in ambient(f)]
            if re_:
                rep.bad(k, m.loc(re_[0]) or src, 'a thread that has already drawn is seeded again')
            else:
                rep.ok(k)
            st = [i for i in f.insts() if i.op == 'store']
            hit = [i for i in st if m.addr(f, i.ops[1])[0] == '%p' and (m.addr(f, i.ops[1])[1] or 0) >= off]
            if hit:
                rep.ok(k + '/state advances')
            elif all(m.addr(f, i.ops[1])[0] == '%p' for i in st) and not any(i.op == 'call' and not (ir.callee(i) or '').startswith('llvm.') for i in f.insts()):
                rep.bad(k + '/state advances', src, 'a draw leaves the generator state unchanged: every draw of a thread is the same')
            else:
                rep.unknown(k + '/state advances', 'state update not identified')
            f = m.funcs['h_%s_v_%d' % (d, ch)]
            r = [i for i in f.insts() if i.op == 'ret']
            k = 'generator/%s, seeded state kept, choose_seed=%d' % (d, ch)
            if r and all(x.ops[0] == '1' for x in r):
                rep.ok(k)
            elif r and all(x.ops[0] == '0' for x in r):
                rep.bad(k, src, 'the state is not marked as seeded after the first draw: every draw seeds it again')
            else:
                rep.unknown(k, 'does not fold')
            f = m.funcs['h_%s_s_%d' % (d, ch)]
            r = [i for i in f.insts() if i.op == 'ret']
            k = 'generator/%s, initialisation keeps a seeded state, choose_seed=%d' % (d, ch)
            if r and all(x.ops[0] == '1' for x in r):
                rep.ok(k)
            elif r and all(x.ops[0] == '0' for x in r):
                rep.bad(k, src, 'preparing the generator resets a state that has been seeded')
            else:
                rep.unknown(k, 'does not fold')

def state_of(m, f, p):
    r = m.addr(f, p)[0] or ''
    d = f.defs.get(r)
    if d is not None and d.op == 'call':
        g = re.search(r'@llvm\.threadlocal\.address\.p0\(ptr [^@]*(@[\w.]+)\)', d.text)
        if g:
            return g.group(1)
    return r

def touches(m, f, i, S):
    if i.op == 'store':
        return state_of(m, f, i.ops[1]) == S
    if i.op == 'call' and not (ir.callee(i) or '').startswith(('get_rand', 'llvm.threadlocal', 'llvm.lifetime')):
        return any(o.startswith(('%', '@')) and state_of(m, f, o) == S for o in i.ops)
    return False

def uninit_path(m, f, draw, S):
    """a path from the entry to the draw on which nothing prepares the state; (path, decided by a test of the state)"""
    st, seen = [(f.order[0], False)], set()
    best = None
    while st:
        l, t = st.pop()
        if (l, t) in seen:
            continue
        seen.add((l, t))
        stop = False
        for i in f.blocks[l].insts:
            if i is draw:
                if best is None or best:
                    best = t
                stop = True
                break
            if touches(m, f, i, S):
                stop = True
                break
        if stop:
            continue
        b = f.blocks[l]
        br = b.insts[-1]
        t2 = t
        if len(b.succs) > 1:
            t2 = t or any(j.op == 'load' and state_of(m, f, j.ops[0]) == S for j in backward(f, [br], mem=False, blocks=False) | {br} if j.op == 'load')
        for x in b.succs:
            st.append((x, t2))
    return best

def alive(b):
    """the entry points that change settings kept in the backend's statics"""
    return ['interflop_init', b.prefix + 'configure', b.prefix + 'init', b.prefix + 'user_call']

def prepared(rep, tier):
    """every draw of every operation is preceded by the preparation of the generator with the configured seed"""
    for key in RAND:
        b = bk.B[key]
        wr, _ = bk.wiring(b)
        lay = bk.layout(b, ('seed', 'choose_seed'))
        modes = [(mo, {'mode': b.modes[mo]}) for mo in b.modes if mo != 'ieee'] or [('any', {})]
        slots = [s for s in bk.SLOTS if isinstance(wr[s], str)]
        t, hs = bk.prelude(b), []
        for s in slots:
            for mo, sets in modes:
                h = 'h_%s_%s' % (s, mo)
                t += bk.op_harness(b, wr[s], s, h, sets)
                hs.append((h, s))
        m = residual(b.bcs() + [bc_text(t, [b.dir])], [h for h, _ in hs] + alive(b))
        for h, s in hs:
            f = m.funcs[h]
            k0 = '%s/%s' % (key, h[2:])
            rep.count('operations')
            no_ambient_any(rep, m, f, k0, b.srcs[0])
            for dr in [i for i in f.insts() if i.op == 'call' and (ir.callee(i) or '') in DRAWS]:
                S = state_of(m, f, dr.ops[0])
                loc = m.loc(dr) or b.srcs[0]
                rep.count('draws')
                k = '%s/draw at %s' % (k0, dr.name)
                if not S.startswith('@'):
                    rep.unknown(k, 'generator state not identified')
                    continue
                u = uninit_path(m, f, dr, S)
                if u is None:
                    rep.ok(k)
                elif u:
                    rep.unknown(k, 'the preparation depends on a test of the state')
                else:
                    rep.bad(k, loc, 'a thread whose first draw is this one ignores the chosen seed: nothing prepares its generator before')
                tid = m.addr(f, dr.ops[1])[0] if len(dr.ops) > 1 else ''
                glob = re.search(r'^%s = ([^\n]*)' % re.escape(tid), m.text, re.M) if tid and tid.startswith('@') else None
                if glob and 'thread_local' not in glob.group(1):
                    rep.ok(k + '/counter')
                elif glob or (tid in f.defs and f.defs[tid].op in ('alloca', 'call')):
                    rep.bad(k + '/counter', loc, 'the counter that orders threads is private to the thread: every thread gets the same stream')
                else:
                    rep.unknown(k + '/counter', 'thread counter not identified')
            for c in [i for i in f.insts() if i.op == 'call' and ir.callee(i) == '_init_rng_state_struct']:
                loc = m.loc(c) or b.srcs[0]
                rep.count('preparations')
                for j, fld in ((1, 'choose_seed'), (2, 'seed')):
                    k = '%s/%s at %s' % (k0, fld, c.ops[0])
                    off = lay.get(fld)
                    o = c.ops[j]
                    isf = lambda v: v in f.defs and f.defs[v].op == 'load' and m.addr(f, f.defs[v].ops[0]) == ('%ctx0', off) and \
                        (f.defs[v].type == 'i64' or fld != 'seed')
                    if not o.startswith('%'):
                        rep.bad(k, loc, 'the generator is prepared with the constant %s instead of the configured %s' % (o, fld))
                        continue
                    cone = ir.cone(f, o)[0]
                    lds = [d for d in cone if d.op == 'load']
                    if fld == 'choose_seed':
                        if any(isf(d.name) for d in lds) and all(isf(d.name) for d in lds):
                            rep.ok(k)
                        elif lds and not any(isf(d.name) for d in lds) and all((m.addr(f, d.ops[0])[0]) == '%ctx0' for d in lds):
                            rep.bad(k, loc, 'whether a seed was chosen is read from another setting')
                        else:
                            rep.unknown(k, 'expression not understood')
                        continue
                    L = Lin(f, isf)
                    r = L.get(o)
                    if r[0] == 'inv' and not L.other:
                        rep.ok(k)
                    elif r[0] == 'lossy':
                        rep.bad(k, loc, 'part of the chosen seed is lost before it reaches the generator (%s)' % r[1].op)
                    elif r[0] == 'none':
                        part = [d for d in lds if m.addr(f, d.ops[0])[0] == '%ctx0' and d.type != 'i64' and off <= (m.addr(f, d.ops[0])[1] or 0) < off + 8]
                        if part:
                            rep.bad(k, loc, 'only part of the chosen seed is read')
                        elif lds and all(m.addr(f, d.ops[0])[0] == '%ctx0' for d in lds):
                            rep.bad(k, loc, 'the generator is seeded from another setting than the seed')
                        else:
                            rep.unknown(k, 'expression not understood')
                    else:
                        rep.unknown(k, 'expression not understood')
    rep.floor('draws', 100)
    rep.floor('preparations', 60)

def no_ambient_any(rep, m, f, key, loc0):
    k = key + '/no ambient source outside the generator'
    am = ambient(f)
    if am:
        # which settings can it depend on?  unguarded by the seed choice: definite
        i, what = am[0]
        dep = backward(f, [i], mem=False)
        if any(j.op == 'load' and m.addr(f, j.ops[0])[0] == '%ctx0' for j in dep):
            rep.unknown(k, 'reads %s depending on the configuration' % what)
        else:
            rep.bad(k, m.loc(i) or loc0, 'the operation reads an ambient source (%s) whether or not a seed was chosen' % what)
    else:
        rep.ok(k)

def backends(rep, tier):
    """operations that draw once, linked with the generator and specialised to a fresh thread"""
    for key in RAND:
        b = bk.B[key]
        wr, _ = bk.wiring(b)
        soff = bk.layout(b, ('seed',)).get('seed')
        slots = [s for s in bk.SLOTS if key != 'cancellation' or s.split('_')[0] in ('add', 'sub')]
        t, hs = bk.prelude(b), []
        fields = bk.layout(b, ('sparsity', 'relErr', 'absErr', 'mode', 'operator', 'warning'))
        val = {'sparsity': '1.0f', 'relErr': '1', 'absErr': '0', 'mode': b.modes.get(getattr(b, 'ob', '')), 'operator': 'bitmask_operator_rand', 'warning': '0'}
        for s in slots:
            for ch in (0, 1):
                h = 'h_%s_%d' % (s, ch)
                q = {k: val[k] for k in fields if val[k]}
                t += bk.op_harness(b, wr[s], s, h, dict(q, choose_seed=str(ch)))
                hs.append((h, s, ch))
        m = residual(b.bcs() + rng.bcs() + [bc_text(t, [b.dir])], [h for h, _, _ in hs] + alive(b), edit=rng.untls, opaque=('next_seed',), extmem=None, attrs=ATTR)
        for h, s, ch in hs:
            f = m.funcs[h]
            rep.count('fresh-thread operations')
            k = '%s/fresh thread/%s, choose_seed=%d' % (key, s, ch)
            loc = b.srcs[0] + ' (%s)' % wr[s]
            draws = [i for i in f.insts() if i.op == 'call' and ir.callee(i) == 'next_seed']
            if ch:
                no_ambient(rep, m, f, k, loc)
                if not draws:
                    rep.unknown(k, 'no seeding left')
                    continue
                if any(guarded_by_state(m, f, d) for d in draws):
                    rep.unknown(k, 'seeding under a test of the generator state')
                    continue
                seedl = {i.name for i in f.insts() if i.op == 'load' and i.type == 'i64' and m.addr(f, i.ops[0]) == ('%ctx0', soff)}
                part = [i for i in f.insts() if i.op == 'load' and i.type != 'i64' and m.addr(f, i.ops[0])[0] == '%ctx0'
                        and soff <= (m.addr(f, i.ops[0])[1] or 0) < soff + 8]
                if not seedl:
                    rep.bad(k + '/seed value', m.loc(draws[0]) or loc, 'only part of the chosen seed is read' if part else
                            'the generator of a thread is not seeded from the configured seed')
                    continue
                seed_obl(rep, m, f, k, lambda v: v in seedl, loc)
            elif ambient(f):
                rep.ok(k + '/entropy')
            elif any(i.op == 'call' and ir.callee(i) is None for i in f.insts()):
                rep.unknown(k + '/entropy', 'indirect call left')
            elif draws:
                rep.bad(k + '/entropy', m.loc(draws[0]) or loc, 'without a chosen seed the generator is not seeded from an ambient source')
            else:
                rep.unknown(k + '/entropy', 'no seeding left')
    rep.floor('fresh-thread operations', 60)

def run(rep, tier):
    rep.rule = RULE
    generator(rep)
    prepared(rep, tier)
    backends(rep, tier)
    rep.floor('generator specialisations', 18)
    rep.assumptions += ['threads that draw for the first time in the same order get the same numbers; the schedule itself is not part of the claim']
