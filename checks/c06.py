"""C06: each floating-point instruction is replaced by its own counterpart."""
import os, re, itertools
from engine import wrapper as w, cxx
from engine import build
from engine.build import REPO, which, CLANG, scratch, BuildError, cflags
from engine.cxx import Ty, T, VEC, INT, FLOAT, DOUBLE, PTR, VOID, Val, Const, Inst, Fn, Block, Mod, AttrList, Interp, Unk, Fatal, Defect, PREDS

TECH = ('static analysis: abstract interpretation of the instrumentation pass over its type-checked syntax tree, exhaustive over opcode, operand '
        'type, options and predicates; signatures taken from the compiled wrapper library')
NOTE = ('every LLVM opcode, every scalar floating-point type and vector width 1..64 of them, all sixteen predicates, all option combinations, '
        'several shapes of function; wrapper signatures for three x86-64 feature levels. An instruction stands for all instructions of its opcode and types.')
RULE = ('The pass (from its entry point on) is interpreted over an abstract module. An fadd/fsub/fmul/fdiv of a supported type must end up as one call of '
        '_[<n>x]<type><op> whose arguments are the operands in order (possibly reinterpreted bit by bit or passed by value in memory as the wrapper\'s '
        'signature demands), whose result feeds every former use; fcmp, fma and double-to-float conversions likewise when their option is on, with the '
        'number the wrapper gives the predicate; nothing else may change. Calling a wrapper the library does not define is a violation.')

OPN = {'FAdd': 'add', 'FSub': 'sub', 'FMul': 'mul', 'FDiv': 'div'}
OPTS = ('fcmp', 'fma', 'cast')
ONAME = {'fcmp': 'vfclibinst-inst-fcmp', 'fma': 'vfclibinst-inst-fma', 'cast': 'vfclibinst-inst-cast'}
PASS = os.path.join(REPO, 'src', 'libvfcinstrument', 'libVFCInstrument.cpp')
FEATURES = {'sse2': [], 'avx2': ['-mavx2'], 'avx512': ['-mavx512f', '-mprefer-vector-width=512']}

def ty(s):
    s = s.strip()
    m = re.match(r'<(\d+) x (.*)>$', s)
    if m:
        return VEC(int(m.group(1)), ty(m.group(2)))
    m = re.match(r'i(\d+)$', s)
    if m:
        return INT(int(m.group(1)))
    if s in ('float', 'double', 'void', 'ptr', 'half', 'x86_fp80', 'fp128'):
        return T(s)
    return T('other', s)

def split(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '(<{[': d += 1
        if c in ')>}]': d -= 1
        if c == ',' and d == 0:
            out.append(cur); cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return out

TYRE = r'(?:<\d+ x \w+>|\w+|\{[^}]*\})'
def lead(s):
    """type at the beginning of a parameter or after the linkage words of a definition"""
    m = re.match(r'\s*(' + TYRE + ')', s)
    return m.group(1)

_w = {}
def wrapper(feat, opts):
    key = (feat, opts)
    if key in _w:
        return _w[key]
    defs = ['INST_' + o.upper() for o in opts]
    src = w.source(defs) + '\nconst int vfc_pred_numbers[16] = {' + ','.join(PREDS) + '};\n'
    p = os.path.join(scratch(), 'w_%s_%s.c' % (feat, '_'.join(opts)))
    open(p, 'w').write(src)
    fl = [f for f in cflags(None, False) if f not in ('-emit-llvm', '-c')] + ['-I', w.W]
    txt = build.run([which(CLANG)] + fl + FEATURES[feat] + ['-S', '-emit-llvm', p, '-o', '-'])
    m = Mod('wrapper')
    groups = dict(re.findall(r'^attributes #(\d+) = \{ (.*) \}$', txt, re.M))
    for d in re.finditer(r'^define ((?:[^@"]|"[^"]*")*)@"?([\w.$]+)"?\((.*)\{$', txt, re.M):
        pre, name, rest = d.groups()
        dep, k = 1, 0
        while dep:
            dep += {'(': 1, ')': -1}.get(rest[k], 0)
            k += 1
        params, post = rest[:k - 1], rest[k:]
        if not name.startswith('_'):
            continue
        words = re.sub(r'\b(dso_local|internal|hidden|noundef|weak|signext|zeroext|local_unnamed_addr|linkonce_odr|nofpclass\([^)]*\))\b', '', pre).strip()
        ret = ty(lead(words) if words else 'void')
        ps, pat = [], {}
        for i, x in enumerate(split(params)):
            ps.append(ty(lead(x)))
            bv = re.search(r'byval\(([^()]*)\)', x)
            if bv:
                pat[i] = {'byval': ty(bv.group(1))}
            if 'sret(' in x:
                pat.setdefault(i, {})['sret'] = True
        g = re.search(r'#(\d+)', post)
        at = dict(re.findall(r'"([\w-]+)"="([^"]*)"', groups.get(g.group(1), ''))) if g else {}
        m.fns.append(Fn(name, ret, ps, AttrList(at, pat), m))
        m.fns[-1].defined = True
    pn = re.search(r'@vfc_pred_numbers = [^\n]*\[16 x i32\] \[([^\]]*)\]', txt)
    nums = [int(x.split()[-1]) for x in pn.group(1).split(',')] if pn else None
    _w[key] = (m, nums)
    return _w[key]

def entry(u):
    es = [d for d in u.methods('run') if 'Module' in d['type']['qualType']]
    if len(es) == 1:
        return es[0]
    es = u.methods('runOnModule')
    if len(es) == 1:
        return es[0]
    raise Unk('entry point of the pass not found')

def interpret(u, mod, wmod, opts, rev=False, extra=None, choose=None, files=None):
    o = {ONAME[x]: True for x in opts}
    o['vfclibinst-vfcwrapper-file'] = 'WRAPPER'
    o.update(extra or {})
    cxx.CSet.rev = rev
    try:
        it = Interp(u, o, files=files, modules={'WRAPPER': wmod}, choose=choose)
        e = entry(u)
        rec = e.get('_parent')
        this = it.mkobj(rec, []) if rec and rec['kind'] == 'CXXRecordDecl' else None
        args = [cxx.Box(mod)] + [cxx.Box(cxx.Opaque('arg'))] * 3
        ps = [c for c in e['inner'] if c.get('kind') == 'ParmVarDecl']
        it.call(e, args[:len(ps)], this)
    finally:
        cxx.CSet.rev = False
    return it

CALLER_ATTRS = [{}, {'target-cpu': 'x86-64', 'target-features': '+sse2'}]

def caller(mod, name='f', attrs=None):
    f = Fn(name, FLOAT, [], AttrList(attrs or {}), mod)
    mod.fns.append(f)
    return f

def mkinst(op, t, tag='', pred=None, callee=None, ty2=None, nops=None):
    if op == 'FCmp':
        rt = VEC(t[1], INT(1)) if t[0] == 'vec' else INT(1)
        return Inst('FCmp', rt, [Val(t, 'a' + tag), Val(t, 'b' + tag)], 'i' + tag, pred=pred)
    if op == 'FPTrunc' or op == 'FPExt':
        return Inst(op, ty2, [Val(t, 'a' + tag)], 'i' + tag)
    if op == 'Call':
        n = 3 if nops is None else nops
        return Inst('Call', t, [Val(t, x + tag) for x in 'abc'[:n]], 'i' + tag, callee=callee)
    if op in ('FNeg',):
        return Inst(op, t, [Val(t, 'a' + tag)], 'i' + tag)
    return Inst(op, t, [Val(t, 'a' + tag), Val(t, 'b' + tag)], 'i' + tag)

def build_one(i, attrs):
    mod = Mod('prog.ll', 'prog.c')
    f = caller(mod, 'f', attrs)
    b = Block(f)
    b.add(i)
    use = Inst('Store', VOID, [i, Val(PTR, 'p')], 'use')
    b.add(use)
    b.add(Inst('Ret', VOID, []))
    return mod, f, b, use

# ---------------------------------------------------------------- judging
def strip_operand(b, v, call, pty, byval):
    """the source operand an argument of the call carries, or an explanation"""
    if byval is not None or (pty == PTR and isinstance(v, Inst) and v.op == 'Alloca'):
        if not (isinstance(v, Inst) and v.op == 'Alloca'):
            return None, 'the wrapper takes this argument in memory but is given %s' % v.ty
        blk = v.block
        fn = blk.fn
        sts = [s for bb in fn.blocks for s in bb.insts if s.op == 'Store' and s.ops[1] is v]
        if len(sts) != 1:
            return None, '%d stores into the memory passed by value' % len(sts)
        s = sts[0]
        if s.block is not call.block or s.block.insts.index(s) > s.block.insts.index(call):
            return None, 'the operand is stored after the call'
        if byval is not None and byval != s.ops[0].ty and cxx.bits(byval) != cxx.bits(s.ops[0].ty):
            return None, 'the memory passed by value holds %s, the wrapper reads %s' % (s.ops[0].ty, byval)
        return strip_casts(s.ops[0]), None
    if v.ty != pty:
        return None, 'an argument of type %s is passed where the wrapper takes %s' % (v.ty, pty)
    return strip_casts(v), None

def strip_casts(v):
    while isinstance(v, Inst) and v.op == 'BitCast':
        v = v.ops[0]
    return v

def judge(orig, use_val, wmod, nums, wname, ops, pred, rty):
    """use_val: what the former uses of the instruction now read. Returns None (fine) or a message"""
    v = use_val
    call = strip_casts(v)
    if wname.endswith('cmp'):
        # i1 from the int the wrapper returns
        if isinstance(v, Inst) and v.op == 'Trunc':
            call = strip_casts(v.ops[0])
        elif isinstance(v, Inst) and v.op == 'ICmp':
            z = v.ops[1]
            if not (isinstance(z, Const) and z.v == 0): return 'the comparison result is not derived from the wrapper\'s answer'
            call = strip_casts(v.ops[0])
        mid = v.ops[0] if isinstance(v, Inst) and v.op in ('Trunc', 'ICmp') else None
        want = VEC(rty[1], INT(32)) if rty[0] == 'vec' else INT(32)
        if mid is None or mid.ty != want:
            return 'the result %s is not obtained lane by lane from the %s the wrapper returns' % (v, want)
    if not (isinstance(call, Inst) and call.op == 'Call'):
        return 'it is not replaced by a call (%s)' % (call.op if isinstance(call, Inst) else call)
    f = call.x['callee']
    if f.name != wname:
        return 'it is replaced by @%s, not @%s' % (f.name, wname)
    d = wmod.get(wname)
    if d is None:
        return '@%s is not defined by the wrapper library' % wname
    if (f.ret, f.params) != (d.ret, d.params):
        return '@%s is declared with another signature than it is defined with' % wname
    if use_val.ty != rty:
        return 'its uses receive %s instead of %s' % (use_val.ty, rty)
    off = 0
    args = list(call.ops)
    if len(args) != len(d.params):
        return '@%s takes %d arguments and is given %d' % (wname, len(d.params), len(args))
    if pred is not None:
        p = args.pop(0)
        if not (isinstance(p, Const) and p.ty == INT(32)):
            return 'the predicate passed is not a constant int'
        k = PREDS.index(pred)
        if nums is None:
            raise Unk('predicate numbers of the wrapper not found')
        if p.v != nums[k]:
            nm = PREDS[nums.index(p.v)] if p.v in nums else str(p.v)
            return 'predicate %s is passed to the wrapper as %s' % (pred, nm)
        off = 1
    pa = (call.attrs or AttrList()).params
    for j, a in enumerate(args):
        bv = d.attrs.params.get(j + off, {}).get('byval')
        got, why = strip_operand(None, a, call, d.params[j + off], bv)
        if why:
            return why
        if bv is not None and 'byval' not in pa.get(j + off, {}) and 'byval' not in f.attrs.params.get(j + off, {}):
            return 'argument %d is passed by address although the wrapper takes it by value in memory' % j
        if bv is not None and 'byval' not in pa.get(j + off, {}):
            return 'the call does not carry the by-value attribute the wrapper\'s argument %d needs' % j
        if got is not ops[j]:
            return 'argument %d of @%s is %s, operand %d of the instruction is %s' % (j, wname, got, j, ops[j])
    return None

def abi(f, d):
    """caller and wrapper agree on how vectors are passed"""
    for k in ('target-features', 'target-cpu'):
        if k in d.attrs.fn and f.attrs.fn.get(k) != d.attrs.fn[k]:
            return 'the caller keeps %s="%s" while the wrapper has "%s"' % (k, f.attrs.fn.get(k), d.attrs.fn[k])
    mw = 'min-legal-vector-width'
    if mw in f.attrs.fn and int(f.attrs.fn[mw]) < int(d.attrs.fn.get(mw, 0)):
        return 'the caller keeps min-legal-vector-width %s while the wrapper has %s' % (f.attrs.fn[mw], d.attrs.fn[mw])
    return None

def wname_of(i, opts):
    """name of the wrapper the instruction must become, or None: must stay; 'either'"""
    t = i.ops[0].ty if i.ops else i.ty
    def tn(t, allow):
        if t[0] == 'vec':
            if t[1] in (2, 4, 8, 16) and t[2][0] in ('float', 'double') and allow:
                return '%dx%s' % (t[1], t[2][0])
            return None
        return t[0] if t[0] in ('float', 'double') else None
    if i.op in OPN:
        n = tn(t, True)
        return n and '_%s%s' % (n, OPN[i.op])
    if i.op == 'FCmp' and 'fcmp' in opts:
        n = tn(t, True)
        return n and '_%scmp' % n
    if i.op == 'Call' and 'fma' in opts and i.x['callee'] is not None and re.match(r'llvm\.(fma|fmuladd)\.f(32|64)$', i.x['callee'].name):
        return '_%sfma' % t[0]
    if i.op == 'FPTrunc' and 'cast' in opts and t == DOUBLE and i.ty == FLOAT:
        return '_doubletofloatcast'
    return None

def case(rep, u, key, i, opts, feat, attrs=None, shape='one'):
    wmod, nums = wrapper(feat, tuple(opts))
    mod, f, b, use = build_one(i, attrs if attrs is not None else {})
    if i.op == 'Call' and i.x['callee'] is not None:
        mod.fns.append(i.x['callee'])
        i.x['callee'].mod = mod
    ops, rty = list(i.ops), i.ty
    before = [(x, list(x.ops)) for x in b.insts]
    want = wname_of(i, opts)
    where = u.path
    try:
        interpret(u, mod, wmod, opts)
    except Unk as e:
        rep.unknown(key, str(e)); return
    except Fatal as e:
        if i.ops and i.ops[0].ty[0] == 'svec':
            rep.ok(key); return
        rep.bad(key, str(e).split(' at ')[-1], '%s of %s aborts the compilation' % (i.op, i.ops[0].ty if i.ops else i.ty)); return
    except Defect as e:
        rep.bad(key, e.where or where, '%s of %s with options {%s}: %s' % (i.op, i.ops[0].ty if i.ops else i.ty, ','.join(opts), e)); return
    except RecursionError:
        rep.unknown(key, 'recursion'); return
    desc = '%s %s%s with options {%s}' % (i.op, i.ops[0].ty if i.ops else i.ty, ' ' + i.x['pred'] if 'pred' in i.x else '', ','.join(opts))
    if want is None:
        same = [x for x, _ in before] == b.insts and all(x.ops == o for x, o in before)
        if not same and i.op == 'Call' and i.x['callee'] is not None and 'fma' in opts and re.match(r'llvm\.(fma|fmuladd)\.v', i.x['callee'].name):
            m = re.match(r'llvm\.\w+\.v(\d+)f(32|64)$', i.x['callee'].name)
            if m:
                want = '_%sx%sfma' % (m.group(1), 'float' if m.group(2) == '32' else 'double')
        if want is None:
            return rep.check(same, key, where, '%s must be left untouched but is changed' % desc)
    if i in b.insts:
        return rep.bad(key, where, '%s is not instrumented' % desc)
    try:
        msg = judge(i, use.ops[0], wmod, nums, want, ops, i.x.get('pred'), rty)
    except Unk as e:
        rep.unknown(key, str(e)); return
    if msg is None:
        msg = abi(f, wmod.get(want))
    if msg is None:
        extra = [x for x in b.insts if x.op == 'Call' and x.x['callee'].name.startswith('_')]
        if len(extra) != 1:
            msg = '%d wrapper calls are left' % len(extra)
    rep.check(msg is None, key, where, '%s: %s' % (desc, msg))

def combos():
    return [tuple(o for o, k in zip(OPTS, m) if k) for m in itertools.product((0, 1), repeat=3)]

def run_shapes(rep, u, tier):
    """several instructions, blocks and functions at once: everything is replaced whatever the visiting order"""
    opts = OPTS
    wmod, nums = wrapper('sse2', opts)
    for rev in (False, True):
        for shape in ('chain', 'blocks', 'functions', 'same', 'dead', 'mixed', 'late'):
            key = 'shape/%s/%s' % (shape, 'reverse' if rev else 'forward')
            mod = Mod('prog.ll', 'prog.c')
            f = caller(mod, 'f')
            b = Block(f)
            exp = []                                # (inst, wrapper, operand list)
            def add(bb, i):
                bb.add(i); exp.append((i, list(i.ops))); return i
            x, y = Val(DOUBLE, 'x'), Val(DOUBLE, 'y')
            uses = []
            if shape == 'chain':
                i1 = add(b, Inst('FAdd', DOUBLE, [x, y], 'i1'))
                b.add(Inst('Add', INT(32), [Val(INT(32), 'k'), Val(INT(32), 'l')], 'k1'))
                i2 = add(b, Inst('FMul', DOUBLE, [i1, y], 'i2'))
                i3 = add(b, Inst('FSub', DOUBLE, [i2, i1], 'i3'))
                i4 = add(b, Inst('FCmp', INT(1), [i3, i1], 'i4', pred='FCMP_OLT'))
                i5 = add(b, Inst('FPTrunc', FLOAT, [i3], 'i5'))
                outs = [i4, i5]
                blocks = [b]
            elif shape == 'blocks':
                b2, b3 = Block(f, 'b2'), Block(f, 'b3')
                i1 = add(b, Inst('FDiv', DOUBLE, [x, y], 'i1'))
                i2 = add(b2, Inst('FAdd', DOUBLE, [i1, y], 'i2'))
                i3 = add(b3, Inst('FSub', DOUBLE, [i2, i1], 'i3'))
                outs = [i3]
                blocks = [b, b2, b3]
            elif shape == 'functions':
                outs, blocks = [], []
                mod.fns.insert(0, Fn('decl', VOID, [], None, mod))
                for nm in ('f', 'g', 'h'):
                    if nm != 'f':
                        ff = caller(mod, nm)
                        b = Block(ff)
                    i1 = add(b, Inst('FMul', DOUBLE, [x, y], nm + '1'))
                    outs.append(i1); blocks.append(b)
            elif shape == 'same':
                i1 = add(b, Inst('FAdd', DOUBLE, [x, x], 'i1'))
                i2 = add(b, Inst('FAdd', DOUBLE, [i1, i1], 'i2'))
                i3 = add(b, Inst('FAdd', DOUBLE, [i2, i1], 'i3'))
                outs, blocks = [i3], [b]
            elif shape in ('mixed', 'late'):
                h, q = T('half'), VEC(3, FLOAT)
                b2 = Block(f, 'b2')
                keep = [b.add(Inst('FAdd', h, [Val(h, 'h'), Val(h, 'k')], 'h1')), b.add(Inst('FMul', q, [Val(q, 'q'), Val(q, 'r')], 'q1')),
                        b.add(Inst('FNeg', DOUBLE, [x], 'n1'))]
                v4 = VEC(4, FLOAT)
                bb = b if shape == 'mixed' else b2
                i1 = add(bb, Inst('FAdd', DOUBLE, [x, y], 'i1'))
                keep.append(bb.add(Inst('FCmp', INT(1), [Val(h, 'h'), Val(h, 'k')], 'c1', pred='FCMP_OLT')))
                i2 = add(bb, Inst('FMul', v4, [Val(v4, 'u'), Val(v4, 'v')], 'i2'))
                keep.append(bb.add(Inst('FPTrunc', h, [i1], 't1')))
                fma = Fn('llvm.fma.f64', DOUBLE, [DOUBLE] * 3, None, mod)
                g = Fn('g', DOUBLE, [DOUBLE], None, mod)
                mod.fns += [fma, g]
                keep.append(bb.add(Inst('Call', DOUBLE, [i1], 'g1', callee=g)))
                keep.append(bb.add(Inst('Call', DOUBLE, [x, y, i1], 'p1', callee=None)))
                i3 = add(bb, Inst('Call', DOUBLE, [i1, x, y], 'i3', callee=fma))
                i4 = add(bb, Inst('FDiv', FLOAT, [Val(FLOAT, 'm'), Val(FLOAT, 'n')], 'i4'))
                outs, blocks = [i2, i3, i4], [b, b2]
            else:
                i1 = add(b, Inst('FAdd', DOUBLE, [x, y], 'i1'))
                outs, blocks = [], [b]
            if shape not in ('mixed', 'late'):
                keep = []
            sinks = []
            for o in outs:
                s = Inst('Store', VOID, [o, Val(PTR, 'p')], 'use')
                o.block.add(s); sinks.append((o, s))
            for bb in blocks:
                bb.add(Inst('Ret', VOID, []))
            rep.count('program shapes')
            try:
                interpret(u, mod, wmod, opts, rev)
            except Unk as e:
                rep.unknown(key, str(e)); continue
            except Fatal as e:
                rep.bad(key, u.path, 'compilation aborts: %s' % e); continue
            except Defect as e:
                rep.bad(key, e.where or u.path, str(e)); continue
            left = [i for bb in blocks for i in bb.insts if any(i is e for e, _ in exp)]
            if left:
                rep.bad(key, u.path, '%s is not instrumented when it occurs with other instructions' % left[0].op); continue
            gone = [i for i in keep if i.erased]
            if gone:
                rep.bad(key, u.path, '%s of %s is removed although it must be left untouched' % (gone[0].op, gone[0].ty)); continue
            # every original must have become exactly one call with the images of its operands
            image, msg = {}, None
            def img(v):
                for o, s in sinks:
                    if o is v:
                        return s.ops[0]
                return image.get(id(v), v)
            # rebuild the expected expression from the sinks back
            def expect(v, got, depth=0):
                if depth > 12:
                    raise Unk('deep')
                e = next((e for e in exp if e[0] is v), None)
                if e is None:
                    return None if got is v else 'an operand was replaced'
                i, ops = e
                wn = wname_of(i if i.ops == ops else Inst(i.op, i.ty, ops, **i.x), opts)
                cal = strip_casts(got.ops[0] if isinstance(got, Inst) and got.op in ('Trunc', 'ICmp') else got)
                if not (isinstance(cal, Inst) and cal.op == 'Call' and cal.x['callee'].name == wn):
                    return '%s is not computed by @%s' % (v.name, wn)
                args = cal.ops[1:] if i.op == 'FCmp' else cal.ops
                if len(args) != len(ops):
                    return 'wrong number of arguments'
                for o, a in zip(ops, args):
                    if isinstance(a, Inst) and a.erased:
                        return 'a call uses an erased instruction'
                    m = expect(o, strip_casts(a) if not (isinstance(a, Inst) and a.op in ('Trunc',)) else a, depth + 1)
                    if m:
                        return m
                return None
            for o, s in sinks:
                msg = msg or expect(o, s.ops[0])
            # calls come before their uses
            for bb in blocks:
                seen = set()
                for k in bb.insts:
                    for o in k.ops:
                        if isinstance(o, Inst) and o.block is bb and id(o) not in seen:
                            msg = msg or '%s is used before it is computed' % o.name
                    seen.add(id(k))
            ncall = sum(1 for bb in blocks for k in bb.insts if k.op == 'Call' and not any(k is z for z in keep))
            if msg is None and ncall != len(exp):
                msg = '%d operations became %d wrapper calls' % (len(exp), ncall)
            rep.check(msg is None, key, u.path, str(msg))

def check(rep, tier):
    rep.assumptions += ['LLVM 18 behaves as its API documents (type tests, bit casts, use replacement); x86-64 is the target of the wrapper signatures',
                        'an instruction of a given opcode and types stands for every such instruction: the pass has no access to operand values']
    u = cxx.Unit(PASS, REPO)
    rep.count('functions of the pass', len([d for d in u.decls.values() if cxx.body(d) is not None and d['kind'] in ('CXXMethodDecl', 'FunctionDecl')]))
    widths = [1, 2, 3, 4, 5, 6, 8, 12, 16, 32, 64]
    fps = ['half', 'bfloat', 'float', 'double', 'x86_fp80', 'fp128', 'ppc_fp128']
    types = [T(x) for x in fps] + [VEC(n, T(x)) for n in widths for x in fps]
    feats = ['sse2', 'avx512'] if tier == 'quick' else list(FEATURES)
    for feat in feats:
        for opts in combos():
            full = tier != 'quick' or feat == 'sse2' and opts in ((), OPTS)
            o = '+'.join(opts) or 'none'
            for t in types:
                sup = t[0] in ('float', 'double') or t[0] == 'vec' and t[1] in (2, 4, 8, 16) and t[2][0] in ('float', 'double')
                if not (full or sup):
                    continue
                for op in list(OPN) + ['FRem', 'FNeg']:
                    if not full and op in ('FRem', 'FNeg'):
                        continue
                    rep.count('instruction cases')
                    case(rep, u, '%s/%s/%s/%s' % (op, t, o, feat), mkinst(op, t), opts, feat)
                for p in PREDS if sup and opts in (OPTS, ('fcmp',)) else ['FCMP_OLT']:
                    rep.count('comparison cases')
                    case(rep, u, 'FCmp.%s/%s/%s/%s' % (p, t, o, feat), mkinst('FCmp', t, pred=p), opts, feat)
            if full or True:
                for s, d in itertools.product([T(x) for x in fps] + [VEC(4, DOUBLE), VEC(2, DOUBLE)], [T('half'), T('bfloat'), FLOAT, DOUBLE, T('x86_fp80'), VEC(4, FLOAT), VEC(2, FLOAT)]):
                    if (s[0] == 'vec') != (d[0] == 'vec') or s[0] == 'vec' and s[1] != d[1]:
                        continue
                    if cxx.bits(s) > cxx.bits(d):
                        rep.count('conversion cases')
                        case(rep, u, 'FPTrunc/%s-%s/%s/%s' % (s, d, o, feat), mkinst('FPTrunc', s, ty2=d), opts, feat)
                    elif cxx.bits(s) < cxx.bits(d):
                        rep.count('conversion cases')
                        case(rep, u, 'FPExt/%s-%s/%s/%s' % (s, d, o, feat), mkinst('FPExt', s, ty2=d), opts, feat)
                calls = [('llvm.fma.f32', FLOAT, 3), ('llvm.fma.f64', DOUBLE, 3), ('llvm.fmuladd.f32', FLOAT, 3), ('llvm.fmuladd.f64', DOUBLE, 3),
                         ('llvm.fma.f16', T('half'), 3), ('llvm.fmuladd.f80', T('x86_fp80'), 3), ('llvm.fma.v4f32', VEC(4, FLOAT), 3), ('llvm.fmuladd.v2f64', VEC(2, DOUBLE), 3),
                         ('llvm.sqrt.f32', FLOAT, 1), ('llvm.fabs.f64', DOUBLE, 1), ('llvm.pow.f64', DOUBLE, 2), ('fma', DOUBLE, 3), ('fmaf', FLOAT, 3),
                         ('g', DOUBLE, 3), ('llvm.fmax', DOUBLE, 2), ('_doubleadd', DOUBLE, 2), ('llvm.maxnum.f32', FLOAT, 2), (None, DOUBLE, 3), ('', DOUBLE, 3)]
                for nm, t, k in calls:
                    rep.count('call cases')
                    fn = None if nm is None else Fn(nm, t, [t] * k)
                    if nm == '_doubleadd':
                        continue
                    case(rep, u, 'Call.%s/%s/%s' % (nm, o, feat), mkinst('Call', t, callee=fn, nops=k), opts, feat)
    # every other opcode of the instruction set
    for op in sorted(cxx.OPC):
        if op in OPN or op in ('FCmp', 'Call', 'FPTrunc', 'FPExt', 'FNeg', 'FRem'):
            continue
        for t in (FLOAT, VEC(4, DOUBLE), INT(32)):
            rep.count('other opcodes')
            case(rep, u, '%s/%s' % (op, t), Inst(op, t, [Val(t, 'a'), Val(t, 'b')], 'i'), OPTS, 'sse2')
    # the caller's target attributes
    feat = 'avx512'
    wm, _ = wrapper(feat, OPTS)
    d = wm.get('_16xfloatadd')
    if d is not None:
        wa = d.attrs.fn
        cand = [{}, {'target-cpu': 'x86-64', 'target-features': '+sse2'}, {'target-cpu': wa.get('target-cpu', 'x'), 'target-features': '+sse2'},
                {'target-cpu': 'other', 'target-features': wa.get('target-features', 'x')},
                {'target-cpu': 'x86-64', 'target-features': '+sse2', 'min-legal-vector-width': '0'},
                {k: wa[k] for k in ('target-cpu', 'target-features') if k in wa} | {'min-legal-vector-width': '256'},
                {k: wa[k] for k in ('target-cpu', 'target-features') if k in wa} | {'min-legal-vector-width': '1024'}]
        for j, at in enumerate(cand):
            for op, t in (('FAdd', VEC(16, FLOAT)), ('FDiv', VEC(2, DOUBLE)), ('FMul', FLOAT), ('FCmp', VEC(8, DOUBLE))):
                rep.count('caller attribute cases')
                case(rep, u, 'attributes%d/%s/%s' % (j, op, t), mkinst(op, t, pred='FCMP_OLT' if op == 'FCmp' else None), OPTS, feat, attrs=dict(at))
    for t in (T('svec', 4, FLOAT),):
        for op in OPN:
            case(rep, u, '%s/%s' % (op, t), mkinst(op, t), OPTS, 'sse2')
    run_shapes(rep, u, tier)
    rep.floor('instruction cases', 800)
    rep.floor('comparison cases', 200)

def run(rep, tier):
    try:
        check(rep, tier)
    except Unk as e:
        rep.unknown('pass', str(e))
