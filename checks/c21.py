"""C21: the options of the compiler driver reach the pass and the wrapper together."""
import itertools, os, posixpath
from engine import driver
from engine.driver import Cmd, Run, is_wrapper, INSTMACROS
from engine.pyabs import Unk
from engine.build import REPO

TECH = ('static analysis: abstract interpretation of the compiler driver over its syntax tree, partitioned on the finite set of its options; user words are '
        'uninterpreted letters, files are provenance terms and commands are recorded, not run')
NOTE = ('all combinations of the instrumentation, delta-debug, verbose, static and save-temps options in the compile, emit-llvm and link modes, with every '
        'selection option, several kinds of sources and both pass-manager generations; user options with shell characters. Source and output names with '
        'spaces are outside the statement. The model of subprocess, tempfile and os is trusted; argparse is taken as the library defines it.')
RULE = ('For every option combination the term that describes how each object file was produced must be: source, compiled to IR with the user options, '
        'function pass exactly when --inst-func, then the instrumentation pass once with exactly the flags of the options given and the wrapper of this '
        'run as its wrapper file, then object code; the wrapper (for the pass and for the link) must be compiled with exactly the macros of the same '
        'options; unknown options must reach every compilation of the sources and the link as the words given, in order. Contradictory calls must end '
        'with a non-zero status before any command.')

L = [chr(0xE200 + i) for i in range(60)]
A, B, F, INC, EXC, OUT, LIB, OBJ, OP1, OP2 = [L[2 * i] + L[2 * i + 1] for i in range(10)]
NAMES = {A: 'src1', B: 'src2', F: 'fun', INC: 'inc', EXC: 'exc', OUT: 'out', LIB: 'lib', OBJ: 'obj', OP1: 'opt1', OP2: 'opt2'}
def show(x):
    s = x if isinstance(x, str) else ' '.join(x)
    for k, v in NAMES.items(): s = s.replace(k, v)
    return s.replace('\ue0f0', 'tmp')

FLAGS = ['inst-fcmp', 'inst-fma', 'inst-cast', 'inst-func', 'ddebug', 'verbose', 'static', 'save-temps']
MACRO = {'inst-fcmp': 'INST_FCMP', 'inst-fma': 'INST_FMA', 'inst-cast': 'INST_CAST', 'inst-func': 'INST_FUNC', 'ddebug': 'DDEBUG'}
PASSFLAG = {'inst-fcmp': 'vfclibinst-inst-fcmp', 'inst-fma': 'vfclibinst-inst-fma', 'inst-cast': 'vfclibinst-inst-cast', 'verbose': 'vfclibinst-verbose'}
SELECT = {'none': ([], []), 'function': (['--function', F], [('vfclibinst-function', F)]),
          'include': (['--include-file', INC], [('vfclibinst-include-file', INC)]),
          'exclude': (['--exclude-file', EXC], [('vfclibinst-exclude-file', EXC)]),
          'both': (['--include-file', INC, '--exclude-file', EXC], [('vfclibinst-include-file', INC), ('vfclibinst-exclude-file', EXC)])}

class Term:
    def __init__(self, k, ins=(), cmd=None, line=0): self.k, self.ins, self.cmd, self.line = k, list(ins), cmd, line

class Judge:
    def __init__(self, rep):
        self.rep, self.seen, self.dead = rep, {}, set()
    def no(self, key, line, msg, argv):
        if key in self.seen: self.seen[key] += 1; return
        self.seen[key] = 1
        self.rep.bad(key, 'verificarlo.in.in:%d' % line, '%s; with options: %s' % (show(msg), show(argv)))
    def yes(self, n=1): self.good = getattr(self, 'good', 0) + n
    def need(self, cond, key, line, msg, argv):
        if cond: self.rep.ok(key)
        else: self.no(key, line, msg, argv)
        return cond

def terms(res, user):
    """provenance of every file the commands produce, and the final outputs"""
    prov, outs = {}, []
    def src(f):
        if f in prov: return prov[f]
        if is_wrapper(f): return Term('wrapper')
        if f in user or posixpath.splitext(f)[1] in driver.SRCEXT: return Term('src', [f])
        return Term('file', [f])
    for w, line in zip(res.cmds, res.where):
        c = Cmd(w)
        ins = [src(f) for f in c.inputs]
        if c.tool in ('clang', 'clang++', 'flang'):
            if '-E' in c.flags: k = 'pre'
            elif '-emit-llvm' in c.flags and ('-c' in c.flags or '-S' in c.flags): k = 'ir'
            elif '-S' in c.flags: k = 'asm'
            elif '-c' in c.flags: k = 'obj'
            else: k = 'link'
        elif c.tool == 'opt':
            t = ins[0] if ins else Term('nothing')
            for p in c.passes: t = Term('pass:' + p, [t], c, line)
            t.cmd, t.line = c, line
            k = None
        elif c.tool == 'llvm-link': k = 'llvm-link'
        else: raise Unk('command ' + show(w[:1]))
        if k in ('ir', 'obj', 'asm', 'pre'):                       # a linker input is not used when not linking
            ins = [x for x in ins if not (x.k == 'file' or x.k == 'src' and x.ins[0].endswith(('.o', '.a', '.so')))]
        if k: t = Term(k, ins, c, line)
        outs.append(t)
        o = c.out
        if o is None and k == 'obj' and len(c.inputs) == 1: o = posixpath.splitext(c.inputs[0])[0] + '.o'
        t.out = o
        if o is not None: prov[o] = t
    return prov, outs

def subseq(a, b):
    it = iter(b)
    return all(x in it for x in a)

def macros(c): return {d.split('=')[0] for d in c.defs} & INSTMACROS

def wrapper_ok(j, t, on, argv, use):
    """t: term of the wrapper as used; on: options given"""
    n = t
    while n.k not in ('wrapper',) and n.ins and isinstance(n.ins[0], Term):
        if n.k.startswith('pass:'):
            j.no('wrapper instrumented', n.line, 'the pass %s is applied to the wrapper used %s' % (n.k, use), argv); return
        n = n.ins[0]
    if not j.need(n.k == 'wrapper', 'wrapper used %s' % use, t.line, 'the wrapper given %s does not come from vfcwrapper.c (%s)' % (use, t.k), argv): return
    x = t
    while x.ins[0].k != 'wrapper': x = x.ins[0]
    want = {m for f, m in MACRO.items() if f in on}
    got = macros(x.cmd)
    j.need(got == want, 'wrapper macros %s' % use, x.line, 'the wrapper %s is compiled with {%s} instead of {%s}' % (use, ', '.join(sorted(got)), ', '.join(sorted(want))), argv)
    j.need(not [u for u in x.cmd.flags if u.startswith('-U') and u[2:] in INSTMACROS], 'wrapper macros kept %s' % use, x.line, 'the wrapper undefines an instrumentation macro', argv)

def chain(j, t, on, sel, argv, s, opts, compiler, llvm):
    """t: term of the instrumented IR of source s"""
    line = t.line
    ps = []
    while t.k.startswith('pass:'):
        ps.insert(0, t); t = t.ins[0]
    names = [p.k[5:] for p in ps]
    want = (['vfclibfunc'] if 'inst-func' in on else []) + ['vfclibinst']
    if not j.need(names == want, 'passes', line, 'source %s goes through the passes [%s] instead of [%s]' % (s, ', '.join(names), ', '.join(want)), argv): return
    if not j.need(t.k == 'ir' and t.ins and t.ins[0].k == 'src' and t.ins[0].ins == [s], 'source of the IR', t.line,
                  'the IR instrumented for %s does not come from that source' % s, argv): return
    c = t.cmd
    j.need(c.tool == compiler, 'compiler of the sources', t.line, 'the source is compiled by %s instead of %s' % (c.tool, compiler), argv)
    j.need(subseq(opts, c.w), 'user options at compilation', t.line, 'the user options %s do not reach the compilation of the source: %s' % (show(opts), show(c.w)), argv)
    if 'inst-func' in on or 'ddebug' in on:
        j.need('-g' in c.flags, 'debug information', t.line, 'the source is compiled without debug information', argv)
    p = ps[-1]
    c = p.cmd
    got = sorted(set(x for x in c.inst if x[0] != 'vfclibinst-vfcwrapper-file'))
    exp = sorted([(PASSFLAG[f], '') for f in PASSFLAG if f in on] + sel)
    j.need(got == exp, 'flags of the instrumentation pass', p.line, 'the pass is given [%s] instead of [%s]' % (
        ', '.join('%s %s' % x for x in got), ', '.join('%s %s' % x for x in exp)), argv)
    for q in ps:
        lib = {'vfclibinst': 'libvfcinstrument.so', 'vfclibfunc': 'libvfcfuncinstrument.so'}[q.k[5:]]
        j.need(lib in [posixpath.basename(x) for x in q.cmd.plugins], 'plugin of ' + q.k, q.line, 'the pass is loaded from %s' % show(q.cmd.plugins), argv)
        new = any(x.startswith(('-passes=', '--passes=')) for x in q.cmd.w)
        j.need(new == (llvm >= 17), 'pass manager', q.line, 'pass arguments do not fit LLVM %d' % llvm, argv)
    w = [v for k, v in c.inst if k == 'vfclibinst-vfcwrapper-file']
    return w

def case(j, on, mode, selname, opts=(), libs=(), srcs=None, compiler='clang', llvm=18, out=OUT, extra_objs=(), tmpl=None, order='front'):
    selargs, sel = SELECT[selname]
    srcs = srcs or [A + '.c', B + '.c']
    if mode in ('-c', '--emit-llvm'): srcs, = ([s] for s in srcs[:1]) if out else (srcs,)
    argv = ['--' + f for f in FLAGS if f in on] + selargs + ([mode] if mode != 'link' else []) + ['--linker=' + compiler]
    rest = list(srcs) + list(extra_objs) + list(opts) + list(libs)
    argv = (argv + rest if order == 'front' else rest + argv) + (['-o', out] if out else [])
    r = Run(argv, user=list(srcs) + list(extra_objs), llvm=llvm, tmpl=tmpl)
    try: res = r.go()
    except Unk as e:
        j.dead.add('line %d: %s' % (r.it.line, e)); return
    j.rep.count('abstract runs'); j.rep.count('commands judged', len(res.cmds))
    if not j.need(res.exit == 0, 'accepted', r.it.line, 'a legitimate call ends with status %d%s' % (res.exit, ' ' + getattr(res, 'crash', '')), argv): return
    try: prov, outs = terms(res, set(srcs))
    except Unk as e: j.dead.add(str(e)); return
    # ---- wrapper for the passes
    insts = [t for t in outs if t.k == 'pass:vfclibinst']
    def judge_ir(t, s):
        w = chain(j, t, on, sel, argv, s, list(opts), compiler, llvm)
        if w is None: return
        if not j.need(len(w) == 1, 'wrapper file of the pass', t.line, 'the pass is given %d wrapper files' % len(w), argv): return
        if not j.need(w[0] in prov and prov[w[0]].k == 'ir', 'wrapper file compiled', t.line, 'the wrapper file %s was not produced as IR' % w[0], argv): return
        wrapper_ok(j, prov[w[0]], on, argv, 'for the pass')
        return w[0]
    final = outs[-1] if outs else Term('nothing')
    def judge_obj(t, s):
        if s.endswith('.s'):
            j.need(t.k == 'obj' and t.ins and t.ins[0].k == 'src' and t.ins[0].ins == [s], 'assembly source', t.line, 'assembly source %s is not assembled as such' % s, argv)
            j.need(subseq(opts, t.cmd.w) if t.cmd else True, 'user options at assembly', t.line, 'user options missing', argv)
            return
        if not j.need(t.k == 'obj' and len(t.ins) == 1 and t.ins[0].k.startswith('pass:'), 'object from instrumented IR', t.line,
                      'the object of %s is not produced from instrumented IR (%s of %s)' % (s, t.k, ', '.join(x.k for x in t.ins)), argv): return
        j.need(t.cmd.tool == compiler, 'compiler of the objects', t.line, 'object compiled by %s' % t.cmd.tool, argv)
        j.need(subseq(opts, t.cmd.w), 'user options at code generation', t.line, 'the user options do not reach the code generation: %s' % show(t.cmd.w), argv)
        judge_ir(t.ins[0], s)
    if mode == '-c':
        for s in srcs:
            o = out or posixpath.splitext(s)[0] + '.o'
            if j.need(o in prov, 'object produced', final.line, 'no object %s is produced' % o, argv): judge_obj(prov[o], s)
        j.need(not [t for t in outs if t.k == 'link'], 'no link with -c', final.line, 'the driver links in spite of -c', argv)
        return
    if mode == '--emit-llvm':
        for s in srcs:
            o = out or posixpath.splitext(s)[0] + '.o'
            if not j.need(o in prov and prov[o].k == 'llvm-link', 'bitcode produced', final.line, 'no linked bitcode %s is produced' % o, argv): continue
            t = prov[o]
            ii = [x for x in t.ins if x.k.startswith('pass:')]
            ww = [x for x in t.ins if x.k == 'ir']
            if not j.need(len(ii) == 1 and len(ww) == 1 and len(t.ins) == 2, 'bitcode contents', t.line, 'the bitcode is linked from %s' % ', '.join(x.k for x in t.ins), argv): continue
            judge_ir(ii[0], s)
            wrapper_ok(j, ww[0], on, argv, 'linked in the bitcode')
        return
    # ---- link
    if not j.need(final.k == 'link', 'linked', final.line, 'the last command is not the link', argv): return
    c = final.cmd
    j.need(c.tool == compiler, 'linker', final.line, 'linked by %s instead of %s' % (c.tool, compiler), argv)
    j.need(c.out == (out or None), 'output', final.line, 'the program is written to %s instead of %s' % (c.out, out), argv)
    for s in srcs:
        o = posixpath.splitext(s)[0] + '.o'
        hit = [f for f in c.inputs if f in prov and reaches(prov[f], s)]
        if j.need(len(hit) == 1, 'object linked', final.line, 'source %s contributes %d objects to the link' % (s, len(hit)), argv): judge_obj(prov[hit[0]], s)
    for o in extra_objs:
        j.need(o in c.inputs, 'user objects', final.line, 'the user object %s is not linked' % o, argv)
    ws = [f for f in c.inputs if f in prov and reaches(prov[f], None)]
    if j.need(len(ws) == 1, 'one wrapper linked', final.line, '%d wrappers are linked' % len(ws), argv):
        wrapper_ok(j, prov[ws[0]], on, argv, 'for the link')
    j.need(subseq(list(opts), c.w), 'user options at link', final.line, 'the user options do not reach the link: %s' % show(c.w), argv)
    j.need(subseq(list(libs), c.w), 'user libraries', final.line, 'the user libraries do not reach the link in order: %s' % show(c.w), argv)
    if libs and all(x in c.w for x in libs):
        pos = min(c.w.index(x) for x in libs)
        j.need(all(c.w.index(f) < pos for f in c.inputs if f in prov and prov[f].k == 'obj' and f not in ws), 'libraries after objects', final.line, 'a library comes before an object', argv)
    j.need(('-no-pie' in c.flags) == ('ddebug' in on or 'inst-func' in on), 'position independence', final.line,
           '-no-pie is %s' % ('given' if '-no-pie' in c.flags else 'missing'), argv)
    j.need(('-static' in c.flags) == ('static' in on), 'static link', final.line, '-static is %s' % ('given' if '-static' in c.flags else 'missing'), argv)

def reaches(t, s):
    if t.k == 'wrapper': return s is None
    if t.k == 'src': return t.ins == [s]
    return any(reaches(x, s) for x in t.ins if isinstance(x, Term))

WORDS = ['-W' + OP1, '-D%s=%s %s' % (OP1, OP2, OP1), "-D%s='%s'" % (OP1, OP2), '-D%s="%s"' % (OP1, OP2), '-D%s=$%s' % (OP1, OP2), '-D%s=`%s`' % (OP1, OP2),
         '-D%s=\\%s' % (OP1, OP2), '-D%s=*' % OP1, '-D%s;%s' % (OP1, OP2), '-D%s=%s.c' % (OP1, OP2), '-I%s/%s.cpp' % (OP1, OP2), '-O2', '-g', '-fopenmp', '-std=c99',
         '-march=' + OP1, '-include=%s.c' % OP1, '--inst', '--inst-f', '--ver', '--func', '--emit', '--save', '--dd', '--stat', '--sh', '--exclude', '-f' + OP1 + '=' + OP2]

def refused(j, argv, why, llvm=18, tmpl=None):
    r = Run(argv, user=[a for a in argv if not a.startswith('-')], tmpl=tmpl)
    try: res = r.go()
    except Unk as e: j.dead.add('line %d: %s' % (r.it.line, e)); return
    j.rep.count('abstract runs')
    j.need(res.exit != 0 and not res.cmds, 'refused: ' + why, r.it.line, '%s is not refused (status %d, %d commands)' % (why, res.exit, len(res.cmds)), argv)

def prism(j, tmpl):
    for (mode, full), disp, dbg, strict, fl in itertools.product([('ud', 'up-down'), ('sr', 'stochastic-rounding'), ('up-down', 'up-down'), ('stochastic-rounding', 'stochastic-rounding')],
                                                             (None, 'static', 'dynamic'), (None, 'abi'), (0, 1), ((), ('inst-fma',), ('verbose', 'inst-cast'))):
        argv = ['--prism-backend=' + mode] + (['--prism-backend-dispatch=' + disp] if disp else []) + (['--prism-backend-strict-abi'] if strict else []) \
            + ['--' + f for f in fl] + [A + '.c', '-o', OUT] + (['--prism-backend-debug', dbg] if dbg else [])
        r = Run(argv, user=[A + '.c'], tmpl=tmpl)
        try:
            res = r.go()
            if not j.need(res.exit == 0, 'PRISM accepted', r.it.line, 'status %d' % res.exit, argv): continue
            prov, outs = terms(res, {A + '.c'})
        except Unk as e: j.dead.add('line %d: %s' % (r.it.line, e)); continue
        j.rep.count('abstract runs')
        d = disp or 'dynamic'
        j.need(not [t for t in outs if any(x.k == 'wrapper' for x in t.ins if isinstance(x, Term))], 'PRISM without wrapper', r.it.line, 'the wrapper is compiled for PRISM', argv)
        ps = [t for t in outs if t.k == 'pass:vfclibinst']
        if not j.need(len(ps) == 1, 'PRISM pass', r.it.line, '%d instrumentation passes' % len(ps), argv): continue
        i = dict(ps[0].cmd.inst)
        j.need(i.get('vfclibinst-mode') == full, 'PRISM mode', ps[0].line, 'mode %s instead of %s' % (i.get('vfclibinst-mode'), full), argv)
        j.need(i.get('vfclibinst-dispatch') == d, 'PRISM dispatch', ps[0].line, 'dispatch %s' % i.get('vfclibinst-dispatch'), argv)
        j.need(('vfclibinst-strict-abi' in i) == bool(strict), 'PRISM strict ABI', ps[0].line, 'strict ABI', argv)
        j.need('libvfcinstrumentprism.so' in [posixpath.basename(x) for x in ps[0].cmd.plugins], 'PRISM plugin', ps[0].line, 'wrong plugin', argv)
        for k in PASSFLAG: j.need((PASSFLAG[k] in i) == (k in fl), 'PRISM pass flags', ps[0].line, 'flag %s' % k, argv)
        j.need('prism-static' in i.get('vfclibinst-prism-static-ir-file', '') and 'prism-dynamic' in i.get('vfclibinst-prism-dynamic-ir-file', ''), 'PRISM IR files', ps[0].line, 'IR files', argv)
        c = outs[-1].cmd
        j.need('-lprism-%s%s' % (d, '-dbg' if dbg else '') in c.w, 'PRISM library', outs[-1].line, 'the link lacks the %s library: %s' % (d, show(c.w)), argv)
        if dbg: j.need('vfclibinst-debug' in i and 'vfclibinst-debug-' + dbg in i, 'PRISM debug', ps[0].line, 'debug flags', argv)

def run(rep, tier):
    rep.rule = RULE
    rep.assumptions += ['commands behave as their documentation says; subprocess, tempfile and os are modelled (engine/driver.py)']
    j = Judge(rep)
    full = tier == 'thorough'
    for llvm in (18, 14, 12):
        t = driver.text(llvm)
        for bits in range(256):
            on = {f for i, f in enumerate(FLAGS) if bits >> i & 1}
            for m, mode in enumerate(('link', '-c', '--emit-llvm')):
                if llvm != 18 and not full and bits % 37: continue
                sels = list(SELECT) if full and llvm == 18 else [list(SELECT)[(bits + bits // 5 + m) % 5]]
                for s in sels: case(j, on, mode, s, opts=['-W' + OP1, '-f' + OP2], libs=['-l' + LIB] if mode == 'link' else [], llvm=llvm, tmpl=t)
    t = driver.text(18)
    for fl in itertools.product((0, 1), repeat=4):
        on = {f for f, b in zip(FLAGS, fl) if b}
        for s in SELECT:
            for mode in ('link', '-c', '--emit-llvm'): case(j, on, mode, s, tmpl=t, order='back', out=None if mode == 'link' else OUT)
    for a in WORDS:
        for b in ([None] + WORDS if full else [None, '-O3']):
            for mode in ('link', '-c'):
                case(j, {'inst-fma'}, mode, 'none', opts=[a] + ([b] if b else []), tmpl=t)
    kinds = ['.c', '.cc', '.cp', '.cpp', '.cxx', '.c++', '.C', '.bc', '.ll', '.s']
    for k in kinds:
        for mode in ('link', '-c'):
            case(j, {'inst-func'}, mode, 'both', srcs=[OP1 + '/' + A + k] + ([B + '.c'] if mode == 'link' else []), opts=['-O2'], libs=['-l' + LIB, '-lm'] if mode == 'link' else [],
                 compiler='clang++', tmpl=t, extra_objs=[OBJ + '.o'] if mode == 'link' else [])
    for k in ('.f', '.f90', '.f77', '.F90'):
        case(j, {'ddebug'}, 'link', 'include', srcs=[A + k, B + '.f'], compiler='flang', tmpl=t)
    case(j, {'inst-cast'}, '-c', 'none', out=None, tmpl=t)
    case(j, {'inst-fcmp'}, '--emit-llvm', 'none', out=None, tmpl=t)
    for x in ('-E', '-S'):
        argv = [x, A + '.c', '-W' + OP1, '-o', OUT]
        r = Run(argv, user=[A + '.c'], tmpl=t)
        try: res = r.go()
        except Unk as e: j.dead.add(str(e)); continue
        j.rep.count('abstract runs')
        ok = res.exit == 0 and len(res.cmds) == 1 and x in res.cmds[0] and A + '.c' in res.cmds[0] and '-W' + OP1 in res.cmds[0] and OUT in res.cmds[0]
        j.need(ok, 'option ' + x, r.it.line, 'the call runs: %s' % '; '.join(show(c) for c in res.cmds), argv)
    s1, s2 = A + '.c', B + '.c'
    for m in ('-E', '-S', '-c', '--emit-llvm'): refused(j, [m, s1, s2, '-o', OUT], m + ' with -o and several sources', tmpl=t)
    for m in ([], ['-c'], ['--emit-llvm']):
        for sel in (['--include-file', INC], ['--exclude-file', EXC], ['--include-file', INC, '--exclude-file', EXC]):
            refused(j, m + ['--function', F, s1] + sel, '--function with a selection file', tmpl=t)
    refused(j, [], 'a call without input', tmpl=t)
    refused(j, ['-c'], '-c without input', tmpl=t)
    refused(j, ['-c', '-O2'], '-c without input', tmpl=t)
    refused(j, ['--emit-llvm'], '--emit-llvm without input', tmpl=t)
    refused(j, ['--inst-fma', '--ddebug'], 'a call without input', tmpl=t)
    refused(j, ['--linker=' + OP1, s1], 'an unknown linker', tmpl=t)
    refused(j, ['--prism-backend=' + OP1, s1], 'an unknown PRISM mode', tmpl=t)
    prism(j, t)
    for k in j.dead: rep.unknown('compiler driver', k)
    rep.floor('abstract runs', 900)
