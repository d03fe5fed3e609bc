"""C18: function selection files and options decide what is instrumented."""
import itertools
from checks import c06
from engine import cxx
from engine.build import REPO, BuildError
from engine.cxx import Fn, Block, Mod, Inst, Val, Const, DOUBLE, VOID, PTR, Unk, Fatal, Defect

TECH = ('static analysis: abstract interpretation of the selection code of the pass over its syntax tree, with names and modules as uninterpreted words; '
        'value-flow of the compiler driver\'s commands')
NOTE = ('decision table over function option, inclusion and exclusion file (each absent, matching, not matching) complete; file syntax: comments, blank '
        'lines, several lines, wildcards, relative, absolute and directory modules, with and without extension. Other regular-expression characters '
        'in names are not covered.')
RULE = ('For every combination of the selection options, and for words that stand for any name without special characters, the set of functions the pass '
        'hands to the replacement must be: those matching the inclusion file, plus (unless only an inclusion file is given) those not matching the '
        'exclusion file; with the function option exactly the named one. A line without function name and a missing file must end the compilation.')

A = [chr(0xE100 + i) for i in range(40)]          # uninterpreted letters
W = {n: A[2 * i] + A[2 * i + 1] for i, n in enumerate(['inc', 'exc', 'both', 'none', 'mod', 'mod2', 'dir', 'dir2', 'root', 'x'])}
INC, EXC, BOTH, NONE = W['inc'], W['exc'], W['both'], W['none']
M1, M2, D1, D2, R, X = W['mod'], W['mod2'], W['dir'], W['dir2'], W['root'], W['x']

def select(u, wmod, names, src, options, files):
    """names of the functions whose operation is replaced; 'fatal'"""
    mod = Mod('prog.ll', src)
    fs = []
    for n in names:
        f = Fn(n, DOUBLE, [], None, mod)
        mod.fns.append(f)
        b = Block(f)
        i = b.add(Inst('FAdd', DOUBLE, [Val(DOUBLE, 'x'), Val(DOUBLE, 'y')], 'i'))
        b.add(Inst('Store', VOID, [i, Val(PTR, 'p')]))
        b.add(Inst('Ret', VOID, []))
        fs.append((n, i))
    mod.fns.insert(0, Fn('decl', VOID, [], None, mod))
    try:
        c06.interpret(u, mod, wmod, (), extra=options, files=files)
    except Fatal:
        return 'fatal'
    return [n for n, i in fs if i.erased]

def attempt(rep, u, wmod, key, names, want, src='/%s/%s/%s.c' % (R, D1, M1), options=None, files=None, why=''):
    rep.count('selection cases')
    try:
        got = select(u, wmod, names, src, options or {}, files or {})
    except Unk as e:
        rep.unknown(key, str(e)); return
    except Defect as e:
        rep.bad(key, e.where or u.path, str(e)); return
    ren = {}
    for k, v in W.items():
        ren[v] = k
    show = lambda x: x if isinstance(x, str) and x == 'fatal' else '{' + ', '.join(pretty(n) for n in x) + '}'
    rep.check(got == want, key, u.path, '%s: instrumented %s, expected %s' % (why or key, show(got), show(want)))

def pretty(s):
    for k, v in W.items():
        s = s.replace(v, k)
    return s

def table(rep, u, wmod):
    inc = '%s %s\n%s %s\n' % (M1, INC, M1, BOTH)
    exc = '%s %s\n%s %s\n' % (M1, EXC, M1, BOTH)
    names = [NONE, INC, EXC, BOTH]
    OI, OE, OF = 'vfclibinst-include-file', 'vfclibinst-exclude-file', 'vfclibinst-function'
    files = {'I': inc, 'E': exc, 'IO': '%s %s\n' % (M2, INC), 'EO': '%s %s\n' % (M2, EXC), 'Z': '', 'ZC': '# only a comment\n'}
    for i, e in itertools.product((None, 'I', 'IO', 'Z', 'ZC'), (None, 'E', 'EO', 'Z', 'ZC')):
        mi = {INC, BOTH} if i == 'I' else set()
        me = {EXC, BOTH} if e == 'E' else set()
        want = [n for n in names if n in mi or (n not in me and not (i and not e))]
        o = {}
        if i: o[OI] = i
        if e: o[OE] = e
        for verbose in (False, True):
            if verbose: o['vfclibinst-verbose'] = True
            attempt(rep, u, wmod, 'table/include=%s/exclude=%s%s' % (i, e, '/verbose' if verbose else ''), names, want, options=dict(o), files=files,
                    why='inclusion file %s, exclusion file %s' % ({None: 'absent', 'I': 'listing two functions', 'IO': 'for another module', 'Z': 'empty', 'ZC': 'with only a comment'}[i],
                                                                 {None: 'absent', 'E': 'listing two functions', 'EO': 'for another module', 'Z': 'empty', 'ZC': 'with only a comment'}[e]))
    for f in names + [X]:
        attempt(rep, u, wmod, 'function=%s' % pretty(f), names, [n for n in names if n == f], options={OF: f}, why='function option naming %s' % pretty(f))
    attempt(rep, u, wmod, 'function/prefix', [INC, INC + X, X + INC], [INC], options={OF: INC}, why='function option: a name is not a part of a longer name')
    attempt(rep, u, wmod, 'none/any', ['main', 'f.1', '_ZN1a1bEv', 'f$x', 'operator', '_init', 'llvm', 'add', NONE],
            ['main', 'f.1', '_ZN1a1bEv', 'f$x', 'operator', '_init', 'llvm', 'add', NONE], why='no selection option')
    for k, o in (('include', OI), ('exclude', OE)):
        attempt(rep, u, wmod, 'missing/' + k, names, 'fatal', options={o: 'nowhere'}, files=files, why='the %s file cannot be opened' % k)
        for bad in ('%s\n' % M1, '%s \n' % M1, '%s %s\n%s\n' % (M1, INC, M2)):
            attempt(rep, u, wmod, 'syntax/%s/%r' % (k, pretty(bad)), names, 'fatal', options={o: 'S'}, files={'S': bad}, why='a line without function name in the %s file' % k)

def syntax(rep, u, wmod):
    src = '/%s/%s/%s.c' % (R, D1, M1)
    F, G = INC, INC + EXC
    cases = [
        ('plain', '%s %s' % (M1, F), True), ('plain newline', '%s %s\n' % (M1, F), True), ('extension', '%s.c %s' % (M1, F), True),
        ('other extension', '%s.f90 %s' % (M1, F), False), ('other module', '%s %s' % (M2, F), False),
        ('longer module', '%s %s' % (X + M1, F), False), ('module part', '%s %s' % (M1[1:], F), False), ('module prefix', '%s %s' % (M1[:1], F), False),
        ('other function', '%s %s' % (M1, EXC), False), ('longer function', '%s %s' % (M1, F + X), False), ('function part', '%s %s' % (M1, F[:1]), False),
        ('directory', '%s/%s %s' % (D1, M1, F), True), ('other directory', '%s/%s %s' % (D2, M1, F), False), ('directory extension', '%s/%s.c %s' % (D1, M1, F), True),
        ('absolute', '/%s/%s/%s %s' % (R, D1, M1, F), True), ('absolute extension', '/%s/%s/%s.c %s' % (R, D1, M1, F), True),
        ('absolute elsewhere', '/%s/%s %s' % (D1, M1, F), False), ('absolute other', '/%s/%s/%s.c %s' % (R, D2, M1, F), False),
        ('any module', '* %s' % F, True), ('any function', '%s *' % M1, True), ('any both', '* *', True), ('any function of another module', '%s *' % M2, False),
        ('module wildcard', '%s* %s' % (M1[:1], F), True), ('function wildcard', '%s %s*' % (M1, F[:1]), True), ('function wildcard end', '%s *%s' % (M1, F[1:]), True),
        ('function wildcard other', '%s %s*' % (M1, X), False), ('directory wildcard', '%s/* *' % D1, True), ('directory wildcard other', '%s/* *' % D2, False),
        ('directory wildcard absolute', '/%s/* %s' % (R, F), True), ('comment', '#%s %s' % (M1, F), False), ('comment space', '# %s %s' % (M1, F), False),
        ('comment then', '# %s\n\n  \n\t\n%s %s\n' % (X, M1, F), True), ('second line', '%s %s\n%s %s\n' % (M2, F, M1, F), True),
        ('first line', '%s %s\n%s %s\n' % (M1, F, M2, F), True), ('first of three', '%s %s\n%s %s\n%s %s\n' % (M1, F, M1, X, M2, F), True),
        ('spaces', '%s   %s  \n' % (M1, F), True), ('other functions', '%s %s\n%s %s\n' % (M1, X, M1, EXC), False),
        ('module wildcard extension', '%s.* %s' % (M1, F), True), ('wildcard extension only', '*.c %s' % F, True), ('wildcard other extension', '*.cpp %s' % F, False),
        ('three lines', '%s %s\n%s %s\n%s %s' % (M1, X, M1, F, M1, EXC), True)]
    for k, text, hit in cases:
        for o, opt in (('include', 'vfclibinst-include-file'), ('exclude', 'vfclibinst-exclude-file')):
            for s, sn in ((src, 'absolute source'), ('%s/%s.c' % (D1, M1), 'relative source')):
                h = hit
                if sn.startswith('relative') and text.lstrip('#').startswith('/'):
                    continue
                attempt(rep, u, wmod, 'syntax/%s/%s/%s' % (o, k, sn), [F], [F] if h == (o == 'include') else [], src=s,
                        options={opt: 'S'}, files={'S': text}, why='%s file with "%s" (%s)' % (o, pretty(text).replace('\n', '\\n'), sn))
    I = {'vfclibinst-include-file': 'S'}
    for ext in ('c', 'cpp', 'f90', 'F', 'cc', A[31]):
        attempt(rep, u, wmod, 'syntax/source extension %s' % (ext if ext.isascii() else 'any'), [F], [F], src='/%s/%s.%s' % (R, M1, ext), options=I,
                files={'S': '%s %s' % (M1, F)}, why='module given without extension')
    attempt(rep, u, wmod, 'syntax/dotted directory', [F], [F], src='/%s/%s.%s/%s.c' % (R, D1, X, M1), options=I, files={'S': '%s.%s/%s %s' % (D1, X, M1, F)},
            why='module without extension in a directory with a dot')
    attempt(rep, u, wmod, 'syntax/dotted module', [F], [F], src='/%s/%s.%s.c' % (R, M1, X), options=I, files={'S': '%s.%s.c %s' % (M1, X, F)}, why='module with two dots')
    attempt(rep, u, wmod, 'syntax/adjacent dots', [F + '..' + X, F + '.' + A[30] + X, F + A[30] + '.' + X, F + A[30] + A[29] + X], [F + '..' + X], options=I,
            files={'S': '%s %s..%s' % (M1, F, X)}, why='two adjacent dots in a function name')
    attempt(rep, u, wmod, 'syntax/dot and wildcard', [F + '.' + X, F + '.', F + X], [F + '.' + X, F + '.'], options=I,
            files={'S': '%s %s.*' % (M1, F)}, why='a dot followed by a wildcard')
    attempt(rep, u, wmod, 'syntax/many lines', [F], [F], options=I, files={'S': ''.join('%s %s%s\n' % (M1, A[k], X) for k in range(20)) + '%s %s\n' % (M1, F)}, why='many lines')
    # literal dots
    attempt(rep, u, wmod, 'syntax/dot in function', [F + '.' + X, F + A[30] + X], [F + '.' + X], options={'vfclibinst-include-file': 'S'}, files={'S': '%s %s.%s' % (M1, F, X)}, why='a dot in a function name')
    attempt(rep, u, wmod, 'syntax/dot in module', [F], [], src='/%s/%s%sc' % (R, M1, A[30]), options={'vfclibinst-include-file': 'S'}, files={'S': '%s.c %s' % (M1, F)}, why='a dot in a module name')
    attempt(rep, u, wmod, 'syntax/two wildcards', [F + X, X + F], [F + X], options={'vfclibinst-include-file': 'S'}, files={'S': '%s %s*%s*' % (M1, F[:1], X)}, why='two wildcards in a function name')

def run(rep, tier):
    rep.assumptions += ['std::regex and the LLVM path functions behave as documented', 'the current directory can be determined']
    try:
        u = cxx.Unit(c06.PASS, REPO)
        wmod, _ = c06.wrapper('sse2', ())
        table(rep, u, wmod)
        syntax(rep, u, wmod)
        rep.floor('selection cases', 100)
    except (Unk, BuildError) as e:
        rep.unknown('pass', str(e))
