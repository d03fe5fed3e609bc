"""C22: a failing step of the compiler driver is reported."""
import itertools
from engine import driver
from engine.driver import Run, Cmd
from engine.pyabs import Unk
from checks.c21 import A, B, OUT, LIB, OBJ, OP1, F, show, Judge

TECH = ('static analysis: abstract interpretation of the compiler driver over its syntax tree; at each command the run forks into success and failure, '
        'temporary files are tracked as a typestate (created, closed, removed)')
NOTE = ('every command of every mode and option combination that changes the sequence of commands, with failure by status and by signal, with and without the '
        'output file left behind. Killing the driver itself is not covered.')
RULE = ('On the path where command k fails, the driver must end with a non-zero status, run no further compiler, optimiser or linker command, and leave no '
        'temporary file unless --save-temps was given; on the path where all succeed it must end with status 0 and leave none either; every command must '
        'read only files that exist and that this run has written.')

def run(rep, tier):
    rep.rule = RULE
    j = Judge(rep)
    t = driver.text(18)
    S = [A + '.c', B + '.c']
    modes = {'link': (S, []), 'link one': (S[:1], []), '-c': (S[:1], ['-c']), '-c many': (S, ['-c']), '--emit-llvm': (S[:1], ['--emit-llvm']), '-E': (S[:1], ['-E']), '-S': (S[:1], ['-S']),
             'assembly': ([A + '.s', B + '.c'], []), 'prism': (S, ['--prism-backend=ud']), 'prism -c': (S, ['--prism-backend=sr', '-c'])}
    flags = ['--inst-func', '--save-temps', '--show-cmd'] + (['--static', '--ddebug'] if tier == 'thorough' else [])
    for name, (srcs, m) in modes.items():
        for bits in range(1 << len(flags)):
            on = [f for i, f in enumerate(flags) if bits >> i & 1]
            argv = on + m + srcs + ['-O2'] + (['-l' + LIB] if name == 'link' else [])
            save = '--save-temps' in on
            def one(fail):
                r = Run(argv, fail=fail, user=srcs, tmpl=t)
                try: res = r.go()
                except Unk as e:
                    j.dead.add('line %d: %s' % (r.it.line, e)); return None, r
                rep.count('abstract paths')
                return res, r
            res, r = one({})
            if res is None: continue
            j.need(res.exit == 0, 'success status', r.it.line, 'all commands succeed but the driver ends with status %d %s' % (res.exit, getattr(res, 'crash', '')), argv)
            if not save: j.need(not res.left, 'temporary files after success', r.it.line, 'temporary files remain: %s' % show(res.left), argv)
            rep.count('commands', len(res.cmds))
            # files read exist: every temporary read was written by an earlier command and not removed
            written = set(srcs)
            for w, line in zip(res.cmds, res.where):
                c = Cmd(w)
                for f in c.inputs + [v for k, v in c.inst if k == 'vfclibinst-vfcwrapper-file']:
                    if f in res.temps: j.need(f in written, 'temporary file written before use', line, '%s is read before any command wrote it' % show(f), argv)
                if c.out: written.add(c.out)
            for k in range(len(res.cmds)):
                for st, keep in ((1, True), (1, False), (-11, True), (254, False)):
                    x, r = one({k: (st, keep)})
                    if x is None: continue
                    c = Cmd(res.cmds[k])
                    what = 'command %d (%s)' % (k + 1, show(res.cmds[k][0]))
                    j.need(x.exit != 0, 'status after failure of ' + c.tool, res.where[k], '%s fails with status %d but the driver ends with status 0' % (what, st), argv)
                    later = [w for w in x.cmds[k + 1:] if w[0].startswith('/llvm/')]
                    j.need(not later, 'stop after failure of ' + c.tool, res.where[k], '%s fails with status %d but the driver goes on with: %s' % (what, st, show(later[0]) if later else ''), argv)
                    if not save: j.need(not x.left, 'temporary files after failure', res.where[k], '%s fails and temporary files remain: %s' % (what, show(x.left)), argv)
    for k in j.dead: rep.unknown('compiler driver', k)
    rep.floor('abstract paths', 1000)
