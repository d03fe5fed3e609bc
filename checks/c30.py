"""C30: the configurations a delta-debug search reports are minimal failing sets, stored as documented."""
from checks import c28

TECH = ('static analysis: abstract interpretation of the delta-debug driver over its syntax tree, partitioned on the outcome function of the program; processes and '
        'files are modelled')
NOTE = ('complete over all 64 outcome functions for three lines and all 166 monotone ones (antichains of minimal failing sets) for four lines, for every search variant; the thorough tier adds all 16384 outcome functions for four lines; '
        'more lines are not covered, stochastic outcomes are C28.')
RULE = ('For every outcome function: each reported ddminX fails, passes without any one of its lines, is disjoint from the others; the reported complement is '
        'the rest of the lines and passes; the dd.line.include / dd.line.exclude files behind the link of a reported configuration list exactly its lines / the others.')
KEYS = c28.SHAPE | {'reported configuration failed', 'complement passed', 'search ends', 'ddmax reported', 'one directory per configuration'}

def jobs(tx, tier):
    for v in range(len(c28.VARIANTS)):
        for bits in range(64):
            yield ('det', tx, v, {'INTERFLOP_DD_NRUNS': '1'}, bits, None)
            yield ('det', tx, v, {'INTERFLOP_DD_NRUNS': '3', 'INTERFLOP_DD_NUM_THREADS': '3'}, bits, None)
        for fam in c28.monotone(): yield ('mono', tx, v, {'INTERFLOP_DD_NRUNS': '1'}, fam, None)
        if tier == 'thorough':
            for bits in range(1 << 14):
                if v == 0 or bits % 9 + 1 == v: yield ('det4', tx, v, {'INTERFLOP_DD_NRUNS': '1'}, bits, None)

def run(rep, tier):
    c28.run(rep, tier, lambda k: k in KEYS, jobs)
    rep.rule = RULE
