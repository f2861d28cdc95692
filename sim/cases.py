"""Random invocations of the scripts (for the properties about input and output)"""
from . import gen, model, programs

ODD_COMMENTS = ['(caf\u00e9)', '; na\u00efve \u2014 dash', '(\u65e5\u672c\u8a9e)', '(a\u2028b)', '(tab\there)', '(\U0001f600)',
                '(vt\x0bff\x0c)', '; x\x1cy', '(nel\x85)', ';;', '()', '( )']


def norm_case(rng, n, valid=False):
    mode = rng.choice(programs.NORM_MODES[:4])
    expand = rng.random() < 0.4
    feats = gen.swarm(rng, always=['modal', 'comment', 'macro'] + (['canned', 'arc'] if expand else []))
    g = gen.Gen(rng, feats, 'XYZ', machine=programs.controller(mode), small=expand, fullcanned=expand)
    lines = g.program(n)
    args = []
    for (o, p) in (('-s', 0.4), ('-f', 0.4), ('-rc', 0.2), ('-rb', 0.2), ('-rws', 0.2)):
        if rng.random() < p:
            args.append(o)
    if mode != programs.NORM_MODE:
        args += ['-mm', mode]
    if rng.random() < 0.1:
        args += ['-rmg', ','.join(rng.sample(['M3', 'M5', 'M7', 'M9', 'G40', 'G90', 'G91', 'G55'], 2))]
    if rng.random() < 0.15 and not valid:
        # parameters that make no sense are left out
        args.append('-rmim')
        for (i, line) in enumerate(lines):
            if rng.random() < 0.3 and not any(x in line for x in '(;%'):
                lines[i] = line + rng.choice([' E5', ' K3', ' J1 I2', ' Q7', ' H2 E1', ' U1 V2 W3'])
    if expand:
        if rng.random() < 0.8:
            args.append('-al')
            args += ['-alp', rng.choice(['0.5', '0.1', '0.02'])]
            if rng.random() < 0.5:
                args += ['-alm', rng.choice(['i', 'o', 'm', 'i,o', 'm,i'])]
        if rng.random() < 0.8:
            args.append('-ce')
    if rng.random() < 0.3:
        args += rng.sample(['-so', '-zxy', '-zz'], rng.randint(1, 3))
    return {'script': 'pygcode-norm', 'args': ['@'] + args, 'lines': lines}


def crop_case(rng, n):
    g = gen.Gen(rng, gen.swarm(rng, always=['comment', 'macro']), 'XYZ', machine=model.Machine('XYZABC', default_mode=[]))
    lines = g.program(n)
    a = rng.randint(1, max(1, n // 2))
    r = rng.choice(['%d:' % a, '%d:%d' % (a, rng.randint(a, n + 1)), ':', ':%d' % n, 'n>=%d:z<-5' % a, 'x>0:', 'n>1,y<3:n>%d' % (n - 1)])
    return {'script': 'pygcode-crop', 'args': ['@', r], 'lines': lines}


def case(rng, n, valid=False):
    """valid: every line can be processed for what it says"""
    c = norm_case(rng, n, valid) if rng.random() < 0.65 else crop_case(rng, n)
    for (i, line) in enumerate(c['lines']):
        if '(' not in line and ';' not in line and '%' not in line and rng.random() < 0.15:
            c['lines'][i] = line + ' ' + rng.choice(ODD_COMMENTS)
    while c['lines'] and not c['lines'][-1].strip():
        c['lines'].pop()
    if not c['lines']:
        c['lines'] = ['G0 X1']
    if rng.random() < 0.08:
        # much text: more than any buffer holds
        per = rng.choice([3000, 6000, 20000, 70000]) // len(c['lines'])
        for (i, line) in enumerate(c['lines']):
            if '(' not in line and ';' not in line and '%' not in line:
                c['lines'][i] = line + ' (' + ('%04d ' * (per // 5)).replace('%04d', 'abc%d' % (i % 10)) + '.)'
    return c
