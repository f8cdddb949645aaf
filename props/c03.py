"""C03: no one-time key is used twice; exhausted keys refuse to sign."""
from vx import oids
from . import common as cm, fastcore

KINDS = {'index', 'exhaust', 'leak', 'wrap', 'vacuous', 'termination', 'frame', 'spec', 'refuse'}
TAGS = {'exhaust', 'erase', 'index', 'seedskept', 'leak', 'embed', 'skmem', 'crash', 'sanitizer', 'params', 'apioid'}

def check(c):
    c.programs('ref', 'fast')
    ws = [w for w in fastcore.windows('quick') if w[7] or w[1] <= 20]
    c.prove([cm.Task('sign n=%d h=%d d=%d' % s, cm.t_sign, s) for s in cm.SHAPES]
            + [cm.Task('wrapper sign %s mt=%d' % (v, m), cm.t_wrap, ('sign', m, v)) for m in (0, 1) for v in ('ref', 'fast')]
            + fastcore.tasks_refuse() + [cm.Task('fast window n=%d h=%d d=%d low=%d' % w[:4], fastcore.t_fwindow, w) for w in ws], total=450)
    trouble = c.fails() or c.unsup()
    N = c.native
    N.build('href', ['harness.c', 'oracle.c'], False)
    N.build('hfast', ['harness.c', 'oracle.c'], True)
    b = 60 if c.tier == 'thorough' else 15 if trouble else 4
    jobs = cm.sign_jobs('href', c.seed, b, cm.SMALL + [(0, 24, 16, 40, 8, 0), (0, 32, 16, 60, 12, 0), (0, 32, 16, 8, 2, 0)])
    jobs += [('hfast', ['sign', c.seed * 100 + i] + list(p) + [0, 5000, 0, 20]) for i, p in enumerate(cm.FASTCFG)]
    out = N.run_many(jobs, limit=240 if c.tier == 'quick' else 800)
    hits = [(j, t, d) for j, fl, n in out for t, d in fl if t in TAGS]
    c.bounded.append('complete key life cycles (every index to exhaustion and beyond) of small trees, reference and fast implementation')
    return c.finish(KINDS, hits)
