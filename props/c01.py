"""C01: verification accepts exactly what the standard accepts."""
from vx import oids
from vx.run import Task
from . import common as cm

KINDS = {'accept'}
TAGS = {'accept', 'params', 'api'}

def native(c, budget, slow):
    N = c.native
    N.build('href', ['harness.c', 'oracle.c'], False)
    jobs = []
    for i, p in enumerate(cm.SMALL + cm.DEEP):
        jobs.append(('href', ['verify', c.seed * 100 + i] + list(p) + [budget]))
    jobs.append(('href', ['api', c.seed, 1, 0x2, 1, 0xa, 1, 0x18, 1, 0x28, 1, 0x38]))
    jobs = cm.hint_jobs(c, 'href') + jobs
    return jobs

def check(c, kinds=KINDS, tags=TAGS):
    env = c.programs('ref')
    sh = sorted(oids.SHAPES, key=lambda x: -x[0] * x[2])
    tasks = [cm.Task('open n=%d h=%d d=%d' % s, cm.t_open, s) for s in sh]
    tasks += [cm.Task('wrapper mt=%d' % m, cm.t_wrap_open, (m,)) for m in (0, 1)]
    c.prove(tasks)
    trouble = c.fails() or c.unsup()
    b = 1.0 if not trouble else 20.0
    if c.tier == 'thorough':
        b = 60.0
    out = c.native.run_many(native(c, b, trouble), limit=300 if c.tier == 'quick' else 800)
    hits = [(j, t, d) for j, fl, n in out for t, d in fl if t in tags]
    c.bounded.append('concrete cross-check of opening against an independent RFC 8391 implementation (boundary indices, mutations, truncations) on %d small and real parameter sets' % len(cm.SMALL + cm.DEEP))
    return c.finish(kinds, hits)
