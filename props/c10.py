"""C10: opening hostile input is memory-safe and releases nothing unverified."""
from vx import oids
from . import common as cm

KINDS = {'clear', 'memory', 'uninitialised', 'frame', 'termination'}
TAGS = {'clear', 'memory', 'sanitizer', 'crash'}

def check(c):
    c.programs('ref')
    sh = sorted(oids.SHAPES, key=lambda x: -x[0] * x[2])
    tasks = [cm.Task('open n=%d h=%d d=%d' % s, cm.t_open, s) for s in sh]
    tasks += [cm.Task('wrapper mt=%d' % m, cm.t_wrap_open, (m,)) for m in (0, 1)]
    c.prove(tasks)
    trouble = c.fails() or c.unsup()
    N = c.native
    N.build('href', ['harness.c', 'oracle.c'], False)
    N.build('hsan', ['harness.c', 'oracle.c'], False, san=True)
    b = 60 if c.tier == 'thorough' else 20 if trouble else 1
    jobs = []
    for i, p in enumerate(cm.SMALL + cm.DEEP):
        jobs.append(('href', ['verify', c.seed * 100 + i] + list(p) + [b]))
        if i < 6:
            jobs.append(('hsan', ['verify', c.seed * 100 + 50 + i] + list(p) + [b]))
    jobs += cm.hint_jobs(c, 'href') + cm.hint_jobs(c, 'hsan')
    out = N.run_many(jobs, limit=300 if c.tier == 'quick' else 800)
    hits = [(j, t, d) for j, fl, n in out for t, d in fl if t in TAGS]
    c.bounded.append('concrete runs of opening with exact-size guarded buffers, also under AddressSanitizer/UBSan: boundary indices, mutations, truncations, extensions')
    return c.finish(KINDS, hits)
