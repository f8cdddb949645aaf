"""C11: key generation layout, root, seeds."""
from vx import oids
from . import common as cm, fastcore

KINDS = {'post', 'determined', 'sig', 'wrap', 'memory', 'undefined', 'uninitialised', 'termination', 'vacuous', 'frame', 'spec'}
TAGS = {'determined', 'keygen', 'keymem', 'seeds', 'layout', 'root', 'crash', 'sanitizer', 'params'}

def check(c):
    c.programs('ref', 'fast')
    ts = fastcore.tasks_keypair()
    c.prove(ts + [cm.Task('keypair n=%d h=%d d=%d' % s, cm.t_keypair, s) for s in cm.SHAPES]
            + [cm.Task('wrapper keypair %s mt=%d' % (v, m), cm.t_wrap, ('keypair', m, v)) for m in (0, 1) for v in ('ref', 'fast')], total=450)
    trouble = c.fails() or c.unsup()
    N = c.native
    N.build('href', ['harness.c', 'oracle.c'], False, defs=('HAVE_SEEDKP',))
    N.build('hsan', ['harness.c', 'oracle.c'], False, san=True, defs=('HAVE_SEEDKP',))
    N.build('hfast', ['harness.c', 'oracle.c'], True)
    N.build('hfsan', ['harness.c', 'oracle.c'], True, san=True)
    b = 20
    jobs = []
    for r in range(3 if trouble or c.tier == 'thorough' else 1):
        for i, p in enumerate(cm.SMALL):
            jobs.append(('href', ['sign', c.seed * 100 + i + 31 * r] + list(p) + [0, 1, 1, b]))
            jobs.append(('href', ['seedkp', c.seed * 100 + i + 31 * r] + list(p)))
            jobs.append(('hsan', ['sign', c.seed * 100 + i + 31 * r] + list(p) + [0, 1, 1, b]))
        for i, p in enumerate(cm.FASTCFG):
            jobs.append(('hfast', ['sign', c.seed * 100 + i + 31 * r] + list(p) + [0, 2, 1, b]))
            jobs.append(('hfsan', ['sign', c.seed * 100 + i + 31 * r] + list(p) + [0, 2, 1, b]))
    for o, m in ((1, 0), (7, 0), (0x11, 0), (0x22, 1), (2, 1), (6, 1), (8, 1), (0xd, 1)):
        if trouble or c.tier == 'thorough' or o in (1, 2, 8):
            jobs.append(('hfast', ['api', c.seed, m, hex(o)]))
    out = N.run_many(jobs, limit=240 if c.tier == 'quick' else 800)
    hits = [(j, t, d) for j, fl, n in out for t, d in fl if t in TAGS]
    c.bounded.append('key generation of both implementations run on small trees and by OID: layout, seeds, root against an independent implementation, memory guards, AddressSanitizer')
    return c.finish(KINDS, hits)
