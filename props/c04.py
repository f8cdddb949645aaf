"""C04: reference signatures are the RFC 8391 function of key, index, message."""
from vx import oids
from . import common as cm

KINDS = {'sig', 'message', 'smlen', 'wrap', 'memory', 'undefined', 'uninitialised', 'termination', 'vacuous', 'frame', 'spec'}
TAGS = {'sig', 'message', 'embed', 'root', 'signmem', 'skmem', 'crash', 'sanitizer', 'params', 'keygen', 'smlen'}

def check(c):
    c.programs('ref')
    c.prove([cm.Task('sign n=%d h=%d d=%d' % s, cm.t_sign, s) for s in cm.SHAPES] + [cm.Task('wrapper sign mt=%d' % m, cm.t_wrap, ('sign', m)) for m in (0, 1)], total=450)
    trouble = c.fails() or c.unsup()
    N = c.native
    N.build('href', ['harness.c', 'oracle.c'], False)
    N.build('hsan', ['harness.c', 'oracle.c'], False, san=True)
    b = 60 if c.tier == 'thorough' else 20 if trouble else 4
    cfgs = cm.SMALL + ([(0, 32, 16, 20, 4, 0), (2, 24, 16, 60, 12, 0), (0, 24, 16, 40, 8, 0), (1, 32, 16, 10, 1, 0)] if trouble or c.tier == 'thorough' else [(0, 24, 16, 40, 8, 0)])
    jobs = cm.sign_jobs('href', c.seed, b, cfgs, 1) + cm.sign_jobs('hsan', c.seed + 7, b, cm.SMALL[:5], 1)
    out = N.run_many(jobs, limit=240 if c.tier == 'quick' else 800)
    hits = [(j, t, d) for j, fl, n in out for t, d in fl if t in TAGS]
    c.bounded.append('concrete signatures on either side of every subtree boundary of small trees (and 20/4, 40/8, 60/12 when something is undecided), compared byte by byte with an independent implementation')
    return c.finish(KINDS, hits)
