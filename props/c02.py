"""C02: every signature the signer returns opens under its public key."""
from vx import oids
from . import common as cm, c06

KINDS = {'sig', 'message', 'smlen', 'index', 'accept', 'wrap', 'lemma', 'post', 'memory', 'undefined', 'uninitialised', 'termination', 'vacuous', 'spec'}
TAGS = {'roundtrip', 'smlen', 'message', 'api', 'crash', 'sanitizer', 'params', 'keygen'}

def check(c):
    c.programs('ref')
    ts = []
    for s in cm.SHAPES:
        ts.append(cm.Task('sign n=%d h=%d d=%d' % s, cm.t_sign, s))
    for s in cm.SHAPES:
        ts.append(cm.Task('open n=%d h=%d d=%d' % s, cm.t_open, s))
        ts.append(cm.Task('sign-open lemma n=%d h=%d d=%d' % s, cm.t_roundtrip, s))
    ts += [cm.Task('WOTS lemma n=%d' % n, c06.t_lemma, (n, 16)) for n in (24, 32, 64)]
    ts += [cm.Task('wrapper %s mt=%d' % (o, m), cm.t_wrap, (o, m)) for m in (0, 1) for o in ('sign', 'keypair')] + [cm.Task('wrapper open mt=%d' % m, cm.t_wrap_open, (m,)) for m in (0, 1)]
    c.prove(ts, total=450)
    trouble = c.fails() or c.unsup()
    N = c.native
    N.build('href', ['harness.c', 'oracle.c'], False)
    N.build('hfast', ['harness.c', 'oracle.c'], True)
    b = 60 if c.tier == 'thorough' else 20 if trouble else 4
    jobs = cm.sign_jobs('href', c.seed, b, cm.SMALL + [(0, 24, 16, 40, 8, 0), (0, 32, 16, 60, 12, 0)], 0)
    jobs += [('hfast', ['sign', c.seed * 100 + i] + list(p) + [0, 5000, 0, 20]) for i, p in enumerate(cm.FASTCFG)]
    out = N.run_many(jobs, limit=240 if c.tier == 'quick' else 800)
    hits = [(j, t, d) for j, fl, n in out for t, d in fl if t in TAGS]
    c.bounded.append('sign-then-open runs on the real code, reference and fast implementation, around every subtree boundary')
    return c.finish(KINDS, hits)
