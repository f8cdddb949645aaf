"""C07: hash functions - domain separation, padding, parameters."""
from . import common as cm

KINDS = {'post', 'frame', 'uninitialised', 'memory'}
TAGS = {'hash', 'crash', 'sanitizer'}
COMBOS = [(24, 0), (24, 2), (32, 0), (32, 1), (32, 2), (64, 0), (64, 2)]

def check(c):
    c.programs('ref')
    c.prove([cm.Task('hash n=%d func=%d' % (n, f), cm.t_contracts, (n, 16, f, cm.HASH_VARIANTS)) for n, f in COMBOS])
    trouble = c.fails() or c.unsup()
    c.native.build('unit', ['unit.c', 'oracle.c'], False)
    b = 60 if c.tier == 'thorough' else 20 if trouble else 2
    jobs = []
    if trouble or c.tier == 'thorough':
        jobs = [('unit', ['hashbig', c.seed * 10 + f, 0, f, n, 16]) for n, f in COMBOS]
    out = c.native.run_many(jobs + [('unit', ['hash', c.seed * 10 + f, b, f, n, 16]) for n, f in COMBOS])
    hits = [(j, t, d) for j, fl, n in out for t, d in fl if t in TAGS]
    c.bounded.append('concrete cross-check of the five functions against an independent implementation over OpenSSL')
    return c.finish(KINDS, hits)
