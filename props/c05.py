"""C05: the fast (BDS) signer signs like the reference signer."""
from . import common as cm

KINDS = {'sig', 'index', 'exhaust', 'smlen', 'message', 'post', 'wrap', 'frame', 'vacuous', 'termination', 'memory', 'undefined', 'uninitialised', 'next', 'spec'}
TAGS = {'sig', 'root', 'refuse', 'index', 'seedskept', 'erase', 'keygen', 'embed', 'open', 'verify', 'exhaust', 'layout', 'skmem', 'keymem', 'seeds', 'params',
        'roundtrip', 'smlen', 'message', 'crash', 'sanitizer', 'apioid'}
LABELS = ('prf', 'hash_message', 'gen_leaf_wots', 'thash_h', 'wots_sign')
# n H d k steps: complete lives from key generation to exhaustion (steps 0)
LIFE = [(24, 20, 1, 0, 0), (32, 20, 4, 0, 0), (24, 20, 2, 0, 0), (64, 16, 1, 0, 0), (32, 16, 1, 0, 0), (24, 10, 1, 0, 0), (32, 10, 1, 0, 0), (64, 10, 1, 0, 0),
        (24, 6, 1, 2, 0), (32, 8, 2, 2, 0), (24, 9, 3, 1, 0), (64, 12, 4, 1, 0), (24, 8, 2, 0, 0), (32, 15, 3, 1, 0), (24, 12, 2, 2, 0), (32, 18, 3, 0, 100000), (24, 20, 4, 1, 100000),
        (32, 20, 4, 3, 100000), (24, 16, 4, 0, 0), (32, 18, 6, 1, 100000), (64, 16, 2, 2, 0)]
# n H d first count steps: layer boundaries at deep indices
def jumps(rounds, seed):
    out = []
    for r in range(rounds):
        s = seed + r
        for f in range(0, 96, 24):
            out.append((24, 20, 4, s, f, 24))
        for f in range(0, 224, 56):
            out.append((32, 40, 8, s, f, 56))
        for f in range(0, 396, 66):
            out.append((24, 60, 12, s, f, 66))
        for f in range(0, 30, 10):
            out.append((64, 40, 4, s, f, 10)); out.append((32, 60, 6, s, f, 10))
        out += [(24, 40, 2, s, 0, 20, 6000), (32, 60, 3, s, 0, 30, 6000), (64, 20, 2, s, 0, 8)]
    return out

def label_jobs(c, bounded_steps=0, rounds=1):
    N = c.native
    N.build('hlab', ['bds.c'], True, defs=('XMSSMT',), wrap=LABELS)
    N.build('hlabsan', ['bds.c'], True, defs=('XMSSMT',), wrap=LABELS, san=True)
    jobs = []
    for l in LIFE:
        jobs.append(('hlab', ['life'] + list(l[:4]) + [l[4] or bounded_steps, c.seed]))
    for j in jumps(rounds, c.seed):
        jobs.append(('hlab', ['jump'] + list(j)))
    for l in ((24, 10, 1, 0, 0), (32, 6, 2, 1, 0), (24, 9, 3, 0, 0), (64, 8, 2, 2, 0), (24, 20, 4, 0, 3000)):
        jobs.append(('hlabsan', ['life'] + list(l[:4]) + [l[4], c.seed]))
    jobs += [('hlabsan', ['jump', 24, 60, 12, c.seed, 0, 12]), ('hlabsan', ['jump', 32, 40, 8, c.seed, 3, 8])]
    return jobs

def real_jobs(c, reps=1):
    N = c.native
    N.build('hfast', ['harness.c', 'oracle.c'], True)
    N.build('hfsan', ['harness.c', 'oracle.c'], True, san=True)
    jobs = []
    for r in range(reps):
        for i, p in enumerate(cm.FASTCFG):
            jobs.append(('hfast', ['sign', c.seed * 100 + i + 31 * r] + list(p) + [0, 5000, 1, 20]))
        jobs.append(('hfsan', ['sign', c.seed * 100 + 31 * r] + list(cm.FASTCFG[3]) + [0, 80, 1, 20]))
    for o, m in ((1, 0), (2, 1), (1, 1)):
        jobs.append(('hfast', ['api', c.seed, m, hex(o)]))
    return jobs

def check(c):
    c.programs('ref', 'fast')
    from . import fastcore
    fastcore.prove(c)
    trouble = c.fails() or c.unsup()
    th = c.tier == 'thorough'
    jobs = label_jobs(c, rounds=6 if th else 2 if trouble else 1) + real_jobs(c, 4 if th else 1)
    out = c.native.run_many(jobs, limit=800 if th else 330)
    hits = [(j, t, d) for j, fl, n in out for t, d in fl if t in TAGS]
    c.bounded.append('traversal of the real xmss_core_fast.c with the hash functions replaced by node labels (parametric in the seeds): every index to exhaustion for H up to 20, '
                     'windows across layer boundaries at constructed deep states for H = 40 and 60, several bds_k')
    c.bounded.append('complete lives of small trees with the real hash functions against an independent implementation, byte for byte')
    return c.finish(KINDS, hits)
