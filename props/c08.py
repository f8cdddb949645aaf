"""C08: SHAKE128 and SHAKE256 are FIPS 202 for every input and output length."""
import time
from vx import keccak, shake
from vx.sym import Solver
from . import common as cm

KINDS = {'perm', 'post', 'memory', 'frame', 'uninitialised', 'termination'}
TAGS = {'shake', 'crash', 'sanitizer'}

def t_shake(env, rec, runs):
    prog = env['ref']
    so = Solver()
    for (what, args) in runs:
        t0 = time.time(); n0 = len(rec.fails) + len(rec.unsup)
        if what == 'perm':
            r = rec.guard('KeccakF1600_StatePermute', keccak.verify_permutation, prog, so, env.get('deadline'))
            ex = r[0] if r else None; nm = 'KeccakF1600_StatePermute'; cfg = 'all 2^1600 states'
        else:
            nm = {'absorb': 'keccak_absorb', 'squeeze': 'keccak_squeezeblocks'}.get(what) or args[0]
            cfg = str(args)
            ex = rec.guard('%s %s' % (nm, cfg), getattr(shake, what), prog, so, *args)
        nob = 0
        if ex is not None:
            for k, v in ex.obl.items():
                rec.obl[k] = rec.obl.get(k, 0) + v; nob += v
            rec.inlined |= ex.inlined
        rec.recs.append((nm, cfg, 'ref', len(rec.fails) + len(rec.unsup) == n0, round(time.time() - t0, 2), nob, None))
        if len(rec.fails) > 3:
            break
    for k, v in so.stats.items():
        rec.stats[k] = rec.stats.get(k, 0) + v

def check(c):
    c.programs('ref')
    ts = [cm.Task('permutation', t_shake, ([('perm', ())],))]
    for nm, r in (('shake128', 168), ('shake256', 136)):
        ts.append(cm.Task('blocks, rate %d' % r, t_shake, ([('absorb', (r, 'step', 0)), ('squeeze', (r, 'step')), ('squeeze', (r, 'end'))],)))
        for k in range(0, r, 12):
            ts.append(cm.Task('last block, rate %d, %d..' % (r, k), t_shake, ([('absorb', (r, 'end', R)) for R in range(k, min(k + 12, r))],)))
        for k in range(0, r, 50):
            ts.append(cm.Task('%s, last part of the output %d..' % (nm, k), t_shake, ([('shake', (nm, r, R)) for R in range(k, min(k + 50, r))],)))
    c.prove(ts)
    trouble = c.fails() or c.unsup()
    c.native.build('unit', ['unit.c', 'oracle.c'], False)
    c.native.build('usan', ['unit.c', 'oracle.c'], False, san=True)
    b = 60 if c.tier == 'thorough' else 15 if trouble else 2
    jobs = [('unit', ['shake', c.seed * 10 + i, b]) for i in range(3)] + [('usan', ['shake', c.seed * 10 + 5, b])]
    out = c.native.run_many(jobs)
    big = []
    if (trouble and not any(t in TAGS for _, fl, _ in out for t, _ in fl)) or c.tier == 'thorough':
        big = c.native.run_many([('unit', ['shakebig', c.seed + i, i]) for i in range(4)], par=2)
    hits = [(j, t, d) for j, fl, n in out + big for t, d in fl if t in TAGS]
    c.bounded.append('concrete cross-check against OpenSSL: every input length 0..420 and random ones to 6000, 20 output lengths around multiples of the rates')
    c.assumptions.append('input and output are separate objects; input below 2^62 bytes')
    return c.finish(KINDS, hits)
