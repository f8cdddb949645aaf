"""Proof tasks about the fast (BDS) implementation."""
from vx import top, bds, ver, terms as tm
from vx.spec import Cfg, v2b
from vx.terms import var
from .common import mkctx, settle, SHAPES, Task

def fn(op, d):
    return ('xmssmt_core_' if d > 1 else 'xmss_core_') + op

def skbytes(rec, ctx, K=0):
    """the declared length is what the state needs"""
    inv = bds.Inv(ctx, K); c = ctx.cfg
    z = len(inv.key(0, c.full_height).sk)
    got = ver.get_field(ctx.prog, ctx.pbytes, 'sk_bytes')
    rec.obl['sk_bytes'] = rec.obl.get('sk_bytes', 0) + 1
    if got != z:
        rec.fails.append(('state', 'sk_bytes is %s, the traversal state of n=%d h=%d d=%d k=%d needs %d' % (got, c.n, c.full_height, c.d, K, z)))

def t_fkeypair(env, rec, n, h, d, K=0):
    """fast key generation: layout, root, seeds and INV(0), for every seed"""
    ctx = mkctx(env, Cfg(n, h, d), 'fast', bds_k=K)
    rep = top.Report()
    skbytes(rec, ctx, K)
    rec.guard(fn('keypair', d), bds.verify_keypair, ctx, fn('keypair', d), rep, K)
    settle(rec, ctx, fn('keypair', d), rep, {'post', 'state'})

def t_frefuse(env, rec, n, h, d):
    """every index beyond the last usable one, every content of the state"""
    cfg = Cfg(n, h, d)
    ctx = mkctx(env, cfg, 'fast')
    z = ver.get_field(ctx.prog, ctx.pbytes, 'sk_bytes') - cfg.sk_bytes
    k = top.Key(cfg, v2b(var('state', 8 * z), z))
    rep = top.Report()
    rec.guard(fn('sign', d), top.verify_sign, ctx, fn('sign', d), rep, (), k, None, {'refuse'}, [top.unusable(cfg, k.idx)], 'fast: every unusable index')
    settle(rec, ctx, fn('sign', d), rep, {'sig'})

def t_fwindow(env, rec, n, h, d, low, lw, steps, K=0, top_=False):
    """signing `steps` times from INV(idx), idx = low below symbolic digits (or, top_, all ones)"""
    cfg = Cfg(n, h, d)
    ctx = mkctx(env, cfg, 'fast', bds_k=K)
    inv = bds.Inv(ctx, K)
    pc = []
    hi = None
    if lw < h:
        if top_:
            hi = (1 << (h - lw)) - 1
        else:
            v = var('hi', h - lw)
            pc = [tm.ult(v, (1 << (h - lw)) - 1, h - lw)]
    rep = top.Report()
    def go():
        k = inv.key(low, lw, hi)
        n = bds.chain(ctx, fn('sign', d), rep, k, steps, pc, 'from INV, low digits %d' % low)
        rec.obl['signatures'] = rec.obl.get('signatures', 0) + (n or 0)
    rec.guard(fn('sign', d), go)
    settle(rec, ctx, fn('sign', d), rep, {'sig', 'state'})

def t_flife(env, rec, n, h, d, steps, K=0):
    """key generation, then signing `steps` times (to exhaustion if that is the end)"""
    ctx = mkctx(env, Cfg(n, h, d), 'fast', bds_k=K)
    rep = top.Report()
    def go():
        k = bds.verify_keypair(ctx, fn('keypair', d), rep, K)
        if not rep.fails:
            m = bds.chain(ctx, fn('sign', d), rep, k, steps, (), 'from key generation')
            rec.obl['signatures'] = rec.obl.get('signatures', 0) + m
    rec.guard(fn('sign', d), go)
    settle(rec, ctx, fn('sign', d), rep, {'sig', 'state', 'post'})

def windows(tier):
    """(n, h, d, low, lw, steps, K, top): windows over tree and layer boundaries"""
    q = tier == 'quick'
    out = []
    ns = (24,) if q else (24, 32, 64)
    for n in ns:
        for h, d in ((60, 12), (40, 8)) + (() if q else ((20, 4),)):
            T = h // d
            for b in range(1, d):
                # layers 1..b at their last leaf, layer b + 1 even; from the middle of layer 0
                lw = min(h, T * (b + 1) + 1)
                low = sum(((1 << T) - 1) << (T * L) for L in range(1, b))
                low |= 16
                if b == d - 1:
                    lw = h; low = ((1 << h) - 1) ^ (1 << T * (d - 1)) ^ ((1 << T) - 1) | 16
                out.append((n, h, d, low, lw, 30 if q else 80, 0, False))
            # the last trees: no NEXT trees
            out.append((n, h, d, 16, T + 1, 30, 0, True))
            # settled upper layers, one whole tree on layer 0
            out.append((n, h, d, 0, T + 1, 40, 0, False))
        for h, d in ((40, 4), (60, 6), (20, 2), (40, 2), (60, 3)):
            T = h // d
            for b in range(1, d if not q else 2):
                lw = min(h, T * (b + 1) + 1) if b < d - 1 else h
                low = sum(((1 << T) - 1) << (T * L) for L in range(1, b)) | ((1 << T) - 8)
                out.append((n, h, d, low, lw, 20 if q else 60, 0, False))
        for h in (10, 16, 20):
            for low in (0, (1 << h - 1) - 8, (1 << h) - 12):
                out.append((n, h, 1, low, h, 24 if q else 80, 0, False))
    return [w for w in out if w[4] <= w[1]]

def tasks_keypair(shapes=None):
    return [Task('fast keypair n=%d h=%d d=%d' % s, t_fkeypair, s) for s in (shapes or SHAPES)]

def tasks_refuse():
    return [Task('fast refuse n=%d h=%d d=%d' % s, t_frefuse, s) for s in SHAPES]

def tasks_windows(tier):
    return [Task('fast window n=%d h=%d d=%d low=%d/%d k=%d%s' % (w[0], w[1], w[2], w[3], w[4], w[6], ' last trees' if w[7] else ''), t_fwindow, w) for w in windows(tier)]

def prove(c):
    ts = []
    ts += [Task('fast life n=24 h=9 d=3 k=0', t_flife, (24, 9, 3, 600 if c.tier == 'thorough' else 90)), Task('fast life n=24 h=6 d=1 k=2', t_flife, (24, 6, 1, 70, 2)),
           Task('fast life n=32 h=8 d=2 k=2', t_flife, (32, 8, 2, 300 if c.tier == 'thorough' else 60, 2))]
    if c.tier == 'thorough':
        ts += [Task('fast life n=24 h=10 d=1', t_flife, (24, 10, 1, 1100), limit=800)]
    ts += tasks_keypair([s for s in SHAPES if s[0] == 24 or c.tier == 'thorough']) + tasks_windows(c.tier)
    c.prove(ts, total=420 if c.tier == 'quick' else 840)
