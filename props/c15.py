"""C15: the traversal state survives the secret key and fits it."""
import os
from vx import ver, top, bds, terms as tm
from vx.run import VERIF, REPO
from vx.spec import Cfg, v2b
from vx.sym import State, Fail, Unsupported, Ptr, UNDEF
from vx.terms import var
from . import common as cm, fastcore, c05

KINDS = {'state', 'roundtrip', 'memory', 'undefined', 'uninitialised', 'frame', 'spec'}
TAGS = {'skmem', 'keymem', 'layout', 'seedskept', 'crash', 'sanitizer', 'params', 'state'}
KS = [(24, 10, 1, 2), (32, 12, 3, 2), (24, 9, 3, 1), (64, 10, 2, 3), (32, 20, 4, 3), (24, 10, 2, 5)]

def t_state(env, rec, n, h, d, K=0):
    cfg = Cfg(n, h, d)
    prog = env['wrap']
    ctx = ver.Ctx(prog, cfg, K)
    ctx.deadline = env.get('deadline')
    fastcore.skbytes(rec, ctx, K)
    z = ver.get_field(prog, ctx.pbytes, 'sk_bytes')
    T = cfg.h; S = 2 * d - 1; I = S * (T - K)
    nob = [0]
    def run(name, mkargs):
        ex = ctx.exec_(skip=())
        ex.contracts = {}
        st = State(); st.pc = list(ctx.base_pc)
        p = ctx.params(ex, st)
        skv = v2b(var('sk', 8 * z), z)
        sk = ex.new(st, 'sk', z, 'arg', list(skv))
        more = mkargs(ex, st)
        res = ex.call(st, name, [p, sk] + [q for q, _ in more])
        if len(res) != 1:
            raise Fail('roundtrip', '%s: %d outcomes' % (name, len(res)))
        st = res[0][0]
        for k, v in ex.obl.items():
            rec.obl[k] = rec.obl.get(k, 0) + v
        if ex.glob_written:
            raise Fail('frame', 'global state written')
        rec.inlined |= ex.inlined
        return ex, st, skv, sk, more
    def same(ex, st, got, want, what):
        for i in range(0, len(want), 64):
            nob[0] += 1
            g = got[i:i + 64]; w = want[i:i + 64]
            if any(x is UNDEF or not isinstance(x, (int, tm.T)) for x in g) or ver.prove_eq(ctx, st.pc, top.b2v(g), top.b2v(w), 8 * len(w)) is not True:
                k = next((j for j in range(len(w)) if g[j] is not w[j] and g[j] != w[j]), 0)
                raise Fail('roundtrip', '%s: byte %d is not what was stored' % (what, i + k))
    # every content of every state comes back, nothing else in the key changes
    R = S * ((T + 1) * n + T + 1 + T * n + (T >> 1) * n + ((1 << K) - K - 1) * n + (T - K) * n) + (d - 1) * cfg.wots_sig
    def arr(ex, st, nm, cnt, esz, bits):
        # values 0 .. 2^bits - 1, as far as a reachable state needs them
        if cnt == 0:
            return (ex.new(st, nm, 1, 'arg', [0]), [])
        out = []
        for i in range(cnt):
            v = var('%s%d' % (nm, i), bits)
            out += v2b(tm.zext(v, bits, 8 * esz), esz)
        return (ex.new(st, nm, len(out), 'arg', out, ro=True), out)
    def mk(ex, st):
        a = [(ex.new(st, 'in', R, 'arg', v2b(var('content', 8 * R), R), ro=True), v2b(var('content', 8 * R), R)), (ex.new(st, 'out', R, 'arg'), None)]
        vals = [arr(ex, st, 'h', I, 1, T.bit_length()), arr(ex, st, 'next_idx', I, 8, T + 1), arr(ex, st, 'stackusage', I, 1, (T + 1).bit_length()),
                arr(ex, st, 'completed', I, 1, 1), arr(ex, st, 'stackoffset', S, 4, (T + 1).bit_length()), arr(ex, st, 'next_leaf', S, 4, T + 1)]
        outs = [(ex.new(st, nm + '2', max(1, len(w)), 'arg'), None) for nm, (_, w) in zip(('h', 'next_idx', 'stackusage', 'completed', 'stackoffset', 'next_leaf'), vals)]
        return a + vals + outs
    ex, st, skv, sk, m = run('vx_roundtrip', mk)
    same(ex, st, ex.read(st, m[1][0], R), m[0][1], 'nodes, levels and one-time signatures after storing and loading')
    for i, nm in enumerate(('h', 'next_idx', 'stackusage', 'completed', 'stackoffset', 'next_leaf')):
        w = m[2 + i][1]
        if w:
            same(ex, st, ex.read(st, m[8 + i][0], len(w)), w, nm + ' after storing and loading')
    same(ex, st, ex.read(st, sk, cfg.index_bytes + 4 * n), skv[:cfg.index_bytes + 4 * n], 'index, seeds and root')
    rec.obl['postcondition'] = rec.obl.get('postcondition', 0) + nob[0]
    rec.recs.append(('xmssmt_serialize_state, xmssmt_deserialize_state', '%s k=%d' % (cfg, K), 'any key, any state', True, 0, nob[0], None))

def t_state_(env, rec, n, h, d, K=0):
    rec.guard('state in the secret key n=%d h=%d d=%d k=%d' % (n, h, d, K), t_state, env, rec, n, h, d, K)

def check(c):
    c.programs('fast')
    ts = []
    from vx.run import ENV, Rec
    try:
        ENV['wrap'] = ver.Program(True, os.path.join(c.work, 'irw'), core=os.path.join(VERIF, 'native', 'bdswrap.c'), defs=('-I' + REPO,))
    except RuntimeError as e:
        r = Rec(); r.unsup.append(('serialisation', 'the wrapper around the state (de)serialisation does not compile: ' + str(e)[-300:])); r.wall = 0
        c.recs['serialisation'] = r
    else:
        ts += [cm.Task('state n=%d h=%d d=%d' % s, t_state_, s) for s in cm.SHAPES] + [cm.Task('state n=%d h=%d d=%d k=%d' % s, t_state_, s) for s in KS]
    shapes = cm.SHAPES if c.tier == 'thorough' else [s for s in cm.SHAPES if s[0] == 24 or s[1] // s[2] <= 5]
    ts += fastcore.tasks_keypair(shapes)
    ts += [cm.Task('fast window n=%d h=%d d=%d k=%d low=%d' % (w[0], w[1], w[2], w[6], w[3]), fastcore.t_fwindow, w) for w in
           [(24, 20, 4, 24, 11, 16, 0, False), (32, 40, 8, 1016, 16, 16, 0, False), (64, 60, 12, 24, 11, 12, 0, False), (24, 10, 1, 508, 10, 16, 0, False), (32, 8, 2, 8, 8, 16, 2, False), (24, 20, 2, 1020, 20, 10, 0, False)]]
    c.prove(ts, total=420)
    N = c.native
    N.build('hstate', ['bdswrap.c'], True, defs=('VX_MAIN',), drop=('xmss_core_fast.c',))
    weak = bool(c.fails(KINDS)) or any('serialisation' in t or t.startswith('state') for t, f, m in c.unsup())
    jobs = c05.label_jobs(c, bounded_steps=0 if weak or c.tier == 'thorough' else 3000)
    if not weak and c.tier != 'thorough':
        jobs = [j for j in jobs if j[0] == 'hlabsan' or j[1][0] == 'life'] + [j for j in jobs if j[1][0] == 'jump'][:4]
    for i, s in enumerate(cm.SHAPES + KS):
        jobs.insert(0, ('hstate', list(s[:3]) + [s[3] if len(s) > 3 else 0, c.seed * 100 + i, 30]))
    out = c.native.run_many(jobs, limit=200 if c.tier == 'quick' else 600)
    tags = TAGS | ({'sig', 'refuse', 'index', 'erase'} if weak else set())
    hits = [(j, t, d) for j, fl, n in out for t, d in fl if t in tags]
    c.bounded.append('signing with the state reloaded each time: label runs with guard zones and under AddressSanitizer')
    c.bounded.append('storing and loading random states, all shapes, compiled')
    c.assumptions.append('fields of a reachable state: h <= T, next_idx and next_leaf <= 2^T, stackoffset and stackusage <= T + 1, completed 0 or 1')
    return c.finish(KINDS, hits)
