"""Proof tasks shared by several checks."""
import time
from vx import ver, contracts, top, oids, terms as tm
from vx.spec import Cfg, v2b
from vx.sym import Exec, State, Ptr, Fail, Unsupported
from vx.run import Task

def mkctx(env, cfg, variant='ref', upto='tree', bds_k=0):
    c = ver.Ctx(env[variant], cfg, bds_k)
    c.deadline = env.get('deadline')
    contracts.install(c, upto)
    return c

def helper_fails(rec, ctx):
    """contracts that could not be established, by kind"""
    for (fn, cfg, var, ok, sec, n, err) in ctx.results:
        if not ok and '_core_' not in fn:      # (core functions report on their own)
            e = ctx.errkind.get((fn, cfg, var), 'unsupported')
            if e == 'unsupported':
                rec.unsup.append((fn, err))
            else:
                rec.notes.append('contract of %s (%s): %s' % (fn, cfg, err))

def t_open(env, rec, n, h, d):
    """xmss[mt]_core_sign_open for every smlen and content"""
    cfg = Cfg(n, h, d)
    ctx = mkctx(env, cfg)
    rep = top.Report()
    fn = 'xmssmt_core_sign_open' if d > 1 else 'xmss_core_sign_open'
    rec.guard(fn, top.verify_open, ctx, fn, rep)
    helper_fails(rec, ctx)
    soft = bool(rec.unsup)
    for k, m in rep.fails:
        if soft and k == 'accept':
            rec.unsup.append((fn, m))
        else:
            rec.fails.append((k, m))
    rec.hints += [dict(x, shape=(n, h, d)) for x in rep.hints]
    rec.take(ctx)

def expected_params(prog, oidrow, fast=False, bds_k=None):
    """xmss_params as the standard prescribes it (independent of params.c)"""
    name, f, n, h, d = oidrow
    c = Cfg(n, h, d, 16, None, f)
    e = dict(func=ver.fnum(prog, f), n=n, padding_len=c.pad, wots_w=16, wots_log_w=4, wots_len1=c.len1, wots_len2=c.len2, wots_len=c.len,
             wots_sig_bytes=c.wots_sig, full_height=h, tree_height=h // d, d=d, index_bytes=c.index_bytes, sig_bytes=c.sig_bytes, pk_bytes=2 * n)
    return c, e

CORES = ['xmss_core_sign_open', 'xmssmt_core_sign_open', 'xmss_core_sign', 'xmssmt_core_sign', 'xmss_core_keypair', 'xmssmt_core_keypair']

def wrapper_run(prog, fname, mkargs, ok=True):
    """run a wrapper with the core functions replaced by recorders.
    Returns [(state, return value, calls)]"""
    ex = Exec(prog.mod)
    def stub(name):
        def f(e, st, args):
            k = 'calls'
            st.ghost = dict(st.ghost); r = tm.fresh('core_result', 32)
            p = args[0]
            pb = e.read(st, p, prog.psize) if isinstance(p, Ptr) else None
            st.ghost['calls'] = st.ghost.get('calls', ()) + ((name, list(args), pb, r),)
            return (st, r)
        return f
    ex.contracts = {c: stub(c) for c in CORES}
    st = State()
    args = mkargs(ex, st)
    pre = st.copy()
    return ex, pre, args, ex.call(st, fname, args)

def t_wrap_open(env, rec, mt, variant='ref'):
    prog = env[variant]
    fname = 'xmssmt_sign_open' if mt else 'xmss_sign_open'
    tab = oids.XMSSMT if mt else oids.XMSS
    nob = 0; t0 = time.time()
    def one(oid, row):
        nonlocal nob
        c, e = expected_params(prog, row)
        def mk(ex, st):
            smlen = tm.var('smlen', 64)
            st.pc.append(tm.ult(smlen, top.MAXOBJ, 64))
            m = ex.newbig(st, 'm', smlen, [(0, smlen, ('blob', 'm0', 0))])
            sm = ex.newbig(st, 'sm', smlen, [(0, smlen, ('blob', 'sm', 0))], ro=True)
            pk = ex.new(st, 'pk', 4 + 2 * c.n, 'arg', list(oid.to_bytes(4, 'big')) + v2b(tm.var('pk', 16 * c.n), 2 * c.n), ro=True)
            ml = ex.new(st, 'mlen', 8, 'arg', v2b(tm.var('mlen0', 64), 8))
            return [m, ml, sm, smlen, pk]
        ex, pre, a, res = wrapper_run(prog, fname, mk)
        want = 'xmssmt_core_sign_open' if mt else 'xmss_core_sign_open'
        if len(res) != 1:
            raise Fail('accept', '%s: %d outcomes for OID %#x' % (fname, len(res), oid))
        st, rv = res[0]
        calls = st.ghost.get('calls', ())
        if len(calls) != 1 or calls[0][0] not in (want, 'xmssmt_core_sign_open'):
            raise Fail('accept', '%s does not call %s exactly once for OID %#x' % (fname, want, oid))
        nm, args, pb, r = calls[0]
        m, ml, sm, smlen, pk = a
        exp = [m, ml, sm, smlen, Ptr(pk.rid, pk.off + 4)]
        for x, y, w in zip(args[1:], exp, ('m', 'mlen', 'sm', 'smlen', 'pk')):
            nob += 1
            if x != y and not (x is y):
                raise Fail('accept', '%s passes a wrong %s on' % (fname, w))
        for k, v in e.items():
            nob += 1
            if ver.get_field(prog, pb, k) != v:
                raise Fail('accept', '%s: parameter %s is %s for OID %#x, the standard says %d' % (fname, k, ver.get_field(prog, pb, k), oid, v))
        nob += 1
        if rv is not r and rv != r:
            raise Fail('accept', '%s does not return the result of %s' % (fname, want))
        for k, q in ex.obl.items():
            rec.obl[k] = rec.obl.get(k, 0) + q
        if ex.glob_written:
            raise Fail('frame', '%s writes globals' % fname)
    for oid, row in sorted(tab.items()):
        rec.guard(fname, one, oid, row)
    rec.obl['wrapper'] = rec.obl.get('wrapper', 0) + nob
    rec.recs.append((fname, '%d OIDs' % len(tab), 'any smlen', not rec.fails and not rec.unsup, round(time.time() - t0, 2), nob, None))

def t_wrap(env, rec, op, mt, variant='ref'):
    """xmss[mt]_sign / xmss[mt]_keypair for every assigned OID: the core
    function gets the right parameters, pointers and lengths; OID bytes right"""
    prog = env[variant]
    fname = ('xmssmt_' if mt else 'xmss_') + op
    want = ('xmssmt_core_' if mt else 'xmss_core_') + op
    ok = {want, 'xmssmt_core_' + op} if variant == 'ref' else {want}
    tab = oids.XMSSMT if mt else oids.XMSS
    nob = 0; t0 = time.time()
    def one(oid, row):
        nonlocal nob
        c, e = expected_params(prog, row)
        ob = list(oid.to_bytes(4, 'big'))
        skz = 4 + c.sk_bytes
        def mk(ex, st):
            if op == 'sign':
                mlen = tm.var('mlen', 64)
                st.pc.append(tm.ult(mlen, top.MAXOBJ - c.sig_bytes, 64))
                z = tm.add(mlen, c.sig_bytes, 64)
                sk = ex.new(st, 'sk', skz, 'arg', ob + v2b(tm.var('skrest', 8 * (skz - 4)), skz - 4))
                sm = ex.newbig(st, 'sm', z, [(0, z, ('blob', 'sm0', 0))])
                sl = ex.new(st, 'smlen', 8, 'arg', v2b(tm.var('smlen0', 64), 8))
                m = ex.newbig(st, 'm', mlen, [(0, mlen, ('blob', 'msg', 0))], ro=True)
                return [sk, sm, sl, m, mlen]
            return [ex.new(st, 'pk', 4 + 2 * c.n, 'arg'), ex.new(st, 'sk', skz, 'arg'), oid]
        ex, pre, a, res = wrapper_run(prog, fname, mk)
        if len(res) != 1:
            raise Fail('wrap', '%s: %d outcomes for OID %#x' % (fname, len(res), oid))
        st, rv = res[0]
        calls = st.ghost.get('calls', ())
        if len(calls) != 1 or calls[0][0] not in ok:
            raise Fail('wrap', '%s does not call %s exactly once for OID %#x' % (fname, want, oid))
        nm, args, pb, r = calls[0]
        exp = [Ptr(a[0].rid, 4)] + (a[1:] if op == 'sign' else [Ptr(a[1].rid, 4)])
        for i, (x, y) in enumerate(zip(args[1:], exp)):
            nob += 1
            if x != y and x is not y:
                raise Fail('wrap', '%s passes a wrong argument %d on' % (fname, i + 1))
        for k, v in e.items():
            nob += 1
            if ver.get_field(prog, pb, k) != v:
                raise Fail('wrap', '%s: parameter %s is %s for OID %#x, the standard says %d' % (fname, k, ver.get_field(prog, pb, k), oid, v))
        nob += 2
        if rv is not r and rv != r:
            raise Fail('wrap', '%s does not return the result of %s' % (fname, want))
        for q in ([a[0]] if op == 'sign' else a[:2]):
            r0 = list(pre.mem[q.rid].clone(None).mat()); r1 = list(st.mem[q.rid].clone(None).mat())
            if r1[:4] != ob:
                raise Fail('wrap', '%s: OID in the key is wrong for OID %#x' % (fname, oid))
            if any(x is not y and x != y for x, y in zip(r0[4:], r1[4:])):
                raise Fail('wrap', '%s changes key bytes itself' % fname)
        for k, q in ex.obl.items():
            rec.obl[k] = rec.obl.get(k, 0) + q
        if ex.glob_written:
            raise Fail('frame', '%s writes globals' % fname)
    for oid, row in sorted(tab.items()):
        rec.guard(fname, one, oid, row)
    rec.obl['wrapper'] = rec.obl.get('wrapper', 0) + nob
    rec.recs.append((fname, '%d OIDs' % len(tab), variant, not rec.fails and not rec.unsup, round(time.time() - t0, 2), nob, None))

SHAPES = sorted({(r[2], r[3], r[4]) for t in (oids.XMSS, oids.XMSSMT) for r in t.values()}, key=lambda s: -(s[1] // s[2]) * 1000 - s[0])

def settle(rec, ctx, fn, rep, soft_kinds):
    """record what a top-level run found; failures of kinds that may be due to
    a helper that could not be brought under contract do not count then"""
    helper_fails(rec, ctx)
    if ctx.weakened:
        # a function with a full specification that does not meet it
        for (f, cfg, var, ok, sec, n, err) in ctx.results:
            if not ok and f in ctx.weakened:
                if ctx.errkind.get((f, cfg, var), 'unsupported') != 'unsupported':
                    rec.fails.append(('sig', 'contract of %s: %s' % (f, err)))
        rec.unsup += [(f, 'used without its contract') for f in sorted(ctx.weakened)]
    soft = bool(rec.unsup)
    for k, m in rep.fails:
        if soft and k in soft_kinds:
            rec.unsup.append((fn, m))
        else:
            rec.fails.append((k, m))
    rec.hints += [dict(x, shape=(ctx.cfg.n, ctx.cfg.full_height, ctx.cfg.d)) for x in rep.hints]
    rec.take(ctx)

def t_sign(env, rec, n, h, d):
    """reference signing for every key, index, message and length"""
    ctx = mkctx(env, Cfg(n, h, d))
    rep = top.Report()
    fn = 'xmssmt_core_sign' if d > 1 else 'xmss_core_sign'
    rec.guard(fn, top.verify_sign, ctx, fn, rep)
    settle(rec, ctx, fn, rep, {'sig', 'leak'})

def t_keypair(env, rec, n, h, d):
    """reference key generation for every seed"""
    ctx = mkctx(env, Cfg(n, h, d))
    rep = top.Report()
    fn = 'xmssmt_core_keypair' if d > 1 else 'xmss_core_keypair'
    rec.guard(fn, top.verify_keypair, ctx, fn, rep)
    if env['ref'].mod.funcs.get('xmssmt_core_seed_keypair'):
        rec.guard('xmssmt_core_seed_keypair', top.verify_keypair, ctx, 'xmssmt_core_seed_keypair', rep, True)
    settle(rec, ctx, fn, rep, {'post'})

def t_roundtrip(env, rec, n, h, d):
    ctx = mkctx(env, Cfg(n, h, d))
    rec.guard('round trip lemma', top.verify_roundtrip, ctx)
    rec.take(ctx)

def boundaries(H, d):
    """index values around every subtree boundary"""
    out = {0, 1, (1 << H) - 3}
    for i in range(1, d):
        b = 1 << (i * (H // d))
        out |= {b - 2, (1 << H) - b - 2, 3 * b - 2}
    return sorted(x for x in out if 0 <= x < 1 << H)

def sign_jobs(binary, seed, budget, cfgs, droot=0, cnt=5, san=None):
    jobs = []
    for i, (f, n, w, H, d, k) in enumerate(cfgs):
        for s in boundaries(H, d):
            jobs.append((binary, ['sign', seed * 100 + i, f, n, w, H, d, k, s, cnt, droot, budget]))
    return jobs

# concrete configurations (func, n, w, H, d, k): small trees, all hash functions
SMALL = [(0, 32, 16, 4, 1, 0), (1, 32, 16, 6, 2, 1), (2, 32, 16, 6, 3, 0), (0, 24, 16, 4, 2, 0), (2, 24, 16, 5, 1, 1), (0, 64, 16, 4, 2, 0), (2, 64, 16, 4, 1, 0),
         (0, 32, 4, 6, 2, 1), (0, 32, 256, 4, 2, 0)]
DEEP = [(0, 32, 16, 60, 12, 0), (0, 24, 16, 40, 8, 0), (1, 32, 16, 20, 4, 0), (0, 64, 16, 60, 12, 0)]

def hint_jobs(c, binary):
    jobs = []
    for h in c.hints()[:12]:
        n, H, d = h['shape']
        if H // d > 10:
            H = 10 * d
        env = {}
        if 'idx' in h:
            env['HINT_IDX'] = str(h['idx'])
        if 'smlen' in h:
            env['HINT_SMLEN'] = str(h['smlen'])
        for f in {24: (0, 2), 32: (0, 1, 2), 64: (0, 2)}[n][:2]:
            jobs.append((binary, ['verify', c.seed, f, n, 16, H, d, 0, 3], env))
    return jobs

IN0 = (('in', ('out', 0)),)
HASH_VARIANTS = [('prf', ()), ('prf_keygen', ()), ('thash_f', ()), ('thash_f', IN0), ('thash_h', ()), ('thash_h', IN0), ('hash_message', ())]

def t_contracts(env, rec, n, w, func, variants, kind='post'):
    """establish contracts directly"""
    cfg = Cfg(n, 10, 1, w, None, func)
    ctx = mkctx(env, cfg)
    for name, pat in variants:
        keys = ['']
        if name == 'gen_chain':
            keys = ['any'] if w <= 16 else ['zero', 'full']
        for key in keys:
            rec.guard(name, ctx.ensure, ctx.table[name], pat, key)
    for (fn, c2, var, ok, sec, nob, err) in ctx.results:
        if not ok:
            e = ctx.errkind.get((fn, c2, var), 'unsupported')
            (rec.unsup if e == 'unsupported' else rec.fails).append((fn, err) if e == 'unsupported' else (e, '%s (%s): %s' % (fn, c2, err)))
    rec.take(ctx)

# fast implementation: (func, n, w, H, d, k); treehash instances need height >= 3
FASTCFG = [(0, 32, 16, 5, 1, 1), (0, 32, 16, 6, 1, 0), (0, 24, 16, 6, 1, 2), (2, 32, 16, 6, 2, 0), (0, 64, 16, 6, 2, 1), (1, 32, 16, 9, 3, 0), (0, 32, 16, 8, 2, 2), (0, 32, 4, 6, 2, 0)]
