"""The fast signer: the traversal state in the secret key as a data structure
invariant, and its preservation by signing.

INV(idx): for every layer L, with (tree, leaf) the L-th digits of idx: auth holds
the authentication path of the leaf, keep the left nodes that will be combined,
every treehash instance and retain entry the right node it will be asked for
next; NEXT_L holds the prefix of the following tree (its stack of finished
subtrees, the path of its leaf 0, its first right nodes); wots_sigs hold the
signatures of the subtree roots.  Nodes are the uninterpreted NODE(seed, pub,
layer, tree, height, index) of the specification, the digits above a window are
symbolic."""
from . import terms as tm, top
from .terms import var, zext, ext, eq, add, shl, or_
from .spec import v2b, be
from .loops import TreeLoop
from .sym import Fail, Unsupported, Ptr, UNDEF

class Inv:
    def __init__(s, ctx, K=0):
        s.ctx = ctx; s.c = ctx.cfg; s.K = K; s.g = 0

    def garb(s, z):
        s.g += 1
        return v2b(var('garb%d' % s.g, 8 * z), z) if z else []

    def isgarb(s, b):
        return any(l.op == 'var' and l.args[0].startswith('garb') for l in tm.leaves(b))

    def offsets(s, L):
        c = s.c; n = c.n; h = c.h; K = s.K
        rec = (h + 1) * n + 4 + h + 1 + h * n + (h >> 1) * n + (h - K) * (7 + n) + ((1 << K) - K - 1) * n + 4
        o = c.index_bytes + 4 * n + L * rec
        a = o + (h + 1) * n + 4 + h + 1
        t = a + h * n + (h >> 1) * n
        return {'auth': a, 'th': t, 'rec': rec}

    def key(s, low, lw, hi=None, prog=None, seeds=None):
        """index = low (lw bits, concrete) with the symbolic term hi above it;
        prog: leaves already in NEXT_L (default: all for L > 0)"""
        c = s.c; h = c.h; H = c.full_height; n = c.n; sp = s.ctx.spec; d = c.d; K = s.K
        ib = 8 * c.index_bytes
        parts = [(low, lw)]
        if lw < H:
            parts.append((var('hi', H - lw) if hi is None else hi, H - lw))
        if ib > H:
            parts.append((0, ib - H))
        k = top.Key(c, idxv=tm.cat(parts))
        if seeds:
            k.seed, k.prf, k.pub = seeds
        nd = lambda L, t, hh, X: v2b(sp.NODE(k.seed, k.pub, L, t, hh, X), n)
        lf = lambda L: zext(ext(k.idx, 64, L * h, h), h, 32)
        tree = lambda L: tm.lshr(k.idx, h * (L + 1), 64)
        ret = ((1 << K) - K - 1)
        out = []
        for L in range(d):
            t = tree(L); X = lf(L)
            # (stack: left over from building the tree)
            out += s.garb((h + 1) * n) + [0] * 4 + s.garb(h + 1)
            for q in range(h):
                out += nd(L, t, q, tm.xor([tm.lshr(X, q, 32), 1], 32))
            for q in range(h >> 1):
                G = s.garb(n)
                for e in (2 * q + 1, 2 * q):
                    cnd = eq(ext(X, 32, e, 2), 1, 2)
                    if isinstance(cnd, int):
                        G = nd(L, t, e, tm.lshr(X, e, 32)) if cnd else G
                    else:
                        G = [tm.ite(cnd, a, b, 8) for a, b in zip(nd(L, t, e, tm.lshr(X, e, 32)), G)]
                out += G
            for q in range(h - K):
                Y = tm.or_(shl(add(tm.lshr(X, q + 1, 32), 1, 32), 1, 32), 1, 32)
                gone = q == h - 1 or isinstance(Y, int) and Y >> (h - q)       # nothing left to be asked for
                out += [q] + s.garb(4) + [0, 1] + (s.garb(n) if gone else nd(L, t, q, Y))
            for q in range(h - 2, h - K - 1, -1):
                for r in range(1 << (h - 1 - q)):
                    if r:
                        out += nd(L, t, q, 2 * r + 1)
            out += s.garb(4)
        for L in range(d - 1):
            t = add(tree(L), 1, 64)
            p = (prog or {}).get(L, low & ((1 << h) - 1) if L == 0 else 1 << h)
            st = []; lv = []
            for q in range(h, -1, -1):
                if p >> q & 1:
                    st += nd(L, t, q, (p >> q) - 1); lv.append(q)
            so = len(lv)
            out += st + s.garb((h + 1) * n - len(st)) + be(so, 4) + lv + s.garb(h + 1 - so)
            for q in range(h):
                out += nd(L, t, q, 1) if p >= 2 << q else s.garb(n)
            out += s.garb((h >> 1) * n)
            for q in range(h - K):
                out += s.garb(7) + (nd(L, t, q, 3) if q < h - 1 and p >= 4 << q else s.garb(n))
            for q in range(h - 2, h - K - 1, -1):
                for r in range(1, 1 << (h - 1 - q)):
                    out += nd(L, t, q, 2 * r + 1) if p >= (2 * r + 2) << q else s.garb(n)
            out += be(p, 4)
        for L in range(d - 1):
            out += v2b(sp.WOTSSIG(k.seed, k.pub, be(L + 1, 4) + be(tree(L + 1), 8) + [0, 0, 0, 0] + be(lf(L + 1), 4, 32), nd(L, tree(L), h, 0)), c.wots_sig)
        if ret and h - K < 0:
            raise Unsupported('bds_k')
        k.sk += out
        return k

def chain(ctx, fname, rep, key, steps, pc=(), note=''):
    """sign `steps` times in a row; every signature, index and length against the
    specification, the traversal state carried through the secret key"""
    c = ctx.cfg; ib = c.index_bytes
    done = 0
    cur = [(key, list(pc))]
    last = (1 << c.full_height) - 1
    while done < steps and cur:
        nxt = []
        for k, pcs in cur:
            got = []
            def post(ex, s3, skb, bad):
                got.append((skb, list(s3.pc)))
            cases = None
            if isinstance(k.idx, int):
                cases = {'sign'} if k.idx < last else {'last'} if k.idx == last and c.full_height < 8 * ib else {'refuse'}
            else:
                cases = {'sign'}
            nf = len(rep.fails)
            top.verify_sign(ctx, fname, rep, key=k, post=post, cases=cases, pc=pcs, note=note + ' signature %d' % (done + 1))
            if len(rep.fails) > nf:
                return done
            for skb, p2 in got:
                nk = top.Key(c, idxv=add(k.idxv, 1, 8 * ib))
                nk.seed, nk.prf, nk.root, nk.pub = k.seed, k.prf, k.root, k.pub
                nk.sk = nk.idxb + k.seed + k.prf + k.root + k.pub + skb[ib + 4 * c.n:]
                nxt.append((nk, [x for x in p2 if x not in ctx.base_pc]))
        cur = nxt
        done += 1
        if len(cur) > 6:
            raise Unsupported('%d states in a signing chain' % len(cur))
    return done

# ---------------------------------------------------------------- key generation

class Build(TreeLoop):
    """the loop of key generation over the leaves of one tree: before leaf j the
    secret key holds the path of leaf 0 up to height k once j >= 2 * 2^k and the
    first right nodes once j >= 4 * 2^k"""
    def __init__(s, ctx, key, skrid, inv):
        super().__init__(ctx, 'gen_leaf_wots', ctx.cfg.h, s.nodeat, {})
        s.key = key; s.skrid = skrid; s.inv = inv; s.layer = None; s.orig = {}
    def nodeat(s, hh, X):
        return v2b(s.ctx.spec.NODE(s.key.seed, s.key.pub, s.layer, 0, hh, X), s.ctx.cfg.n)
    def watch(s, f):
        def g(ex, st, a):
            r = f(ex, st, a)
            if r is not None:
                b = ex.read(st, a[4], 4)
                s.layer = int.from_bytes(bytes(b), 'little') if all(isinstance(x, int) for x in b) else None
            return r
        return g
    def engage(s, ex, f, blk, prev, env, st, stop, r):
        if s.layer is None:
            raise Unsupported('layer of the tree being built')
        c = s.ctx.cfg; n = c.n; h = c.h
        base = list(r.obs[0].mem[s.skrid].clone(None).mat())
        o = s.inv.offsets(s.layer)
        L = s.layer
        def sk(cs):
            out = list(base)
            def put(off, thr, N):
                if isinstance(cs.j, int):
                    if cs.j >= thr:
                        out[off:off + n] = N
                    return
                q = thr.bit_length() - 1
                cnd = tm.not_(eq(tm.lshr(cs.j, q, 32), 0, 32))
                out[off:off + n] = [tm.ite(cnd, a, b, 8) for a, b in zip(N, out[off:off + n])]
            def nd(hh, X):
                s.layer = L
                return s.nodeat(hh, X)
            for k in range(h):
                put(o['auth'] + k * n, 2 << k, nd(k, 1))
            for k in range(h - 1):
                put(o['th'] + k * (7 + n) + 7, 4 << k, nd(k, 3))
            return out
        s.supplied = {s.skrid: sk}
        try:
            return super().engage(ex, f, blk, prev, env, st, stop, r)
        finally:
            s.layer = L

def verify_keypair(ctx, fname, rep, K=0, unroll=10):
    """key generation establishes INV(0)"""
    c = ctx.cfg; n = c.n
    top.install_randombytes(ctx)
    inv = Inv(ctx, K)
    ex = ctx.exec_(skip=(fname,))
    st = top.State(); st.pc = list(ctx.base_pc)
    p = ctx.params(ex, st)
    rnd = v2b(var('rnd', 24 * n), 3 * n)
    sd, prf, pub = rnd[:n], rnd[n:2 * n], rnd[2 * n:]
    want = inv.key(0, c.full_height, prog={L: 0 for L in range(c.d)}, seeds=(sd, prf, pub))
    z = len(want.sk)
    pk = ex.new(st, 'pk', 2 * n, 'arg', v2b(var('pk0', 16 * n), 2 * n))
    sk = ex.new(st, 'sk', z, 'arg', v2b(var('sk0', 8 * z), z))
    if c.h <= unroll:
        ex.loop_hook = lambda *a: None
    else:
        hook = ex.loop_hook = Build(ctx, want, sk.rid, inv)
        ex.contracts['gen_leaf_wots'] = hook.watch(ex.contracts['gen_leaf_wots'])
    res = ex.call(st, fname, [p, pk, sk])
    if not res:
        raise Fail('termination', fname + ' never returns')
    root = top.top_root(ctx, sd, pub)
    nf = len(rep.fails)
    post = None
    for s3, rv in res:
        def bad(kind, msg):
            rep.bad(kind, '%s: %s' % (fname, msg), ctx, s3.pc)
        def cmp(reg, o, w, nm, kind='post'):
            g = ex.read(s3, Ptr(reg.rid, o), len(w))
            i = 0
            while i < len(w):
                if w[i] is None:
                    i += 1; continue
                j = i
                while j < len(w) and w[j] is not None and j - i < n:
                    j += 1
                ex.ob('postcondition')
                if any(b is UNDEF or isinstance(b, tuple) for b in g[i:j]) or top.prove_eq(ctx, s3.pc, top.b2v(g[i:j]), top.b2v(w[i:j]), 8 * (j - i)) is not True:
                    bad(kind, '%s (bytes %d to %d)' % (nm, o + i, o + j - 1))
                    return
                i = j
        if top.prove_eq(ctx, s3.pc, rv, 0, 32) is not True:
            bad('post', 'does not return 0')
        if s3.ghost.get('rnd', 0) != 3 * n:
            bad('post', '%d random bytes requested instead of %d' % (s3.ghost.get('rnd', 0), 3 * n))
        cmp(pk, 0, root, 'public key: root'); cmp(pk, n, pub, 'public key: public seed')
        o = c.index_bytes
        cmp(sk, 0, [0] * o, 'secret key: index is not 0')
        for nm, w in (('secret seed', sd), ('PRF seed', prf), ('root', root), ('public seed', pub)):
            cmp(sk, o, w, 'secret key: ' + nm); o += n
        cmp(sk, o, [None if isinstance(b, top.T) and inv.isgarb(b) else b for b in want.sk[o:]], 'secret key: traversal state', 'state')
        post = ex.read(s3, sk, z)
        for nm, bs in (('secret', post), ('public', ex.read(s3, pk, 2 * n))):
            ex.ob('determined by the seeds')
            for i, b in enumerate(bs):
                if b is UNDEF or isinstance(b, top.T) and any(l.op == 'var' and l.args[0] in ('sk0', 'pk0') for l in tm.leaves(b)):
                    rep.bad('determined', '%s: byte %d of the %s key is whatever the caller\'s buffer held' % (fname, i, nm))
                    break
    if ex.glob_written:
        rep.bad('frame', '%s writes globals %s' % (fname, sorted(ex.glob_written)))
    for q, v in ex.obl.items():
        ctx.obl[q] = ctx.obl.get(q, 0) + v
    ctx.results.append((fname, str(c), 'establishes INV(0)', len(rep.fails) == nf, 0, sum(ex.obl.values()), rep.fails[nf][1] if len(rep.fails) > nf else None))
    ctx.inlined = getattr(ctx, 'inlined', set()) | ex.inlined
    k = top.Key(c, idxv=0)
    k.seed, k.prf, k.root, k.pub = sd, prf, root, pub
    k.sk = post
    return k
