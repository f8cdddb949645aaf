"""Contracts of the top-level functions, whose buffers have symbolic length."""
from . import terms as tm
from .terms import T, ext, eq, ult, not_, and_, add, sub, cat_bytes_le as b2v, cat_bytes_be, var, app, zext
from .spec import v2b, be
from .ver import ANY, A, UNDEF, prove_eq
from .sym import Fail, Unsupported, State, Ptr, PIte

MAXOBJ = (1 << 63) - 1

def hint_values(ctx, pc):
    """index and length of a candidate failing input"""
    m = ctx.solver.model_of(pc)
    h = {}
    idx = {}
    for l, v in m.items():
        if l.op == 'var' and l.args[0] in ('smlen', 'mlen', 'idx'):
            h[l.args[0]] = v
        if l.op == 'app' and l.args[0] == 'B:sm' and isinstance(l.args[1], int) and l.args[1] < ctx.cfg.index_bytes:
            idx[l.args[1]] = v
    if idx:
        h['idx'] = sum(v << (8 * (ctx.cfg.index_bytes - 1 - k)) for k, v in idx.items())
    return h

def blob_bytes(name, off, n):
    return [app('B:' + name, 8, off + k) for k in range(n)]

def open_spec(ctx, pk, smlen, smb=None, msg=None, rootfn=None):
    """RFC 8391 verification of the blob 'sm': (recomputed root value, message length)"""
    c = ctx.cfg; sp = ctx.spec; n = c.n
    if smb is None:
        smb = lambda o, k: blob_bytes('sm', o, k)
    root, seed = pk[:n], pk[n:]
    idx = zext(cat_bytes_be(smb(0, c.index_bytes)), 8 * c.index_bytes, 64)
    R = smb(c.index_bytes, n)
    mlen = sub(smlen, c.sig_bytes, 64)
    node = v2b(sp.HMSG(R, root, be(idx, n), msg or ('blob', 'sm', c.sig_bytes, mlen)), n)
    pos = c.index_bytes + n
    cur = idx
    for i in range(c.d):
        leaf = zext(ext(cur, 64, 0, c.h), c.h, 32)
        tree = tm.lshr(cur, c.h, 64)
        cur = tree
        base = be(i, 4) + be(tree, 8)
        ots = smb(pos, c.wots_sig); pos += c.wots_sig
        auth = smb(pos, c.h * n); pos += c.h * n
        if rootfn:
            node = rootfn(seed, i, tree, leaf, node, ots, auth)
            continue
        pkw = v2b(sp.WOTSREC(seed, base + [0, 0, 0, 0] + be(leaf, 4, 32), ots, node), c.wots_sig)
        lf = v2b(sp.LTREE(seed, base + [0, 0, 0, 1] + be(leaf, 4, 32), pkw), n)
        node = v2b(sp.ROOT(c.h, seed, base + [0, 0, 0, 2, 0, 0, 0, 0], lf, leaf, auth), n)
    assert pos == c.sig_bytes
    return b2v(node), mlen

class Report:
    """collects failures by kind"""
    def __init__(s):
        s.fails = []
        s.n = 0
        s.hints = []
    def bad(s, kind, msg, ctx=None, pc=None):
        s.fails.append((kind, msg))
        if ctx is not None:
            try:
                h = hint_values(ctx, pc)
            except Exception:
                h = None
            if h:
                s.hints.append(h)

def verify_open(ctx, fname, rep):
    """xmss[mt]_core_sign_open against the specification, for every smlen"""
    c = ctx.cfg; n = c.n
    ex = ctx.exec_(skip=(fname,))
    st = State()
    st.pc = list(ctx.base_pc)
    smlen = var('smlen', 64)
    st.pc.append(ult(smlen, MAXOBJ, 64))
    p = ctx.params(ex, st)
    m = ex.newbig(st, 'm', smlen, [(0, smlen, ('blob', 'm0', 0))])
    sm = ex.newbig(st, 'sm', smlen, [(0, smlen, ('blob', 'sm', 0))], ro=True)
    pkv = var('pk', 16 * n)
    pk = ex.new(st, 'pk', 2 * n, 'arg', v2b(pkv, 2 * n), ro=True)
    ml = ex.new(st, 'mlen', 8, 'arg', v2b(var('mlen0', 64), 8))
    root, mlen = open_spec(ctx, v2b(pkv, 2 * n), smlen)
    short = ult(smlen, c.sig_bytes, 64)
    valid = and_(not_(short), eq(root, ext(pkv, 16 * n, 0, 8 * n), 8 * n), 1)
    res = ex.call(st, fname, [p, m, ml, sm, smlen, pk])
    if not res:
        raise Fail('termination', fname + ' never returns')
    seen = [False, False]
    for st2, rv in res:
        d = ctx.solver.decide(st2.pc, valid)
        for v in ((1,) if d is True else (0,) if d is False else (1, 0)):
            s3 = st2.copy()
            if d is None:
                s3.pc.append(valid if v else not_(valid))
                if ctx.solver.check(s3.pc, 1) == 'unsat':
                    continue
            seen[v] = True
            want = 0 if v else 0xffffffff
            ex.ob('postcondition')
            if prove_eq(ctx, s3.pc, rv, want, 32) is not True:
                rep.bad('accept', '%s returns %s where %d is specified (%s signature%s)' %
                        (fname, tm.show(rv), want if not want else -1, 'valid' if v else 'invalid', ', %s' % [tm.show(x, 3) for x in s3.pc[-2:]]), ctx, s3.pc)
                continue
            lenb = ex.read(s3, ml, 8)
            ex.ob('postcondition')
            lw = b2v(lenb)
            if prove_eq(ctx, s3.pc, lw, mlen if v else 0, 64) is not True:
                rep.bad('accept' if v else 'clear', '%s: reported length wrong after %s' % (fname, 'success' if v else 'failure'), ctx, s3.pc)
            if v:
                segs = ex.read_segs(s3, m, mlen)
                ex.ob('postcondition')
                if not (len(segs) == 1 and segs[0][0] == 'blob' and segs[0][1] == 'sm' and
                        prove_eq(ctx, s3.pc, segs[0][2], c.sig_bytes, 64) is True and prove_eq(ctx, s3.pc, segs[0][3], mlen, 64) is True):
                    rep.bad('accept', '%s: returned message is not the bytes after the signature' % fname, ctx, s3.pc)
            else:
                try:
                    segs = ex.read_segs(s3, m, smlen)
                    ok = all((g[0] == 'fill' and isinstance(g[1], int)) or (g[0] == 'b' and all(isinstance(b, int) for b in g[1])) for g in segs)
                except Unsupported:
                    ok = cleared(ex, ctx, s3, m, smlen)
                ex.ob('postcondition')
                if not ok:
                    rep.bad('clear', '%s: output buffer not cleared after failed verification' % fname, ctx, s3.pc)
    if not all(seen):
        rep.bad('accept', '%s: %s input is never accepted/rejected' % (fname, 'valid' if not seen[1] else 'invalid'))
    if ex.glob_written:
        rep.bad('frame', '%s writes globals %s' % (fname, sorted(ex.glob_written)))
    for k, q in ex.obl.items():
        ctx.obl[k] = ctx.obl.get(k, 0) + q
    rep.n += sum(ex.obl.values())
    ctx.results.append((fname, str(c), 'any smlen', not rep.fails, 0, sum(ex.obl.values()), rep.fails[0][1] if rep.fails else None))
    ctx.inlined = getattr(ctx, 'inlined', set()) | ex.inlined

def cleared(ex, ctx, st, m, smlen):
    return False

# ---------------------------------------------------------------- signing

def secret_taint(t):
    """does the value depend on secret seeds or contain parts of a signature?"""
    seen = set(); st = [t]
    while st:
        v = st.pop()
        if isinstance(v, (tuple, list)):
            st.extend(v)
        elif isinstance(v, T) and v not in seen:
            seen.add(v)
            if v.op == 'app' and v.args[0] in ('WOTSSIG', 'NODE', 'CHAIN', 'PRFKG', 'PRF', 'HMSG'):
                return True
            if v.op == 'var' and v.args[0] in ('sk_seed', 'sk_prf'):
                return True
            st.extend(v.args)
    return False

class Key:
    """a symbolic key: seeds, root and index; `extra` further secret key bytes"""
    def __init__(s, c, extra=(), idxv=None):
        n = c.n
        s.idxv = var('idx', 8 * c.index_bytes) if idxv is None else idxv
        s.idx = zext(s.idxv, 8 * c.index_bytes, 64)
        s.seed, s.prf, s.root, s.pub = [v2b(var(x, 8 * n), n) for x in ('sk_seed', 'sk_prf', 'root', 'pub_seed')]
        s.idxb = be(s.idxv, c.index_bytes, 8 * c.index_bytes)
        s.sk = s.idxb + s.seed + s.prf + s.root + s.pub + list(extra)

def leaf_tree(c, cur):
    return zext(ext(cur, 64, 0, c.h), c.h, 32), tm.lshr(cur, c.h, 64)

def sign_spec(ctx, k, mlen, nodes=None):
    """the signature bytes RFC 8391 prescribes, and the chain of signed values"""
    c = ctx.cfg; sp = ctx.spec; n = c.n
    R = v2b(sp.PRF(k.prf, be(k.idx, 32)), n)
    node = v2b(sp.HMSG(R, k.root, be(k.idx, n), ('blob', 'msg', 0, mlen)), n)
    out = list(k.idxb) + R
    cur = k.idx
    for i in range(c.d):
        leaf, tree = leaf_tree(c, cur); cur = tree
        base = be(i, 4) + be(tree, 8)
        out += v2b(sp.WOTSSIG(k.seed, k.pub, base + [0, 0, 0, 0] + be(leaf, 4, 32), node), c.wots_sig)
        nd = lambda hh, X: v2b(sp.NODE(k.seed, k.pub, i, tree, hh, X), n)
        for s in range(c.h):
            out += nd(s, tm.xor([tm.lshr(leaf, s, 32), 1], 32))
        node = nd(c.h, 0)
    assert len(out) == c.sig_bytes
    return out, node

def unusable(c, idx):
    """indices that must not sign any more"""
    last = (1 << c.full_height) - 1
    if c.full_height == 8 * c.index_bytes:
        return tm.not_(ult(idx, last, 64))
    return ult(last, idx, 64)

def verify_sign(ctx, fname, rep, extra=(), key=None, post=None, cases=None, pc=(), note='any index, any mlen'):
    """xmss[mt]_core_sign (reference): signature, index advance, exhaustion,
    for every key, index, message and length"""
    c = ctx.cfg; n = c.n
    ex = ctx.exec_(skip=(fname,))
    st = State(); st.pc = list(ctx.base_pc)
    mlen = var('mlen', 64)
    st.pc.append(ult(mlen, MAXOBJ - c.sig_bytes, 64))
    st.pc.extend(pc)
    p = ctx.params(ex, st)
    k = Key(c, extra) if key is None else key
    nf = len(rep.fails)
    size = add(mlen, c.sig_bytes, 64)
    sm = ex.newbig(st, 'sm', size, [(0, size, ('blob', 'sm0', 0))])
    m = ex.newbig(st, 'm', mlen, [(0, mlen, ('blob', 'msg', 0))], ro=True)
    sk = ex.new(st, 'sk', len(k.sk), 'arg', list(k.sk))
    sl = ex.new(st, 'smlen', 8, 'arg', v2b(var('smlen0', 64), 8))
    sig, _ = sign_spec(ctx, k, mlen)
    last = (1 << c.full_height) - 1
    gone = unusable(c, k.idx)
    final = eq(k.idx, last, 64) if c.full_height != 8 * c.index_bytes else 0
    res = ex.call(st, fname, [p, sk, sm, sl, m, mlen])
    if not res:
        raise Fail('termination', fname + ' never returns')
    seen = set()
    def ceq(s3, got, want, w):
        ex.ob('postcondition')
        return prove_eq(ctx, s3.pc, got, want, w) is True
    for st2, rv in res:
        for case, cond in (('refuse', gone), ('last', and_(not_(gone), final, 1)), ('sign', and_(not_(gone), not_(final), 1))):
            if isinstance(cond, int) and not cond:
                continue
            d = ctx.solver.decide(st2.pc, cond)
            if d is False:
                continue
            s3 = st2.copy()
            if d is None:
                s3.pc.append(cond)
                if ctx.solver.check(s3.pc, 1) == 'unsat':
                    continue
            seen.add(case)
            bad = lambda kind, msg: rep.bad(kind, '%s: %s (%s)' % (fname, msg, case), ctx, s3.pc)
            want = 0xfffffffe if case == 'refuse' else 0
            if not ceq(s3, rv, want, 32):
                bad('exhaust', 'returns %s, specified %d' % (tm.show(rv), want - (1 << 32) if want else 0))
            skb = ex.read(s3, sk, len(k.sk))
            ib = c.index_bytes
            if case == 'sign':
                nx = ext(add(k.idx, 1, 64), 64, 0, 8 * ib)
                if not ceq(s3, cat_bytes_be(skb[:ib]), nx, 8 * ib):
                    bad('index', 'secret key index after signing is not index + 1')
                if not ceq(s3, b2v(skb[ib:ib + 4 * n]), b2v(k.sk[ib:ib + 4 * n]), 32 * n):
                    bad('index', 'seeds or root in the secret key change')
                if post:
                    post(ex, s3, skb, bad)
            else:
                if any(b is UNDEF for b in skb) or not ceq(s3, b2v(skb), b2v([255] * ib + [0] * (len(skb) - ib)), 8 * len(skb)):
                    bad('exhaust', 'secret key not erased')
            if case != 'refuse':
                lb = b2v(ex.read(s3, sl, 8))
                if not ceq(s3, lb, size, 64):
                    bad('smlen', 'reported length is not signature length plus message length')
                sg = ex.read(s3, sm, c.sig_bytes)
                parts = [('index', 0, ib), ('randomiser', ib, n)]
                pos = ib + n
                for i in range(c.d):
                    parts.append(('layer %d one-time signature' % i, pos, c.wots_sig)); pos += c.wots_sig
                    for s in range(c.h):
                        parts.append(('layer %d authentication path node %d' % (i, s), pos, n)); pos += n
                for nm, o, l in parts:
                    ex.ob('postcondition')
                    g = sg[o:o + l]
                    if any(b is UNDEF or isinstance(b, tuple) for b in g) or prove_eq(ctx, s3.pc, b2v(g), b2v(sig[o:o + l]), 8 * l) is not True:
                        bad('index' if nm == 'index' else 'sig', '%s differs from the specified one' % nm)
                        if nm != 'index':
                            break
                segs = ex.read_segs(s3, Ptr(sm.rid, c.sig_bytes), mlen)
                ex.ob('postcondition')
                if not (len(segs) == 1 and segs[0][0] == 'blob' and segs[0][1] == 'msg' and ceq(s3, segs[0][2], 0, 64) and ceq(s3, segs[0][3], mlen, 64)):
                    bad('message', 'signed message does not end with the message')
            else:
                ex.ob('postcondition')
                try:
                    segs = ex.read_segs(s3, sm, c.sig_bytes)
                except Unsupported:
                    segs = [('?',)]
                if any(g[0] not in ('b', 'blob') for g in segs) or secret_taint([g[1] for g in segs if g[0] == 'b']):
                    bad('leak', 'signature material is left in the output although signing is refused')
    want = {'refuse', 'sign'} | ({'last'} if final != 0 else set())
    if 8 * c.index_bytes < c.full_height or (8 * c.index_bytes >= c.full_height and (1 << (8 * c.index_bytes)) - 1 < last):
        raise Fail('spec', 'index width')
    if cases is not None:
        want = cases
    if seen != want:
        rep.bad('vacuous', '%s: cases reached %s' % (fname, sorted(seen)))
    if ex.glob_written:
        rep.bad('frame', '%s writes globals %s' % (fname, sorted(ex.glob_written)))
    for q, v in ex.obl.items():
        ctx.obl[q] = ctx.obl.get(q, 0) + v
    rep.n += sum(ex.obl.values())
    ctx.results.append((fname, str(c), note, len(rep.fails) == nf, 0, sum(ex.obl.values()), rep.fails[nf][1] if len(rep.fails) > nf else None))
    ctx.inlined = getattr(ctx, 'inlined', set()) | ex.inlined

# ---------------------------------------------------------------- key generation

def top_root(ctx, seed, pub):
    """the root of the key: the single tree of the topmost layer"""
    c = ctx.cfg
    return v2b(ctx.spec.NODE(seed, pub, c.d - 1, 0, c.h, 0), c.n)

def install_randombytes(ctx):
    """randombytes(x, k): the next k bytes of one stream, in order"""
    def f(ctx_, ex, st, a):
        buf, k = a
        if not isinstance(k, int):
            raise Unsupported('randombytes of symbolic length', ex.loc())
        pos = st.ghost.get('rnd', 0)
        st.ghost = dict(st.ghost, rnd=pos + k)
        if k:
            total = v2b(var('rnd', 8 * 3 * ctx.cfg.n), 3 * ctx.cfg.n)
            if pos + k > len(total):
                raise Fail('post', 'more than 3n random bytes requested', ex.loc())
            ex.write(st, buf, total[pos:pos + k])
        return (st, None)
    ctx.shake['randombytes'] = f
    ctx.assumed.add('randombytes fills the whole request with device bytes (property C12)')

def verify_keypair(ctx, fname, rep, seeded=False, state=None):
    """key generation: layout, root, seeds, for every random string / seed"""
    c = ctx.cfg; n = c.n
    install_randombytes(ctx)
    ex = ctx.exec_(skip=(fname,))
    st = State(); st.pc = list(ctx.base_pc)
    p = ctx.params(ex, st)
    skz = ctx.skbytes if getattr(ctx, 'skbytes', None) else c.sk_bytes
    rnd = v2b(var('rnd', 24 * n), 3 * n)
    pk = ex.new(st, 'pk', 2 * n, 'arg'); sk = ex.new(st, 'sk', skz, 'arg')
    args = [p, pk, sk]
    if seeded:
        args.append(ex.new(st, 'seed', 3 * n, 'arg', rnd, ro=True))
    res = ex.call(st, fname, args)
    if not res:
        raise Fail('termination', fname + ' never returns')
    seed, prf, pub = rnd[:n], rnd[n:2 * n], rnd[2 * n:]
    root = top_root(ctx, seed, pub)
    for s3, rv in res:
        def bad(kind, msg):
            rep.bad(kind, '%s: %s' % (fname, msg), ctx, s3.pc)
        def cmp(reg, o, want, nm):
            ex.ob('postcondition')
            g = ex.read(s3, Ptr(reg.rid, o), len(want))
            if any(b is UNDEF or isinstance(b, tuple) for b in g) or prove_eq(ctx, s3.pc, b2v(g), b2v(want), 8 * len(want)) is not True:
                bad('post', nm)
        if prove_eq(ctx, s3.pc, rv, 0, 32) is not True:
            bad('post', 'does not return 0')
        if not seeded and s3.ghost.get('rnd', 0) != 3 * n:
            bad('post', '%d random bytes requested instead of %d' % (s3.ghost.get('rnd', 0), 3 * n))
        cmp(pk, 0, root, 'public key: root'); cmp(pk, n, pub, 'public key: public seed')
        o = c.index_bytes
        cmp(sk, 0, [0] * o, 'secret key: index is not 0')
        for nm, w in (('secret seed', seed), ('PRF seed', prf), ('root', root), ('public seed', pub)):
            cmp(sk, o, w, 'secret key: ' + nm); o += n
        if state:
            state(ex, s3, sk, o, bad)
    if ex.glob_written:
        rep.bad('frame', '%s writes globals %s' % (fname, sorted(ex.glob_written)))
    for q, v in ex.obl.items():
        ctx.obl[q] = ctx.obl.get(q, 0) + v
    rep.n += sum(ex.obl.values())
    ctx.results.append((fname, str(c), 'seeded' if seeded else '', not rep.fails, 0, sum(ex.obl.values()), rep.fails[0][1] if rep.fails else None))
    ctx.inlined = getattr(ctx, 'inlined', set()) | ex.inlined

# ---------------------------------------------------------------- sign then open

def verify_roundtrip(ctx):
    """lemma over the specification: opening what sign_spec prescribes
    recomputes the key's root and returns the message"""
    c = ctx.cfg; sp = ctx.spec; n = c.n; h = c.h; ob = 0
    k = Key(c)
    mlen = var('mlen', 64)
    sig, _ = sign_spec(ctx, k, mlen)
    pc = [not_(unusable(c, k.idx))]
    # one step up the tree: the parent of NODE(s, X) and its sibling is NODE(s + 1, X / 2)
    tree = var('tree', 64)
    base = be(var('layer', 32), 4, 32) + be(tree, 8); lay = cat_bytes_be(base[:4]); tr = cat_bytes_be(base[4:12])
    nd = lambda hh, X: v2b(sp.NODE(k.seed, k.pub, lay, tr, hh, X), n)
    for s in range(h):
        for bit in (0, 1):
            hi = var('hi', h - s - 1) if h - s - 1 else None
            X = tm.cat([(bit, 1)] + ([(hi, h - s - 1)] if hi is not None else []) + [(0, 32 - (h - s))])
            cur, sib = nd(s, X), nd(s, tm.xor([X, 1], 32))
            x = sib + cur if bit else cur + sib
            got = sp.H(k.pub, base + [0, 0, 0, 2, 0, 0, 0, 0] + be(s, 4, 32) + be(tm.lshr(X, 1, 32), 4, 32), x)
            want = b2v(nd(s + 1, tm.lshr(X, 1, 32)))
            ob += 1
            if got is not want:
                raise Fail('lemma', 'parent of node at height %d' % s)
    # a leaf is the L-tree of the one-time public key
    X = var('leaf', 32)
    a = base
    ob += 1
    if sp.node_def(b2v(k.seed), b2v(k.pub), lay, tr, 0, X) is not sp.LTREE(k.pub, a + [0, 0, 0, 1] + be(X, 4, 32), v2b(sp.WOTSPK(k.seed, k.pub, a + [0, 0, 0, 0] + be(X, 4, 32)), c.wots_sig)):
        raise Fail('lemma', 'leaf')
    count = [0]
    def rootfn(pub, i, tree, leaf, node, ots, auth):
        base = be(i, 4) + be(tree, 8)
        w = sp.WOTSSIG(k.seed, k.pub, base + [0, 0, 0, 0] + be(leaf, 4, 32), node)
        if b2v(ots) is not w:
            raise Fail('lemma', 'layer %d: the opened one-time signature is not the one signed' % i)
        nd = lambda hh, X: v2b(sp.NODE(k.seed, k.pub, i, cat_bytes_be(be(tree, 8)), hh, X), n)
        for s in range(h):
            if b2v(auth[s * n:s * n + n]) is not b2v(nd(s, tm.xor([tm.lshr(leaf, s, 32), 1], 32))):
                raise Fail('lemma', 'layer %d: authentication path node %d' % (i, s))
            count[0] += 1
        return nd(h, tm.lshr(leaf, h, 32))
    got, ml = open_spec(ctx, k.root + k.pub, add(mlen, c.sig_bytes, 64), lambda o, z: sig[o:o + z], ('blob', 'msg', 0, mlen), rootfn)
    want = b2v(top_root(ctx, k.seed, k.pub))
    ob += count[0] + 2
    if ml is not mlen:
        raise Fail('lemma', 'message length')
    if prove_eq(ctx, pc, got, want, 8 * n) is not True:
        if not (isinstance(got, T) and got.op == 'app' and got.args[0] == 'NODE' and all(
                x is y or (isinstance(x, (int, T)) and isinstance(y, (int, T)) and ctx.solver.prove(pc, eq(x, y, 64 if q == 4 else 32)) is True)
                for q, (x, y) in enumerate(zip(got.args, want.args)))):
            raise Fail('lemma', 'recomputed root is not the root of the key')
    ctx.obl['lemma'] = ctx.obl.get('lemma', 0) + ob
    ctx.results.append(('lemma: opening a specified signature', str(c), 'any index', True, 0, ob, None))
