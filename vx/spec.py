"""Specification functions: RFC 8391 with the SP 800-208 hash/key-generation
variants, written over terms.  Byte strings are Python lists of byte values in
memory order; b2v packs them into one value.  Opaque applications stand for
the standard's functions; `unfold` gives their definitions."""
from . import terms as tm
from .terms import T, ext, cat_bytes_le as b2v, app, eq, add, sub, shl, lshr, zext, xor, ite

SHA2, SHAKE128, SHAKE256 = 0, 1, 2     # order only used inside the spec

def v2b(v, n):
    """value of 8n bits -> n bytes in memory order"""
    if isinstance(v, int):
        return list(v.to_bytes(n, 'little'))
    if v.op == 'cat' and n > 4:
        out = []; pos = 0; ok = True       # one pass when no piece straddles a byte boundary
        for pv, plo, pw in v.args:
            if pw & 7:
                ok = False
                break
            if isinstance(pv, int):
                out += pv.to_bytes(pw // 8, 'little')
            elif pw == pv.w and pv.op == 'ite':
                out += v2b(pv, pw // 8)
            else:
                for k in range(0, pw, 8):
                    out.append(ext(pv, pv.w, plo + k, 8))
        if ok:
            return out
    if v.op == 'ite' and n > 4:
        return [tm.ite(v.args[0], a, b, 8) for a, b in zip(v2b(v.args[1], n), v2b(v.args[2], n))]
    return [ext(v, 8 * n, 8 * k, 8) for k in range(n)]

def be(v, nbytes, w=64):
    """big-endian encoding of value v (w bits) in nbytes bytes"""
    if isinstance(v, int):
        return list((v & ((1 << (8 * nbytes)) - 1)).to_bytes(nbytes, 'big'))
    out = []
    for k in range(nbytes):
        out.append(ext(v, w, 8 * k, 8) if 8 * k + 8 <= w else 0)
    return out[::-1]

class Cfg:
    """one parameter configuration, as the standard defines it"""
    def __init__(s, n, h, d, w=16, pad=None, func=None, mt=None):
        s.n = n; s.full_height = h; s.d = d; s.w = w
        s.h = h // d
        s.pad = pad if pad is not None else {24: 4, 32: 32, 64: 64}[n]
        s.log_w = {4: 2, 16: 4, 256: 8}[w]
        s.len1 = 8 * n // s.log_w
        # floor(log2(len1*(w-1)) / log_w) + 1
        s.len2 = ((s.len1 * (w - 1)).bit_length() - 1) // s.log_w + 1
        s.len = s.len1 + s.len2
        s.wots_sig = s.len * n
        s.mt = (d > 1) if mt is None else mt
        s.index_bytes = 4 if d == 1 else (h + 7) // 8
        s.sig_bytes = s.index_bytes + n + d * s.wots_sig + h * n
        s.pk_bytes = 2 * n
        s.sk_bytes = s.index_bytes + 4 * n
        s.func = func

    def key(s):
        return (s.n, s.full_height, s.d, s.w, s.pad, s.func)

    def __str__(s):
        f = {None: '*', 0: 'SHA2', 1: 'SHAKE128', 2: 'SHAKE256'}[s.func]
        return 'n=%d h=%d d=%d w=%d func=%s' % (s.n, s.full_height, s.d, s.w, f)

class Spec:
    def __init__(s, cfg):
        s.c = cfg

    # ---- hash functions with domain separation (definitional folding)
    def HASH(s, bs):
        c = s.c; n = c.n; P = c.pad; L = len(bs)
        if L > P and all(isinstance(b, int) for b in bs[:P]) and not any(bs[:P - 1]):
            dom = bs[P - 1]
            if dom == 3 and L == P + n + 32:
                return s.PRF(bs[P:P + n], bs[P + n:])
            if dom == 4 and L == P + 2 * n + 32:
                return s.PRFKG(bs[P:P + n], bs[P + n:])
            if dom == 0 and L == P + 2 * n or dom == 1 and L == P + 3 * n:
                k = b2v(bs[P:P + n])
                if isinstance(k, T) and k.op == 'app' and k.args[0] == 'PRF':
                    seed, a = k.args[1], k.args[2]
                    ab = v2b(a, 32)
                    if ab[28:] == [0, 0, 0, 0]:
                        sb = v2b(seed, n)
                        m = v2b(s.PRF(sb, ab[:28] + [0, 0, 0, 1]), n)
                        if dom == 1:
                            m = m + v2b(s.PRF(sb, ab[:28] + [0, 0, 0, 2]), n)
                        x = [xor([p, q], 8) for p, q in zip(bs[P + n:], m)]
                        return (s.F if dom == 0 else s.H)(sb, ab[:28], x)
        return app('HASH', 8 * n, L, b2v(bs))

    def PRF(s, key, x):
        return app('PRF', 8 * s.c.n, b2v(key), b2v(x))

    def PRFKG(s, key, x):
        return app('PRFKG', 8 * s.c.n, b2v(key), b2v(x))

    def HMSG(s, R, root, idxb, blob):
        """blob: ('blob', name, off, len) or list of bytes"""
        n = s.c.n
        if isinstance(blob, list):
            return app('HMSGC', 8 * n, b2v(R), b2v(root), b2v(idxb), len(blob), b2v(blob))
        return app('HMSG', 8 * n, b2v(R), b2v(root), b2v(idxb), blob[1], blob[2], blob[3])

    def HASHS(s, segs):
        """hash of a segment list with a symbolic-length tail"""
        if len(segs) == 1 and segs[0][0] == 'b':
            return s.HASHC(segs[0][1])
        n = s.c.n; P = s.c.pad
        if len(segs) == 2 and segs[0][0] == 'b' and segs[1][0] == 'blob':
            h = segs[0][1]
            if len(h) == P + 3 * n and all(isinstance(x, int) for x in h[:P]) and not any(h[:P - 1]) and h[P - 1] == 2:
                return s.HMSG(h[P:P + n], h[P + n:P + 2 * n], h[P + 2 * n:], segs[1])
        key = []
        for g in segs:
            if g[0] == 'b':
                key.append(('b', len(g[1]), b2v(g[1])))
            else:
                key.append(tuple(g))
        return app('HASHSEG', 8 * n, tuple(key))

    def HASHC(s, bs):
        n = s.c.n; P = s.c.pad
        if len(bs) >= P + 3 * n and all(isinstance(x, int) for x in bs[:P]) and not any(bs[:P - 1]) and bs[P - 1] == 2 :
            return s.HMSG(bs[P:P + n], bs[P + n:P + 2 * n], bs[P + 2 * n:P + 3 * n], bs[P + 3 * n:])
        return s.HASH(bs)

    def F(s, seed, a28, x):
        return app('F', 8 * s.c.n, b2v(seed), b2v(a28), b2v(x))

    def H(s, seed, a28, x):
        """x: 2n bytes.  Folds to NODE when both halves are sibling nodes."""
        n = s.c.n
        l = b2v(x[:n]); r = b2v(x[n:])
        if isinstance(l, T) and isinstance(r, T) and l.op == 'app' and r.op == 'app' \
                and l.args[0] == 'NODE' and r.args[0] == 'NODE' and l.args[1:6] == r.args[1:6]:
            _, sk, pub, layer, tree, hh, XL = l.args
            XR = r.args[6]
            if b2v(seed) is pub or b2v(seed) == pub:
                X = lshr(XL, 1, 32)
                if eq(shl(X, 1, 32), XL, 32) == 1 and eq(tm.or_(XL, 1, 32), XR, 32) == 1:
                    want = be(layer, 4, 32) + be(tree, 8, 64) + [0, 0, 0, 2, 0, 0, 0, 0] + be(hh, 4, 32) + be(X, 4, 32)
                    if all(p is q or (isinstance(p, int) and p == q) for p, q in zip(want, a28)):
                        return app('NODE', 8 * n, sk, pub, layer, tree, hh + 1, X)
        return app('H', 8 * n, b2v(seed), b2v(a28), b2v(x))

    # ---- WOTS+
    def lengths(s, msg):
        """chain lengths of an n-byte message, as 32-bit values (RFC 8391 alg. 1, 5)"""
        c = s.c
        out = []
        per = 8 // c.log_w
        for i in range(c.len1):
            b = msg[i // per]
            k = 8 - c.log_w * (i % per + 1)
            out.append(zext(ext(b, 8, k, c.log_w), c.log_w, 32))
        cs = 0
        for d in out:
            cs = add(cs, sub(c.w - 1, d, 32), 32)
        tot = c.len2 * c.log_w
        nb = (tot + 7) // 8
        cs = shl(cs, 8 * nb - tot, 32)
        cb = be(cs, nb, 32)
        for i in range(c.len2):
            b = cb[i // per]
            k = 8 - c.log_w * (i % per + 1)
            out.append(zext(ext(b, 8, k, c.log_w), c.log_w, 32))
        return out

    def CHAIN(s, seed, a24, x, start, steps):
        """a24: address words 0..5; start, steps: 32-bit values"""
        if isinstance(start, int) and isinstance(steps, int):
            v = b2v(x)
            for i in range(start, start + steps):
                v = s.F(seed, a24 + be(i, 4, 32), v2b(v, s.c.n))
            return v
        if isinstance(steps, int) and steps == 0:
            return b2v(x)
        return app('CHAIN', 8 * s.c.n, b2v(seed), b2v(a24), b2v(x), start, steps)

    def SKCHAIN(s, sk, pub, a20, i):
        return s.PRFKG(sk, pub + a20 + be(i, 4) + [0] * 8)

    def WOTSPK(s, sk, pub, a20):
        return app('WOTSPK', 8 * s.c.wots_sig, b2v(sk), b2v(pub), b2v(a20))

    def WOTSPK_def(s, sk, pub, a20):
        n = s.c.n; out = []
        for i in range(s.c.len):
            x = v2b(s.SKCHAIN(sk, pub, a20, i), n)
            out += v2b(s.CHAIN(pub, a20 + be(i, 4), x, 0, s.c.w - 1), n)
        return b2v(out)

    def WOTSSIG(s, sk, pub, a20, msg):
        return app('WOTSSIG', 8 * s.c.wots_sig, b2v(sk), b2v(pub), b2v(a20), b2v(msg))

    def WOTSSIG_def(s, sk, pub, a20, msg):
        n = s.c.n; out = []
        L = s.lengths(msg)
        for i in range(s.c.len):
            x = v2b(s.SKCHAIN(sk, pub, a20, i), n)
            out += v2b(s.CHAIN(pub, a20 + be(i, 4), x, 0, L[i]), n)
        return b2v(out)

    def WOTSREC(s, pub, a20, sig, msg):
        return app('WOTSREC', 8 * s.c.wots_sig, b2v(pub), b2v(a20), b2v(sig), b2v(msg))

    def WOTSREC_def(s, pub, a20, sig, msg):
        n = s.c.n; out = []
        L = s.lengths(msg)
        for i in range(s.c.len):
            out += v2b(s.CHAIN(pub, a20 + be(i, 4), sig[i * n:(i + 1) * n], L[i], sub(s.c.w - 1, L[i], 32)), n)
        return b2v(out)

    # ---- trees
    def LTREE(s, pub, a20, pk):
        return app('LTREE', 8 * s.c.n, b2v(pub), b2v(a20), b2v(pk))

    def LTREE_def(s, pub, a20, pk):
        n = s.c.n
        nodes = [pk[i * n:(i + 1) * n] for i in range(s.c.len)]
        hh = 0
        while len(nodes) > 1:
            nx = []
            for i in range(len(nodes) // 2):
                nx.append(v2b(s.H(pub, a20 + be(hh, 4) + be(i, 4), nodes[2 * i] + nodes[2 * i + 1]), n))
            if len(nodes) & 1:
                nx.append(nodes[-1])
            nodes = nx
            hh += 1
        return b2v(nodes[0])

    def LEAF(s, sk, pub, lt20, ots20):
        """leaf from L-tree and OTS address; folds to NODE(0, X)"""
        z = lambda p, q: p is q or (isinstance(p, int) and isinstance(q, int) and p == q)
        if all(z(p, q) for p, q in zip(lt20[:12], ots20[:12])) and lt20[12:16] == [0, 0, 0, 1] \
                and ots20[12:16] == [0, 0, 0, 0] and all(z(p, q) for p, q in zip(lt20[16:], ots20[16:])):
            layer = tm.cat_bytes_be(lt20[:4]); tree = tm.cat_bytes_be(lt20[4:12])
            X = tm.cat_bytes_be(lt20[16:20])
            return s.NODE(sk, pub, layer, tree, 0, X)
        return app('LEAF', 8 * s.c.n, b2v(sk), b2v(pub), b2v(lt20), b2v(ots20))

    def LEAF_def(s, sk, pub, lt20, ots20):
        pk = v2b(s.WOTSPK(sk, pub, ots20), s.c.wots_sig)
        return s.LTREE(pub, lt20, pk)

    def NODE(s, sk, pub, layer, tree, hh, X):
        return app('NODE', 8 * s.c.n, b2v(sk), b2v(pub), layer, tree, hh, X)

    def ROOT(s, h, pub, a20, leaf, idx, auth):
        return app('ROOT', 8 * s.c.n, h, b2v(pub), b2v(a20), b2v(leaf), idx, b2v(auth))

    def ROOT_def(s, h, pub, a20, leaf, idx, auth):
        """idx: 32-bit value < 2^h"""
        n = s.c.n
        cur = leaf
        for i in range(h):
            bit = ext(idx, 32, i, 1)
            sib = auth[i * n:(i + 1) * n]
            x = [ite(bit, q, p, 8) for p, q in zip(cur, sib)] + [ite(bit, p, q, 8) for p, q in zip(cur, sib)]
            cur = v2b(s.H(pub, a20 + be(i, 4) + be(lshr(idx, i + 1, 32), 4, 32), x), n)
        return b2v(cur)

    # ---- unfolding of opaque applications (one definitional step each)
    def hooks(s, names):
        n = s.c.n; B = s.c.wots_sig
        table = {
            'WOTSPK': lambda w, sk, pub, a: s.WOTSPK_def(v2b(sk, n), v2b(pub, n), v2b(a, 20)),
            'WOTSSIG': lambda w, sk, pub, a, m: s.WOTSSIG_def(v2b(sk, n), v2b(pub, n), v2b(a, 20), v2b(m, n)),
            'WOTSREC': lambda w, pub, a, sg, m: s.WOTSREC_def(v2b(pub, n), v2b(a, 20), v2b(sg, B), v2b(m, n)),
            'LTREE': lambda w, pub, a, pk: s.LTREE_def(v2b(pub, n), v2b(a, 20), v2b(pk, B)),
            'LEAF': lambda w, sk, pub, l, o: s.LEAF_def(v2b(sk, n), v2b(pub, n), v2b(l, 20), v2b(o, 20)),
            'ROOT': lambda w, h, pub, a, leaf, idx, au: s.ROOT_def(h, v2b(pub, n), v2b(a, 20), v2b(leaf, n), idx, v2b(au, n * h)),
            'NODE': lambda w, sk, pub, layer, tree, hh, X: s.node_def(sk, pub, layer, tree, hh, X),
        }
        h = {k: table[k] for k in names}
        # re-fold after substitution
        h['F'] = lambda w, seed, a, x: s.F(v2b(seed, n), v2b(a, 28), v2b(x, n))
        h['H'] = lambda w, seed, a, x: s.H(v2b(seed, n), v2b(a, 28), v2b(x, 2 * n))
        h['CHAIN'] = lambda w, seed, a, x, st, sp: s.CHAIN(v2b(seed, n), v2b(a, 24), v2b(x, n), st, sp)
        if 'LEAF' not in h:
            h['LEAF'] = lambda w, sk, pub, l, o: s.LEAF(v2b(sk, n), v2b(pub, n), v2b(l, 20), v2b(o, 20))
        return h

    def node_def(s, sk, pub, layer, tree, hh, X):
        n = s.c.n
        if hh == 0:
            a = be(layer, 4, 32) + be(tree, 8, 64)
            return s.LEAF_def(v2b(sk, n), v2b(pub, n), a + [0, 0, 0, 1] + be(X, 4, 32), a + [0, 0, 0, 0] + be(X, 4, 32))
        l = s.NODE(v2b(sk, n), v2b(pub, n), layer, tree, hh - 1, shl(X, 1, 32))
        r = s.NODE(v2b(sk, n), v2b(pub, n), layer, tree, hh - 1, tm.or_(shl(X, 1, 32), 1, 32))
        a = be(layer, 4, 32) + be(tree, 8, 64) + [0, 0, 0, 2, 0, 0, 0, 0] + be(hh - 1, 4) + be(X, 4, 32)
        return app('H', 8 * n, pub, b2v(a), b2v(v2b(l, n) + v2b(r, n)))
