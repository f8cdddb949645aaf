"""C06: WOTS+ digits, checksum, one-time signatures."""
from vx import terms as tm
from vx.sym import Fail
from vx.spec import Cfg, Spec, v2b
from . import common as cm

KINDS = {'post', 'lemma', 'frame', 'memory', 'uninitialised', 'spec'}
TAGS = {'wots', 'wotsparams', 'crash', 'sanitizer', 'params'}
IN0 = (('in', ('out', 0)),)
VAR = [('gen_chain', ()), ('expand_seed', ()), ('wots_pkgen', ()), ('wots_sign', ()), ('wots_pk_from_sig', ())]

def t_lemma(env, rec, n, w):
    """over the specification: a signature opens to the public key, and chain
    lengths of different digests are incomparable"""
    import z3
    c = Cfg(n, 10, 1, w); s = Spec(c); ob = 0
    msg = v2b(tm.var('msg', 8 * n), n); sk = v2b(tm.var('sk', 8 * n), n); pub = v2b(tm.var('pub', 8 * n), n); a = v2b(tm.var('a', 160), 20)
    # round trip: chain composition for every split point, lengths shared by signer and verifier
    x = v2b(tm.var('x', 8 * n), n); a24 = v2b(tm.var('a24', 192), 24)
    full = s.CHAIN(pub, a24, x, 0, w - 1)
    for L in range(w):
        y = v2b(s.CHAIN(pub, a24, x, 0, L), n)
        z = s.CHAIN(pub, a24, y, L, w - 1 - L)
        ob += 1
        if z is not full:
            raise Fail('lemma', 'chain composition fails at %d (w=%d)' % (L, w))
    # checksum: fits, digits are the base-w representation, sum strictly decreasing
    ob += 1
    if not w ** c.len2 > c.len1 * (w - 1):
        raise Fail('lemma', 'checksum does not fit')
    X = [z3.Int('x%d' % i) for i in range(c.len1)]; Y = [z3.Int('y%d' % i) for i in range(c.len1)]
    so = z3.Solver()
    for p, q in zip(X, Y):
        so.add(0 <= p, p <= q, q <= w - 1)
    so.add(z3.Or([p < q for p, q in zip(X, Y)]), z3.Sum([w - 1 - q for q in Y]) >= z3.Sum([w - 1 - p for p in X]))
    ob += 1
    if so.check() != z3.unsat:
        raise Fail('lemma', 'checksum monotonicity')
    D = [z3.Int('d%d' % i) for i in range(c.len2)]; E = [z3.Int('e%d' % i) for i in range(c.len2)]
    so = z3.Solver()
    for p, q in zip(D, E):
        so.add(0 <= p, p <= w - 1, 0 <= q, q <= w - 1, q >= p)
    val = lambda l: z3.Sum([q * w ** (c.len2 - 1 - i) for i, q in enumerate(l)])
    so.add(val(E) < val(D))
    ob += 1
    if so.check() != z3.unsat:
        raise Fail('lemma', 'checksum digits are not monotone')
    # the specification's lengths: message digits in order, then the checksum's digits
    Ls = s.lengths(msg)
    mv = tm.cat_bytes_be(msg)
    for i in range(c.len1):
        ob += 1
        d = tm.zext(tm.ext(mv, 8 * n, 8 * n - (i + 1) * c.log_w, c.log_w), c.log_w, 32)
        if Ls[i] is not d and Ls[i] != d:
            raise Fail('lemma', 'digit %d of the specification' % i)
    rec.obl['lemma'] = rec.obl.get('lemma', 0) + ob
    rec.recs.append(('lemma: WOTS+ round trip, checksum', str(c), '', True, 0, ob, None))

def check(c):
    c.programs('ref')
    ts = []
    for w in (256, 16, 4):
        for n in (64, 32, 24):
            if w == 256:
                ts.append(cm.Task('chain n=%d w=256' % n, cm.t_contracts, (n, w, None, [('gen_chain', ())])))
            ts.append(cm.Task('wots n=%d w=%d' % (n, w), cm.t_contracts, (n, w, None, VAR)))
            ts.append(cm.Task('lemma n=%d w=%d' % (n, w), t_lemma, (n, w)))
    c.prove(ts)
    trouble = c.fails() or c.unsup()
    c.native.build('unit', ['unit.c', 'oracle.c'], False)
    b = 60 if c.tier == 'thorough' else 15 if trouble else 1
    out = c.native.run_many([('unit', ['wots', c.seed * 10 + w, b, f, n, w]) for n, f in ((24, 2), (32, 0), (64, 0)) for w in (4, 16, 256)])
    hits = [(j, t, d) for j, fl, n in out for t, d in fl if t in TAGS]
    c.bounded.append('concrete cross-check of key generation, signing and recovery against an independent implementation (all-zero, all-one and random digests)')
    return c.finish(KINDS, hits)
