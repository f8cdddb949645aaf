"""C14: address and integer encodings."""
import time
from vx import terms as tm, ver
from vx.sym import Exec, State, Fail, UNDEF
from vx.spec import v2b, Cfg, be
from . import common as cm

KINDS = {'post', 'frame', 'memory', 'uninitialised', 'undefined'}
TAGS = {'addr', 'ints', 'crash', 'sanitizer'}
SETTERS = {'set_layer_addr': [0], 'set_type': [3], 'set_key_and_mask': [7], 'set_ots_addr': [4], 'set_chain_addr': [5], 'set_hash_addr': [6],
           'set_ltree_addr': [4], 'set_tree_height': [5], 'set_tree_index': [6], 'set_tree_addr': [1, 2]}

class Ctx1:
    pass

def run1(env, rec, fname, build, expect):
    """one function on arbitrary inputs; expect(state, args, ret) -> list of (got bytes/values, wanted, w, text)"""
    prog = env['ref']
    t0 = time.time()
    ex = Exec(prog.mod); ex.deadline = env.get('deadline')
    st = State()
    args, objs = build(ex, st)
    res = ex.call(st, fname, args)
    if not res:
        raise Fail('post', fname + ' never returns')
    ob = 0
    ctx = cm.mkctx(env, Cfg(32, 10, 1, 16, None, 0), upto='hash')
    for s2, rv in res:
        for got, want, w, txt in expect(ex, s2, args, rv):
            ob += 1
            if got is UNDEF or isinstance(got, tuple):
                raise Fail('post', '%s: %s not set' % (fname, txt))
            if ver.prove_eq(ctx, s2.pc, got, want, w) is not True:
                raise Fail('post', '%s: %s is %s, specified %s' % (fname, txt, tm.show(got), tm.show(want)))
    if ex.glob_written:
        raise Fail('frame', '%s writes globals' % fname)
    for k, q in ex.obl.items():
        rec.obl[k] = rec.obl.get(k, 0) + q
    rec.obl['postcondition'] = rec.obl.get('postcondition', 0) + ob
    rec.recs.append((fname, '', '', True, round(time.time() - t0, 2), ob, None))

def t_addr(env, rec):
    words = [tm.var('a%d' % i, 32) for i in range(8)]
    flat = [b for x in words for b in v2b(x, 4)]
    for fn, idx in SETTERS.items():
        w = 64 if len(idx) == 2 else 32
        v = tm.var('v', w)
        def build(ex, st):
            p = ex.new(st, 'addr', 32, 'arg', list(flat))
            return [p, v], None
        def expect(ex, st, args, rv):
            b = ex.read(st, args[0], 32)
            for k in range(8):
                want = words[k]
                if k in idx:
                    want = v if len(idx) == 1 else tm.ext(v, 64, 32 if k == idx[0] else 0, 32)
                yield (tm.cat_bytes_le(b[4 * k:4 * k + 4]) if not any(x is UNDEF for x in b[4 * k:4 * k + 4]) else UNDEF), want, 32, 'word %d' % k
        rec.guard(fn, run1, env, rec, fn, build, expect)
    src = [tm.var('s%d' % i, 32) for i in range(8)]
    def build(ex, st):
        o = ex.new(st, 'out', 32, 'arg', list(flat)); i = ex.new(st, 'in', 32, 'arg', [b for x in src for b in v2b(x, 4)], ro=True)
        return [o, i], None
    def expect(ex, st, args, rv):
        b = ex.read(st, args[0], 32)
        for k in range(8):
            yield tm.cat_bytes_le(b[4 * k:4 * k + 4]), src[k] if k < 3 else words[k], 32, 'word %d' % k
    rec.guard('copy_subtree_addr', run1, env, rec, 'copy_subtree_addr', build, expect)
    def build(ex, st):
        return [ex.new(st, 'bytes', 32, 'arg'), ex.new(st, 'addr', 32, 'arg', list(flat), ro=True)], None
    def expect(ex, st, args, rv):
        b = ex.read(st, args[0], 32)
        for k in range(32):
            yield b[k], tm.ext(words[k // 4], 32, 24 - 8 * (k % 4), 8), 8, 'byte %d' % k
    rec.guard('addr_to_bytes', run1, env, rec, 'addr_to_bytes', build, expect)

def t_ints(env, rec, lo, hi):
    v = tm.var('v', 64)
    for L in range(lo, hi):
        def build(ex, st):
            g = [tm.var('g%d' % i, 8) for i in range(L + 16)]
            o = ex.new(st, 'out', L, 'arg')
            return [o, L, v], None
        def expect(ex, st, args, rv):
            b = ex.read(st, args[0], L) if L else []
            w = be(v, L)
            for k in range(L):
                yield b[k], w[k], 8, 'byte %d of %d' % (k, L)
        rec.guard('ull_to_bytes length %d' % L, run1, env, rec, 'ull_to_bytes', build, expect)
        if L <= 8:
            x = [tm.var('x%d' % i, 8) for i in range(L)]
            def build(ex, st):
                return [ex.new(st, 'in', L, 'arg', list(x), ro=True), L], None
            def expect(ex, st, args, rv):
                yield rv, (tm.zext(tm.cat_bytes_be(x), 8 * L, 64) if L < 8 else tm.cat_bytes_be(x)) if L else 0, 64, 'value'
            rec.guard('bytes_to_ull length %d' % L, run1, env, rec, 'bytes_to_ull', build, expect)

def check(c):
    c.programs('ref')
    c.prove([cm.Task('addresses', t_addr)] + [cm.Task('integers %d..%d' % (a, a + 15), t_ints, (a, a + 16)) for a in range(0, 128, 16)])
    trouble = c.fails() or c.unsup()
    c.native.build('unit', ['unit.c', 'oracle.c'], False)
    c.native.build('usan', ['unit.c', 'oracle.c'], False, san=True)
    b = 60 if c.tier == 'thorough' else 15 if trouble else 1
    out = c.native.run_many([(x, ['addr', c.seed * 10 + i, b]) for i, x in enumerate(('unit', 'unit', 'usan'))])
    hits = [(j, t, d) for j, fl, n in out for t, d in fl if t in TAGS]
    c.bounded.append('ull_to_bytes is proved for every value and every length 0..127 (lengths are unrolled; the code uses at most 64), bytes_to_ull for lengths 0..8 (more does not fit the result)')
    return c.finish(KINDS, hits)
