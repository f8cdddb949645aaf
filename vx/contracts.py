"""The contracts of the functions of /repo (effects in terms of vx.spec)."""
from . import terms as tm
from .terms import ext, eq, ult, not_, add, sub, cat_bytes_le as b2v, cat_bytes_be, var
from .spec import v2b, be
from .ver import Contract, ANY, A, unA
from .sym import Ptr, UNDEF, Unsupported, Fail

def mod_addr(old, upto):
    """address after a call that may change words upto..7"""
    return list(old[:4 * upto]) + [ANY] * (32 - 4 * upto)

def rc0(ctx):
    return 0

def hash_contracts(ctx):
    n = ctx.cfg.n; sp = ctx.spec
    ctx.add(Contract('prf', 'params:P out:w:n in:r:32 key:r:n',
        lambda c, v: (0, {'out': v2b(sp.PRF(v['key'], v['in']), n)}), ret=0))
    ctx.add(Contract('prf_keygen', 'params:P out:w:n in:r:n+32 key:r:n',
        lambda c, v: (0, {'out': v2b(sp.PRFKG(v['key'], v['in']), n)}), ret=0))
    ctx.add(Contract('thash_f', 'params:P out:w:n in:r:n pub_seed:r:n addr:rw:32',
        lambda c, v: (0, {'out': v2b(sp.F(v['pub_seed'], A(v['addr'])[:28], v['in']), n), 'addr': mod_addr(v['addr'], 7)})))
    ctx.add(Contract('thash_h', 'params:P out:w:n in:r:2*n pub_seed:r:n addr:rw:32',
        lambda c, v: (0, {'out': v2b(sp.H(v['pub_seed'], A(v['addr'])[:28], v['in']), n), 'addr': mod_addr(v['addr'], 7)})))

    ctx.table['hash_message'] = HashMessage()
    for x in ('prf', 'prf_keygen', 'thash_f', 'thash_h'):
        ctx.table[x].perfunc = True

def wots_contracts(ctx):
    n = ctx.cfg.n; sp = ctx.spec; W = ctx.cfg.w; L = ctx.cfg.len; B = ctx.cfg.wots_sig

    # ---- gen_chain: requires start + steps <= w-1
    def gc_req(c, ex, st, v):
        a, k = v['start'], v['steps']
        if isinstance(a, int) and isinstance(k, int):
            if a + k <= W - 1:
                return 'any' if W <= 16 else ('zero' if a == 0 else ('full' if a + k == W - 1 else None))
            return None
        if isinstance(a, int) and a == 0:
            if ex.solver.prove(st.pc, ult(k, W, 32)) is True:
                return 'any' if W <= 16 else 'zero'
            return None
        s = add(a, k, 32)
        if isinstance(s, int) and s == W - 1 and ex.solver.prove(st.pc, ult(a, W, 32)) is True:
            return 'any' if W <= 16 else 'full'
        return None
    def gc_cases(c, key):
        if key == 'any':
            return [dict(start=a, steps=k) for a in range(W) for k in range(W - a)]
        if key == 'zero':
            return [dict(start=0, steps=k) for k in range(W)]
        return [dict(start=a, steps=W - 1 - a) for a in range(W)]
    ctx.add(Contract('gen_chain', 'params:P out:w:n in:r:n start:i32 steps:i32 pub_seed:r:n addr:rw:32',
        lambda c, v: {'out': v2b(sp.CHAIN(v['pub_seed'], A(v['addr'])[:24], v['in'], v['start'], v['steps']), n),
                      'addr': mod_addr(v['addr'], 6)}, requires=gc_req, cases=gc_cases))

    def es(c, v):
        out = []
        a = A(v['addr'])
        for i in range(L):
            out += v2b(sp.SKCHAIN(v['inseed'], v['pub_seed'], a[:20], i), n)
        return {'outseeds': out, 'addr': mod_addr(v['addr'], 5)}
    ctx.add(Contract('expand_seed', 'params:P outseeds:w:sigb inseed:r:n pub_seed:r:n addr:rw:32', es))

    ctx.add(Contract('wots_pkgen', 'params:P pk:w:sigb seed:r:n pub_seed:r:n addr:rw:32',
        lambda c, v: {'pk': v2b(sp.WOTSPK(v['seed'], v['pub_seed'], A(v['addr'])[:20]), B), 'addr': mod_addr(v['addr'], 5)}))
    ctx.add(Contract('wots_sign', 'params:P sig:w:sigb msg:r:n seed:r:n pub_seed:r:n addr:rw:32',
        lambda c, v: {'sig': v2b(sp.WOTSSIG(v['seed'], v['pub_seed'], A(v['addr'])[:20], v['msg']), B), 'addr': mod_addr(v['addr'], 5)}))
    ctx.add(Contract('wots_pk_from_sig', 'params:P pk:w:sigb sig:r:sigb msg:r:n pub_seed:r:n addr:rw:32',
        lambda c, v: {'pk': v2b(sp.WOTSREC(v['pub_seed'], A(v['addr'])[:20], v['sig'], v['msg']), B), 'addr': mod_addr(v['addr'], 5)}))
    for x in ('wots_pkgen', 'wots_sign', 'wots_pk_from_sig'):
        ctx.table[x].unfold = ('WOTSPK', 'WOTSSIG', 'WOTSREC')

def tree_contracts(ctx):
    n = ctx.cfg.n; sp = ctx.spec; h = ctx.cfg.h
    ctx.add(Contract('l_tree', 'params:P leaf:w:n wots_pk:rw:sigb pub_seed:r:n addr:rw:32',
        lambda c, v: {'leaf': v2b(sp.LTREE(v['pub_seed'], A(v['addr'])[:20], v['wots_pk']), n),
                      'wots_pk': [ANY] * ctx.cfg.wots_sig, 'addr': mod_addr(v['addr'], 5)}))
    ctx.table['l_tree'].unfold = ('LTREE',)
    def cr_req(c, ex, st, v):
        li = v['leafidx']
        return '' if ex.solver.prove(st.pc, ult(li, 1 << h, 64)) is True else None
    def cr(c, v):
        return {'root': v2b(sp.ROOT(h, v['pub_seed'], A(v['addr'])[:20], v['leaf'], ext(v['leafidx'], 64, 0, 32), v['auth_path']), n),
                'addr': mod_addr(v['addr'], 5)}
    ctx.add(Contract('compute_root', 'params:P root:w:n leaf:r:n leafidx:i64 auth_path:r:h*n pub_seed:r:n addr:rw:32', cr,
        requires=cr_req, cases=lambda c, key: [dict(leafidx=tm.zext(var('leafidx', h), h, 64))]))
    ctx.table['compute_root'].unfold = ('ROOT',)
    def gl(c, v):
        return {'leaf': v2b(sp.LEAF(v['sk_seed'], v['pub_seed'], A(v['ltree_addr'])[:20], A(v['ots_addr'])[:20]), n),
                'ltree_addr': mod_addr(v['ltree_addr'], 5), 'ots_addr': mod_addr(v['ots_addr'], 5)}
    ctx.add(Contract('gen_leaf_wots', 'params:P leaf:w:n sk_seed:r:n pub_seed:r:n ltree_addr:rw:32 ots_addr:rw:32', gl))
    ctx.table['gen_leaf_wots'].unfold = ('LEAF',)

def node_fn(ctx, v, addr):
    """nodes of the subtree that the address selects"""
    a = A(addr)
    layer = cat_bytes_be(a[:4]); tree = cat_bytes_be(a[4:12])
    n = ctx.cfg.n; sp = ctx.spec
    return lambda hh, X: v2b(sp.NODE(v['sk_seed'], v['pub_seed'], layer, tree, hh, X), n)

def auth_want(ctx, node, leaf):
    out = []
    for k in range(ctx.cfg.h):
        out += node(k, tm.xor([tm.lshr(leaf, k, 32), 1], 32))
    return out

def treehash_contract(ctx):
    n = ctx.cfg.n; h = ctx.cfg.h
    def eff(c, v):
        node = node_fn(ctx, v, v['subtree_addr'])
        return {'root': node(h, 0), 'auth_path': auth_want(ctx, node, v['leaf_idx'])}
    def req(c, ex, st, v):
        return '' if ex.solver.prove(st.pc, ult(v['leaf_idx'], 1 << h, 32)) is True else None
    def loops(c, ex, st, args, v):
        from .loops import TreeLoop
        from .ver import parse_args
        names = [a.name for a in parse_args(ctx.table['treehash'].argtxt, ctx)]
        d = dict(zip(names, args))
        if d['auth_path'].rid in (d['root'].rid,) or d['auth_path'].off != 0:
            raise Unsupported('aliased output of treehash')
        node = node_fn(ctx, v, v['subtree_addr']); leaf = v['leaf_idx']
        V = v2b(var('auth0', 8 * n * h), n * h)
        st.wr(d['auth_path'].rid).cells = list(V)
        def auth(cs):
            out = []
            for k in range(h):
                X = tm.xor([tm.lshr(leaf, k, 32), 1], 32)
                done = ult(X, tm.lshr(cs.jw(32), k, 32), 32)
                N = node(k, X)
                out += [tm.ite(done, N[i], V[k * n + i], 8) for i in range(n)]
            return out
        ex.loop_hook = TreeLoop(ctx, 'gen_leaf_wots', h, node, {d['auth_path'].rid: auth})
    ctx.add(Contract('treehash', 'params:P root:w:n auth_path:w:h*n sk_seed:r:n pub_seed:r:n leaf_idx:i32 subtree_addr:r:32', eff,
        requires=req, cases=lambda c, key: [dict(leaf_idx=tm.zext(var('leaf_idx', h), h, 32))], loops=loops))
    ctx.table['treehash'].weak = True

def install(ctx, upto='tree'):
    ctx.installer = lambda c: install(c, upto)
    hash_contracts(ctx)
    if upto == 'hash':
        return
    wots_contracts(ctx)
    if upto == 'wots':
        return
    tree_contracts(ctx)
    if not ctx.prog.fast:
        treehash_contract(ctx)

class HashMessage:
    """hash_message: the message has any length; the bytes before it in the
    buffer are scratch space"""
    name = 'hash_message'
    perfunc = True
    argtxt = 'params:P out R root idx buf mlen'

    def apply(s, ctx, ex, st, args):
        if len(args) != 7:
            return None
        p, out, R, root, idx, buf, mlen = args
        c = ctx.cfg; n = c.n; pre = c.pad + 3 * n
        if not all(isinstance(q, Ptr) and isinstance(q.off, int) for q in (p, out, R, root, buf)):
            return None
        if not ctx.same_params(ex, st, p):
            return None
        for q in (R, root, out):
            if q.rid == buf.rid and q.off < buf.off + pre and buf.off < q.off + n:
                return None
        for q in (R, root):
            if q.rid == out.rid and abs(q.off - out.off) < n:
                return None
        if out.rid == buf.rid:
            return None
        if not ctx.ensure(s, (), ''):
            return None
        rb = ex.read(st, R, n); rt = ex.read(st, root, n)
        for b in rb + rt:
            if b is UNDEF or isinstance(b, tuple):
                ex.fail('uninitialised', 'hash_message of uninitialised bytes')
        msg = Ptr(buf.rid, buf.off + pre)
        ex.write(st, buf, [tm.fresh('ANY', 8) for _ in range(pre)])
        ex.write(st, out, v2b(msg_hash(ctx, ex, st, rb, rt, idx, msg, mlen), n))
        ex.ob('contract-applied')
        return (st, 0)

    def verify(s, ctx):
        c = ctx.cfg; n = c.n; pre = c.pad + 3 * n; sp = ctx.spec
        ex = ctx.exec_(skip=('hash_message',))
        from .sym import State
        st = State(); st.pc = list(ctx.base_pc)
        mlen = var('hm_mlen', 64)
        st.pc.append(ult(mlen, (1 << 63) - 1 - pre, 64))
        p = ctx.params(ex, st)
        size = add(mlen, pre, 64)
        buf = ex.newbig(st, 'buf', size, [(0, size, ('blob', 'pre', 0)), (pre, mlen, ('blob', 'msg', 0))])
        rv = var('R', 8 * n); tv = var('root', 8 * n); idx = var('idx', 64)
        R = ex.new(st, 'R', n, 'arg', v2b(rv, n), ro=True)
        root = ex.new(st, 'root', n, 'arg', v2b(tv, n), ro=True)
        out = ex.new(st, 'out', n, 'arg')
        want = sp.HMSG(v2b(rv, n), v2b(tv, n), be(idx, n), ('blob', 'msg', 0, mlen))
        tot = 0
        for st2, rv2 in ex.call(st, 'hash_message', [p, out, R, root, idx, buf, mlen]):
            ctx.equal(ex, st2, [(rv2, 0, 32)], 'hash_message: return value')
            got = ex.read(st2, out, n)
            if any(b is UNDEF for b in got):
                raise Fail('post', 'hash_message leaves its output unset')
            ctx.equal(ex, st2, [(b2v(got), want, 8 * n)], 'hash_message: digest')
            segs = ex.read_segs(st2, Ptr(buf.rid, pre), mlen)
            if not (len(segs) == 1 and segs[0][0] == 'blob' and segs[0][1] == 'msg' and segs[0][2] == 0):
                raise Fail('frame', 'hash_message modifies the message')
        if ex.glob_written:
            raise Fail('frame', 'hash_message writes globals')
        for k, q in ex.obl.items():
            ctx.obl[k] = ctx.obl.get(k, 0) + q
            tot += q
        return tot

def msg_hash(ctx, ex, st, rb, rt, idx, msg, mlen):
    sp = ctx.spec; n = ctx.cfg.n
    segs = ex.read_segs(st, msg, mlen)
    if not segs:
        return sp.HMSG(rb, rt, be(idx, n), [])
    if len(segs) == 1 and segs[0][0] == 'blob':
        return sp.HMSG(rb, rt, be(idx, n), segs[0])
    if all(g[0] == 'b' for g in segs):
        return sp.HMSG(rb, rt, be(idx, n), [b for g in segs for b in g[1]])
    if any(g[0] in ('undef', 'any') for g in segs):
        ex.fail('uninitialised', 'message hash of unspecified bytes %r' % (segs,))
    raise Unsupported('message hash of %r' % ([g[0] for g in segs],))
