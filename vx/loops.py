"""Loop invariants for loops that cannot be unrolled.

The handler watches the first iterations of a loop that calls its `driver`
once per iteration, guesses for every object alive at the loop header how it
depends on the iteration number j (constant, affine in j, popcount(j), the
stack of tree nodes that TreeHash keeps, its heights, or a template the
contract supplies), and then proves the guess: it holds at an observed
iteration, and from an arbitrary state of that form one more iteration leads
to a state of that form.  A wrong guess can only make the proof fail.  What
cannot be guessed is unconstrained ('havoc'); if an obligation fails on a term
that depends on it, the loop counts as not decided rather than wrong."""
from . import terms as tm
from .terms import T, ext, eq, ult, not_, and_, add, cat_bytes_le as b2v
from .spec import v2b
from .sym import Ptr, PIte, FnPtr, UNDEF, Fail, Unsupported, Region, same_val

DEBUG = False

def has_havoc(ts):
    seen = set(); st = [ts]
    while st:
        v = st.pop()
        if isinstance(v, (tuple, list)):
            st.extend(v)
        elif isinstance(v, T) and v not in seen:
            seen.add(v)
            if v.op == 'var' and isinstance(v.args[0], str) and v.args[0].startswith('havoc'):
                return True
            st.extend(v.args)
    return False

def popcount(j):
    return bin(j).count('1')

class Rec:
    def __init__(s):
        s.obs = []; s.calls = None; s.mode = 'watch'; s.backs = []; s.ok = True

class TreeLoop:
    """one iteration per leaf of a tree of height h"""
    N = 9
    def __init__(s, ctx, driver, h, node, supplied):
        """node(height, X) -> node bytes; supplied: {rid: fn(j, w, done) -> bytes} giving
        the content of an object before iteration j"""
        s.ctx = ctx; s.driver = driver; s.h = h; s.node = node; s.supplied = supplied
        s.recs = {}; s.proved = 0

    def __call__(s, ex, f, blk, prev, env, st, stop):
        key = (env['$frame'], blk)
        r = s.recs.get(key)
        if r is None:
            r = s.recs[key] = Rec()
        if r.mode == 'skip':
            r.mode = 'over'
            return None
        if r.mode == 'over':
            raise Fail('post', 'loop in %s runs past its last leaf' % f.name, ex.loc())
        if r.mode == 'start':
            r.mode = 'step'
            return None
        if r.mode == 'step':
            r.backs.append((st, env, prev))
            return ([], None)
        for b in f.loops[blk]:
            if b != blk and b in f.loops:
                s.recs.pop((env['$frame'], b), None)
        n = ex.ncalls.get(s.driver, 0)
        if r.obs and (n != r.calls + 1 or len(r.obs[0].pc) != len(st.pc)):
            r.ok = False
        r.calls = n
        r.obs.append(st.copy())
        if not r.ok or len(r.obs) < s.N or s.h < 4:
            return None
        return s.engage(ex, f, blk, prev, env, st, stop, r)

    # ---- guessing
    def engage(s, ex, f, blk, prev, env, st, stop, r):
        if f.blocks[blk] and f.blocks[blk][0][0] == 'phi':
            raise Unsupported('loop header with phi', ex.loc())
        live = f.live.get(blk, set())
        dead = {env[a].rid for a in f.scalars if a in env and isinstance(env[a], Ptr) and a not in live}
        s.deadrids = dead
        obs = r.obs
        tmpl = {}
        for rid in st.mem:
            rs = [o.mem.get(rid) for o in obs]
            if any(x is None for x in rs):
                continue
            if all(x is rs[0] for x in rs) and rid not in s.supplied:
                continue
            tmpl[rid] = ('dead',) if rid in dead else s.fit(ex, st, rid, rs)
        r.tmpl = tmpl
        r.base = st
        npc = len(st.pc)
        # the guess holds at the current iteration
        j0 = len(obs) - 1
        s.check(ex, st, s.instance(j0), tmpl, obs[0], 'after %d iterations' % j0)
        outs = []
        final = []
        for t in range(s.h + 1):
            for p in range(0, s.h - t if t < s.h else 1):
                c = Case(s, t, p)
                b = s.build(ex, st, c, tmpl, obs[0])
                b.pc += c.pc
                r.mode = 'start'; r.backs = []
                try:
                    o = ex.run(f, blk, prev, dict(env), b, stop)
                finally:
                    r.mode = 'watch'
                if t == s.h and o:
                    outs += o
                elif o:
                    raise Fail('post', 'loop in %s can end before its last leaf (%s)' % (f.name, c), ex.loc())
                if not o and not r.backs:
                    raise Fail('termination', 'loop in %s does not come back (%s)' % (f.name, c), ex.loc())
                nx = c.next()
                for (s2, e2, p2) in r.backs:
                    s.check(ex, s2, nx, tmpl, obs[0], 'one iteration on (%s)' % c)
                if t == s.h and r.backs:
                    final = [True]
                s.proved += 1
                ex.ob('loop-step')
        if not final:
            r.mode = 'done'
            return (outs, None)
        fin = s.instance(1 << s.h)
        st2 = s.build(ex, st, fin, tmpl, obs[0])
        r.mode = 'skip'
        return (outs, (st2, env, prev))

    def instance(s, j):
        """the concrete decomposition of j"""
        c = Case.__new__(Case)
        c.l = s; c.t = 0; c.p = 0; c.pc = []
        c.j = j; c.opq = {}
        c.slots = []
        for i in range(s.h, -1, -1):
            if j >> i & 1:
                c.slots.append((i, (j >> i) & ~1))
        c.txt = 'j=%d' % j
        return c

    def fit(s, ex, st, rid, rs):
        if rs[0].big:
            return ('havoc',)
        if rid in s.supplied:
            return ('supplied', s.supplied[rid])
        if all(x.scal is not None and x.cells is None for x in rs):
            vs = [x.scal[0] for x in rs]; w = rs[0].scal[1]
            return s.fit_scalar(vs, w)
        cs = [list(x.clone(None).mat()) for x in rs]
        z = len(cs[0])
        a = s.fit_nodes(cs, z)
        if a is not None:
            return a
        a = s.fit_heights(cs, z)
        if a is not None:
            return a
        if rs[0].kind in ('scalar',):
            # changed between byte and scalar view
            return ('havoc',)
        words = []
        for o in range(0, z, 4):
            k = min(4, z - o)
            w = [c[o:o + k] for c in cs]
            if all(same_bytes(x, w[0]) for x in w):
                words.append((o, k, ('const',)))
            elif k == 4 and all(all(isinstance(b, int) for b in x) for x in w):
                words.append((o, k, s.fit_scalar([int.from_bytes(bytes(x), 'little') for x in w], 32)))
            else:
                words.append((o, k, ('havoc',)))
        return ('words', words)

    def fit_scalar(s, vs, w):
        if all(same_val(v, vs[0]) for v in vs):
            return ('const',)
        if all(isinstance(v, int) for v in vs):
            M = (1 << w) - 1
            for kind, g in (('affine', lambda i: i), ('popcount', popcount)):
                d = (vs[1] - vs[0]) & M
                if all((vs[0] + d * g(i)) & M == v for i, v in enumerate(vs)):
                    return (kind, vs[0], d, w)
            return ('havoc',)
        if all(isinstance(v, Ptr) and v.rid == vs[0].rid and isinstance(v.off, int) for v in vs):
            r = s.fit_scalar([v.off for v in vs], 64)
            return ('ptr', vs[0].rid, r) if r[0] != 'havoc' else r
        return ('havoc',)

    def fit_nodes(s, cs, z):
        n = s.ctx.cfg.n
        if z < (s.h + 1) * n:
            return None
        for stride in (n,):
            ok = True
            for i, c in enumerate(cs):
                sl = s.instance(i).slots
                for k, (hh, X) in enumerate(sl):
                    if not same_bytes(c[k * stride:k * stride + n], s.node(hh, X)):
                        ok = False
                        break
                if not ok:
                    break
            if ok:
                return ('nodes', stride)
        return None

    def fit_heights(s, cs, z):
        for e in (4, 1, 8, 2):
            if z < (s.h + 1) * e:
                continue
            if all(same_bytes(c[k * e:k * e + e], list(hh.to_bytes(e, 'little'))) for i, c in enumerate(cs) for k, (hh, X) in enumerate(s.instance(i).slots)):
                return ('heights', e)
        return None

    # ---- states of the guessed form
    def scalar(s, c, t, old):
        if t[0] == 'const':
            return old
        if t[0] == 'affine':
            return add(t[1], tm.mul(c.jw(t[3]), t[2], t[3]), t[3])
        if t[0] == 'popcount':
            return (t[1] + t[2] * c.count()) & ((1 << t[3]) - 1)
        if t[0] == 'ptr':
            return Ptr(t[1], s.scalar(c, t[2], old.off))
        return None

    def build(s, ex, st, c, tmpl, first):
        b = st.copy()
        n = s.ctx.cfg.n
        for rid, t in tmpl.items():
            r = b.wr(rid)
            if t[0] == 'dead':
                r.cells = None; r.scal = None
            elif t[0] in ('const', 'affine', 'popcount', 'ptr'):
                w = r.scal[1]
                r.scal = (s.scalar(c, t, r.scal[0]), w)
            elif t[0] == 'havoc':
                if r.big:
                    raise Unsupported('object %s changes in a loop in an unknown way' % r.name, ex.loc())
                if r.cells is None and r.scal is not None:
                    if isinstance(r.scal[0], (Ptr, PIte, FnPtr)):
                        raise Unsupported('pointer changes in a loop in an unknown way', ex.loc())
                    r.scal = (tm.fresh('havoc', r.scal[1]), r.scal[1])
                else:
                    r.mat(); r.cells = [tm.fresh('havoc', 8) for _ in r.cells]
            elif t[0] == 'supplied':
                r.mat(); r.cells = list(t[1](c))
            elif t[0] == 'nodes':
                z = len(r.mat()); r.cells = [UNDEF] * z
                for k in range(c.count()):
                    r.cells[k * t[1]:k * t[1] + n] = c.node(k)
            elif t[0] == 'heights':
                z = len(r.mat()); e = t[1]; r.cells = [UNDEF] * z
                for k in range(c.count()):
                    r.cells[k * e:k * e + e] = c.height(k, e)
            elif t[0] == 'words':
                r.mat()
                for (o, k, u) in t[1]:
                    if u[0] == 'const':
                        continue
                    if u[0] == 'havoc':
                        r.cells[o:o + k] = [tm.fresh('havoc', 8) for _ in range(k)]
                    else:
                        r.cells[o:o + k] = v2b(s.scalar(c, u, None), 4)
        return b

    def same(s, ex, st, x, y, w, what):
        ex.ob('loop-invariant')
        if same_val(x, y):
            return
        if x is UNDEF or y is UNDEF or isinstance(x, (Ptr, PIte, FnPtr)) or isinstance(y, (Ptr, PIte, FnPtr)):
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.rid == y.rid:
                return s.same(ex, st, x.off, y.off, 64, what)
            raise Fail('post', 'loop invariant: ' + what, ex.loc())
        from .ver import prove_eq
        if isinstance(x, T) and isinstance(y, T) and cond_eq(s.ctx, list(st.pc), lift_b(v2b(x, w // 8)), lift_b(v2b(y, w // 8)), 0) if w % 8 == 0 and w > 64 else False:
            return
        if prove_eq(s.ctx, st.pc, x, y, w) is not True:
            if has_havoc([x, y] + list(st.pc)):
                raise Unsupported('loop invariant (depends on an object whose changes were not understood): ' + what, ex.loc())
            raise Fail('post', 'loop invariant: ' + what, ex.loc())

    def same_run(s, ex, st, got, want, what):
        """byte lists; None in want = anything"""
        i = 0; n = s.ctx.cfg.n
        ps = [(k, x, y) for k, (x, y) in enumerate(zip(got, want)) if y is not None and not same_byte(x, y)]
        ex.ob('loop-invariant')
        while i < len(ps):
            j = i
            while j + 1 < len(ps) and ps[j + 1][0] == ps[j][0] + 1 and ps[j + 1][0] // n == ps[i][0] // n:
                j += 1
            run = ps[i:j + 1]
            if any(not isinstance(x, (int, T)) or not isinstance(y, (int, T)) for _, x, y in run):
                raise Fail('post', 'loop invariant: %s, byte %d is %s' % (what, run[0][0], 'not set' if any(x is UNDEF for _, x, _ in run) else 'changed'), ex.loc())
            s.same(ex, st, b2v([x for _, x, _ in run]), b2v([y for _, _, y in run]), 8 * len(run), '%s, bytes %d..%d' % (what, run[0][0], run[-1][0]))
            i = j + 1

    def check(s, ex, st, c, tmpl, first, when):
        """the state has the guessed form for c"""
        n = s.ctx.cfg.n
        if len(st.mem) and s.ctx is None:
            return
        base = first.mem
        for rid, r in st.mem.items():
            if rid not in base:
                if r.kind in ('global', 'ext'):
                    continue
                continue
            o = base[rid]
            t = tmpl.get(rid)
            what = '%s %s' % (r.name, when)
            if t is None:
                if r is o or rid in s.deadrids:
                    continue
                if r.big or o.big:
                    if r.layers != o.layers:
                        raise Unsupported('loop changes ' + r.name, ex.loc())
                    continue
                if r.scal is not None and o.scal is not None and r.cells is None and o.cells is None:
                    s.same(ex, st, r.scal[0], o.scal[0], r.scal[1], what)
                    continue
                a = r.clone(None).mat(); b = list(o.clone(None).mat())
                s.same_run(ex, st, a, b, what)
                continue
            if t[0] in ('dead', 'havoc'):
                continue
            if t[0] in ('const', 'affine', 'popcount', 'ptr'):
                if r.scal is None or r.cells is not None:
                    raise Unsupported('scalar %s accessed bytewise in a loop' % r.name, ex.loc())
                s.same(ex, st, r.scal[0], s.scalar(c, t, o.scal[0]), r.scal[1], what)
                continue
            a = list(r.clone(None).mat()); ob = list(o.clone(None).mat())
            if t[0] == 'supplied':
                s.same_run(ex, st, a, [None if y is UNDEF else y for y in t[1](c)], what)
            elif t[0] == 'nodes':
                w = [None] * len(a)
                for k in range(c.count()):
                    w[k * t[1]:k * t[1] + n] = c.node(k)
                s.same_run(ex, st, a, w, what)
            elif t[0] == 'heights':
                w = [None] * len(a); e = t[1]
                for k in range(c.count()):
                    w[k * e:k * e + e] = c.height(k, e)
                s.same_run(ex, st, a, w, what)
            elif t[0] == 'words':
                w = [None] * len(a)
                for (o_, k, u) in t[1]:
                    if u[0] == 'const':
                        w[o_:o_ + k] = [None if y is UNDEF else y for y in ob[o_:o_ + k]]
                    elif u[0] != 'havoc':
                        w[o_:o_ + k] = v2b(s.scalar(c, u, None), 4)
                s.same_run(ex, st, a, w, what)

def lift_b(bs):
    """bytes that are choices on one condition as one choice"""
    f = bs[0]
    if isinstance(f, T) and f.op == 'ite' and all(isinstance(b, T) and b.op == 'ite' and b.args[0] is f.args[0] for b in bs):
        return ('ite', f.args[0], lift_b([b.args[1] for b in bs]), lift_b([b.args[2] for b in bs]))
    return b2v(bs)

def cond_eq(ctx, pc, x, y, depth):
    """x = y under pc, by cases on the conditions; the leaves must be
    identical, or the same function of arguments proved equal"""
    if same_val(x, y):
        return True
    if depth > 6:
        return False
    for a, b in ((x, y), (y, x)):
        if isinstance(a, tuple):
            _, c, p, q = a
            match = isinstance(b, tuple) and same_val(p, b[2]) and same_val(q, b[3])
            if match and ctx.solver.prove(pc, eq(c, b[1], 1)) is True:
                return True
            d = ctx.solver.decide(pc, c)
            if d is True:
                return cond_eq(ctx, pc, p, b, depth + 1)
            if d is False:
                return cond_eq(ctx, pc, q, b, depth + 1)
            if match:
                return False
            return cond_eq(ctx, pc + [c], p, b, depth + 1) and cond_eq(ctx, pc + [not_(c)], q, b, depth + 1)
    if isinstance(x, T) and isinstance(y, T) and x.op == y.op == 'app' and len(x.args) == len(y.args):
        for p, q in zip(x.args, y.args):
            if p is q or (not isinstance(p, T) and not isinstance(q, T) and p == q):
                continue
            w = p.w if isinstance(p, T) else (q.w if isinstance(q, T) else 0)
            if not w or w > 64 or not isinstance(p, (int, T)) or not isinstance(q, (int, T)) or ctx.solver.prove(pc, eq(p, q, w)) is not True:
                return False
        return True
    return False

def same_byte(x, y):
    return x is y or (isinstance(x, int) and isinstance(y, int) and x == y) or (isinstance(x, tuple) and x == y)

def same_bytes(a, b):
    return len(a) == len(b) and all(same_byte(x, y) for x, y in zip(a, b))

class Case:
    """all leaf numbers j with t low ones, whose higher part has p set bits:
    j = P * 2^(t+1) + 2^t - 1.  The p nodes for the bits of P are opaque."""
    def __init__(s, l, t, p):
        s.l = l; s.t = t; s.p = p
        h = l.h; n = l.ctx.cfg.n
        s.pc = []
        nb = h - t - 1
        low = (1 << t) - 1
        if t >= h or nb == 0 or p == 0:
            s.j = low
        else:
            P = tm.var('P%d_%d' % (t, p), nb)
            s.j = tm.cat([(low, t + 1), (P, nb), (0, 32 - h)])
            s.j1 = tm.cat([(1 << t, t + 1), (P, nb), (0, 32 - h)])    # j + 1: no carry out of the low bits
        s.opq = {k: (tm.var('stk%d_%d_%d' % (t, p, k), 8 * n), tm.var('hgt%d_%d_%d' % (t, p, k), 32)) for k in range(p)}
        for k, (_, H) in s.opq.items():
            s.pc.append(ult(t, H, 32)); s.pc.append(ult(H, h + 1, 32))
        s.slots = [None] * p + [(i, tm.lshr(s.j, i, 32) & ~1 if isinstance(s.j, int) else and_(tm.lshr(s.j, i, 32), 0xfffffffe, 32)) for i in range(t - 1, -1, -1)]
        s.txt = 't=%d p=%d' % (t, p)

    def next(s):
        c = Case.__new__(Case)
        c.l = s.l; c.t = s.t; c.p = s.p; c.pc = s.pc; c.opq = s.opq
        c.j = s.j + 1 if isinstance(s.j, int) else s.j1
        c.slots = [None] * s.p + [(s.t, tm.lshr(s.j, s.t, 32))]
        c.txt = s.txt + ' next'
        return c

    def __str__(s):
        return s.txt
    def jw(s, w):
        if isinstance(s.j, int):
            return s.j & ((1 << w) - 1)
        return tm.zext(s.j, 32, w) if w > 32 else ext(s.j, 32, 0, w)
    def count(s):
        return len(s.slots)
    def node(s, k):
        if s.slots[k] is None:
            return v2b(s.opq[k][0], s.l.ctx.cfg.n)
        return s.l.node(*s.slots[k])
    def height(s, k, e):
        if s.slots[k] is None:
            H = s.opq[k][1]
            H = tm.zext(H, 32, 8 * e) if e > 4 else ext(H, 32, 0, 8 * e)
            return v2b(H, e)
        return list(s.slots[k][0].to_bytes(e, 'little'))

# ---------------------------------------------------------------- loops with a ghost counter

class GhostLoop:
    """Loops without a fixed iteration count.  The contract keeps a ghost
    quantity F (state.ghost['F'], e.g. the number of bytes filled so far) and
    says what is known of it at a loop header; every object that changes in
    the loop is guessed to be constant, its initial value plus or minus the
    progress of F, or a constant step per iteration J; what is not is
    unconstrained.  Guesses that turn out not to be inductive are dropped
    until the rest is (Houdini)."""
    def __init__(s, ctx_solver, bound, big_ok=()):
        s.solver = ctx_solver; s.bound = bound; s.big_ok = set(big_ok)
        s.active = {}; s.proved = 0; s.n = 0

    def __call__(s, ex, f, blk, prev, env, st, stop):
        key = (env['$frame'], blk)
        m = s.active.get(key)
        if m is not None:
            if m['start']:
                m['start'] = False
                return None
            m['back'].append((st, env, prev))
            return ([], None)
        if f.blocks[blk] and f.blocks[blk][0][0] == 'phi':
            raise Unsupported('loop header with phi', ex.loc())
        live = f.live.get(blk, set())
        dead = {env[a].rid for a in f.scalars if a in env and isinstance(env[a], Ptr) and a not in live}
        def body(st0):
            s.active[key] = {'start': True, 'back': []}
            try:
                o = ex.run(f, blk, prev, dict(env), st0, stop)
                return o, s.active[key]['back']
            finally:
                del s.active[key]
        # what changes, and how, in one iteration from here
        ob0 = dict(ex.obl); gw = set(ex.glob_written)
        o, back = body(st.copy())
        ex.obl = ob0
        if not back:
            ex.glob_written |= gw
            return (o, None)
        F0 = st.ghost.get('F', 0)
        tm_ = {}
        for (b, e2, p2) in back:
            dF = tm.sub(b.ghost.get('F', 0), F0, 64)
            for rid, r0 in st.mem.items():
                r = b.mem.get(rid)
                if r is None or r is r0:
                    continue
                if r.big:
                    if r.layers != r0.layers and rid not in s.big_ok:
                        raise Unsupported('object %s changes in a loop' % r.name, ex.loc())
                    continue
                if rid in dead:
                    tm_[rid] = ('dead',)
                    continue
                t = s.guess(b, r0, r, dF)
                o = tm_.get(rid)
                tm_[rid] = t if o is None or o[0] == 'const' else (o if t[0] == 'const' else (t if t == o else ('havoc',)))
        moves = s.bound is not None and any(b[0].ghost.get('F', 0) is not F0 and b[0].ghost.get('F', 0) != F0 for b in back)
        for rnd in range(20):
            if DEBUG: print(f.name, blk, {st.mem[k].name: v for k, v in tm_.items()}, [b[0].ghost for b in back])
            g = s.generic(ex, st, tm_, moves)
            ob1 = dict(ex.obl)
            weak = any(t[0] == 'havoc' for t in tm_.values())
            try:
                outs, back = body(g['st'])
            except Fail as e:
                if weak and e.kind not in ('unsupported',):
                    raise Unsupported('in a loop with an object whose changes were not understood: %s' % e, ex.loc())
                raise
            drop = s.inductive(ex, back, st, tm_, g)
            if not drop:
                s.proved += 1
                ex.ob('loop-invariant', len(tm_) + 1)
                return (outs, None)
            ex.obl = ob1
            for rid in drop:
                tm_[rid] = ('havoc',)
        raise Unsupported('loop invariant not found', ex.loc())

    def guess(s, b, r0, r, dF):
        def val(x):
            return x.scal[0] if x.scal is not None and x.cells is None else None
        v0, v1 = val(r0), val(r)
        if v1 is None and r0.scal is None and r0.cells is None:
            return ('havoc',)
        if v0 is None or v1 is None:
            a = list(r0.clone(None).mat()); c = list(r.clone(None).mat())
            return ('const',) if same_bytes(a, c) else ('havoc',)
        if same_val(v0, v1):
            return ('const',)
        w = r0.scal[1]
        if isinstance(v0, Ptr) and isinstance(v1, Ptr) and v0.rid == v1.rid:
            q = s.delta(b, v0.off, v1.off, 64, dF)
            return ('ptr', q) if q else ('havoc',)
        if not isinstance(v0, (int, T)) or not isinstance(v1, (int, T)):
            return ('havoc',)
        q = s.delta(b, v0, v1, w, dF)
        return ('lin', q) if q else ('havoc',)

    def delta(s, b, v0, v1, w, dF):
        d = tm.sub(v1, v0, w)
        f = ext(dF, 64, 0, w) if w < 64 and not isinstance(dF, int) else (dF & ((1 << w) - 1) if isinstance(dF, int) else dF)
        if not (isinstance(dF, int) and dF == 0) and w <= 64:
            for e in (1, -1):
                if s.solver.prove(b.pc, eq(d, f if e == 1 else tm.sub(0, f, w), w)) is True:
                    return (e, 0)
        if isinstance(d, int):
            return (0, d)
        return None

    def value(s, q, v0, F0, F, J, w):
        e, k = q
        v = v0
        if e:
            d = tm.sub(F, F0, 64)
            d = ext(d, 64, 0, w) if w < 64 and not isinstance(d, int) else d
            v = add(v, d, w) if e == 1 else tm.sub(v, d, w)
        if k:
            v = add(v, tm.mul(ext(J, 64, 0, w) if w < 64 and not isinstance(J, int) else J, k, w), w)
        return v

    def generic(s, ex, st, tm_, moves):
        g = st.copy()
        s.n += 1
        J = tm.var('J%d' % s.n, 64)
        F0 = st.ghost.get('F', 0)
        F = F0
        if moves:
            F = tm.var('F%d' % s.n, 64)
            g.ghost = dict(g.ghost, F=F)
            g.pc.append(not_(ult(F, F0, 64)))
            g.pc += s.bound(F)
        for rid, t in tm_.items():
            r = g.wr(rid)
            r0 = st.mem[rid]
            if t[0] == 'dead':
                r.cells = None; r.scal = None
            elif t[0] == 'const':
                pass
            elif t[0] == 'lin':
                r.scal = (s.value(t[1], r0.scal[0], F0, F, J, r0.scal[1]), r0.scal[1])
            elif t[0] == 'ptr':
                r.scal = (Ptr(r0.scal[0].rid, s.value(t[1], r0.scal[0].off, F0, F, J, 64)), r0.scal[1])
            else:
                if r0.scal is not None and r0.cells is None:
                    if isinstance(r0.scal[0], (Ptr, PIte, FnPtr)):
                        raise Unsupported('pointer changes in a loop in an unknown way', ex.loc())
                    r.scal = (tm.fresh('havoc', r0.scal[1]), r0.scal[1])
                else:
                    r.mat(); r.cells = [tm.fresh('havoc', 8) for _ in r.cells]; r.scal = None
        return {'st': g, 'J': J, 'F': F, 'F0': F0, 'moves': moves}

    def inductive(s, ex, back, st, tm_, g):
        """objects whose guess is not preserved"""
        drop = set()
        base = g['st']
        for (b, e2, p2) in back:
            F1 = b.ghost.get('F', 0)
            if not g['moves'] and not (F1 is g['F0'] or F1 == g['F0']):
                raise Unsupported('progress in a later iteration only', ex.loc())
            if g['moves']:
                for c in s.bound(F1) + [not_(ult(F1, g['F0'], 64))]:
                    if s.solver.prove(b.pc, c) is not True:
                        raise Fail('post', 'more is filled than requested', ex.loc())
            J1 = add(g['J'], 1, 64)
            for rid, r0 in st.mem.items():
                r = b.mem.get(rid); t = tm_.get(rid, ('const',))
                if r is None or t[0] in ('dead', 'havoc') or r is r0:
                    continue
                if r.big:
                    if r.layers != r0.layers and rid not in s.big_ok:
                        raise Unsupported('object %s changes in a loop' % r.name, ex.loc())
                    continue
                if t[0] == 'const':
                    a = list(r0.clone(None).mat()); c = list(r.clone(None).mat())
                    if not same_bytes(a, c) and not (all(isinstance(x, (int, T)) for x in a + c) and s.solver.prove(b.pc, eq(b2v(a), b2v(c), 8 * len(a))) is True):
                        drop.add(rid)
                    continue
                if r.scal is None or r.cells is not None:
                    drop.add(rid); continue
                v = r.scal[0]; w = r0.scal[1]
                if t[0] == 'lin':
                    want = s.value(t[1], r0.scal[0], g['F0'], F1, J1, w)
                else:
                    if not isinstance(v, Ptr) or v.rid != r0.scal[0].rid:
                        drop.add(rid); continue
                    want = s.value(t[1], r0.scal[0].off, g['F0'], F1, J1, 64); v = v.off; w = 64
                if not isinstance(v, (int, T)) or s.solver.prove(b.pc, eq(v, want, w)) is not True:
                    drop.add(rid)
        return drop
