"""shake128/shake256 under contract: keccak_absorb and keccak_squeezeblocks by
an invariant that folds one block per iteration, for every input and output
length; the permutation by its contract (vx/keccak.py proves it)."""
from . import terms as tm
from .terms import T, ext, eq, add, not_, cat_bytes_le as b2v
from .sym import Exec, State, Ptr, PIte, FnPtr, UNDEF, Fail, Unsupported, same_val, val_bytes
from .loops import has_havoc, same_bytes

PERMF = 'KeccakF1600_StatePermute'
ABSORB = 'keccak_absorb'
SQUEEZE = 'keccak_squeezeblocks'

def KF(lanes):
    return [tm.app('KF%d' % i, 64, *lanes) for i in range(25)]

def get_lanes(ex, st, p):
    bs = ex.read(st, p, 200)
    if any(b is UNDEF for b in bs):
        ex.fail('uninitialised', 'Keccak state used before it is set')
    if any(not isinstance(b, (int, T)) for b in bs):
        ex.fail('post', 'Keccak state holds something else than data')
    return [b2v(bs[8 * i:8 * i + 8]) for i in range(25)]

def put_lanes(ex, st, p, lanes):
    bs = []
    for l in lanes:
        bs += val_bytes(l, 64)
    ex.write(st, p, bs)

def c_perm(ex, st, a):
    put_lanes(ex, st, a[0], KF(get_lanes(ex, st, a[0])))
    return (st, None)

def is_perm(v):
    return isinstance(v, T) and v.op == 'app' and str(v.args[0]).startswith('KF')

class FoldLoop:
    """A loop that calls the permutation once per iteration and runs `total`
    times.  mode 'step': at iteration J < total it does what `after` says and
    comes back; mode 'end': at J = total it stops."""
    def __init__(s, solver, mode, J, state, before, after, out=None):
        s.solver = solver; s.mode = mode; s.J = J; s.state = state; s.before = before; s.after = after; s.out = out
        s.active = {}; s.plain = set(); s.proved = 0; s.used = set()

    def __call__(s, ex, f, blk, prev, env, st, stop):
        key = (env['$frame'], blk)
        if key in s.plain:
            return None
        m = s.active.get(key)
        if m is not None:
            if m['start']:
                m['start'] = False
                return None
            m['back'].append(st)
            return ([], None)
        def body(st0):
            s.active[key] = {'start': True, 'back': []}
            try:
                o = ex.run(f, blk, prev, dict(env), st0, stop)
                return o, s.active[key]['back']
            finally:
                del s.active[key]
        n0 = ex.ncalls.get(PERMF, 0); ob0 = dict(ex.obl)
        if s.calls_perm(ex, f, f.loops[blk]) is False:
            s.plain.add(key)
            return None
        o, back = body(st.copy())
        ex.obl = ob0
        if ex.ncalls.get(PERMF, 0) == n0 or not back:
            s.plain.add(key)
            return None
        if s.used:
            raise Unsupported('more than one loop over blocks', ex.loc())
        s.used.add(key)
        if f.blocks[blk] and f.blocks[blk][0][0] == 'phi':
            raise Unsupported('loop header with phi', ex.loc())
        live = f.live.get(blk, set())
        dead = {env[a].rid for a in f.scalars if a in env and isinstance(env[a], Ptr) and a not in live}
        tmpl = {}
        for b in back:
            for rid, r0 in st.mem.items():
                r = b.mem.get(rid)
                if r is None or r is r0 or tmpl.get(rid) == ('havoc',):
                    continue
                t = ('dead',) if rid in dead else s.guess(rid, r0, r, ex)
                tmpl[rid] = t if tmpl.get(rid, t) == t else ('havoc',)
        if s.state.rid not in tmpl:
            raise Unsupported('the loop does not change the state', ex.loc())
        g = s.generic(ex, st, tmpl)
        o, back = body(g.copy())
        if s.mode == 'end':
            if back:
                s.bad(back, 'more blocks are processed than there are', ex)
            s.proved += 1
            return (o, None)
        if o:
            s.bad([x[1] for x in o], 'stops before the last block', ex)
        if not back:
            raise Fail('termination', 'the loop over the blocks does not come back', ex.loc())
        for b in back:
            s.check(ex, st, g, b, tmpl)
            ex.ob('loop-step')
        s.proved += 1
        return ([], None)

    def calls_perm(s, ex, f, blocks):
        """does the loop (also indirectly) call the permutation? None: unknown"""
        memo = {}
        def fn(name, file):
            if name == PERMF:
                return True
            if name in ex.contracts:
                return False
            k = (file + ':' + name) if (file + ':' + name) in ex.mod.funcs else name
            g = ex.mod.funcs.get(k)
            if g is None:
                return False
            if k in memo:
                return memo[k]
            memo[k] = False
            memo[k] = r = any(in_block(g, b) for b in g.blocks)
            return r
        def in_block(g, b):
            for ins in g.blocks[b]:
                if ins[0] == 'call' and (not isinstance(ins[3], str) or fn(ins[3], g.file)):
                    return True
            return False
        return any(in_block(f, b) for b in blocks)

    def bad(s, sts, msg, ex):
        if any(has_havoc(list(b.pc)) for b in sts):
            raise Unsupported(msg + ' (depends on something not understood)', ex.loc())
        raise Fail('post', msg, ex.loc())

    def guess(s, rid, r0, r, ex):
        if rid == s.state.rid:
            return ('acc',)
        if s.out is not None and rid == s.out[0]:
            return ('out',)
        if r.big:
            raise Unsupported('object %s changes in a loop' % r.name, ex.loc())
        v0 = r0.scal[0] if r0.scal is not None and r0.cells is None else None
        v1 = r.scal[0] if r.scal is not None and r.cells is None else None
        if v0 is None or v1 is None:
            if r0.scal is None and r.scal is None and same_bytes(list(r0.clone(None).mat()), list(r.clone(None).mat())):
                return ('lin', 0)
            return ('havoc',)
        w = r0.scal[1]
        if isinstance(v0, Ptr) and isinstance(v1, Ptr) and v0.rid == v1.rid:
            d = tm.sub(v1.off, v0.off, 64)
            return ('ptr', d) if isinstance(d, int) else ('havoc',)
        if not isinstance(v0, (int, T)) or not isinstance(v1, (int, T)):
            return ('havoc',)
        d = tm.sub(v1, v0, w)
        return ('lin', d) if isinstance(d, int) else ('havoc',)

    def at(s, v, d, J, w):
        j = J if w == 64 or isinstance(J, int) else ext(J, 64, 0, w)
        return add(v, tm.mul(j, d, w), w) if d else v

    def generic(s, ex, st, tmpl):
        g = st.copy()
        for rid, t in tmpl.items():
            r = g.wr(rid); r0 = st.mem[rid]
            if t[0] == 'dead':
                r.cells = None; r.scal = None
            elif t[0] == 'lin':
                if t[1]:
                    r.scal = (s.at(r0.scal[0], t[1], s.J, r0.scal[1]), r0.scal[1])
            elif t[0] == 'ptr':
                r.scal = (Ptr(r0.scal[0].rid, s.at(r0.scal[0].off, t[1], s.J, 64)), r0.scal[1])
            elif t[0] == 'acc':
                put_lanes(ex, g, s.state, s.before(s.J))
            elif t[0] == 'out':
                rid, off, rate, name = s.out
                r.layers.append((off, tm.mul(s.J, rate, 64), ('blob', name, 0)))
                s.nlayers = len(r.layers)
            elif r0.scal is not None and r0.cells is None:
                if isinstance(r0.scal[0], (Ptr, PIte, FnPtr)):
                    raise Unsupported('pointer changes in a loop in an unknown way', ex.loc())
                r.scal = (tm.fresh('havoc', r0.scal[1]), r0.scal[1])
            else:
                r.mat(); r.cells = [tm.fresh('havoc', 8) for _ in r.cells]; r.scal = None
        return g

    def same(s, ex, st, x, y, w, what):
        ex.ob('loop-invariant')
        if same_val(x, y):
            return
        if isinstance(x, (int, T)) and isinstance(y, (int, T)):
            if s.solver.prove(st.pc, eq(x, y, w)) is True:
                return
            if has_havoc([x, y] + list(st.pc)):
                raise Unsupported('loop invariant (depends on something not understood): ' + what, ex.loc())
        raise Fail('post', 'loop invariant: ' + what, ex.loc())

    def check(s, ex, st, g, b, tmpl):
        J1 = add(s.J, 1, 64)
        lanes = s.after(s.J)
        for rid, r0 in st.mem.items():
            r = b.mem.get(rid); t = tmpl.get(rid)
            if r is None:
                continue
            if t is None:
                if r is not r0 and r is not g.mem.get(rid):
                    if r.big or not same_bytes(list(r0.clone(None).mat()), list(r.clone(None).mat())):
                        raise Unsupported('object %s changes in later iterations only' % r.name, ex.loc())
                continue
            if t[0] in ('dead', 'havoc'):
                continue
            if t[0] == 'acc':
                got = get_lanes(ex, b, s.state)
                for k in range(25):
                    s.same(ex, b, got[k], lanes[k], 64, 'Keccak state lane %d after a block' % k)
                continue
            if t[0] == 'out':
                s.check_out(ex, g, b, lanes)
                continue
            if r.scal is None or r.cells is not None:
                if t == ('lin', 0):
                    if not same_bytes(list(r0.clone(None).mat()), list(r.clone(None).mat())):
                        raise Unsupported('object %s changes in later iterations only' % r.name, ex.loc())
                    continue
                raise Unsupported('scalar %s accessed bytewise' % r.name, ex.loc())
            v = r.scal[0]; w = r0.scal[1]
            if t[0] == 'ptr':
                if not isinstance(v, Ptr) or v.rid != r0.scal[0].rid:
                    raise Fail('post', 'loop invariant: pointer ' + r.name, ex.loc())
                s.same(ex, b, v.off, s.at(r0.scal[0].off, t[1], J1, 64), 64, 'pointer ' + r.name)
            else:
                s.same(ex, b, v, s.at(r0.scal[0], t[1], J1, w), w, r.name)

    def check_out(s, ex, g, b, lanes):
        rid, off, rate, name = s.out
        got = written(ex, b.mem[rid].layers[:], s.nlayers, add(off, tm.mul(s.J, rate, 64), 64), rate)
        want = []
        for l in lanes:
            want += val_bytes(l, 64)
        for i in range(rate):
            if got.get(i) is None:
                raise Fail('post', 'byte %d of an output block is not written' % i, ex.loc())
            s.same(ex, b, got[i], want[i], 8, 'byte %d of an output block' % i)

def written(ex, layers, n0, base, size):
    """bytes written by the layers from n0 on, all of them in [base, base + size)"""
    got = {}
    for (o, l, c) in layers[n0:]:
        if c[0] == 'bytes':
            items = list(c[1].items())
        elif c[0] == 'at':
            items = [(add(o, i, 64), x) for i, x in enumerate(c[1])]
        else:
            raise Unsupported('output written by a block copy of unknown length', ex.loc())
        for k, x in items:
            d = tm.sub(k, base, 64)
            if not isinstance(d, int):
                raise Unsupported('output offset', ex.loc())
            if d >= size:
                raise Fail('post', 'writes output byte %d of a part of %d bytes' % (d if d < 1 << 63 else d - (1 << 64), size), ex.loc())
            if x is UNDEF or not isinstance(x, (int, T)):
                raise Fail('uninitialised', 'output byte %d is not set' % d, ex.loc())
            got[d] = x
    return got

def ghost(name):
    return tm.zext(tm.var(name, 52), 52, 64)

def new_exec(prog, solver, deadline):
    ex = Exec(prog.mod, solver)
    ex.deadline = deadline
    ex.contracts = {PERMF: c_perm}
    return ex

def need(prog, name, nargs):
    f = prog.mod.funcs.get(name) or prog.mod.funcs.get('fips202.c:' + name)
    if f is None or len(f.params) != nargs:
        raise Unsupported('no function %s with %d parameters' % (name, nargs))

def in_word(off):
    return b2v([tm.app('B:in', 8, add(off, k, 64)) for k in range(8)])

def absorb(prog, solver, r, mode, R, deadline=None):
    """keccak_absorb for all inputs of QA blocks (mode 'end': QA*r+R bytes; mode
    'step': any longer length), any initial state"""
    need(prog, ABSORB, 5)
    ex = new_exec(prog, solver, deadline); st = State()
    QA = ghost('QA')
    if mode == 'step':
        inlen = add(tm.mul(add(add(QA, ghost('QB'), 64), 1, 64), r, 64), tm.zext(tm.var('R', 8), 8, 64), 64)
    else:
        inlen = add(tm.mul(QA, r, 64), R, 64)
    m = ex.newbig(st, 'in', inlen, [(0, inlen, ('blob', 'in', 0))], ro=True)
    init = [tm.var('s%d' % i, 64) for i in range(25)]
    bs = []
    for l in init:
        bs += val_bytes(l, 64)
    s = ex.new(st, 's', 200, 'arg', bs)
    p = tm.var('p', 8)
    before = lambda J: [tm.app('ABS%d' % i, 64, J) for i in range(25)]
    def after(J):
        l = before(J); o = tm.mul(J, r, 64)
        return KF([tm.xor([l[k], in_word(add(o, 8 * k, 64))], 64) if k < r // 8 else l[k] for k in range(25)])
    hook = FoldLoop(solver, mode, QA, s, before, after)
    ex.loop_hook = hook
    res = ex.call(st, ABSORB, [s, r, m, inlen, p])
    if not hook.proved:
        raise Unsupported('no loop over the blocks found')
    if mode == 'step':
        if res:
            raise Fail('post', 'absorbing ends before the last block')
    else:
        o = tm.mul(QA, r, 64)
        t = [tm.app('B:in', 8, add(o, k, 64)) for k in range(R)] + [p] + [0] * (r - R - 1)
        t[r - 1] = tm.xor([t[r - 1], 128], 8) if R != r - 1 else tm.or_(t[r - 1], 128, 8)
        l = before(QA)
        if not res:
            raise Fail('termination', 'absorbing does not return')
        for st2, rv in res:
            got = get_lanes(ex, st2, s)
            for k in range(25):
                w = tm.xor([l[k], b2v(t[8 * k:8 * k + 8])], 64) if k < r // 8 else l[k]
                ex.ob('post')
                if not same_val(got[k], w) and solver.prove(st2.pc, eq(got[k], w, 64)) is not True:
                    raise Fail('post', 'state lane %d after the padded block (rate %d, %d bytes over)' % (k, r, R))
            frame(ex, st, st2, {s.rid})
    if ex.glob_written:
        raise Fail('frame', 'writes globals')
    return ex

def frame(ex, st, st2, mayrids):
    for rid, r in st2.mem.items():
        r0 = st.mem.get(rid)
        if r0 is not None and r0 is not r and r0.kind == 'arg' and rid not in mayrids and not r.ro:
            if r.big or not same_bytes(list(r0.clone(None).mat()), list(r.clone(None).mat())):
                raise Fail('frame', 'changes ' + r.name)

def squeeze(prog, solver, r, mode, deadline=None):
    """keccak_squeezeblocks for every number of blocks"""
    need(prog, SQUEEZE, 4)
    ex = new_exec(prog, solver, deadline); st = State()
    QA = ghost('QA')
    n = add(add(QA, ghost('QB'), 64), 1, 64) if mode == 'step' else QA
    size = tm.mul(n, r, 64)
    h = ex.newbig(st, 'out', size, [(0, size, ('any',))])
    bs = []
    for i in range(25):
        bs += val_bytes(tm.var('s%d' % i, 64), 64)
    s = ex.new(st, 's', 200, 'arg', bs)
    before = lambda J: [tm.app('SQS%d' % i, 64, J) for i in range(25)]
    after = lambda J: KF(before(J))
    hook = FoldLoop(solver, mode, QA, s, before, after, (h.rid, 0, r, 'SQ'))
    ex.loop_hook = hook
    res = ex.call(st, SQUEEZE, [h, n, s, r])
    if not hook.proved:
        raise Unsupported('no loop over the blocks found')
    if mode == 'step':
        if res:
            raise Fail('post', 'squeezing ends before the last block')
    else:
        if not res:
            raise Fail('termination', 'squeezing does not return')
        want = before(QA)
        for st2, rv in res:
            got = get_lanes(ex, st2, s)
            for k in range(25):
                ex.ob('post')
                if not same_val(got[k], want[k]):
                    raise Fail('post', 'state lane %d after squeezing' % k)
            if [l for l in st2.mem[h.rid].layers[1:]] != [(0, tm.mul(QA, r, 64), ('blob', 'SQ', 0))]:
                raise Fail('post', 'output changed after the last block')
    if ex.glob_written:
        raise Fail('frame', 'writes globals')
    return ex

def shake(prog, solver, name, r, R2, deadline=None):
    """shake128/256: every input length, every output length P*r + R2"""
    need(prog, ABSORB, 5); need(prog, SQUEEZE, 4); need(prog, name, 4)
    ex = new_exec(prog, solver, deadline); st = State()
    P = ghost('P'); outlen = add(tm.mul(P, r, 64), R2, 64)
    inlen = tm.var('inlen', 64)
    st.pc.append(tm.ult(inlen, 1 << 62, 64))
    m = ex.newbig(st, 'in', inlen, [(0, inlen, ('blob', 'in', 0))], ro=True)
    out = ex.newbig(st, 'out', outlen, [(0, outlen, ('any',))])
    S0 = [tm.var('absorbed%d' % i, 64) for i in range(25)]
    SQS = lambda J: [tm.app('SQS%d' % i, 64, J) for i in range(25)]
    def c_absorb(ex, st, a):
        L = get_lanes(ex, st, a[0])
        if any(not (isinstance(x, int) and x == 0) for x in L):
            ex.fail('post', 'absorbs into a state that is not zero')
        if a[1] != r:
            ex.fail('post', 'absorbs with rate %s' % (a[1],))
        if not isinstance(a[2], Ptr) or a[2].rid != m.rid or a[2].off != 0 or not (a[3] is inlen):
            ex.fail('post', 'does not absorb the whole input')
        pad = a[4] if not isinstance(a[4], int) else a[4] & 255
        if pad != 0x1f:
            ex.fail('post', 'wrong domain separation byte %s' % (a[4],))
        if st.ghost.get('absorbed'):
            ex.fail('post', 'absorbs twice')
        st.ghost = dict(st.ghost, absorbed=1)
        put_lanes(ex, st, a[0], S0)
        ex.ob('precondition', 5)
        return (st, None)
    def c_squeeze(ex, st, a):
        h, nb, s, rr = a
        if rr != r:
            ex.fail('post', 'squeezes with rate %s' % (rr,))
        L = get_lanes(ex, st, s)
        if isinstance(nb, int) and nb <= 4:
            for i in range(nb):
                L = KF(L); bs = []
                for l in L:
                    bs += val_bytes(l, 64)
                ex.write(st, Ptr(h.rid, add(h.off, i * r, 64)), bs[:r])
            put_lanes(ex, st, s, L)
            return (st, None)
        if L != S0:
            raise Unsupported('squeezes a variable number of blocks from a state that was squeezed before', ex.loc())
        if not isinstance(h, Ptr) or h.rid != out.rid:
            raise Unsupported('squeezes a variable number of blocks elsewhere', ex.loc())
        z = tm.mul(nb, r, 64)
        ex.bound_sym(st, h.off, z, st.mem[h.rid])
        w = st.wr(h.rid)
        w.layers.append((h.off, z, ('blob', 'SQ', 0)))
        put_lanes(ex, st, s, SQS(nb))
        ex.ob('precondition', 3)
        return (st, None)
    ex.contracts.update({ABSORB: c_absorb, SQUEEZE: c_squeeze})
    res = ex.call(st, name, [out, outlen, m, inlen])
    if not res:
        raise Fail('termination', name + ' does not return')
    last = []
    for l in KF(SQS(P)):
        last += val_bytes(l, 64)
    for st2, rv in res:
        if not st2.ghost.get('absorbed'):
            raise Fail('post', name + ' does not absorb the input')
        ls = st2.mem[out.rid].layers
        full = [i for i, l in enumerate(ls) if l[2] == ('blob', 'SQ', 0)]
        ex.ob('post', 1 + R2)
        if len(full) != 1 or full[0] != 1 or ls[1][0] != 0 or not same_val(ls[1][1], tm.mul(P, r, 64)):
            raise Fail('post', '%s: the whole blocks of the output are not squeezed to its start' % name)
        got = written(ex, ls, 2, tm.mul(P, r, 64), R2)
        for i in range(R2):
            if got.get(i) is None:
                raise Fail('post', '%s: output byte P*%d+%d is not written (outlen = P*%d+%d)' % (name, r, i, r, R2))
            if not same_val(got[i], last[i]) and solver.prove(st2.pc, eq(got[i], last[i], 8)) is not True:
                raise Fail('post', '%s: output byte P*%d+%d is wrong (outlen = P*%d+%d)' % (name, r, i, r, R2))
        frame(ex, st, st2, {out.rid})
    if ex.glob_written:
        raise Fail('frame', 'writes globals')
    return ex
