"""FIPS 202 as a specification, and the verification of fips202.c against it.

The permutation is written here from the definitions of the standard (theta,
rho offsets and iota constants computed, not tabulated), checked against
hashlib on concrete inputs when the module is used."""
import random, hashlib
from . import terms as tm, ir
from .terms import T, ext, eq, xor, and_, add, cat_bytes_le as b2v
from .sym import Exec, State, Ptr, Fail, Unsupported, Solver, UNDEF, val_bytes, same_val

M64 = (1 << 64) - 1

def rho_offsets():
    r = {(0, 0): 0}
    x, y = 1, 0
    for t in range(24):
        r[(x, y)] = ((t + 1) * (t + 2) // 2) % 64
        x, y = y, (2 * x + 3 * y) % 5
    return r

def round_constants():
    def rc(t):
        R = 1
        for _ in range(t % 255):
            R <<= 1
            if R & 0x100:
                R ^= 0x171
        return R & 1
    return [sum(rc(j + 7 * i) << ((1 << j) - 1) for j in range(7)) for i in range(24)]

RHO = rho_offsets()
RC = round_constants()

def rot(v, k):
    """rotate left a 64-bit value"""
    if k == 0:
        return v
    if isinstance(v, int):
        return ((v << k) | (v >> (64 - k))) & M64
    return tm.from_pieces(tm.pieces(ext(v, 64, 64 - k, k), k) + tm.pieces(ext(v, 64, 0, 64 - k), 64 - k))

def n64(v):
    return (~v & M64) if isinstance(v, int) else tm.not_(v, 64)

class Node:
    """one intermediate word of the permutation: name, definition in terms of
    earlier nodes"""
    def __init__(s, key, f, preds):
        s.key = key; s.f = f; s.preds = preds; s.var = None

class Perm:
    """the permutation as a graph of words"""
    def __init__(s):
        s.n = {}
        def node(key, f, preds):
            s.n[key] = Node(key, f, preds)
            return key
        A = {(x, y): node(('A', 0, x, y), None, ()) for x in range(5) for y in range(5)}
        for r in range(24):
            C = [node(('C', r, x), lambda *v: xor(v, 64), tuple(A[(x, y)] for y in range(5))) for x in range(5)]
            D = [node(('D', r, x), lambda a, b: xor([a, rot(b, 1)], 64), (C[(x - 1) % 5], C[(x + 1) % 5])) for x in range(5)]
            Tt = {(x, y): node(('T', r, x, y), lambda a, d: xor([a, d], 64), (A[(x, y)], D[x])) for x in range(5) for y in range(5)}
            B = {}
            for x in range(5):
                for y in range(5):
                    X, Y = y, (2 * x + 3 * y) % 5
                    if RHO[(x, y)] == 0:
                        B[(X, Y)] = Tt[(x, y)]
                        continue
                    B[(X, Y)] = node(('B', r, X, Y), lambda a, k=RHO[(x, y)]: rot(a, k), (Tt[(x, y)],))
            A = {}
            for x in range(5):
                for y in range(5):
                    c = RC[r] if (x, y) == (0, 0) else 0
                    A[(x, y)] = node(('A', r + 1, x, y), lambda a, b, d, c=c: xor([a, and_(n64(b), d, 64), c], 64),
                                     (B[(x, y)], B[((x + 1) % 5, y)], B[((x + 2) % 5, y)]))
        s.order = list(s.n)

    def var(s, key):
        n = s.n[key]
        if n.var is None:
            n.var = tm.var('K:' + ':'.join(map(str, key)), 64)
        return n.var

    def run(s, lanes):
        """values of all nodes for concrete lanes (index x + 5y)"""
        v = {}
        for k in s.order:
            n = s.n[k]
            v[k] = lanes[k[2] + 5 * k[3]] if n.f is None else n.f(*[v[p] for p in n.preds])
        return v

PERM = Perm()

def f1600(lanes):
    v = PERM.run(lanes)
    return [v[('A', 24, i % 5, i // 5)] for i in range(25)]

def shake(rate, data, outlen):
    s = [0] * 25
    d = bytearray(data) + b'\x1f'
    d += b'\0' * (-len(d) % rate)
    d[-1] |= 0x80
    for o in range(0, len(d), rate):
        for i in range(rate // 8):
            s[i] ^= int.from_bytes(d[o + 8 * i:o + 8 * i + 8], 'little')
        s = f1600(s)
    out = b''
    while True:
        out += b''.join(s[i].to_bytes(8, 'little') for i in range(rate // 8))
        if len(out) >= outlen:
            return out[:outlen]
        s = f1600(s)

def selfcheck():
    for n in (0, 1, 135, 136, 137, 167, 168, 169, 500):
        d = bytes((i * 7 + n) & 255 for i in range(n))
        assert shake(168, d, 200) == hashlib.shake_128(d).digest(200)
        assert shake(136, d, 200) == hashlib.shake_256(d).digest(200)

# ---------------------------------------------------------------- permutation

def evaluate(t, val, memo):
    if isinstance(t, int):
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    op = t.op; a = t.args; m = (1 << t.w) - 1
    if op == 'var':
        r = val.get(t.args[0])
        if r is None:
            raise KeyError(t.args[0])
    elif op == 'cat':
        r = 0; sh = 0
        for v, lo, w in a:
            x = v if isinstance(v, int) else (evaluate(v, val, memo) >> lo)
            r |= (x & ((1 << w) - 1)) << sh
            sh += w
    elif op == 'xor':
        r = 0
        for x in a:
            r ^= evaluate(x, val, memo)
    elif op == 'and':
        r = m
        for x in a:
            r &= evaluate(x, val, memo)
    elif op == 'or':
        r = 0
        for x in a:
            r |= evaluate(x, val, memo)
    elif op == 'add':
        r = a[0]
        for x, k in a[1]:
            r += k * evaluate(x, val, memo)
        r &= m
    else:
        raise KeyError(op)
    memo[t.id] = r
    return r

class Cut:
    """Cut points.  A word the code stores that has, on random inputs, the
    value of a word of the specification is proved equal to it (given the
    words already cut) and replaced by a variable that stands for it."""
    def __init__(s, solver):
        rnd = random.Random(7)
        s.solver = solver; s.vals = []; s.memo = []; s.by = {}
        s.proved = 0; s.smt = 0; s.missed = 0
        runs = [PERM.run([rnd.getrandbits(64) for _ in range(25)]) for _ in range(2)]
        for v in runs:
            s.vals.append({PERM.var(k).args[0]: v[k] for k in PERM.order}); s.memo.append({})
        for k in PERM.order:
            s.by.setdefault(tuple(v[k] for v in runs), []).append(k)
        s.size = 0

    def __call__(s, t):
        if t.op == 'var':
            return t
        try:
            key = tuple(evaluate(t, v, m) for v, m in zip(s.vals, s.memo))
        except (KeyError, RecursionError):
            return t
        ks = s.by.get(key)
        if not ks:
            s.missed += 1
            if s.missed > 20000:
                raise Unsupported('the permutation does not follow the standard')
            return t
        for k in ks:
            if s.prove(t, k):
                s.proved += 1
                return PERM.var(k)
        return t

    def defs(s, k, depth):
        n = PERM.n[k]
        if n.f is None:
            return PERM.var(k)
        return n.f(*[PERM.var(p) if depth == 0 else s.defs(p, depth - 1) for p in n.preds])

    def prove(s, t, k):
        if PERM.n[k].f is None:
            return False
        for d in range(3):
            if s.defs(k, d) is t:
                return True
        if tm.dag_size([t], 400) is None:
            return False
        for d in range(3):
            s.smt += 1
            if s.solver.prove([], eq(t, s.defs(k, d), 64)) is True:
                return True
        return False

def lanes_of(bs):
    return [b2v(bs[8 * i:8 * i + 8]) for i in range(25)]

def state_name(prog):
    return 'KeccakF1600_StatePermute'

def verify_permutation(prog, solver, deadline=None):
    """returns (obligations, cuts).  Raises Fail/Unsupported."""
    selfcheck()
    ex = Exec(prog.mod, solver)
    ex.deadline = deadline
    st = State()
    bs = []
    for i in range(25):
        bs += val_bytes(PERM.var(('A', 0, i % 5, i // 5)), 64)
    p = ex.new(st, 'state', 200, 'arg', bs)
    cut = Cut(solver)
    ex.store_hook = cut
    res = ex.call(st, state_name(prog), [p])
    for s2, rv in res:
        got = lanes_of(list(s2.mem[p.rid].mat()))
        for i in range(25):
            want = PERM.var(('A', 24, i % 5, i // 5))
            if got[i] is want:
                continue
            if isinstance(got[i], T):
                got[i] = cut(got[i])
            if got[i] is not want:
                try:
                    bad = isinstance(got[i], int) or any(evaluate(got[i], v, m) != v[want.args[0]] for v, m in zip(cut.vals, cut.memo))
                except KeyError:
                    raise Unsupported('lane %d of the permutation' % i)
                if bad:
                    raise Fail('perm', 'lane %d after the permutation differs from FIPS 202' % i)
                raise Unsupported('lane %d of the permutation not proved' % i)
            ex.ob('post')
        ex.ob('post', 25)
    if ex.glob_written:
        raise Fail('frame', 'the permutation writes globals')
    ex.obl['cut-point'] = cut.proved
    return ex, cut
