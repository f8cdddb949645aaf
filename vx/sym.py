"""Symbolic executor over the IR of vx.ir: generates and discharges the proof
obligations of one function at a time.  Calls to functions under contract are
replaced by the contract (requires checked, effect applied); everything else is
executed on the caller's state."""
import time, sys
from . import terms as tm
from .terms import T, ext, cat, cat_bytes_le, cat_bytes_be, ite, eq, and_, not_, add, ult

sys.setrecursionlimit(200000)

class Fail(Exception):
    def __init__(s, kind, msg, where=None, model=None):
        Exception.__init__(s, '%s: %s' % (kind, msg))
        s.kind = kind; s.msg = msg; s.where = where; s.model = model

class Unsupported(Fail):
    def __init__(s, msg, where=None):
        Fail.__init__(s, 'unsupported', msg, where)

class _Undef:
    def __repr__(s):
        return 'UNDEF'
UNDEF = _Undef()

class Ptr:
    __slots__ = ('rid', 'off')
    def __init__(s, rid, off):
        s.rid = rid; s.off = off
    def __repr__(s):
        return 'Ptr(%s,%r)' % (s.rid, s.off)
    def __eq__(s, o):
        return isinstance(o, Ptr) and s.rid == o.rid and (s.off is o.off or s.off == o.off)
    def __hash__(s):
        return hash((s.rid, s.off if isinstance(s.off, int) else s.off.id))

class PIte:
    __slots__ = ('c', 'a', 'b')
    def __init__(s, c, a, b):
        s.c = c; s.a = a; s.b = b
    def __eq__(s, o):
        return isinstance(o, PIte) and s.c is o.c and s.a == o.a and s.b == o.b
    def __hash__(s):
        return hash((s.c, s.a, s.b))

class FnPtr:
    def __init__(s, name):
        s.name = name
    def __eq__(s, o):
        return isinstance(o, FnPtr) and s.name == o.name
    def __hash__(s):
        return hash(s.name)

_rid = [0]

class Region:
    """concrete-size region: cells (list of byte entries) or one scalar"""
    __slots__ = ('rid', 'name', 'size', 'cells', 'scal', 'owner', 'kind', 'ro', 'big')
    def __init__(s, name, size, kind, ro=False):
        _rid[0] += 1
        s.rid = _rid[0]; s.name = name; s.size = size; s.kind = kind; s.ro = ro
        s.cells = None; s.scal = None; s.owner = None; s.big = False

    def clone(s, owner):
        r = object.__new__(type(s))
        r.rid = s.rid; r.name = s.name; r.size = s.size; r.kind = s.kind; r.ro = s.ro; r.big = s.big
        r.cells = list(s.cells) if s.cells is not None else None
        r.scal = s.scal
        r.owner = owner
        return r

    def mat(s):
        """materialise cells"""
        if s.cells is None:
            if s.scal is None:
                s.cells = [UNDEF] * s.size
            else:
                v, w = s.scal
                s.cells = val_bytes(v, w)
                s.cells += [UNDEF] * (s.size - len(s.cells))
                s.scal = None
        return s.cells

def val_bytes(v, w):
    if isinstance(v, (Ptr, PIte, FnPtr)):
        return [('p', v, k) for k in range(8)]
    if v is UNDEF:
        return [UNDEF] * (w // 8)
    if isinstance(v, int):
        return list(v.to_bytes((w + 7) // 8, 'little'))
    if w % 8:
        v = tm.zext(v, w, (w + 7) // 8 * 8); w = (w + 7) // 8 * 8
    return [ext(v, w, 8 * k, 8) for k in range(w // 8)]

class BigRegion:
    """symbolic-size region: base content + ordered writes (newest last)"""
    big = True
    def __init__(s, name, size, kind, head=None, headlen=0, blob=None, bloboff=0, ro=False):
        _rid[0] += 1
        s.rid = _rid[0]; s.name = name; s.size = size; s.kind = kind; s.ro = ro
        s.owner = None
        # layers: list of (off, len, content)  content: ('bytes',dict) | ('blob',name,off) | ('fill',byte) | ('any',)
        s.layers = []

    def clone(s, owner):
        r = object.__new__(BigRegion)
        r.rid = s.rid; r.name = s.name; r.size = s.size; r.kind = s.kind; r.ro = s.ro
        r.owner = owner
        r.layers = [(o, l, (c[0], dict(c[1])) if c[0] == 'bytes' else c) for (o, l, c) in s.layers]
        return r

class State:
    __slots__ = ('mem', 'pc', 'tok', 'trace', 'ghost')
    def __init__(s):
        s.mem = {}; s.pc = []; s.tok = object(); s.trace = []; s.ghost = {}

    def copy(s):
        n = State()
        n.mem = dict(s.mem); n.pc = list(s.pc); n.trace = list(s.trace); n.ghost = dict(s.ghost)
        s.tok = object()
        return n

    def wr(s, rid):
        r = s.mem.get(rid)
        if r is None:
            raise Fail('memory', 'use of dead object')
        if r.owner is not s.tok:
            r = r.clone(s.tok)
            s.mem[rid] = r
        return r

# ---------------------------------------------------------------- solver

class Solver:
    def __init__(s, timeout=20000):
        s.timeout = timeout
        s.cache = {}; s.chk = {}; s.inc = None; s.incn = 0
        s.stats = {'z3_calls': 0, 'z3_s': 0.0, 'cvc5_calls': 0, 'cvc5_s': 0.0, 'syntactic': 0}
        s.last_model = None

    def decide(s, pc, c):
        """True / False / None: value of condition c under pc (only if implied)"""
        if isinstance(c, int):
            return bool(c)
        pcs = set(x for x in pc)
        if c in pcs:
            return True
        nc = not_(c)
        if nc in pcs:
            return False
        if not pc and c.op in ('var',):
            return None
        q = bound_decide(pc, c)
        if q is not None:
            s.stats['syntactic'] += 1
            return q
        key = (frozenset(x.id for x in pc if isinstance(x, T)), c)
        if key in s.cache:
            return s.cache[key]
        # replace 1-bit equalities quickly
        r = None
        if s.check(pc, not_(c)) == 'unsat':
            r = True
        elif s.check(pc, c) == 'unsat':
            r = False
        s.cache[key] = r
        return r

    def check(s, pc, c, want_model=False, timeout=None):
        """satisfiability of pc and c.  First with every uninterpreted
        application as an opaque variable (an over-approximation, so 'unsat'
        stands), restricted to the conjuncts connected with c; then exactly."""
        pc = [p for p in pc if not (isinstance(p, int) and p)]
        if any(isinstance(p, int) for p in pc) or (isinstance(c, int) and not c):
            return 'unsat'
        if isinstance(c, T):
            todo = [(p, tm.leaves(p)) for p in pc]
            have = set(tm.leaves(c)); rel = []
            while True:
                hit = [x for x in todo if x[1] & have]
                if not hit:
                    break
                todo = [x for x in todo if not (x[1] & have)]
                for p, l in hit:
                    rel.append(p); have |= l
        else:
            rel = list(pc); have = set()
            for p in pc:
                have |= tm.leaves(p)
        key = None
        if not want_model:
            key = (frozenset(x.id for x in rel if isinstance(x, T)), c)
            r = s.chk.get(key)
            if r is not None:
                return r
        r = s.check2(pc, rel, have, c, want_model, timeout)
        if key is not None and r in ('sat', 'unsat'):
            s.chk[key] = r
        return r

    def check2(s, pc, rel, have, c, want_model, timeout):
        r = s._check(rel, c, want_model, timeout, True)
        if r == 'unsat':
            return r
        inexact = any(l.op == 'app' and tm.has_t(l.args) for l in have)
        if not inexact:
            # an exact model of the connected part; the rest of pc is satisfiable by construction
            return r
        if tm.dag_size(rel + [c], 1500) >= 1500:
            return 'sat'          # unsat not established; callers treat this as "possible"
        return s._check(pc, c, want_model, timeout, False)

    def model_of(s, pc, timeout=5000):
        """some values of the variables and opaque bytes in pc (a hint, not a proof)"""
        z = tm._z3
        sol = z.SolverFor('QF_BV'); sol.set('timeout', timeout)
        lv = set()
        old = tm._abs; tm._abs = True
        try:
            for p in pc:
                if isinstance(p, T):
                    sol.add(tm.to_z3(p, 1) == 1); lv |= tm.leaves(p)
            if str(sol.check()) != 'sat':
                return {}
            m = sol.model(); out = {}
            for l in lv:
                v = m.eval(tm.to_z3(l, l.w))
                if hasattr(v, 'as_long'):
                    out[l] = v.as_long()
            return out
        finally:
            tm._abs = old

    def _check(s, pc, c, want_model, timeout, abstract):
        z = tm._z3
        t0 = time.time()
        if abstract and not want_model and tm.dag_size(pc + [c], 300, True) < 300:
            # small queries: one incremental solver for all
            if s.inc is None or s.incn > 3000:
                s.inc = z.SolverFor('QF_BV'); s.incn = 0
                s.inc.push()
            old = tm._abs; tm._abs = True
            try:
                xs = [tm.to_z3(p, 1) == 1 for p in pc] + ([tm.to_z3(c, 1) == 1] if not isinstance(c, int) else [])
            finally:
                tm._abs = old
            s.inc.set('timeout', timeout or s.timeout)
            s.inc.push(); s.incn += 1
            s.inc.add(*xs)
            r = str(s.inc.check())
            s.inc.pop()
            s.stats['z3_calls'] += 1
            s.stats['z3_s'] += time.time() - t0
            if r in ('sat', 'unsat'):
                return r
        sol = z.SolverFor('QF_BV' if abstract else 'QF_UFBV')
        sol.set('timeout', timeout or s.timeout)
        old = tm._abs; tm._abs = abstract
        try:
            for p in pc:
                sol.add(tm.to_z3(p, 1) == 1)
            if not isinstance(c, int):
                sol.add(tm.to_z3(c, 1) == 1)
        finally:
            tm._abs = old
        r = str(sol.check())
        s.stats['z3_calls'] += 1
        s.stats['z3_s'] += time.time() - t0
        if r == 'sat' and want_model:
            s.last_model = sol.model()
        if r == 'unknown':
            r = s.cvc5(sol)
        return r

    def cvc5(s, sol):
        import subprocess, tempfile, os
        t0 = time.time()
        txt = '(set-logic QF_UFBV)\n' + sol.to_smt2()
        fd, fn = tempfile.mkstemp(suffix='.smt2'); os.write(fd, txt.encode()); os.close(fd)
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % s.timeout, fn], capture_output=True, text=True, timeout=s.timeout / 1000 + 10)
            r = p.stdout.strip().split('\n')[0]
        except Exception:
            r = 'unknown'
        finally:
            os.unlink(fn)
        s.stats['cvc5_calls'] += 1
        s.stats['cvc5_s'] += time.time() - t0
        return r if r in ('sat', 'unsat') else 'unknown'

    def prove(s, pc, c, want_model=False):
        """is pc => c valid?  True / False(with model) / None"""
        if isinstance(c, int):
            if c:
                s.stats['syntactic'] += 1
                return True
            r = s.check(pc, 1)     # vacuous path?
            return True if r == 'unsat' else (False if r == 'sat' else None)
        if c in pc or bound_decide(pc, c) is True:
            s.stats['syntactic'] += 1
            return True
        r = s.check(pc, not_(c), want_model)
        return True if r == 'unsat' else (False if r == 'sat' else None)

def lit_ult(c):
    """c as (positive?, a, b) when it is a (negated) unsigned comparison"""
    if c.op == 'ult':
        return (True, c.args[1], c.args[2], c.args[0])
    if c.op == 'xor' and len(c.args) == 2 and c.args[0] == 1 and isinstance(c.args[1], T) and c.args[1].op == 'ult':
        u = c.args[1]
        return (False, u.args[1], u.args[2], u.args[0])
    return None

def interval(pc, t, w):
    """bounds of t from its own range and single comparisons in pc (also
    through a constant offset, when that cannot wrap)"""
    lo, hi = tm.rng(t)
    facts = []
    for f in pc:
        if isinstance(f, T):
            st = [f]
            while st:
                g = st.pop()
                if g.op == 'and':
                    st.extend(g.args)
                    continue
                l = lit_ult(g)
                if l is not None and l[3] == w:
                    facts.append(l)
    def base(t, lo, hi):
        for (pos, a, b, _) in facts:
            if b is t and isinstance(a, int):
                if pos:
                    lo = max(lo, a + 1)
                else:
                    hi = min(hi, a)
            if a is t and isinstance(b, int):
                if pos:
                    hi = min(hi, b - 1)
                else:
                    lo = max(lo, b)
        return lo, hi
    lo, hi = base(t, lo, hi)
    if t.op == 'add' and len(t.args[1]) == 1 and t.args[1][0][1] == 1:
        u = t.args[1][0][0]; c = t.args[0]
        l2, h2 = base(u, *tm.rng(u))
        M = 1 << w
        for cc in (c, c - M):
            if l2 + cc >= 0 and h2 + cc < M:
                lo = max(lo, l2 + cc); hi = min(hi, h2 + cc)
                break
    return lo, hi

def bound_decide(pc, c):
    l = lit_ult(c)
    if l is None:
        return None
    pos, a, b, w = l
    la, ha = (a, a) if isinstance(a, int) else interval(pc, a, w)
    lb, hb = (b, b) if isinstance(b, int) else interval(pc, b, w)
    if ha < lb:
        return pos
    if la >= hb:
        return not pos
    return None

# ---------------------------------------------------------------- executor

class Exec:
    def __init__(s, mod, solver=None, contracts=None, externs=None, maxsteps=40000000):
        from .ir import Layout
        s.mod = mod
        s.lay = Layout(mod)
        s.solver = solver or Solver()
        s.contracts = contracts or {}
        s.externs = dict(EXTERNS)
        if externs:
            s.externs.update(externs)
        s.obl = {}
        s.steps = 0; s.maxsteps = maxsteps; s.deadline = None; s.lastdl = 0
        s.globs = {}
        s.loop_hook = None
        s.store_hook = None
        s.frames = 0; s.ncalls = {}
        s.depth = 0
        s.forks = 0
        s.max_forks = 24
        s.where = []
        s.glob_written = set()
        s.check_nsw = True
        s.inlined = set()
        s.applied = set()

    # ---- obligations
    def ob(s, kind, n=1):
        s.obl[kind] = s.obl.get(kind, 0) + n

    def loc(s):
        return ' < '.join(reversed(s.where[-4:]))

    def fail(s, kind, msg, model=None):
        raise Fail(kind, msg, s.loc(), model)

    def require(s, st, c, kind, msg):
        s.ob(kind)
        if isinstance(c, int):
            if c:
                s.solver.stats['syntactic'] += 1
                return
        r = s.solver.prove(st.pc, c)
        if r is not True:
            s.fail(kind, '%s [%s]' % (msg, 'refuted' if r is False else 'undecided'))

    # ---- memory
    def new(s, st, name, size, kind='local', cells=None, ro=False):
        r = Region(name, size, kind, ro)
        r.owner = st.tok
        if cells is not None:
            r.cells = list(cells)
            assert len(cells) == size, (name, len(cells), size)
        st.mem[r.rid] = r
        return Ptr(r.rid, 0)

    def newbig(s, st, name, size, layers, kind='arg', ro=False):
        r = BigRegion(name, size, kind, ro=ro)
        r.owner = st.tok
        r.layers = layers
        st.mem[r.rid] = r
        return Ptr(r.rid, 0)

    def check_range(s, st, p, n, write):
        """bounds obligation for n (int) bytes at p"""
        if not isinstance(p, Ptr):
            s.fail('memory', 'access through a non-pointer value')
        r = st.mem.get(p.rid)
        if r is None:
            s.fail('memory', 'access to a dead object')
        s.ob('memory-bounds')
        if isinstance(p.off, int) and isinstance(r.size, int):
            if p.off < 0 or p.off + n > r.size:
                if p.off >= (1 << 63) or True:
                    s.fail('memory', 'out of bounds: %s[%d..+%d) of %d bytes' % (r.name, p.off if p.off < (1 << 63) else p.off - (1 << 64), n, r.size))
        else:
            s.bound_sym(st, p.off, n, r)
        if write and r.ro:
            s.fail('frame', 'write to read-only object %s' % r.name)
        return r

    def bound_sym(s, st, off, n, r):
        """off + n <= r.size (no wrap) for possibly symbolic values"""
        W = 72
        o = tm.zext(off, 64, W) if not isinstance(off, int) else off
        nn = tm.zext(n, 64, W) if not isinstance(n, int) else n
        z = tm.zext(r.size, 64, W) if not isinstance(r.size, int) else r.size
        c = not_(ult(z, add(o, nn, W), W))
        if isinstance(c, int) and c:
            return
        # linear shortcut: size - off - n has only nonnegative parts
        if s.solver.prove(st.pc, c) is not True:
            s.fail('memory', 'bounds not provable: %s[%s..+%s) of %s bytes' % (r.name, tm.show(off), tm.show(n), tm.show(r.size)))

    def read(s, st, p, n):
        """n (int) byte entries at p"""
        if isinstance(p, PIte):
            a = s.read(st, p.a, n); b = s.read(st, p.b, n)
            return [s.merge_byte(p.c, x, y) for x, y in zip(a, b)]
        if n == 0:
            return []
        r = s.check_range(st, p, n, False)
        if r.big:
            return s.big_read(st, r, p.off, n)
        if not isinstance(p.off, int):
            return s.sym_read(st, r, p.off, n)
        if r.cells is None:
            r = st.wr(p.rid)
            r.mat()
        return r.cells[p.off:p.off + n]

    def sym_read(s, st, r, off, n):
        """symbolic offset: case split over the possible offsets (small only)"""
        lo, hi = tm.rng(off)
        hi = min(hi, r.size - n)
        cands = []
        for k in range(lo, hi + 1):
            c = eq(off, k, 64)
            if isinstance(c, int) and not c:
                continue
            if len(cands) > 600:
                raise Unsupported('symbolic offset with too many values in ' + r.name, s.loc())
            cands.append((k, c))
        if len(cands) > 1:
            cands = [(k, c) for k, c in cands if s.solver.decide(st.pc, c) is not False]
        if not cands:
            raise Unsupported('no feasible offset', s.loc())
        cells = r.mat() if r.cells is None else r.cells
        res = None
        for k, c in reversed(cands):
            b = cells[k:k + n]
            res = b if res is None else [s.merge_byte(c, x, y) for x, y in zip(b, res)]
        return res

    def sym_write(s, st, p, bs):
        r = st.wr(p.rid)
        lo, hi = tm.rng(p.off)
        n = len(bs)
        hi = min(hi, r.size - n)
        cands = []
        for k in range(lo, hi + 1):
            c = eq(p.off, k, 64)
            if isinstance(c, int) and not c:
                continue
            if len(cands) > 600:
                raise Unsupported('symbolic offset with too many values in ' + r.name, s.loc())
            cands.append((k, c))
        if len(cands) > 1:
            cands = [(k, c) for k, c in cands if s.solver.decide(st.pc, c) is not False]
        cells = r.mat()
        for k, c in cands:
            for i, b in enumerate(bs):
                cells[k + i] = s.merge_byte(c, b, cells[k + i])

    def merge_byte(s, c, x, y):
        if x is y or (isinstance(x, int) and isinstance(y, int) and x == y):
            return x
        if isinstance(c, int):
            return x if c else y
        if x is UNDEF or y is UNDEF:
            if x is UNDEF and y is UNDEF:
                return UNDEF
            if x is UNDEF:
                x = tm.fresh('undef', 8)
            else:
                y = tm.fresh('undef', 8)
        if isinstance(x, tuple) or isinstance(y, tuple):
            if isinstance(x, tuple) and isinstance(y, tuple) and x == y:
                return x
            if isinstance(x, tuple) and isinstance(y, tuple) and x[2] == y[2]:
                return ('p', PIte(c, x[1], y[1]), x[2])
            if isinstance(x, tuple) and isinstance(y, T) and y.op == 'var' and y.args[0].startswith('undef'):
                return x
            if isinstance(y, tuple) and isinstance(x, T) and x.op == 'var' and x.args[0].startswith('undef'):
                return y
            raise Unsupported('merge of pointer and data', s.loc())
        return ite(c, x, y, 8)

    def write(s, st, p, bs):
        if isinstance(p, PIte):
            n = len(bs)
            old = s.read(st, p.a, n)
            s.write(st, p.a, [s.merge_byte(p.c, b, o) for b, o in zip(bs, old)])
            old = s.read(st, p.b, n)
            s.write(st, p.b, [s.merge_byte(p.c, o, b) for b, o in zip(bs, old)])
            return
        n = len(bs)
        if n == 0:
            return
        r = s.check_range(st, p, n, True)
        if r.kind == 'global':
            s.glob_written.add(r.name)
        if r.big:
            return s.big_write(st, p, bs)
        if not isinstance(p.off, int):
            return s.sym_write(st, p, bs)
        r = st.wr(p.rid)
        if r.cells is None:
            r.mat()
        r.cells[p.off:p.off + n] = bs

    # ---- big regions
    def big_write(s, st, p, bs):
        if not isinstance(p.off, int):
            r = st.wr(p.rid)
            r.layers.append((p.off, len(bs), ('at', tuple(bs))))
            return
        r = st.wr(p.rid)
        if not r.layers or r.layers[-1][2][0] != 'bytes':
            r.layers.append((None, None, ('bytes', {})))
        d = r.layers[-1][2][1]
        for i, b in enumerate(bs):
            d[p.off + i] = b

    def big_read(s, st, r, off, n):
        if not isinstance(off, int):
            # symbolic offset into an untouched blob
            segs = s.segments(st, r, off, n)
            if len(segs) == 1 and segs[0][0] == 'blob':
                return [tm.app('B:' + segs[0][1], 8, add(segs[0][2], k, 64)) for k in range(n)]
            raise Unsupported('symbolic-offset read of ' + r.name, s.loc())
        return [s.big_byte(st, r, off + k) for k in range(n)]

    def big_byte(s, st, r, k):
        for (o, l, c) in reversed(r.layers):
            if c[0] == 'bytes':
                if k in c[1]:
                    return c[1][k]
                continue
            if isinstance(o, int):
                if k < o:
                    continue
                inside = ult(k - o, l, 64) if not isinstance(l, int) else int(k - o < l)
            else:
                inside = and_(not_(ult(k, o, 64)), ult(k, add(o, l, 64), 64), 1)
            d = s.solver.decide(st.pc, inside)
            if d is True:
                return s.layer_byte(c, k, o)
            if d is None:
                lowb = s.layer_byte(c, k, o)
                raise Unsupported('cannot decide whether byte %d of %s is covered' % (k, r.name), s.loc())
        return UNDEF

    def layer_byte(s, c, k, o):
        if c[0] == 'fill':
            return c[1]
        if c[0] == 'any':
            return tm.fresh('any', 8)
        if c[0] == 'var':           # wide variable, little-endian slices
            return ext(c[1], c[1].w, 8 * (k - o), 8)
        if c[0] == 'blob':
            return tm.app('B:' + c[1], 8, add(c[2], add(k, -o if isinstance(o, int) else tm.sub(0, o, 64), 64), 64))
        raise Unsupported('layer ' + c[0])

    def segments(s, st, r, off, n):
        """decompose [off, off+n) of big region r:
        list of ('b', [bytes]) ('blob', name, off, len) ('fill', byte, len) ('undef', len)"""
        out = []
        cur = off; rem = n
        guard = 0
        while not (isinstance(rem, int) and rem == 0):
            guard += 1
            if guard > 20000:
                raise Unsupported('segments of ' + r.name, s.loc())
            if isinstance(cur, int):
                # byte overlays above symbolic layers
                seg = None
                nxt = None
                for (o, l, c) in reversed(r.layers):
                    if c[0] == 'bytes':
                        if cur in c[1]:
                            seg = ('b', c[1][cur]); break
                        ks = [k for k in c[1] if k > cur]
                        if ks:
                            m = min(ks)
                            nxt = m if nxt is None else min(nxt, m)
                        continue
                    inside = s.covers(st, o, l, cur)
                    if inside is None and isinstance(o, int) and o <= cur and \
                            s.solver.prove(st.pc, not_(ult(add(o, l, 64), add(cur, rem, 64), 64))) is True:
                        inside = True          # covers all of the (possibly empty) range
                    if inside is None:
                        raise Unsupported('coverage of %s at %d' % (r.name, cur), s.loc())
                    if inside is True:
                        seg = (c[0], c, o, l); break
                    if isinstance(o, int) and o > cur:
                        nxt = o if nxt is None else min(nxt, o)
                if seg is None:
                    out.append(('undef', rem)); return out
                if seg[0] == 'b':
                    if out and out[-1][0] == 'b':
                        out[-1][1].append(seg[1])
                    else:
                        out.append(('b', [seg[1]]))
                    if isinstance(rem, int):
                        rem -= 1
                    else:
                        if s.solver.prove(st.pc, not_(eq(rem, 0, 64))) is not True:
                            if s.solver.check(st.pc, eq(rem, 0, 64)) == 'sat':
                                out.append(('short', rem, cur)); return out
                            raise Unsupported('range may end inside the prefix of ' + r.name, s.loc())
                        rem = tm.sub(rem, 1, 64)
                    cur += 1
                    continue
                _, c, o, l = seg
                end = add(o, l, 64)                    # end of this layer
                avail = tm.sub(end, cur, 64)
                if nxt is not None:
                    # limited by a newer write: does the range end before it?
                    if isinstance(rem, int) and cur + rem <= nxt:
                        pass
                    elif isinstance(rem, T) and s.solver.prove(st.pc, not_(ult(nxt - cur, rem, 64))) is True:
                        pass
                    else:
                        take = nxt - cur
                        if isinstance(avail, int):
                            take = min(take, avail)
                        if isinstance(rem, int):
                            take = min(take, rem)
                        s._emit(out, c, cur, o, take)
                        cur += take
                        rem = rem - take if isinstance(rem, int) else tm.sub(rem, take, 64)
                        continue
                if rem is avail or (isinstance(rem, int) and isinstance(avail, int) and rem <= avail) or \
                        s.solver.prove(st.pc, not_(ult(avail, rem, 64))) is True:
                    s._emit(out, c, cur, o, rem)
                    return out
                s._emit(out, c, cur, o, avail)
                cur = end
                rem = tm.sub(rem, avail, 64)
                continue
            # symbolic position: single covering layer, no newer layers overlapping
            for (o, l, c) in reversed(r.layers):
                if c[0] == 'bytes':
                    if not c[1]:
                        continue
                    m = max(c[1])
                    if s.solver.prove(st.pc, ult(m, cur, 64)) is True:
                        continue
                    raise Unsupported('symbolic position below prefix in ' + r.name, s.loc())
                end = add(o, l, 64)
                inside = and_(not_(ult(cur, o, 64)), not_(ult(end, add(cur, rem, 64), 64)), 1)
                if s.solver.prove(st.pc, inside) is True:
                    s._emit(out, c, cur, o, rem)
                    return out
                if isinstance(l, int) and s.solver.prove(st.pc, not_(ult(cur, end, 64))) is True:
                    continue
                raise Unsupported('symbolic range in ' + r.name, s.loc())
            out.append(('undef', rem))
            return out
        return out

    def covers(s, st, o, l, k):
        if isinstance(o, int) and isinstance(l, int):
            return o <= k < o + l
        if isinstance(o, int):
            if k < o:
                return False
            c = ult(k - o, l, 64)
            if k == o:
                # an empty layer covers nothing, but taking it is harmless:
                # ranges read from it have length 0
                return True
        else:
            c = and_(not_(ult(k, o, 64)), ult(k, add(o, l, 64), 64), 1)
        return s.solver.decide(st.pc, c)

    def _emit(s, out, c, cur, o, n):
        if c[0] == 'blob':
            out.append(('blob', c[1], add(c[2], tm.sub(cur, o, 64), 64), n))
        elif c[0] == 'fill':
            out.append(('fill', c[1], n))
        elif c[0] == 'any':
            out.append(('any', n))
        elif c[0] == 'var' and isinstance(n, int):
            bs = [ext(c[1], c[1].w, 8 * (cur - o + k), 8) for k in range(n)]
            if out and out[-1][0] == 'b':
                out[-1][1].extend(bs)
            else:
                out.append(('b', bs))
        else:
            raise Unsupported('segment of ' + c[0])

    def read_segs(s, st, p, n):
        """segments of a range with possibly symbolic length/offset"""
        if isinstance(n, int):
            r0 = st.mem.get(p.rid) if isinstance(p, Ptr) else None
            if r0 is None or not r0.big or (isinstance(p.off, int) and n <= 4096 and False):
                return [('b', s.read(st, p, n))]
        if isinstance(p, PIte):
            raise Unsupported('symbolic-length access through conditional pointer', s.loc())
        if not isinstance(p, Ptr):
            s.require(st, eq(n, 0, 64), 'memory', 'access through a non-pointer value')
            return []
        r = st.mem.get(p.rid)
        if r is None:
            s.fail('memory', 'access to a dead object')
        s.ob('memory-bounds')
        s.bound_sym(st, p.off, n, r)
        if not r.big:
            raise Unsupported('symbolic-length read of ' + r.name, s.loc())
        return s.segments(st, r, p.off, n)

    def write_segs(s, st, p, segs, n):
        """write segments at p"""
        if all(g[0] == 'b' for g in segs) and isinstance(n, int):
            s.write(st, p, [b for g in segs for b in g[1]])
            return
        if not isinstance(p, Ptr):
            raise Unsupported('symbolic-length write', s.loc())
        r = st.mem.get(p.rid)
        if r is None:
            s.fail('memory', 'write to a dead object')
        s.ob('memory-bounds')
        s.bound_sym(st, p.off, n, r)
        if r.ro:
            s.fail('frame', 'write to read-only object %s' % r.name)
        if not r.big:
            raise Unsupported('symbolic-length write to ' + r.name, s.loc())
        r = st.wr(p.rid)
        cur = p.off
        for g in segs:
            if g[0] == 'b':
                s.big_write(st, Ptr(p.rid, cur), g[1]); l = len(g[1])
                r = st.wr(p.rid)
            elif g[0] == 'blob':
                r.layers.append((cur, g[3], ('blob', g[1], g[2]))); l = g[3]
            elif g[0] == 'fill':
                r.layers.append((cur, g[2], ('fill', g[1]))); l = g[2]
            else:
                r.layers.append((cur, g[1], ('any',))); l = g[1]
            cur = add(cur, l, 64)

    def copy_bytes(s, st, d, sp, n, overlap_ok=False):
        if isinstance(n, int):
            if n == 0:
                return
            rs = st.mem.get(sp.rid) if isinstance(sp, Ptr) else None
            if rs is not None and rs.big and n > 4096 and not isinstance(sp.off, T):
                pass
            bs = s.read(st, sp, n)
            if not overlap_ok and isinstance(d, Ptr) and isinstance(sp, Ptr) and d.rid == sp.rid \
                    and isinstance(d.off, int) and isinstance(sp.off, int) and d.off != sp.off \
                    and abs(d.off - sp.off) < n:
                s.fail('memory', 'overlapping memcpy in ' + st.mem[d.rid].name)
            s.ob('memcpy-overlap')
            s.write(st, d, list(bs))
            return
        if isinstance(d, Ptr) and isinstance(sp, Ptr) and d.rid == sp.rid and not overlap_ok:
            raise Unsupported('symbolic-length copy inside one object', s.loc())
        s.ob('memcpy-overlap')
        segs = s.read_segs(st, sp, n)
        s.write_segs(st, d, segs, n)

    def set_bytes(s, st, d, b, n):
        if isinstance(n, int):
            s.write(st, d, [b] * n)
            return
        s.write_segs(st, d, [('fill', b, n)], n)

    # ---- typed load/store
    def load(s, st, t, p):
        if t[0] in ('struct', 'arr', 'lit'):
            z, _ = s.lay.size_align(t)
            return ('agg', t, s.read(st, p, z))
        w = 64 if t[0] == 'ptr' else t[1]
        if isinstance(p, Ptr) and isinstance(p.off, int) and p.off == 0:
            r = st.mem.get(p.rid)
            if r is not None and not r.big and r.scal is not None and r.size * 8 == w:
                s.ob('memory-bounds')
                return r.scal[0]
        n = (w + 7) // 8
        bs = s.read(st, p, n)
        return s.from_bytes(bs, w, t)

    def from_bytes(s, bs, w, t):
        b0 = bs[0]
        if isinstance(b0, tuple) and b0[0] == 'p':
            v = b0[1]
            for k, b in enumerate(bs):
                if not (isinstance(b, tuple) and b[2] == k and (b[1] is v or b[1] == v)):
                    raise Unsupported('partial pointer', s.loc())
            return v
        if any(b is UNDEF for b in bs):
            if all(b is UNDEF for b in bs):
                return tm.fresh('undef', w)
            bs = [tm.fresh('undef', 8) if b is UNDEF else b for b in bs]
        if any(isinstance(b, tuple) for b in bs):
            raise Unsupported('partial pointer', s.loc())
        v = cat_bytes_le(bs)
        if w % 8:
            v = ext(v, len(bs) * 8, 0, w)
        return v

    def store(s, st, t, v, p):
        if t[0] in ('struct', 'arr', 'lit'):
            if isinstance(v, tuple) and v[0] == 'agg':
                s.write(st, p, v[2])
            else:
                z, _ = s.lay.size_align(t)
                s.write(st, p, [0] * z if v == 0 else [UNDEF] * z)
            return
        w = 64 if t[0] == 'ptr' else t[1]
        if s.store_hook is not None and w == 64 and isinstance(v, T):
            v = s.store_hook(v)
        if isinstance(p, Ptr) and isinstance(p.off, int) and p.off == 0:
            r = st.mem.get(p.rid)
            if r is not None and not r.big and r.cells is None and r.size * 8 == w:
                s.ob('memory-bounds')
                if r.ro:
                    s.fail('frame', 'write to read-only object ' + r.name)
                if r.kind == 'global':
                    s.glob_written.add(r.name)
                if r.owner is not st.tok:
                    r = r.clone(st.tok); st.mem[p.rid] = r
                r.scal = (v, w)
                return
        s.write(st, p, val_bytes(v, w))

    # ---- globals
    def glob(s, st, f, name):
        key = f.file + ':' + name
        g = s.mod.globals.get(key)
        if g is None:
            key = name
            g = s.mod.globals.get(key)
        if g is None:
            if name in s.mod.funcs or (f.file + ':' + name) in s.mod.funcs or name in s.externs:
                return FnPtr(name)
            if name in ('stdout', 'stderr', 'stdin'):
                g = dict(kind='ext', bytes=None, ext=True)
            else:
                raise Unsupported('global ' + name, s.loc())
        if g.get('ext'):
            # external object, e.g. stdout: opaque pointer-sized cell
            rid = s.globs.get(key)
            if rid is None or rid not in st.mem:
                tgt = s.new(st, 'FILE:' + name, 1, 'ext')
                p = s.new(st, key, 8, 'ext', [('p', tgt, k) for k in range(8)], ro=True)
                st.ghost['FILE:' + name] = tgt
                s.globs[key] = p.rid
                rid = p.rid
            return Ptr(rid, 0)
        rid = s.globs.get(key)
        if rid is None or rid not in st.mem:
            if g['bytes'] is None:
                raise Unsupported('initialiser of ' + name, s.loc())
            if any(isinstance(b, tuple) for b in g['bytes']):
                bs = []
                for b in g['bytes']:
                    if isinstance(b, tuple):
                        q = s.glob(st, f, b[1])
                        bs.append(('p', q, b[2]))
                    else:
                        bs.append(b)
            else:
                bs = g['bytes']
            const = g['kind'] == 'constant'
            if not const and key not in s.glob_init_ok():
                # mutable global: arbitrary contents (any call history)
                bs = [tm.fresh('glob_' + name, 8) for _ in bs]
            r = Region(key, len(bs), 'global', ro=const)
            if rid is not None:
                r.rid = rid
            r.cells = list(bs); r.owner = st.tok
            st.mem[r.rid] = r
            s.globs[key] = r.rid
            rid = r.rid
        return Ptr(rid, 0)

    def glob_init_ok(s):
        return getattr(s, 'globals_initial', ())

    # ---- function calls
    def call(s, st, name, args, f=None, rett=None, argtypes=None):
        """returns list of (state, value)"""
        key = None
        if f is not None and (f.file + ':' + name) in s.mod.funcs:
            key = f.file + ':' + name
        elif name in s.mod.funcs:
            key = name
        c = s.contracts.get(name)
        if c is not None:
            r = c(s, st, args)
            if r is not None:
                s.applied.add(name)
                s.ncalls[name] = s.ncalls.get(name, 0) + 1
                if s.ncalls[name] > 100 and name == 'gen_leaf_wots' and s.loop_hook is None:
                    raise Unsupported('a loop over the leaves of a tree outside of a function under contract', s.loc())
                return r if isinstance(r, list) else [r]
        if name.startswith('llvm.'):
            for pre, fn in INTRIN:
                if name.startswith(pre):
                    r = fn(s, st, args)
                    return r if isinstance(r, list) else [r]
            raise Unsupported('intrinsic ' + name, s.loc())
        if key is None:
            e = s.externs.get(name)
            if e is None:
                raise Unsupported('external function ' + name, s.loc())
            r = e(s, st, args)
            return r if isinstance(r, list) else [r]
        s.inlined.add(name)
        return s.run_fn(s.mod.funcs[key], args, st)

    def run_fn(s, f, args, st):
        s.depth += 1
        s.where.append(f.name)
        if s.depth > 200:
            raise Unsupported('call depth', s.loc())
        s.frames += 1
        env = {'$frame': s.frames}
        loc = []
        for (t, n, a), v in zip(f.params, args):
            byv = [x for x in a if x.startswith('byval')]
            if byv:
                # callee gets a private copy
                bt = byv[0][6:-1]
                from .ir import parse_type
                ty, _ = parse_type(bt, s.mod.structs)
                z, _ = s.lay.size_align(ty)
                bs = s.read(st, v, z)
                v = s.new(st, n, z, 'local', bs)
            env[n] = v
        outs = s.run(f, f.entry, None, env, st, None)
        res = []
        for o in outs:
            if o[0] != 'ret':
                raise Unsupported('fell off ' + f.name)
            st2 = o[1]
            res.append((st2, o[2]))
            for rid in o[3].get('$locals', ()):
                st2.mem.pop(rid, None)
        s.depth -= 1
        s.where.pop()
        if len(res) > 1:
            res = s.merge_rets(st, res, f)
        return res

    def merge_rets(s, st, res, f):
        # merge outcomes with identical return values
        base = len(os_common([r[0].pc for r in res]))
        i = 0
        out = [res[0]]
        for (b, rv) in res[1:]:
            done = False
            for k, (a, av) in enumerate(out):
                if same_val(av, rv):
                    m = s.merge_states(a, b, base, None, None)
                    if m is not None:
                        out[k] = (m, av); done = True
                        break
            if not done:
                out.append((b, rv))
        return out

    # ---- merging
    def merge_states(s, a, b, base, livea, f, envp=None):
        """merge b into a under conditions pc[base:]; None if not mergeable"""
        if len(a.trace) != len(b.trace) or a.trace != b.trace:
            return None
        ca = tm.conj(a.pc[base:]); cb = tm.conj(b.pc[base:])
        if isinstance(ca, int) and ca == 0:
            return b
        if isinstance(cb, int) and cb == 0:
            return a
        c = ca
        # choose the simplest separating condition
        if len(a.pc) > base and len(b.pc) > base:
            x = a.pc[base]; y = b.pc[base]
            if isinstance(x, T) and isinstance(y, T) and y is not_(x):
                c = x
            elif not (isinstance(cb, T) and not_(cb) is ca):
                c = ca
        n = State()
        n.mem = {}
        n.pc = a.pc[:base]
        o = tm.or_(ca, cb, 1)
        if not (isinstance(o, int) and o == 1):
            n.pc.append(o)
        n.trace = a.trace
        n.ghost = dict(a.ghost)
        if a.ghost != b.ghost:
            for k in set(a.ghost) | set(b.ghost):
                if a.ghost.get(k) != b.ghost.get(k):
                    return None
        for rid, ra in a.mem.items():
            rb = b.mem.get(rid)
            if rb is None:
                continue
            if ra is rb:
                n.mem[rid] = ra
                continue
            if ra.big or rb.big:
                if ra.layers == rb.layers:
                    n.mem[rid] = ra
                    continue
                return None
            if envp is not None and rid in envp['dead']:
                continue
            if ra.scal is not None and rb.scal is not None:
                va, wa = ra.scal; vb, wb = rb.scal
                if va is vb or (type(va) is type(vb) and not isinstance(va, T) and va == vb):
                    n.mem[rid] = ra
                    continue
                v = s.merge_val(c, va, vb, wa)
                if v is None:
                    return None
                r = ra.clone(n.tok); r.scal = (v, wa)
                n.mem[rid] = r
                continue
            if ra.cells is None and ra.scal is None and rb.cells is None and rb.scal is None:
                n.mem[rid] = ra
                continue
            ra2 = ra.clone(n.tok); ca_ = ra2.mat()
            rb2 = rb.clone(None); cb_ = rb2.mat()
            if ra2.kind == 'scalar':
                ta = s.from_bytes(ca_, 8 * len(ca_), None) if not any(x is UNDEF for x in ca_) else UNDEF
            for i in range(len(ca_)):
                x = ca_[i]; y = cb_[i]
                if x is not y:
                    ca_[i] = s.merge_byte(c, x, y)
            n.mem[rid] = ra2
        for rid, rb in b.mem.items():
            if rid not in a.mem and rb.kind in ('global', 'ext'):
                n.mem[rid] = rb
        return n

    def merge_val(s, c, a, b, w):
        """None = refuse"""
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, (Ptr, PIte)) and isinstance(b, (Ptr, PIte)):
            return PIte(c, a, b)
        if isinstance(a, (Ptr, PIte, FnPtr)) or isinstance(b, (Ptr, PIte, FnPtr)):
            return None
        if isinstance(a, tuple) or isinstance(b, tuple):
            return a if a == b else None
        if isinstance(a, int) and isinstance(b, int) and w > 1 and s.forks < s.max_forks:
            return None
        return ite(c, a, b, w)

    # ---- main loop
    def val(s, f, env, st, o, w=64):
        k = o[0]
        if k == 'c':
            return o[1]
        if k == 'r':
            v = env[o[1]]
            if v is UNDEF:
                v = tm.fresh('undef', w)
            return v
        if k == 'g':
            return s.glob(st, f, o[1])
        if k == 'u':
            return tm.fresh('undef', w)
        if k == 'ce':
            return s.constexpr(f, st, o[1])
        raise Unsupported('operand %r' % (o,), s.loc())

    def constexpr(s, f, st, txt):
        import re
        m = re.match(r'getelementptr (?:inbounds )?\((.*)\)$', txt)
        if m:
            from .ir import split_top, parse_type, parse_operand
            ps = split_top(m.group(1))
            t, _ = parse_type(ps[0], s.mod.structs)
            _, p, _ = parse_operand(ps[1], s.mod)
            idx = [parse_operand(x, s.mod)[:2] for x in ps[2:]]
            return s.gep(f, {}, st, t, s.val(f, {}, st, p), idx)
        raise Unsupported('constant expression ' + txt[:60], s.loc())

    def gep(s, f, env, st, t, p, idx):
        off = 0
        first = True
        for (it, iv) in idx:
            v = s.val(f, env, st, iv, it[1])
            w = it[1]
            if first:
                z, _ = s.lay.size_align(t)
                first = False
            else:
                if t[0] == 'arr':
                    t = t[2]
                    z, _ = s.lay.size_align(t)
                elif t[0] in ('struct', 'lit'):
                    offs, _, _ = s.lay.struct(t)
                    off = add(off, offs[v], 64)
                    t = s.lay.fields(t)[v]
                    continue
                else:
                    raise Unsupported('gep', s.loc())
            if isinstance(v, (Ptr, PIte)):
                raise Unsupported('gep index', s.loc())
            if isinstance(v, int):
                if w < 64:
                    v = tm.sext(v, w, 64)
                off = (off + v * z) & 0xffffffffffffffff if isinstance(off, int) else add(off, (v * z) & 0xffffffffffffffff, 64)
            else:
                v = tm.sext(v, w, 64)
                off = add(off, tm.mul(v, z, 64), 64)
        return s.padd(p, off)

    def padd(s, p, off):
        if isinstance(p, Ptr):
            o = add(p.off, off, 64)
            return Ptr(p.rid, o)
        if isinstance(p, PIte):
            return PIte(p.c, s.padd(p.a, off), s.padd(p.b, off))
        if isinstance(p, int):
            return add(p, off, 64)
        raise Unsupported('pointer arithmetic', s.loc())

    def run(s, f, blk, prev, env, st, stop):
        outs = []
        while True:
            if blk == stop and stop is not None and prev is not None:
                return outs + [('at', st, env, prev)]
            if s.loop_hook is not None and blk in f.loops:
                r = s.loop_hook(s, f, blk, prev, env, st, stop)
                if r is not None:
                    # (outcomes that left the loop, state continuing at this header or None)
                    outs = outs + r[0]
                    if r[1] is None:
                        return outs
                    st, env, prev = r[1]
            ins = f.blocks[blk]
            s.steps += len(ins)
            if s.deadline and s.steps - s.lastdl > 2000:
                s.lastdl = s.steps
                if time.time() > s.deadline:
                    raise Unsupported('time limit of this proof task reached')
            if s.steps > s.maxsteps:
                raise Unsupported('step limit', s.loc())
            # phis first (parallel)
            k = 0
            if ins and ins[0][0] == 'phi' and not env.pop('$merged', None):
                vals = []
                while ins[k][0] == 'phi':
                    for (o, l) in ins[k][3]:
                        if l == prev:
                            vals.append((ins[k][1], s.val(f, env, st, o, ins[k][2][1] if ins[k][2][0] == 'i' else 64)))
                            break
                    k += 1
                for n, v in vals:
                    env[n] = v
            elif ins and ins[0][0] == 'phi':
                while ins[k][0] == 'phi':
                    k += 1
            nxt = None
            n = len(ins)
            while k < n:
                i = ins[k]; k += 1
                op = i[0]
                if op == 'load':
                    p = env[i[3][1]] if i[3][0] == 'r' else s.val(f, env, st, i[3])
                    env[i[1]] = s.load(st, i[2], p)
                elif op == 'store':
                    t = i[2]
                    v = s.val(f, env, st, i[3], t[1] if t[0] == 'i' else 64)
                    p = env[i[4][1]] if i[4][0] == 'r' else s.val(f, env, st, i[4])
                    s.store(st, t, v, p)
                elif op == 'gep':
                    p = env[i[3][1]] if i[3][0] == 'r' else s.val(f, env, st, i[3])
                    env[i[1]] = s.gep(f, env, st, i[2], p, i[4])
                elif op == 'bin':
                    w = i[3][1]
                    a = s.val(f, env, st, i[4], w); b = s.val(f, env, st, i[5], w)
                    env[i[1]] = s.binop(st, i[2], a, b, w, i[6])
                elif op == 'icmp':
                    t = i[3]
                    w = t[1] if t[0] == 'i' else 64
                    a = s.val(f, env, st, i[4], w); b = s.val(f, env, st, i[5], w)
                    env[i[1]] = s.icmp(st, i[2], a, b, w)
                elif op == 'cast':
                    env[i[1]] = s.cast(i[2], i[3], s.val(f, env, st, i[4], i[3][1] if i[3][0] == 'i' else 64), i[5])
                elif op == 'call':
                    args = [s.val(f, env, st, o, t[1] if t[0] == 'i' else 64) for (t, o, a) in i[4]]
                    tgt = i[3]
                    if isinstance(tgt, tuple):
                        fp = s.val(f, env, st, tgt)
                        if not isinstance(fp, FnPtr):
                            raise Unsupported('indirect call', s.loc())
                        tgt = fp.name
                    rs = s.call(st, tgt, args, f, i[2])
                    if not rs:
                        return outs            # all paths ended (noreturn)
                    if len(rs) > 1:
                        # continue each outcome separately; try to re-join at
                        # the immediate post-dominator
                        ip = f.ipdom.get(blk)
                        if k < n and ip is not None and False:
                            pass
                        res = []
                        for (st2, rv) in rs:
                            e2 = dict(env)
                            if i[1] is not None:
                                e2[i[1]] = rv
                            res += s.resume(f, blk, k, prev, e2, st2, stop)
                        return outs + res
                    st, rv = rs[0]
                    if i[1] is not None:
                        env[i[1]] = rv
                elif op == 'alloca':
                    z, _ = s.lay.size_align(i[2])
                    cnt = s.val(f, env, st, i[3])
                    if not isinstance(cnt, int):
                        p = s.alloca_sym(st, i[1], z, cnt)
                    else:
                        if cnt * z > (1 << 30):
                            s.fail('memory', 'stack object of %d bytes' % (cnt * z))
                        p = s.new(st, i[1], z * cnt, 'scalar' if i[1] in f.scalars else 'local')
                    env[i[1]] = p
                    env.setdefault('$locals', []).append(p.rid) if '$locals' not in env else env.__setitem__('$locals', env['$locals'] + [p.rid])
                elif op == 'br':
                    nxt = i[2]
                elif op == 'cbr':
                    c = s.val(f, env, st, i[2], 1)
                    if not isinstance(c, int):
                        d = s.solver.decide(st.pc, c)
                        if d is not None:
                            c = int(d)
                    if isinstance(c, int):
                        nxt = i[3] if c else i[4]
                    else:
                        r = s.branch(f, blk, env, st, [(c, i[3]), (not_(c), i[4])], stop, outs)
                        if r is None:
                            return outs
                        st, env, prev, nxt = r
                        blk = nxt
                        nxt = 'merged'
                elif op == 'switch':
                    w = i[2][1]
                    v = s.val(f, env, st, i[3], w)
                    if isinstance(v, int):
                        nxt = i[4]
                        for cv, l in i[5]:
                            if cv == v:
                                nxt = l
                                break
                    else:
                        alts = []; dflt = []
                        bylab = {}
                        for cv, l in i[5]:
                            c = eq(v, cv, w)
                            dflt.append(not_(c))
                            bylab.setdefault(l, []).append(c)
                        if s.split_switch:
                            for cv, l in i[5]:
                                alts.append((eq(v, cv, w), l))
                        else:
                            for l, cs in bylab.items():
                                o = 0
                                for c in cs:
                                    o = tm.or_(o, c, 1)
                                alts.append((o, l))
                        alts.append((tm.conj(dflt), i[4]))
                        alts = [(c, l) for c, l in alts if not (isinstance(c, int) and c == 0)]
                        alts = [(c, l) for c, l in alts if s.solver.decide(st.pc, c) is not False]
                        r = s.branch(f, blk, env, st, alts, stop, outs)
                        if r is None:
                            return outs
                        st, env, prev, nxt = r
                        blk = nxt
                        nxt = 'merged'
                elif op == 'ret':
                    v = None
                    if i[3] is not None:
                        v = s.val(f, env, st, i[3], i[2][1] if i[2][0] == 'i' else 64)
                    return outs + [('ret', st, v, env)]
                elif op == 'select':
                    t = i[2]
                    w = t[1] if t[0] == 'i' else 64
                    c = s.val(f, env, st, i[3], 1)
                    a = s.val(f, env, st, i[4], w); b = s.val(f, env, st, i[5], w)
                    if isinstance(c, int):
                        env[i[1]] = a if c else b
                    elif isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
                        env[i[1]] = PIte(c, a, b)
                    else:
                        env[i[1]] = ite(c, a, b, w)
                elif op == 'extractvalue':
                    v = s.val(f, env, st, i[3])
                    offs, _, _ = s.lay.struct(i[2])
                    ft = s.lay.fields(i[2])[i[4][0]]
                    z, _ = s.lay.size_align(ft)
                    o = offs[i[4][0]]
                    env[i[1]] = s.from_bytes(v[2][o:o + z], ft[1] if ft[0] == 'i' else 64, ft)
                elif op == 'insertvalue':
                    v = env[i[3][1]] if i[3][0] == 'r' else None
                    offs, z, _ = s.lay.struct(i[2])
                    bs = list(v[2]) if v is not None else [UNDEF] * z
                    x = s.val(f, env, st, i[5])
                    o = offs[i[6][0]]
                    xb = val_bytes(x, i[4][1] if i[4][0] == 'i' else 64)
                    bs[o:o + len(xb)] = xb
                    env[i[1]] = ('agg', i[2], bs)
                elif op == 'unreachable':
                    return outs
                elif op == 'unsupported':
                    raise Unsupported(i[2], s.loc())
                else:
                    raise Unsupported('instruction ' + op, s.loc())
            if nxt == 'merged':
                continue
            prev = blk
            blk = nxt

    split_switch = True

    def alloca_sym(s, st, name, z, cnt):
        raise Unsupported('alloca of symbolic size', s.loc())

    def resume(s, f, blk, k, prev, env, st, stop):
        """continue executing block blk from instruction k"""
        # build a pseudo block
        key = '%s#%d' % (blk, k)
        if key not in f.blocks:
            f.blocks[key] = f.blocks[blk][k:]
            f.ipdom[key] = f.ipdom.get(blk)
            f.live[key] = f.live.get(blk, set())
            f.succ[key] = f.succ.get(blk, [])
        return s.run_as(f, key, blk, env, st, stop)

    def run_as(s, f, key, blk, env, st, stop):
        # execute pseudo block 'key', then continue with prev = blk
        env = dict(env)
        # patch phi incoming lists once
        for b2 in f.succ.get(blk, []):
            for i in f.blocks[b2]:
                if i[0] != 'phi':
                    break
                inc = i[3]
                if not any(l == key for _, l in inc):
                    for (o, l) in list(inc):
                        if l == blk:
                            inc.append((o, key))
        return s.run(f, key, '$resume', env, st, stop)

    def branch(s, f, blk, env, st, alts, stop, outs):
        """fork; outcomes that return go to outs; those reaching the immediate
        post-dominator are merged if possible.  Returns the continuation
        (st, env, prev, blk) or None when nothing is left."""
        ip = f.ipdom.get(blk)
        base = len(st.pc)
        ats = []
        s.forks += 1
        for c, l in alts:
            s2 = st.copy()
            if isinstance(c, T):
                s2.pc.append(c)
            e2 = dict(env)
            for o in s.run_from(f, l, blk, e2, s2, ip):
                if o[0] == 'ret':
                    outs.append(o)
                else:
                    ats.append(o)
        if ip is None or not ats:
            s.forks -= 1
            return None
        # evaluate phis of ip per incoming edge
        phis = [i for i in f.blocks[ip] if i[0] == 'phi']
        items = []
        for (_, s2, e2, pv) in ats:
            was = e2.pop('$merged', None)
            for i in phis:
                if was:
                    w = i[2][1] if i[2][0] == 'i' else 64
                    e2.setdefault('$phi', {})[i[1]] = (e2[i[1]], w)
                    continue
                for (o, l) in i[3]:
                    if l == pv:
                        w = i[2][1] if i[2][0] == 'i' else 64
                        e2.setdefault('$phi', {})[i[1]] = (s.val(f, e2, s2, o, w), w)
                        break
            items.append((s2, e2, pv))
        live = f.live.get(ip, set())
        dead = set()
        for a in f.scalars:
            if a in env and isinstance(env[a], Ptr) and a not in live:
                dead.add(env[a].rid)
        cur = [items[0]]
        for it in items[1:]:
            done = False
            for q in range(len(cur)):
                m = s.merge_items(cur[q], it, base, dead, phis, env)
                if m is not None:
                    cur[q] = m
                    done = True
                    break
            if not done:
                cur.append(it)
        s.forks -= 1
        fin = []
        for (s2, e2, pv) in cur:
            for n, (v, w) in e2.pop('$phi', {}).items():
                e2[n] = v
            if phis:
                e2['$merged'] = True
            fin.append((s2, e2, pv))
        # dead scalars lose their value
        if len(cur) == 1:
            s2, e2, pv = fin[0]
            return (s2, e2, pv, ip)
        s.forks += len(fin) - 1
        for (s2, e2, pv) in fin[1:]:
            if stop == ip:
                outs.append(('at', s2, e2, pv)); continue
            outs.extend(s.run_cont(f, ip, pv, e2, s2, stop))
        s.forks -= len(fin) - 1
        s2, e2, pv = fin[0]
        return (s2, e2, pv, ip)

    def run_cont(s, f, blk, prev, env, st, stop):
        return s.run(f, blk, prev, env, st, stop)

    def run_from(s, f, l, prev, env, st, stop):
        if l == stop:
            return [('at', st, env, prev)]
        return s.run(f, l, prev, env, st, stop)

    def merge_items(s, x, y, base, dead, phis, env0):
        (sa, ea, pa) = x; (sb, eb, pb) = y
        pha = ea.get('$phi', {}); phb = eb.get('$phi', {})
        ca = tm.conj(sa.pc[base:])
        m = s.merge_states(sa, sb, base, None, None, {'dead': dead})
        if m is None:
            return None
        if m is sa:
            return x
        if m is sb:
            return y
        c = ca
        if len(sa.pc) > base and len(sb.pc) > base:
            p = sa.pc[base]; q = sb.pc[base]
            if isinstance(p, T) and isinstance(q, T) and q is not_(p):
                c = p
        e = dict(env0)
        ph = {}
        for n in pha:
            va, w = pha[n]; vb, _ = phb[n]
            if same_val(va, vb):
                ph[n] = (va, w)
            else:
                v = s.merge_val(c, va, vb, w if w > 1 else 1)
                if v is None:
                    return None
                ph[n] = (v, w)
        if ph:
            e['$phi'] = ph
        e['$locals'] = list(dict.fromkeys(ea.get('$locals', []) + eb.get('$locals', [])))
        for rid in dead:
            if rid in sa.mem:
                r = sa.mem[rid]
                if not r.big:
                    r2 = Region.__new__(Region)
                    r2.rid = rid; r2.name = r.name; r2.size = r.size; r2.kind = r.kind; r2.ro = r.ro
                    r2.cells = None; r2.scal = None; r2.owner = m.tok; r2.big = False
                    m.mem[rid] = r2
        return (m, e, pa)

    # ---- operations
    def binop(s, st, op, a, b, w, flags):
        if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            # pointer arithmetic through integers
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid:
                return tm.sub(a.off, b.off, 64)
            if op == 'add':
                return s.padd(a, b) if isinstance(a, (Ptr, PIte)) else s.padd(b, a)
            if op == 'sub' and isinstance(a, (Ptr, PIte)):
                return s.padd(a, tm.sub(0, b, 64))
            raise Unsupported('integer operation on pointer', s.loc())
        if op == 'add':
            r = add(a, b, w)
            if 'nsw' in flags:
                s.nsw(st, op, a, b, r, w)
            return r
        if op == 'sub':
            r = tm.sub(a, b, w)
            if 'nsw' in flags:
                s.nsw(st, op, a, b, r, w)
            return r
        if op == 'mul':
            r = tm.mul(a, b, w)
            if 'nsw' in flags:
                s.nsw(st, op, a, b, r, w)
            return r
        if op == 'and':
            return and_(a, b, w)
        if op == 'or':
            return tm.or_(a, b, w)
        if op == 'xor':
            return tm.xor([a, b], w)
        if op in ('shl', 'lshr', 'ashr'):
            s.ob('shift-range')
            if isinstance(b, int):
                if b >= w:
                    s.fail('undefined', 'shift by %d in %d bits' % (b, w))
            else:
                c = ult(b, w, w)
                if not (isinstance(c, int) and c) and s.solver.prove(st.pc, c) is not True:
                    s.fail('undefined', 'shift amount not provably < %d' % w)
                lo, hi = tm.rng(b)
                if hi - lo <= 64 and not isinstance(a, int) or (isinstance(a, int) and hi - lo <= 64):
                    r = None
                    for k in range(min(hi, w - 1), lo - 1, -1):
                        v = tm.shift(op, a, k, w)
                        r = v if r is None else ite(eq(b, k, w), v, r, w)
                    if hi - lo <= 8:
                        return r
            return tm.shift(op, a, b, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            s.ob('division')
            if isinstance(b, int):
                if b == 0:
                    s.fail('undefined', 'division by zero')
            elif s.solver.prove(st.pc, not_(eq(b, 0, w))) is not True:
                s.fail('undefined', 'divisor not provably nonzero')
            if op in ('sdiv', 'srem'):
                H = 1 << (w - 1)
                if isinstance(a, int) and isinstance(b, int):
                    sa = a - 2 * H if a >= H else a
                    sb = b - 2 * H if b >= H else b
                    q = abs(sa) // abs(sb)
                    if (sa < 0) != (sb < 0):
                        q = -q
                    return (q if op == 'sdiv' else sa - q * sb) & (2 * H - 1)
                if tm.rng(a)[1] < H and tm.rng(b)[1] < H:
                    op = 'u' + op[1:]
                else:
                    raise Unsupported('signed division', s.loc())
            return tm.udiv(a, b, w) if op == 'udiv' else tm.urem(a, b, w)
        raise Unsupported('binop ' + op, s.loc())

    def nsw(s, st, op, a, b, r, w):
        """signed overflow obligation"""
        s.ob('signed-overflow')
        if isinstance(a, int) and isinstance(b, int):
            H = 1 << (w - 1)
            f = lambda x: x - 2 * H if x >= H else x
            v = {'add': f(a) + f(b), 'sub': f(a) - f(b), 'mul': f(a) * f(b)}[op]
            if not (-H <= v < H):
                s.fail('undefined', 'signed overflow in ' + op)
            return
        H = 1 << (w - 1)
        ra = tm.rng(a); rb = tm.rng(b)
        if ra[1] < H and rb[1] < H:
            if op == 'add' and ra[1] + rb[1] < H:
                return
            if op == 'sub':
                return
            if op == 'mul' and ra[1] * rb[1] < H:
                return
        if op == 'mul':
            W = 2 * w
            x = tm.mul(tm.sext(a, w, W), tm.sext(b, w, W), W)
        else:
            W = w + 2
            x = add(tm.sext(a, w, W), tm.sext(b, w, W), W) if op == 'add' else tm.sub(tm.sext(a, w, W), tm.sext(b, w, W), W)
        c = eq(x, tm.sext(r, w, W), W)
        if isinstance(c, int) and c:
            return
        if s.solver.prove(st.pc, c) is not True:
            s.fail('undefined', 'signed overflow not excluded in ' + op)

    def icmp(s, st, pred, a, b, w):
        if isinstance(a, (Ptr, PIte, FnPtr)) or isinstance(b, (Ptr, PIte, FnPtr)):
            return s.pcmp(st, pred, a, b)
        if pred == 'eq':
            return eq(a, b, w)
        if pred == 'ne':
            return not_(eq(a, b, w))
        if pred == 'ult':
            return ult(a, b, w)
        if pred == 'ugt':
            return ult(b, a, w)
        if pred == 'ule':
            return not_(ult(b, a, w))
        if pred == 'uge':
            return not_(ult(a, b, w))
        if pred == 'slt':
            return tm.slt(a, b, w)
        if pred == 'sgt':
            return tm.slt(b, a, w)
        if pred == 'sle':
            return not_(tm.slt(b, a, w))
        if pred == 'sge':
            return not_(tm.slt(a, b, w))
        raise Unsupported('icmp ' + pred, s.loc())

    def pcmp(s, st, pred, a, b):
        if isinstance(a, PIte):
            return ite(a.c, s.pcmp(st, pred, a.a, b), s.pcmp(st, pred, a.b, b), 1)
        if isinstance(b, PIte):
            return ite(b.c, s.pcmp(st, pred, a, b.a), s.pcmp(st, pred, a, b.b), 1)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.rid == b.rid:
                p = {'eq': 'eq', 'ne': 'ne', 'ult': 'ult', 'ugt': 'ugt', 'ule': 'ule', 'uge': 'uge'}[pred]
                return s.icmp(st, p, a.off, b.off, 64)
            if pred == 'eq':
                return 0
            if pred == 'ne':
                return 1
            raise Unsupported('comparison of unrelated pointers', s.loc())
        if isinstance(a, FnPtr) and isinstance(b, FnPtr):
            return int((a == b) == (pred == 'eq'))
        # pointer against integer (null)
        p, i = (a, b) if not isinstance(a, (int, T)) else (b, a)
        if isinstance(i, int) and i == 0:
            nn = st.ghost.get(('null', p.rid)) if isinstance(p, Ptr) else None
            r = nn if nn is not None else 0          # condition "is null"
            if pred == 'eq':
                return r
            if pred == 'ne':
                return not_(r)
        raise Unsupported('comparison of pointer and integer', s.loc())

    def cast(s, op, t, v, t2):
        if op == 'zext':
            return tm.zext(v, t[1], t2[1])
        if op == 'sext':
            return tm.sext(v, t[1], t2[1])
        if op == 'trunc':
            if isinstance(v, (Ptr, PIte)):
                raise Unsupported('truncated pointer', s.loc())
            return ext(v, t[1], 0, t2[1])
        return v

def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, T) or isinstance(b, T):
        return False
    try:
        return type(a) is type(b) and a == b
    except Exception:
        return False

def os_common(pcs):
    out = []
    for xs in zip(*pcs):
        if all(x is xs[0] for x in xs):
            out.append(xs[0])
        else:
            break
    return out

# ---------------------------------------------------------------- intrinsics / libc

def _memcpy(ex, st, a):
    ex.copy_bytes(st, a[0], a[1], a[2])
    return (st, a[0])

def _memmove(ex, st, a):
    ex.copy_bytes(st, a[0], a[1], a[2], True)
    return (st, a[0])

def _memset(ex, st, a):
    b = a[1]
    if isinstance(b, T):
        b = ext(b, b.w, 0, 8)
    else:
        b &= 255
    ex.set_bytes(st, a[0], b, a[2])
    return (st, a[0])

def _stacksave(ex, st, a):
    return (st, 0)

def _memcmp(ex, st, a):
    n = a[2]
    if not isinstance(n, int):
        raise Unsupported('memcmp with symbolic length', ex.loc())
    x = ex.read(st, a[0], n); y = ex.read(st, a[1], n)
    if any(b is UNDEF for b in x) or any(b is UNDEF for b in y):
        ex.fail('uninitialised', 'memcmp of uninitialised bytes')
    c = eq(cat_bytes_le(x), cat_bytes_le(y), 8 * n) if n else 1
    nz = cat([(1, 1), (tm.fresh('cmp', 31), 31)])
    return (st, ite(c, 0, nz, 32))

def _strncmp(ex, st, a):
    n = a[2]
    if not isinstance(n, int):
        raise Unsupported('strncmp with symbolic length', ex.loc())
    # bytes are only read up to the first difference or common terminator; reading
    # all n is what is checked here, which is the stronger demand
    x = ex.read(st, a[0], n); y = ex.read(st, a[1], n)
    if any(b is UNDEF for b in x) or any(b is UNDEF for b in y):
        ex.fail('uninitialised', 'strncmp of uninitialised bytes')
    e = 1
    for p, q in zip(reversed(x), reversed(y)):
        e = tm.and_(eq(p, q, 8), tm.or_(eq(p, 0, 8), e, 1), 1)
    nz = cat([(1, 1), (tm.fresh('cmp', 31), 31)])
    return (st, ite(e, 0, nz, 32))

def _bzero(ex, st, a):
    ex.set_bytes(st, a[0], 0, a[1])
    return (st, None)

def _strcmp(ex, st, a):
    # at least one concrete string
    def conc(p):
        r = st.mem.get(p.rid)
        if r is None or r.big or r.cells is None or not isinstance(p.off, int):
            return None
        out = []
        for b in r.cells[p.off:]:
            if not isinstance(b, int):
                return None
            if b == 0:
                return bytes(out)
            out.append(b)
        return None
    x = conc(a[0]); y = conc(a[1])
    if x is not None and y is not None:
        return (st, 0 if x == y else (1 if x > y else 0xffffffff))
    for p, q, s in ((a[0], a[1], y), (a[1], a[0], x)):
        if s is not None and isinstance(p, Ptr) and ('str', p.rid) in st.ghost:
            c = st.ghost[('str', p.rid)](ex, st, s)
            nz = cat([(1, 1), (tm.fresh('cmp', 31), 31)])
            return (st, ite(c, 0, nz, 32))
    raise Unsupported('strcmp', ex.loc())

INTRIN = [
    ('llvm.memcpy', _memcpy), ('llvm.memmove', _memmove), ('llvm.memset', _memset),
    ('llvm.stacksave', _stacksave), ('llvm.stackrestore', lambda ex, st, a: (st, None)),
    ('llvm.lifetime', lambda ex, st, a: (st, None)),
    ('llvm.bswap.i32', lambda ex, st, a: (st, cat_bytes_be(val_bytes(a[0], 32)))),
    ('llvm.bswap.i64', lambda ex, st, a: (st, cat_bytes_be(val_bytes(a[0], 64)))),
    ('llvm.bswap.i16', lambda ex, st, a: (st, cat_bytes_be(val_bytes(a[0], 16)))),
    ('llvm.umin', lambda ex, st, a: (st, min(a[0], a[1]) if isinstance(a[0], int) and isinstance(a[1], int) else (_ for _ in ()).throw(Unsupported('umin')))),
    ('llvm.fshl.i64', lambda ex, st, a: (st, _fshl(a, 64))), ('llvm.fshl.i32', lambda ex, st, a: (st, _fshl(a, 32))),
    ('llvm.assume', lambda ex, st, a: (st, None)),
    ('llvm.expect', lambda ex, st, a: (st, a[0])),
]

def _fshl(a, w):
    k = a[2]
    if not isinstance(k, int):
        raise Unsupported('funnel shift')
    k %= w
    if k == 0:
        return a[0]
    return tm.or_(tm.shl(a[0], k, w), tm.lshr(a[1], w - k, w), w)

EXTERNS = {
    'memcpy': _memcpy, 'memmove': _memmove, 'memset': _memset, 'memcmp': _memcmp, 'strcmp': _strcmp,
    'bcmp': _memcmp, 'strncmp': _strncmp, 'bzero': _bzero, 'explicit_bzero': _bzero,
}
