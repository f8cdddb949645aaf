"""Contracts on the functions of /repo and their verification.

A contract gives, for a function, which ranges its pointer arguments reach
(r = read, w = written, rw = both), a precondition, and the function's effect
on those ranges in terms of the specification (vx.spec).  `verify` runs the
function's real code (LLVM IR of the current source) on arbitrary inputs and
proves that its effect is the contract's and that it touches nothing else;
`apply` replaces a call by the contract.  A call is replaced only if the
contract has been verified for that parameter configuration and for the way
the call's arguments alias; otherwise the callee's body is executed."""
import os, time
from . import ir, terms as tm, sym
from .terms import T, ext, eq, ult, not_, and_, add, sub, cat_bytes_le as b2v, cat_bytes_be, app
from .spec import Cfg, Spec, v2b, be
from .sym import Exec, State, Ptr, PIte, UNDEF, Fail, Unsupported, Solver

class _Any:
    def __repr__(s):
        return 'ANY'
ANY = _Any()

REPO = os.environ.get('VX_REPO', '/repo')
COMMON = ['params.c', 'hash.c', 'fips202.c', 'hash_address.c', 'randombytes.c', 'wots.c', 'xmss.c', 'xmss_commons.c', 'utils.c']

FIELDS = ['func', 'n', 'padding_len', 'wots_w', 'wots_log_w', 'wots_len1', 'wots_len2', 'wots_len', 'wots_sig_bytes',
          'full_height', 'tree_height', 'd', 'index_bytes', 'sig_bytes', 'pk_bytes', 'sk_bytes', 'bds_k']
FUNCS = {0: 'SHA2', 1: 'SHAKE128', 2: 'SHAKE256'}

class Program:
    """the IR of one build variant plus the layout of xmss_params"""
    def __init__(s, fast, workdir, extra=(), defs=(), core=None):
        s.fast = fast
        files = COMMON + [core or ('xmss_core_fast.c' if fast else 'xmss_core.c')] + list(extra)
        s.mod = ir.load(REPO, files, os.path.join(workdir, 'wrap' if core else 'fast' if fast else 'ref'), defs)
        s.offs, s.psize, s.fconst = layout(workdir)

def layout(workdir):
    """offsets of the xmss_params fields, from the compiler"""
    os.makedirs(workdir, exist_ok=True)
    c = os.path.join(workdir, 'lay.c')
    with open(c, 'w') as f:
        f.write('#include <stddef.h>\n#include "%s/params.h"\n' % REPO)
        f.write('const unsigned long lay[] = {sizeof(xmss_params), XMSS_SHA2, XMSS_SHAKE128, XMSS_SHAKE256, XMSS_OID_LEN,\n')
        for x in FIELDS:
            f.write('offsetof(xmss_params,%s), sizeof(((xmss_params*)0)->%s),\n' % (x, x))
        f.write('0};\n')
    m = ir.load(workdir, ['lay.c'], workdir)
    b = bytes(m.globals['lay']['bytes'])
    v = [int.from_bytes(b[8 * i:8 * i + 8], 'little') for i in range(len(b) // 8)]
    offs = {x: (v[5 + 2 * i], v[6 + 2 * i]) for i, x in enumerate(FIELDS)}
    return offs, v[0], {'SHA2': v[1], 'SHAKE128': v[2], 'SHAKE256': v[3], 'OID_LEN': v[4]}

def get_field(prog, bs, name):
    o, z = prog.offs[name]
    return b2v(bs[o:o + z])

def set_field(prog, bs, name, v):
    o, z = prog.offs[name]
    bs[o:o + z] = sym.val_bytes(v, 8 * z)

def run_parse(prog, name, args_bytes=None, oid=None, fields=None):
    """run parse_oid / initialize_params concretely; returns (rc, bytes)"""
    ex = Exec(prog.mod)
    st = State()
    bs = [UNDEF] * prog.psize
    if fields:
        for k, v in fields.items():
            set_field(prog, bs, k, v)
    p = ex.new(st, 'params', prog.psize, 'arg', bs)
    if oid is None:
        r = ex.call(st, name, [p])
    else:
        r = ex.call(st, name, [p, oid])
    assert len(r) == 1
    st, rc = r[0]
    reg = st.mem[p.rid]
    return rc, list(reg.mat())

def fnum(prog, f):
    return prog.fconst[FUNCS[f]]

def params_for(prog, cfg, bds_k=0):
    """the real initialize_params for a configuration (func left symbolic when
    cfg.func is None)"""
    f = dict(func=fnum(prog, cfg.func if cfg.func is not None else 0), n=cfg.n, padding_len=cfg.pad, wots_w=cfg.w,
             full_height=cfg.full_height, d=cfg.d, bds_k=bds_k)
    rc, bs = run_parse(prog, 'xmss_xmssmt_initialize_params', fields=f)
    if rc != 0:
        raise Fail('spec', 'initialize_params rejects %s' % cfg)
    return bs

# ---------------------------------------------------------------- contract machinery

class Arg:
    def __init__(s, name, kind, size=None):
        s.name = name; s.kind = kind; s.size = size

def parse_args(txt, ctx):
    """'out:w:n in:r:32 steps:i32 addr:rw:32 params:P'"""
    out = []
    for t in txt.split():
        p = t.split(':')
        if p[1] in ('r', 'w', 'rw'):
            out.append(Arg(p[0], p[1], eval(p[2], {}, ctx.sizes)))
        else:
            out.append(Arg(p[0], p[1]))
    return out

def A(bs):
    """address (8 little-endian words in memory) -> its 32-byte serialisation"""
    return [bs[4 * (i // 4) + 3 - i % 4] for i in range(32)]

def unA(bs):
    return A(bs)

class Contract:
    def __init__(s, name, args, effect, ret='v', requires=None, variants=None, cases=None, loops=None):
        s.name = name; s.argtxt = args; s.effect = effect; s.ret = ret
        s.requires = requires; s.cases = cases; s.loops = loops

class Ctx:
    def __init__(s, prog, cfg, bds_k=0, timeout=20000):
        s.prog = prog; s.mod = prog.mod; s.cfg = cfg; s.spec = Spec(cfg)
        s.bds_k = bds_k
        s.weakened = set()
        s.pbytes = params_for(prog, cfg, bds_k)
        s.func = None
        s.base_pc = []
        if cfg.func is None:
            s.func = tm.var('func', 32)
            set_field(prog, s.pbytes, 'func', s.func)
            al = allowed_funcs(cfg.n)
            o = 0
            for f in al:
                o = tm.or_(o, eq(s.func, fnum(prog, f), 32), 1)
            s.base_pc = [o]
        s.real = {x: get_field(prog, s.pbytes, x) for x in FIELDS}
        s.sizes = dict(n=cfg.n, sigb=cfg.wots_sig, wlen=cfg.len, h=cfg.h, pad=cfg.pad, ib=cfg.index_bytes, sk=cfg.sk_bytes,
                       H=cfg.full_height, d=cfg.d)
        s.solver = Solver(timeout)
        s.table = {}
        s.verified = {}
        s.errkind = {}
        s.results = []          # (name, variant, ok, seconds, obligations, error)
        s.inprogress = []
        s.obl = {}
        s.disabled = set()
        s.externs = {}
        s.deadline = None
        s.assumed = set()
        s.subs = {}
        install_hash_externs(s)

    def add(s, c):
        s.table[c.name] = c

    def exec_(s, skip=()):
        cs = {}
        for n, c in s.table.items():
            if n not in skip and n not in s.disabled:
                cs[n] = (lambda c: lambda ex, st, args: s.apply(c, ex, st, args))(c)
        for n, f in s.shake.items():
            if n not in skip and n not in s.disabled:
                cs[n] = (lambda f: lambda ex, st, args: f(s, ex, st, args))(f)
        ex = Exec(s.mod, s.solver, cs, s.externs)
        ex.deadline = s.deadline
        return ex

    def sub(s, f):
        """the same configuration with a concrete hash family"""
        if f not in s.subs:
            g = s.cfg
            c = Ctx(s.prog, Cfg(g.n, g.full_height, g.d, g.w, g.pad, f), s.bds_k, s.solver.timeout)
            c.results = s.results; c.errkind = s.errkind; c.obl = s.obl; c.assumed = s.assumed; c.deadline = s.deadline
            c.disabled = s.disabled
            s.installer(c)
            s.subs[f] = c
        return s.subs[f]

    def params(s, ex, st):
        return ex.new(st, 'params', len(s.pbytes), 'arg', s.pbytes, ro=True)

    # ---- call-site pattern
    def shape(s, c, ex, st, args):
        """alias pattern of the pointer arguments, or None if not expressible"""
        al = parse_args(c.argtxt, s)
        if len(al) != len(args):
            return None
        pat = []
        seen = []
        for a, v in zip(al, args):
            if a.kind in ('r', 'w', 'rw', 'P'):
                if not isinstance(v, Ptr):
                    return None
                z = s.prog.psize if a.kind == 'P' else a.size
                link = None
                for (b, bz, bv) in seen:
                    if bv.rid == v.rid:
                        if not (isinstance(bv.off, int) and isinstance(v.off, int)):
                            return None
                        d = v.off - bv.off
                        if d < bz and -d < z and not (a.kind in ('r', 'P') and b.kind in ('r', 'P')):
                            link = (b.name, d)
                            break
                pat.append((a.name, link))
                seen.append((a, z, v))
            elif a.kind[0] == 'i':
                if isinstance(v, (Ptr, PIte)):
                    return None
        return tuple(x for x in pat if x[1])

    def same_params(s, ex, st, p):
        bs = ex.read(st, p, s.prog.psize)
        same = lambda x, y: x is y or (isinstance(x, int) and isinstance(y, int) and x == y)
        if all(same(x, y) for x, y in zip(bs, s.pbytes)):
            return True
        for f in FIELDS:
            o, z = s.prog.offs[f]
            if not all(same(x, y) for x, y in zip(bs[o:o + z], s.pbytes[o:o + z])):
                return False
        return True

    def gather(s, c, ex, st, args):
        al = parse_args(c.argtxt, s)
        vals = {}
        for a, v in zip(al, args):
            if a.kind == 'P':
                if not s.same_params(ex, st, v):
                    return None
            elif a.kind in ('r', 'rw'):
                bs = ex.read(st, v, a.size)
                bs = list(bs)
                for k, b in enumerate(bs):
                    if b is UNDEF or isinstance(b, tuple):
                        ex.fail('uninitialised', 'argument %s of %s has uninitialised bytes' % (a.name, c.name))
                vals[a.name] = bs
            elif a.kind == 'w':
                vals[a.name] = a.size
            else:
                vals[a.name] = v
        return vals

    def apply(s, c, ex, st, args):
        if not isinstance(c, Contract):
            return c.apply(s, ex, st, args)
        pat = s.shape(c, ex, st, args)
        if pat is None:
            return None
        vals = s.gather(c, ex, st, args)
        if vals is None:
            return None
        key = ''
        if c.requires is not None:
            key = c.requires(s, ex, st, vals)
            if key is None:
                return None
            key = key or ''
        al = parse_args(c.argtxt, s)
        if not s.ensure(c, pat, key):
            if not getattr(c, 'weak', False):
                return None
            # too big to inline: its outputs are unconstrained
            s.weakened.add(c.name)
            for a, v in zip(al, args):
                if a.kind in ('w', 'rw'):
                    ex.write(st, v, [tm.fresh('havoc', 8) for _ in range(a.size)])
            return (st, None)
        r = c.effect(s, vals)
        ret, outs = r if isinstance(r, tuple) else (None, r)
        for a, v in zip(al, args):
            if a.name in outs:
                o = outs[a.name]
                bs = [tm.fresh('ANY', 8) if b is ANY else b for b in o]
                assert len(bs) == a.size, (c.name, a.name, len(bs), a.size)
                ex.write(st, v, bs)
        ex.ob('contract-applied')
        return (st, ret)

    def ensure(s, c, pat, key=''):
        k = (c.name, pat, key)
        if k in s.verified:
            return s.verified[k]
        if c.name in s.inprogress:
            return False
        if getattr(c, 'perfunc', False) and s.cfg.func is None:
            ok = True
            for f in allowed_funcs(s.cfg.n):
                sub_ = s.sub(f)
                if not sub_.ensure(sub_.table[c.name], pat, key):
                    ok = False
            s.verified[k] = ok
            return ok
        s.inprogress.append(c.name)
        t0 = time.time()
        err = None
        try:
            n = s.verify(c, pat, key) if isinstance(c, Contract) else c.verify(s)
            ok = True
        except Fail as e:
            ok = False; err = e; n = 0
        finally:
            s.inprogress.remove(c.name)
        s.verified[k] = ok
        if err is not None:
            s.errkind[(c.name, str(s.cfg), '%s%s' % (key, ''.join('/%s=%s%+d' % (a, b[0], b[1]) for a, b in pat)))] = err.kind
        s.results.append((c.name, str(s.cfg), '%s%s' % (key, ''.join('/%s=%s%+d' % (a, b[0], b[1]) for a, b in pat)), ok,
                          round(time.time() - t0, 2), n, None if err is None else str(err) + (' @ ' + err.where if err.where else '')))
        return ok

    # ---- verification of one contract variant
    def initial(s, c, pat, ex, over=None):
        """arbitrary initial state: returns st, args, {argname: Ptr}"""
        st = State()
        st.pc = list(s.base_pc)
        links = dict(pat)
        args = []; ptr = {}
        al = parse_args(c.argtxt, s)
        # group linked arguments into one region
        pos = {}
        size = {a.name: (s.prog.psize if a.kind == 'P' else a.size) for a in al if a.kind in ('r', 'w', 'rw', 'P')}
        kind = {a.name: a.kind for a in al}
        root = {}
        for a in al:
            if a.name in size:
                if a.name in links:
                    b, d = links[a.name]
                    r, o = root[b]
                    root[a.name] = (r, o + d)
                else:
                    root[a.name] = (a.name, 0)
        groups = {}
        for nme, (r, o) in root.items():
            groups.setdefault(r, []).append((nme, o))
        for a in al:
            if a.kind == 'P':
                p = s.params(ex, st)
            elif a.name in size:
                r, o = root[a.name]
                if r not in pos:
                    g = groups[r]
                    lo = min(x[1] for x in g); hi = max(x[1] + size[x[0]] for x in g)
                    ro = all(kind[x[0]] == 'r' for x in g)
                    cells = [UNDEF] * (hi - lo)
                    for (nm, of) in g:
                        if kind[nm] in ('r', 'rw'):
                            for k in range(size[nm]):
                                if cells[of - lo + k] is UNDEF:
                                    cells[of - lo + k] = None
                    v = tm.var(r, 8 * (hi - lo))
                    cells = [UNDEF if x is UNDEF else ext(v, v.w, 8 * i, 8) for i, x in enumerate(cells)]
                    q = ex.new(st, r, hi - lo, 'arg', cells, ro=ro)
                    pos[r] = (q, lo)
                q, lo = pos[r]
                p = Ptr(q.rid, o - lo)
            else:
                p = tm.var(a.name, int(a.kind[1:]))
            if over and a.name in over:
                p = over[a.name]
            args.append(p)
            if isinstance(p, Ptr):
                ptr[a.name] = p
        return st, args, ptr

    def verify(s, c, pat, key=''):
        total = 0
        cases = c.cases(s, key) if c.cases else [None]
        for over in cases:
            ex = s.exec_(skip=(c.name,))
            pc = []
            if over and 'pc' in over:
                over = dict(over); pc = over.pop('pc')
            st, args, ptr = s.initial(c, pat, ex, over)
            st.pc += pc
            # expected post-state
            est = st.copy()
            vals = s.gather(c, ex, est, args)
            r = c.effect(s, vals)
            ret, outs = r if isinstance(r, tuple) else (None, r)
            un = getattr(c, 'unfold', None)
            if un:
                # the definition of the specification function under proof
                hk = s.spec.hooks(un); memo = {}
                outs = {k: [b if b is ANY or isinstance(b, int) else tm.subst(b, {}, memo, hk) for b in o] for k, o in outs.items()}
            al = parse_args(c.argtxt, s)
            for a, v in zip(al, args):
                if a.name in outs:
                    reg = est.wr(v.rid)
                    cells = reg.mat()
                    for k, b in enumerate(outs[a.name]):
                        cells[v.off + k] = b
            s.vacuity(c, st)
            if c.loops:
                c.loops(s, ex, st, args, vals)
            res = ex.call_real(st, c.name, args) if hasattr(ex, 'call_real') else ex.call(st, c.name, args)
            if not res:
                raise Fail('termination', '%s never returns' % c.name)
            for st2, rv in res:
                s.compare(ex, c.name, st2, est, rv, ret)
            if ex.glob_written:
                raise Fail('frame', '%s writes global %s' % (c.name, sorted(ex.glob_written)))
            for k, n in ex.obl.items():
                s.obl[k] = s.obl.get(k, 0) + n
                total += n
        return total

    def vacuity(s, c, st):
        if st.pc and s.solver.check(st.pc, 1) == 'unsat':
            raise Fail('vacuous', 'precondition of %s is unsatisfiable' % c.name)

    def compare(s, ex, name, st, est, rv, ret):
        """every object of the expected post-state equals the actual one"""
        if ret is not None and ret is not ANY:
            if rv is None or isinstance(rv, (Ptr, PIte)):
                raise Fail('post', '%s: no integer result' % name)
            w = ret[1] if isinstance(ret, tuple) else 32
            rr = ret[0] if isinstance(ret, tuple) else ret
            s.equal(ex, st, [(rv, rr, w)], '%s: return value' % name)
        for rid, er in est.mem.items():
            if er.kind in ('global', 'ext'):
                continue
            ar = st.mem.get(rid)
            if ar is None:
                raise Fail('frame', '%s: object vanished' % name)
            if ar is er:
                continue
            if er.big:
                s.compare_big(ex, name, st, ar, er)
                continue
            ea = list(er.clone(None).mat()); aa = list(ar.clone(None).mat())
            pairs = []
            for k, (x, y) in enumerate(zip(aa, ea)):
                if y is ANY or x is y:
                    continue
                if y is UNDEF:
                    continue
                if isinstance(x, int) and isinstance(y, int):
                    if x == y:
                        continue
                    raise Fail('post', '%s: byte %d of %s is %d, specified %d' % (name, k, er.name, x, y))
                if x is UNDEF:
                    raise Fail('post', '%s: byte %d of %s left uninitialised' % (name, k, er.name))
                if isinstance(x, tuple) or isinstance(y, tuple):
                    if x == y:
                        continue
                    raise Fail('post', '%s: pointer bytes in %s' % (name, er.name))
                pairs.append((k, x, y))
            ex.ob('postcondition', len(ea) - len(pairs))
            # group into runs
            i = 0
            while i < len(pairs):
                j = i
                while j + 1 < len(pairs) and pairs[j + 1][0] == pairs[j][0] + 1 and j + 1 - i < s.cfg.n:
                    j += 1
                run = pairs[i:j + 1]
                s.equal(ex, st, [(b2v([p[1] for p in run]), b2v([p[2] for p in run]), 8 * len(run))],
                        '%s: bytes %d..%d of %s' % (name, run[0][0], run[-1][0], er.name))
                i = j + 1

    def compare_big(s, ex, name, st, ar, er):
        if ar.layers != er.layers:
            raise Fail('frame', '%s: %s modified' % (name, er.name))

    def equal(s, ex, st, goals, what):
        for (x, y, w) in goals:
            ex.ob('postcondition')
            r = prove_eq(s, st.pc, x, y, w)
            if r is not True:
                raise Fail('post', '%s differs from its specification%s' % (what, ' [refuted]' if r is False else ''), model=(x, y))

def strip(t):
    return t

def prove_eq(ctx, pc, x, y, w):
    """True / False (definitely different as terms: not proved) / None"""
    if x is y or (isinstance(x, int) and isinstance(y, int) and x == y):
        ctx.solver.stats['syntactic'] += 1
        return True
    # facts from the path condition: single-bit and variable = constant
    m = pc_subst(pc)
    sp = ctx.spec
    if m:
        hk = sp.hooks(())
        memo = {}
        x1 = tm.subst(x, m, memo, hk); y1 = tm.subst(y, m, memo, hk)
        if x1 is y1 or (isinstance(x1, int) and isinstance(y1, int) and x1 == y1):
            ctx.solver.stats['syntactic'] += 1
            return True
        x, y = x1, y1
    # small case split on atoms that decide the difference
    r = split_eq(ctx, pc, x, y, w, 0)
    if r is True:
        return True
    c = eq(x, y, w)
    if size_of(c) < 20000:
        r = ctx.solver.prove(pc, c)
        return r
    return None

def size_of(t, lim=20000):
    seen = set(); st = [t]
    while st:
        v = st.pop()
        if isinstance(v, tuple):
            st.extend(v)
        elif isinstance(v, T) and v not in seen:
            seen.add(v)
            if len(seen) > lim:
                return lim
            st.extend(v.args)
    return len(seen)

def pc_subst(pc):
    m = {}
    for c in pc:
        if not isinstance(c, T):
            continue
        st = [c]
        while st:
            q = st.pop()
            if q.op == 'and':
                st.extend(q.args)
            elif q.op == 'eq':
                a, b = q.args
                if isinstance(a, int) or (isinstance(b, T) and a.op != 'cat' and b.op == 'app'):
                    a, b = b, a
                if isinstance(a, T) and a.op in ('var', 'app') and isinstance(b, int):
                    m[a] = b
                elif isinstance(a, T) and a.op == 'cat' and isinstance(b, int):
                    pos = 0
                    for (p, lo, pw) in a.args:
                        if isinstance(p, T) and lo == 0 and pw == p.w:
                            m[p] = (b >> pos) & ((1 << pw) - 1)
                        pos += pw
            else:
                m.setdefault(q, 1)
                n = not_(q)
                if isinstance(n, T):
                    m.setdefault(n, 0)
    return m

def conds_in(t, lim=200):
    """ite conditions occurring in t, in order of appearance"""
    out = []; seen = set(); st = [t]
    while st and len(out) < lim:
        v = st.pop()
        if isinstance(v, tuple):
            st.extend(v)
        elif isinstance(v, T) and v not in seen:
            seen.add(v)
            if v.op == 'ite':
                out.append(v.args[0])
            st.extend(v.args)
    return out

def split_eq(ctx, pc, x, y, w, depth):
    """case split on ite conditions / small digits"""
    if x is y or (isinstance(x, int) and isinstance(y, int) and x == y):
        return True
    if depth > 12:
        return None
    cs = conds_in((x, y))
    hk = ctx.spec.hooks(())
    if cs:
        c = cs[-1]
        for cand in cs:
            if cand.op in ('var', 'cat') or cand.w == 1 and cand.op not in ('and', 'or'):
                c = cand
                break
        ok = True
        for v in (1, 0):
            lit = c if v else not_(c)
            d = ctx.solver.decide(pc, lit)
            if d is False:
                continue
            m = {c: v}
            n = not_(c)
            if isinstance(n, T):
                m[n] = 1 - v
            m.update(pc_subst([lit]))
            memo = {}
            r = split_eq(ctx, pc + [lit], tm.subst(x, m, memo, hk), tm.subst(y, m, memo, hk), w, depth + 1)
            if r is not True:
                return None
        return True
    d = digit_in((x, y))
    if d is not None:
        v, lo, hi = d
        for k in range(lo, hi + 1):
            lit = eq(v, k, v.w)
            if ctx.solver.decide(pc, lit) is False:
                continue
            m = {v: k}
            m.update(pc_subst([lit]))
            memo = {}
            r = split_eq(ctx, pc + [lit], tm.subst(x, m, memo, hk), tm.subst(y, m, memo, hk), w, depth + 1)
            if r is not True:
                return None
        return True
    return None

def digit_in(t):
    """a chain-length term with few values inside a CHAIN application"""
    seen = set(); st = [t]
    while st:
        v = st.pop()
        if isinstance(v, tuple):
            st.extend(v)
        elif isinstance(v, T) and v not in seen:
            seen.add(v)
            if v.op == 'app' and v.args[0] == 'CHAIN':
                for q in (v.args[4], v.args[5]):
                    if isinstance(q, T):
                        lo, hi = tm.rng(q)
                        if hi - lo <= 255:
                            return (q, lo, hi)
            st.extend(v.args)
    return None

# ---------------------------------------------------------------- hash externs

def allowed_funcs(n):
    return {24: [0, 2], 32: [0, 1, 2], 64: [0, 2]}[n]

def install_hash_externs(ctx):
    """SHA256/SHA512 (OpenSSL: trusted to be FIPS 180-4) as atoms; where the
    function is the configuration's hash the atom is HASH itself, so that the
    specification's definitions fold"""
    cfg = ctx.cfg; sp = ctx.spec
    def sha(name, L, hit):
        def f(ex, st, a):
            inp, n, out = a
            segs = ex.read_segs(st, inp, n)
            if segs and all(g[0] == 'b' for g in segs):
                bs = [b for g in segs for b in g[1]]
                if any(b is UNDEF for b in bs):
                    ex.fail('uninitialised', 'hash of uninitialised bytes')
                segs = [('b', bs)]
            if any(g[0] in ('undef', 'any') for g in segs):
                ex.fail('uninitialised', 'hash of uninitialised bytes')
            if hit:
                o = v2b(sp.HASHS(segs), cfg.n)
                rest = [tm.fresh('sharest', 8) for _ in range(L - cfg.n)]
                o = o + rest
            else:
                key = tuple((g[0], len(g[1]), b2v(g[1])) if g[0] == 'b' else tuple(g) for g in segs)
                o = v2b(app(name, 8 * L, key), L)
            ex.write(st, out, o)
            return (st, out)
        return f
    ctx.externs['SHA256'] = sha('SHA256', 32, cfg.func == 0 and cfg.n in (24, 32))
    ctx.externs['SHA512'] = sha('SHA512', 64, cfg.func == 0 and cfg.n == 64)
    def shake(name, fam):
        def f(s, ex, st, a):
            out, outlen, inp, n = a
            if not isinstance(outlen, int):
                return None
            segs = ex.read_segs(st, inp, n)
            if any(g[0] in ('undef', 'any') for g in segs) or any(g[0] == 'b' and any(b is UNDEF for b in g[1]) for g in segs):
                ex.fail('uninitialised', 'hash of uninitialised bytes')
            if segs and all(g[0] == 'b' for g in segs):
                segs = [('b', [b for g in segs for b in g[1]])]
            if cfg.func == fam and outlen == cfg.n:
                o = v2b(sp.HASHS(segs), cfg.n)
            else:
                key = tuple((g[0], len(g[1]), b2v(g[1])) if g[0] == 'b' else tuple(g) for g in segs)
                o = v2b(app(name, 8 * outlen, outlen, key), outlen) if outlen else []
            ex.write(st, out, o)
            ctx.assumed.add(name + ' conforms to FIPS 202 (property C08)')
            return (st, None)
        return f
    ctx.shake = {'shake128': shake('SHAKE128', 1), 'shake256': shake('SHAKE256', 2)}
