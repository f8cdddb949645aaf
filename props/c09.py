"""C09: OIDs, names, derived parameters."""
import os, time
from vx import terms as tm, ver, oids
from vx.sym import Exec, State, Ptr, Fail, UNDEF
from vx.spec import v2b
from . import common as cm

KINDS = {'post', 'frame', 'memory', 'uninitialised', 'undefined', 'termination'}
TAGS = {'oid', 'name', 'apioid', 'crash', 'sanitizer'}
NEG1 = 0xffffffff

def table(mt):
    return oids.XMSSMT if mt else oids.XMSS

def not_assigned(v, tab):
    """v is none of the assigned OIDs; consecutive runs as ranges"""
    ks = sorted(tab); cs = []
    i = 0
    while i < len(ks):
        j = i
        while j + 1 < len(ks) and ks[j + 1] == ks[j] + 1:
            j += 1
        cs.append(tm.not_(tm.ult(tm.sub(v, ks[i], 32), j - i + 1, 32)))
        i = j + 1
    return cs

def t_parse(env, rec, variant, mt):
    prog = env[variant]
    fn = 'xmssmt_parse_oid' if mt else 'xmss_parse_oid'
    t0 = time.time(); nob = [0]
    def one(oid, row):
        rc, bs = ver.run_parse(prog, fn, oid=oid)
        c, e = cm.expected_params(prog, row)
        if not prog.fast:
            e['sk_bytes'] = c.sk_bytes
        nob[0] += 1
        if rc != 0:
            raise Fail('post', '%s(%#x) returns %s' % (fn, oid, tm.show(rc)))
        for k, v in e.items():
            nob[0] += 1
            o, z = prog.offs[k]
            if any(b is UNDEF for b in bs[o:o + z]):
                raise Fail('post', '%s(%#x) leaves %s unset' % (fn, oid, k))
            if ver.get_field(prog, bs, k) != v:
                raise Fail('post', '%s(%#x): %s = %s, the standard says %s' % (fn, oid, k, tm.show(ver.get_field(prog, bs, k)), v))
    for oid, row in sorted(table(mt).items()):
        rec.guard(fn, one, oid, row)
    def rest():
        ex = Exec(prog.mod); ex.deadline = env.get('deadline')
        st = State(); v = tm.var('oid', 32)
        st.pc += not_assigned(v, table(mt))
        p = ex.new(st, 'params', prog.psize, 'arg')
        res = ex.call(st, fn, [p, v])
        if not res:
            raise Fail('termination', fn + ' never returns')
        for s2, rv in res:
            nob[0] += 1
            if rv != NEG1 and ex.solver.prove(s2.pc, tm.eq(rv, NEG1, 32)) is not True:
                raise Fail('post', '%s accepts an unassigned OID: returns %s' % (fn, tm.show(rv)))
        if ex.glob_written:
            raise Fail('frame', fn + ' writes globals')
        for k, q in ex.obl.items():
            rec.obl[k] = rec.obl.get(k, 0) + q
    rec.guard(fn, rest)
    rec.obl['postcondition'] = rec.obl.get('postcondition', 0) + nob[0]
    rec.recs.append((fn, variant, 'all 2^32 OIDs', not rec.fails and not rec.unsup, round(time.time() - t0, 2), nob[0], None))

def t_names(env, rec, mt):
    prog = env['ref']
    fn = 'xmssmt_str_to_oid' if mt else 'xmss_str_to_oid'
    tab = table(mt); names = {r[0]: o for o, r in tab.items()}
    t0 = time.time(); nob = [0]
    def run(setup):
        ex = Exec(prog.mod); ex.deadline = env.get('deadline')
        st = State()
        o = ex.new(st, 'oid', 4, 'arg')
        s = setup(ex, st)
        res = ex.call(st, fn, [o, s])
        if ex.glob_written:
            raise Fail('frame', fn + ' writes globals')
        for k, q in ex.obl.items():
            rec.obl[k] = rec.obl.get(k, 0) + q
        return ex, res, o
    def conc(txt):
        return lambda ex, st: ex.new(st, 's', len(txt) + 1, 'arg', list(txt.encode()) + [0], ro=True)
    def known(nm, oid):
        ex, res, o = run(conc(nm))
        nob[0] += 2
        for s2, rv in res:
            if rv != 0:
                raise Fail('post', '%s rejects %s' % (fn, nm))
            b = ex.read(s2, o, 4)
            if b != list(oid.to_bytes(4, 'little')):
                raise Fail('post', '%s maps %s to %s, the standard says %#x' % (fn, nm, b, oid))
    for nm, oid in names.items():
        rec.guard(fn, known, nm, oid)
    def other():
        # a string different from every assigned name; nothing else is known about it
        def setup(ex, st):
            p = ex.new(st, 's', 1 << 20, 'arg', [('p', 'opaque string', 0)] * (1 << 20), ro=True)
            def cmp(ex, st, lit):
                t = lit.decode('latin1')
                return 0 if t in names else tm.var('matches ' + t, 1)
            st.ghost[('str', p.rid)] = cmp
            return p
        ex, res, o = run(setup)
        for s2, rv in res:
            nob[0] += 1
            if rv != NEG1 and ex.solver.prove(s2.pc, tm.eq(rv, NEG1, 32)) is not True:
                raise Fail('post', '%s accepts a string that is no assigned name: returns %s [%s]' % (fn, tm.show(rv), [tm.show(x) for x in s2.pc[-2:]]))
    rec.guard(fn, other)
    rec.obl['postcondition'] = rec.obl.get('postcondition', 0) + nob[0]
    rec.recs.append((fn, '', 'every string', not rec.fails and not rec.unsup, round(time.time() - t0, 2), nob[0], None))

def t_unknown(env, rec, variant, mt):
    """the wrappers, with an unassigned OID"""
    prog = env[variant]
    px = 'xmssmt_' if mt else 'xmss_'
    v = tm.var('oid', 32)
    ob = [tm.ext(v, 32, 24 - 8 * k, 8) for k in range(4)]
    def key(ex, st, nm):
        return ex.new(st, nm, 4, 'arg', list(ob), ro=True)
    def z(ex, st, nm, n=0):
        return ex.new(st, nm, n, 'arg', [tm.var('%s%d' % (nm, k), 8) for k in range(n)], ro=True)
    ml = tm.var('len', 64)
    def kp(ex, st):
        st.pc += not_assigned(v, table(mt))
        return [z(ex, st, 'pk', 4), z(ex, st, 'sk', 4), v]
    def sg(ex, st):
        st.pc += not_assigned(v, table(mt))
        return [key(ex, st, 'sk'), z(ex, st, 'sm'), z(ex, st, 'smlen', 8), z(ex, st, 'm'), ml]
    def op(ex, st):
        st.pc += not_assigned(v, table(mt))
        return [z(ex, st, 'm'), z(ex, st, 'mlen', 8), z(ex, st, 'sm'), ml, key(ex, st, 'pk')]
    for nm, mk in (('keypair', kp), ('sign', sg), ('sign_open', op)):
        fn = px + nm
        def one():
            t0 = time.time()
            ex, pre, a, res = cm.wrapper_run(prog, fn, mk)
            if not res:
                raise Fail('termination', fn + ' never returns')
            for s2, rv in res:
                if s2.ghost.get('calls'):
                    raise Fail('post', '%s reaches %s with an unassigned OID' % (fn, s2.ghost['calls'][0][0]))
                if rv != NEG1 and ex.solver.prove(s2.pc, tm.eq(rv, NEG1, 32)) is not True:
                    raise Fail('post', '%s returns %s for an unassigned OID' % (fn, tm.show(rv)))
            if ex.glob_written:
                raise Fail('frame', fn + ' writes globals')
            for k, q in ex.obl.items():
                rec.obl[k] = rec.obl.get(k, 0) + q
            rec.recs.append((fn, variant, 'unassigned OID', True, round(time.time() - t0, 2), len(res) * 3, None))
        rec.guard(fn, one)

def oidtab(c):
    with open(os.path.join(c.work, 'oidtab.h'), 'w') as f:
        f.write('static const struct { int mt; unsigned oid; const char *name; int func, n, h, d; } tab[] = {\n')
        for mt in (0, 1):
            for o, r in sorted(table(mt).items()):
                f.write('{%d, %d, "%s", %d, %d, %d, %d},\n' % ((mt, o) + r))
        f.write('};\n')

def check(c):
    c.programs('ref', 'fast')
    c.prove([cm.Task('parse %s mt=%d' % (v, m), t_parse, (v, m)) for v in ('ref', 'fast') for m in (0, 1)] +
            [cm.Task('names mt=%d' % m, t_names, (m,)) for m in (0, 1)] +
            [cm.Task('unknown OID %s mt=%d' % (v, m), t_unknown, (v, m)) for v in ('ref', 'fast') for m in (0, 1)])
    oidtab(c)
    N = c.native
    N.build('oids', ['oids.c'], False); N.build('href', ['harness.c', 'oracle.c'], False)
    full = c.tier == 'thorough' or c.fails() or c.unsup()
    jobs = [('oids', [c.seed, k * (1 << 29), (1 << 29) if full else 1 << 22, 200000 if full else 20000]) for k in range(8)]
    bad = [x for o in (0, 0x16, 0x39, 0x101, 0x1000001, 0x80000001, 0xffffffff, 0x10001) for x in (0, o, 1, o) if True]
    jobs.append(('href', ['api', c.seed, 0, 0x22, 0, 0x16, 0, 0x38, 1, 0x39, 0, 0, 1, 0, 0, 0x101, 1, 0x101, 0, 0x1000001, 1, 0x1000001, 0, 0xffffffff, 1, 0xffffffff]))
    out = N.run_many(jobs)
    hits = [(j, t, d) for j, fl, n in out for t, d in fl if t in TAGS]
    c.bounded.append('concrete enumeration of %s OIDs of both families and of mutated names' % ('all 2^32' if full else '2^25'))
    return c.finish(KINDS, hits)
