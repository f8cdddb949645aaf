"""C12: the randomness source fills the whole request or does not return."""
import time
from vx import terms as tm, ver
from vx.sym import Exec, State, Ptr, Fail, Unsupported, Solver, UNDEF
from vx.loops import GhostLoop
from . import common as cm

KINDS = {'post', 'memory', 'frame', 'uninitialised', 'termination', 'vacuous'}
TAGS = {'fill', 'outside', 'device', 'crash', 'sanitizer', 'giveup'}
MAX = (1 << 63) - 1
DEVICES = (b'/dev/urandom', b'/dev/random')

def cstr(ex, st, p):
    r = st.mem.get(p.rid)
    out = b''
    b = r.clone(None).mat()
    for x in b[p.off:]:
        if x == 0:
            return out
        if not isinstance(x, int):
            raise Unsupported('path is not constant')
        out += bytes([x])
    raise Fail('memory', 'path not terminated')

def externs(buf, size, fill_from):
    """buf: {rid: (initial pointer, length, ghost key)}"""
    def f_open(ex, st, a):
        if cstr(ex, st, a[0]) not in DEVICES:
            ex.fail('post', 'opens %r instead of the random device' % cstr(ex, st, a[0]))
        bad = st.copy()
        d = tm.fresh('fd', 32)
        st = st.copy()
        st.pc.append(tm.not_(tm.slt(d, 0, 32)))
        st.ghost = dict(st.ghost, good=st.ghost.get('good', ()) + (d,))
        ex.ob('environment', 2)
        return [(bad, 0xffffffff), (st, d)]
    def f_read(ex, st, a):
        fd, p, n = a
        if isinstance(fd, int):
            ex.fail('post', 'reads from descriptor %d' % fd)
        if not any(g is fd or ex.solver.prove(st.pc, tm.eq(g, fd, 32)) is True for g in st.ghost.get('good', ())):
            if st.ghost.get('good') or True:
                ex.fail('post', 'reads from a descriptor that is not an open random device')
        cur = st.ghost['cur']
        if not isinstance(p, Ptr) or p.rid != cur[0]:
            # a private bounce buffer would need more ghost state
            raise Unsupported('read into something else than the request', ex.loc())
        F = st.ghost.get('F', 0); L = cur[2]
        ex.require(st, tm.eq(p.off, tm.add(cur[1], F, 64), 64), 'post', 'read does not continue where the last one ended')
        room = tm.sub(L, F, 64)
        ex.require(st, tm.not_(tm.ult(room, n, 64)), 'memory', 'read may write past the end of the request')
        out = []
        e = st.copy(); out.append((e, (1 << 64) - 1))
        z = st.copy(); out.append((z, 0))
        g = st.copy(); r = tm.fresh('got', 64)
        g.pc += [tm.not_(tm.eq(r, 0, 64)), tm.not_(tm.ult(n, r, 64)), tm.ult(r, 1 << 63, 64)]
        g.ghost = dict(g.ghost, F=tm.add(F, r, 64))
        if ex.solver.check(g.pc, 1) != 'unsat':
            out.append((g, r))
        ex.ob('environment', 3)
        return out
    def f_sleep(ex, st, a):
        return (st, tm.fresh('slept', 32))
    def f_errno(ex, st, a):
        return (st, ex.new(st, 'errno', 4, 'ext', [tm.fresh('errno', 8) for _ in range(4)]))
    def f_close(ex, st, a):
        st.ghost = dict(st.ghost, good=tuple(g for g in st.ghost.get('good', ()) if g is not a[0]))
        return [(st.copy(), 0), (st, 0xffffffff)]
    return {'open': f_open, 'open64': f_open, 'read': f_read, 'sleep': f_sleep, 'usleep': f_sleep, '__errno_location': f_errno, 'close': f_close}

def writable(prog, ex, st):
    return {r.name: r for rid, r in st.mem.items() if r.kind == 'global' and not r.ro}

def t_rand(env, rec, calls):
    prog = env['rand']
    t0 = time.time()
    so = Solver(); n = 0
    def once(ex, st, k):
        L = tm.var('xlen%d' % k, 64)
        st.pc.append(tm.ult(L, MAX, 64))
        buf = ex.newbig(st, 'x%d' % k, L, [(0, L, ('blob', 'x%d' % k, 0))])
        st.ghost = dict(st.ghost, cur=(buf.rid, 0, L), F=0)
        before = list(st.mem[buf.rid].layers)
        old = {rid: r for rid, r in st.mem.items() if r.kind != 'global'}
        ex.loop_hook = GhostLoop(so, lambda F: [tm.not_(tm.ult(L, F, 64))])
        res = ex.call(st, 'randombytes', [buf, L])
        if not res:
            raise Fail('termination', 'randombytes never returns')
        for s2, rv in res:
            ex.require(s2, tm.eq(s2.ghost.get('F', 0), L, 64), 'post', 'returns before the request is filled')
            if s2.mem[buf.rid].layers != before:
                raise Unsupported('the request is also written by other means than read')
            for rid, r in old.items():
                q = s2.mem.get(rid)
                if q is not r and q is not None and not r.big and rid != buf.rid and r.kind == 'arg':
                    raise Fail('frame', 'writes ' + r.name)
        return res
    def go():
        nonlocal n
        ex = Exec(prog.mod, so); ex.externs.update(externs(None, None, None))
        ex.globals_initial = set(prog.mod.globals)      # the first call of a process; later calls below
        st = State()
        res = once(ex, st, 1)
        # state kept between calls: an open descriptor, unchanged by later calls
        for (s1, _) in res:
            g1 = {k: list(r.clone(None).mat()) for k, r in writable(prog, ex, s1).items()}
            if not s1.ghost.get('good'):
                # possible only if nothing had to be read
                continue
            for (s2, _) in once(ex, s1.copy(), 2):
                g2 = {k: list(r.clone(None).mat()) for k, r in writable(prog, ex, s2).items()}
                ex.ob('frame')
                if g1 != g2 and not all(len(a) == len(b) and all(x is y or x == y for x, y in zip(a, b)) for a, b in zip(g1.values(), g2.values())):
                    raise Unsupported('state kept between calls keeps changing')
        for k, v in ex.obl.items():
            rec.obl[k] = rec.obl.get(k, 0) + v
            n += v
        rec.inlined |= ex.inlined
    rec.guard('randombytes', go)
    for k, v in so.stats.items():
        rec.stats[k] = rec.stats.get(k, 0) + v
    rec.assumed.add('open/read/sleep behave as POSIX says: any result, read delivers 1..n device bytes at the pointer or none')
    rec.recs.append(('randombytes', 'any xlen', 'first and later calls', not rec.fails and not rec.unsup, round(time.time() - t0, 2), n, None))

def check(c):
    from vx.run import ENV
    ENV['rand'] = ver.Program(False, c.work + '/ir')
    c.prove([cm.Task('randombytes', t_rand, (2,))])
    trouble = c.fails() or c.unsup()
    N = c.native
    wrap = tuple('-Wl,--wrap=' + x for x in ('open', 'open64', 'close', 'read', 'sleep', 'usleep', 'nanosleep'))
    N.build('rand', ['rand.c'], False, randombytes=True, libs=wrap + ('-lcrypto',))
    b = 60 if c.tier == 'thorough' else 20 if trouble else 2
    out = N.run_many([('rand', [c.seed, b])], limit=240)
    hits = [(j, t, d) for j, fl, n in out for t, d in fl if t in TAGS]
    c.bounded.append('scripted device: every sequence of up to 4 read results (EINTR, EIO, EAGAIN, end of file, 1 byte, all but one, random, full), failing opens, descriptors 0..1023, sizes around 2^20, 2^31 and 2^32')
    return c.finish(KINDS, hits)
