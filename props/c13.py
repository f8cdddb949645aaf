"""C13: the signing tool stores the advanced key before it releases a signature.

main() of ui/sign.c is executed symbolically over every outcome of every file
operation: file operations, malloc and xmss[mt]_sign are contracts over ghost
state (file positions, bytes written and flushed, whether anything failed)."""
import os, time
from vx import terms as tm, ver, oids
from vx.sym import Exec, State, Ptr, PIte, Fail, Unsupported, Solver, UNDEF, val_bytes
from vx.terms import T
from . import common as cm

KINDS = {'order', 'store', 'exit', 'output', 'memory', 'uninitialised'}
TAGS = {'order', 'store', 'exit', 'output', 'crash', 'sanitizer'}
MAXM = 1 << 48

class Tool:
    """one key file and one message file"""
    def __init__(s, prog, mt, oid_pk, oid_sk, so):
        s.prog = prog; s.mt = mt; s.so = so
        tab = oids.XMSSMT if mt else oids.XMSS
        s.oid = {'pk': oid_pk, 'sk': oid_sk}
        s.pkb = s.skb = None
        s.pc = []
        def par(o):
            rc, bs = ver.run_parse(prog, 'xmssmt_parse_oid' if mt else 'xmss_parse_oid', oid=o)
            if rc != 0:
                raise Unsupported('OID %#x not recognised' % o)
            g = lambda k: ver.get_field(prog, bs, k)
            return g('pk_bytes'), g('sk_bytes'), g('sig_bytes')
        s.known = [o in tab for o in (oid_pk, oid_sk)]
        s.words = []
        for nm, o, k in (('pk', oid_pk, s.known[0]), ('sk', oid_sk, s.known[1])):
            if k:
                s.words.append(list(o.to_bytes(4, 'big')))
            else:
                v = tm.var('oid_' + nm, 32)
                for a in tab:
                    s.pc.append(tm.not_(tm.eq(v, a, 32)))
                s.words.append(tm_be(v))
        if s.known[0]:
            s.pkb = par(oid_pk)[0]
            s.skpos = 4 + s.pkb
        if all(s.known):
            _, s.skb, s.sigb = par(oid_sk)
            s.skv = [tm.var('key%d' % i, 8) for i in range(s.skb)]
        s.msize = tm.var('msize', 64)
        s.exits = []

    # ---- ghost state
    def g(s, st, k, d=None):
        return st.ghost.get(k, d)
    def put(s, st, **k):
        st.ghost = dict(st.ghost, **k)
    def failed(s, st, why):
        if not s.g(st, 'failed'):
            s.put(st, failed=why)

    def which(s, ex, st, p, what):
        if isinstance(p, Ptr):
            for k in ('K', 'M'):
                if s.g(st, 'file' + k) == p.rid:
                    if s.g(st, 'closed' + k):
                        ex.fail('memory', '%s on a closed file' % what)
                    return k
            for k in ('stdout', 'stderr'):
                q = st.ghost.get('FILE:' + k)
                if q is not None and q.rid == p.rid:
                    return k
        ex.fail('memory', '%s on something that is not an open file' % what)

    def keybyte(s, st, pos):
        w = s.g(st, 'written', {}).get(pos)
        if w is not None:
            return w
        if 0 <= pos < 4:
            return s.words[0][pos]
        if s.known[0] and s.skpos <= pos < s.skpos + 4:
            return s.words[1][pos - s.skpos]
        if all(s.known) and s.skpos + 4 <= pos < s.skpos + 4 + s.skb:
            return s.skv[pos - s.skpos - 4]
        return tm.var('file%d' % pos, 8)

    def externs(s):
        return dict(fopen=s.fopen, fopen64=s.fopen, fclose=s.fclose, fseek=s.fseek, fseeko=s.fseek, ftell=s.ftell, ftello=s.ftell, rewind=s.rewind,
                    fread=s.fread, fwrite=s.fwrite, fflush=s.fflush, fprintf=s.fprintf, fputs=s.fputs, perror=lambda ex, st, a: (st, None),
                    malloc=s.malloc, calloc=s.calloc, free=s.free, exit=s.exit, ferror=s.ferror, feof=s.ferror, printf=s.printf, puts=s.printf,
                    fsync=s.anyint, fileno=s.anyint, setvbuf=s.anyint)

    def anyint(s, ex, st, a):
        return (st, tm.fresh('int', 32))
    def ferror(s, ex, st, a):
        k = s.which(ex, st, a[0], 'ferror')
        return (st, tm.fresh('ferror', 32) if s.g(st, 'failed') else 0)
    def printf(s, ex, st, a):
        ex.fail('output', 'something that is not the signature is printed')
    def fprintf(s, ex, st, a):
        if s.which(ex, st, a[0], 'fprintf') != 'stderr':
            ex.fail('output', 'formatted output that is not the signature')
        return (st, tm.fresh('printed', 32))
    def fputs(s, ex, st, a):
        return s.fprintf(ex, st, [a[1]])

    def path(s, ex, st, p):
        if isinstance(p, Ptr):
            for k, nm in (('K', 'keyfile'), ('M', 'msgfile')):
                if p.rid in st.mem and st.mem[p.rid].name == nm and p.off == 0:
                    return k
        ex.fail('order', 'opens a file that is not one of the two arguments')

    def fopen(s, ex, st, a):
        k = s.path(ex, st, a[0])
        r = st.mem[a[1].rid]; mode = ''
        for x in r.clone(None).mat()[a[1].off:]:
            if x == 0:
                break
            mode += chr(x)
        m = mode.replace('b', '')
        if s.g(st, 'file' + k) is not None:
            raise Unsupported('a file is opened twice', ex.loc())
        if m not in (('r+', 'r') if k == 'K' else ('r', 'r+')):
            ex.fail('store' if k == 'K' else 'order', 'opens the %s file with mode "%s"' % ('key' if k == 'K' else 'message', mode))
        bad = st.copy(); s.failed(bad, 'fopen')
        st = st.copy()
        p = ex.new(st, 'FILE' + k, 1, 'ext')
        s.put(st, **{'file' + k: p.rid, 'pos' + k: 0, 'mode' + k: m})
        ex.ob('environment', 2)
        return [(bad, 0), (st, p)]

    def fclose(s, ex, st, a):
        k = s.which(ex, st, a[0], 'fclose')
        if k in ('K', 'M'):
            out = s.flush_one(ex, st, k)
            for s2, r in out:
                s.put(s2, **{'closed' + k: True})
            return out
        return s.flush_one(ex, st, k)

    def flush_one(s, ex, st, k):
        """what was written reaches the file, or the flush fails"""
        pend = s.g(st, 'pend' + k)
        if not pend:
            return [(st, 0)]
        bad = st.copy(); s.failed(bad, 'flush')
        st = st.copy(); s.put(st, **{'pend' + k: False})
        if k == 'K' and s.complete(st):
            s.put(st, stored=True)
        ex.ob('environment', 2)
        return [(bad, 0xffffffff), (st, 0)]

    def fflush(s, ex, st, a):
        if isinstance(a[0], int) and a[0] == 0:
            out = [(st, 0)]
            for k in ('K', 'stdout'):
                out = [(s3, r2 if r2 else r) for s2, r in out for s3, r2 in s.flush_one(ex, s2, k)]
            return out
        return s.flush_one(ex, st, s.which(ex, st, a[0], 'fflush'))

    def complete(s, st):
        w = s.g(st, 'written', {})
        return s.g(st, 'signed') is not None and all((s.skpos + 4 + i) in w for i in range(s.skb))

    def fseek(s, ex, st, a):
        k = s.which(ex, st, a[0], 'fseek')
        if k in ('stdout', 'stderr'):
            raise Unsupported('fseek on ' + k, ex.loc())
        bad = st.copy(); s.failed(bad, 'fseek')
        st = st.copy()
        off, wh = a[1], a[2]
        p = s.g(st, 'pos' + k)
        if wh == 0:
            p = off
        elif wh == 1:
            p = None if p is None else tm.add(p, off, 64)
        elif wh == 2:
            p = tm.add(s.msize, off, 64) if k == 'M' else None
        else:
            raise Unsupported('fseek whence', ex.loc())
        s.put(st, **{'pos' + k: p})
        ex.ob('environment', 2)
        return [(bad, 0xffffffff), (st, 0)]

    def rewind(s, ex, st, a):
        return [(x, None) for x, r in s.fseek(ex, st, [a[0], 0, 0])]

    def ftell(s, ex, st, a):
        k = s.which(ex, st, a[0], 'ftell')
        p = s.g(st, 'pos' + k)
        bad = st.copy(); s.failed(bad, 'ftell')
        st = st.copy()
        ex.ob('environment', 2)
        return [(bad, (1 << 64) - 1), (st, tm.fresh('tell', 64) if p is None else p)]

    def fread(s, ex, st, a):
        buf, size, cnt, fp = a
        k = s.which(ex, st, fp, 'fread')
        if k not in ('K', 'M'):
            raise Unsupported('fread', ex.loc())
        if size != 1 and not (isinstance(size, int) and isinstance(cnt, int)):
            if cnt == 1:
                pass
            else:
                raise Unsupported('fread of %s elements' % (cnt,), ex.loc())
        n = tm.mul(size, cnt, 64)
        pos = s.g(st, 'pos' + k)
        out = []
        if not isinstance(buf, Ptr):
            # only allowed to read nothing there
            if s.so.prove(st.pc, tm.eq(n, 0, 64)) is not True:
                ex.fail('memory', 'reads into a null pointer')
            return (st, 0)
        # too short, or an error
        if s.so.check(st.pc, tm.not_(tm.eq(n, 0, 64))) != 'unsat':
            bad = st.copy(); s.failed(bad, 'fread')
            got = tm.fresh('got', 64)
            bad.pc += [tm.ult(got, cnt, 64), tm.not_(tm.eq(n, 0, 64))]
            if isinstance(n, int):
                ex.write(bad, buf, [tm.fresh('short', 8) for _ in range(n)])
            else:
                ex.write_segs(bad, buf, [('blob', 'SHORT', 0, n)], n)
            s.put(bad, **{'pos' + k: None})
            out.append((bad, 0 if cnt == 1 else got))
        st = st.copy()
        if pos is None:
            data = None
        elif k == 'K':
            if not isinstance(pos, int) or not isinstance(n, int) or pos >= 1 << 62:
                raise Unsupported('position in the key file', ex.loc())
            data = [s.keybyte(st, pos + i) for i in range(n)]
        else:
            data = 'msg'
        if data is None:
            if isinstance(n, int):
                ex.write(st, buf, [tm.fresh('unknown', 8) for _ in range(n)])
            else:
                ex.write_segs(st, buf, [('blob', 'UNKNOWN', 0, n)], n)
        elif data == 'msg':
            # a complete read: the file has that many bytes left
            st.pc.append(tm.not_(tm.ult(s.msize, tm.add(pos, n, 64), 64)))
            if isinstance(n, int):
                ex.write(st, buf, [tm.app('B:MSG', 8, tm.add(pos, i, 64)) for i in range(n)])
            else:
                ex.write_segs(st, buf, [('blob', 'MSG', pos, n)], n)
        else:
            ex.write(st, buf, data)
        if pos is not None:
            s.put(st, **{'pos' + k: tm.add(pos, n, 64)})
        ex.ob('environment', 2)
        if s.so.check(st.pc, 1) != 'unsat':
            out.append((st, cnt))
        return out

    def fwrite(s, ex, st, a):
        buf, size, cnt, fp = a
        k = s.which(ex, st, fp, 'fwrite')
        n = tm.mul(size, cnt, 64)
        if size != 1 and cnt != 1 and not isinstance(n, int):
            raise Unsupported('fwrite of elements', ex.loc())
        if k == 'stderr':
            return (st, cnt)
        if k == 'M':
            ex.fail('store', 'writes to the message file')
        st = st.copy()
        if k == 'K':
            if s.g(st, 'modeK') == 'r':
                ex.fail('store', 'the key file is not open for writing')
            pos = s.g(st, 'posK')
            sk = s.g(st, 'sk_after')
            if sk is None:
                ex.fail('store', 'writes the key file before signing')
            if not isinstance(pos, int) or not isinstance(n, int):
                ex.fail('store', 'writes at an unknown position of the key file')
            bs = ex.read(st, buf, n)
            w = dict(s.g(st, 'written', {}))
            for i, b in enumerate(bs):
                x = pos + i - s.skpos
                ex.ob('stored-byte')
                if not 0 <= x < 4 + s.skb:
                    ex.fail('store', 'writes byte %d of the key file, outside of the secret key at %d..%d' % (pos + i, s.skpos, s.skpos + 3 + s.skb))
                if b is UNDEF or not (b is sk[x] or b == sk[x]):
                    ex.fail('store', 'byte %d of the secret key in the file is not the one the signer left' % x)
                w[pos + i] = b
            if s.g(st, 'signed') is None:
                ex.fail('store', 'writes the key file before signing')
            s.put(st, written=w, posK=pos + n, pendK=True)
            st_ok = st
        else:
            why = s.g(st, 'failed')
            ex.ob('release')
            if s.g(st, 'signed') is None:
                ex.fail('output', 'writes to the output before signing')
            r = s.g(st, 'signed')
            if s.so.prove(st.pc, tm.eq(r, 0, 32)) is not True:
                ex.fail('output', 'writes a signature although signing may have failed')
            if why:
                ex.fail('output', 'writes the signature although %s failed' % why)
            if not s.g(st, 'stored'):
                ex.fail('order', 'writes the signature before the updated secret key is stored and flushed')
            done = s.g(st, 'outpos', 0)
            for sg in ex.read_segs(st, buf, n):
                if sg[0] == 'blob' and sg[1] == 'SM' and (sg[2] is done or sg[2] == done or s.so.prove(st.pc, tm.eq(sg[2], done, 64)) is True):
                    done = tm.add(done, sg[3], 64)
                elif sg[0] == 'b':
                    for b in sg[1]:
                        if not (isinstance(b, T) and b.op == 'app' and b.args[0] == 'B:SM' and s.so.prove(st.pc, tm.eq(b.args[1], done, 64)) is True):
                            ex.fail('output', 'the output is not the signed message')
                        done = tm.add(done, 1, 64)
                else:
                    ex.fail('output', 'the output is not the signed message')
            s.put(st, outpos=done, pendstdout=True)
        out = []
        bad = st.copy(); s.failed(bad, 'fwrite')
        if k == 'K':
            s.put(bad, posK=None)
        got = tm.fresh('put', 64); bad.pc += [tm.ult(got, cnt, 64)]
        ex.ob('environment', 2)
        if s.so.check(bad.pc, 1) != 'unsat':
            out.append((bad, 0 if cnt == 1 else got))
        out.append((st, cnt))
        return out

    def malloc(s, ex, st, a):
        n = a[0]
        bad = st.copy(); st = st.copy()
        if isinstance(n, int) and n <= 1 << 20:
            p = ex.new(st, 'heap', n, 'heap')
        else:
            st.pc.append(tm.ult(n, 1 << 50, 64))
            p = ex.newbig(st, 'heap', n, [], kind='heap')
        ex.ob('environment', 2)
        return [(bad, 0), (st, p)]

    def calloc(s, ex, st, a):
        return s.malloc(ex, st, [tm.mul(a[0], a[1], 64)])

    def free(s, ex, st, a):
        p = a[0]
        if isinstance(p, int) and p == 0:
            return (st, None)
        if not isinstance(p, Ptr):
            raise Unsupported('free', ex.loc())
        if p.rid not in st.mem or p.off != 0 or st.mem[p.rid].kind != 'heap':
            ex.fail('memory', 'free of something that is not allocated')
        st = st.copy(); st.mem.pop(p.rid)
        return (st, None)

    def exit(s, ex, st, a):
        s.exits.append((st, a[0]))
        return []

    # ---- contract of the signer
    def sign(s, ex, st, a):
        if not all(s.known):
            ex.fail('exit', 'signs with an unknown parameter set')
        sk, sm, pl, m, ml = a
        if s.g(st, 'signed') is not None:
            ex.fail('store', 'signs twice')
        why = s.g(st, 'failed')
        bs = ex.read(st, sk, 4 + s.skb)
        want = s.words[1] + s.skv
        ex.ob('precondition', 5)
        for i, (b, w) in enumerate(zip(bs, want)):
            if b is UNDEF or not (b is w or b == w):
                ex.fail('store', 'signs with a key that is not the one in the file (byte %d)%s' % (i, ', after %s failed' % why if why else ''))
        if s.so.prove(st.pc, tm.eq(ml, s.msize, 64)) is not True:
            ex.fail('output', 'does not sign the whole message')
        pcs = list(st.pc)
        if not (isinstance(m, int) and m == 0 and s.so.prove(st.pc, tm.eq(ml, 0, 64)) is True):
            pos = 0
            for sg in ex.read_segs(st, m, ml):
                if sg[0] == 'blob' and sg[1] == 'MSG' and s.so.prove(st.pc, tm.eq(sg[2], pos, 64)) is True:
                    pos = tm.add(pos, sg[3], 64)
                elif s.so.prove(st.pc, tm.eq(ml, 0, 64)) is True:
                    break
                else:
                    ex.fail('output', 'the message signed is not the one in the file%s' % (' (%s failed)' % why if why else ''))
        z = tm.add(ml, s.sigb, 64)
        if not isinstance(sm, Ptr):
            ex.fail('memory', 'signed message buffer is NULL')
        ex.bound_sym(st, sm.off, z, st.mem[sm.rid])
        out = []
        # success
        g = st.copy(); r = 0
        nk = s.words[1] + [tm.var('new%d' % i, 8) for i in range(s.skb)]
        ex.write(g, sk, nk)
        ex.write_segs(g, sm, [('blob', 'SM', 0, z)], z)
        ex.write(g, pl, val_bytes(z, 64))
        s.put(g, signed=0, sk_after=tuple(nk), smlen=z)
        out.append((g, 0))
        # refused: the key is erased (or, for -1, anything)
        b = st.copy(); nk = s.words[1] + [tm.var('gone%d' % i, 8) for i in range(s.skb)]
        ex.write(b, sk, nk)
        rr = tm.fresh('refused', 32); b.pc.append(tm.or_(tm.eq(rr, 0xffffffff, 32), tm.eq(rr, 0xfffffffe, 32), 1))
        s.put(b, signed=rr, sk_after=tuple(nk))
        out.append((b, rr))
        ex.ob('environment', 2)
        return out

    # ---- at the end
    def end(s, ex, st, rv):
        ex.ob('exit')
        rv8 = rv & 255 if isinstance(rv, int) else tm.ext(rv, 32, 0, 8)
        zero = s.so.check(st.pc, tm.eq(rv8, 0, 8)) != 'unsat'
        why = s.g(st, 'failed'); sg = s.g(st, 'signed')
        if zero:
            if why:
                raise Fail('exit', 'exits with 0 although %s failed' % why)
            if sg is None:
                raise Fail('exit', 'exits with 0 without signing')
            if s.so.check(st.pc + [tm.eq(rv8, 0, 8)], tm.not_(tm.eq(sg, 0, 32))) != 'unsat':
                raise Fail('exit', 'exits with 0 although signing failed')
            if s.so.prove(st.pc, tm.eq(s.g(st, 'outpos', 0), st.ghost.get('smlen', 0), 64)) is not True:
                raise Fail('output', 'exits with 0 without writing the whole signed message')
        if s.g(st, 'pendstdout') and zero:
            raise Fail('exit', 'exits with 0 without having flushed the signature successfully')
        if sg is not None and not why and not s.g(st, 'stored'):
            raise Fail('store', 'the key the signer left is not stored in the file at exit%s' % ('' if sg == 0 and isinstance(sg, int) else ' (signing refused)'))

def tm_be(v):
    return list(reversed(val_bytes(v, 32)))

def run_tool(prog, mt, pk, sk, so, argc=3):
    t = Tool(prog, mt, pk, sk, so)
    ex = Exec(prog.mod, so)
    ex.externs = dict(ex.externs); ex.externs.update(t.externs())
    ex.contracts = {'xmssmt_sign' if mt else 'xmss_sign': t.sign}
    st = State()
    st.pc += t.pc + [tm.ult(t.msize, MAXM, 64)]
    ps = []
    for nm in ('tool', 'keyfile', 'msgfile'):
        ps.append(ex.new(st, nm, 8, 'arg', [tm.var('%s%d' % (nm, i), 8) for i in range(7)] + [0], ro=True))
    cells = []
    for p in ps + [0]:
        cells += [('p', p, k) for k in range(8)] if p else [0] * 8
    argv = ex.new(st, 'argv', 32, 'arg', cells, ro=True)
    res = ex.call(st, 'main', [argc, argv])
    ends = res + t.exits
    if not ends:
        raise Fail('exit', 'never ends')
    for s2, rv in ends:
        t.end(ex, s2, rv)
    return ex, len(ends)

def t_tool(env, rec, mt, pairs):
    prog = env['tool%d' % mt]
    so = Solver(); t0 = time.time(); n = 0; paths = 0
    for pk, sk in pairs:
        def one():
            nonlocal n, paths
            ex, k = run_tool(prog, mt, pk, sk, so, 3 if pk is not None else 2)
            paths += k
            for q, v in ex.obl.items():
                rec.obl[q] = rec.obl.get(q, 0) + v; n += v
            rec.inlined |= ex.inlined
        if pk is None:
            pk, sk = 1, 1
            def one():
                nonlocal n, paths
                for argc in (1, 2, 4):
                    ex, k = run_tool(prog, mt, 1, 1, so, argc); paths += k
        rec.guard('main (ui/sign.c, %s, OIDs %#x %#x)' % ('XMSSMT' if mt else 'XMSS', pk, sk), one)
        if len(rec.fails) + len(rec.unsup) > 1:
            break
        if time.time() - t0 > 100:
            rec.unsup.append(('main (ui/sign.c)', 'time limit'))
            break
    rec.recs.append(('main (ui/sign.c)', '%s, %d OID pairs, %d outcomes of the file operations' % ('XMSSMT' if mt else 'XMSS', len(pairs), paths), 'ref', not rec.fails and not rec.unsup, round(time.time() - t0, 2), n, None))
    for k, v in so.stats.items():
        rec.stats[k] = rec.stats.get(k, 0) + v
    rec.assumed |= {'fopen/fread/fwrite/fseek/ftell/fflush/fclose/malloc/free: C standard contracts, every operation may fail at any time',
                    'xmss[mt]_sign: 0 with a signed message and a new key, or -1/-2 with a new key (C03, C04)'}

def programs(c):
    from vx import run
    for mt in (0, 1):
        if 'tool%d' % mt not in run.ENV:
            run.ENV['tool%d' % mt] = ver.Program(False, os.path.join(c.work, 'toolir%d' % mt), ('ui/sign.c',), ('-DXMSSMT',) if mt else ())
    run.ENV['work'] = c.work

def pairs(mt):
    tab = sorted(oids.XMSSMT if mt else oids.XMSS)
    out = [(None, None), (0, tab[0]), (tab[0], 0)]
    out += [(o, o) for o in tab] + [(tab[0], o) for o in tab[1:]] + [(o, tab[-1]) for o in tab[:-1]]
    return out

def check(c):
    programs(c)
    ts = []
    for mt in (0, 1):
        ps = pairs(mt)
        for k in range(0, len(ps), 8):
            ts.append(cm.Task('tool mt=%d pairs %d..' % (mt, k), t_tool, (mt, ps[k:k + 8])))
    c.prove(ts)
    trouble = c.fails() or c.unsup()
    jobs = []
    for mt in (0, 1):
        c.native.build('tool%d' % mt, ['tool.c'], False, defs=('XMSSMT',) if mt else (), wrap=WRAP + (['xmssmt_sign'] if mt else ['xmss_sign']))
        jobs += [('tool%d' % mt, [c.seed, k, 4 if not trouble else 12]) for k in range(4)]
    out = c.native.run_many(jobs)
    hits = [(j, t, d) for j, fl, n in out for t, d in fl if t in TAGS]
    c.bounded.append('fault injection into the compiled tool: every file operation failing in turn, with short counts and errors')
    return c.finish(KINDS, hits)

WRAP = ['fopen', 'fread', 'fwrite', 'fseek', 'ftell', 'fflush', 'fclose', 'malloc']
