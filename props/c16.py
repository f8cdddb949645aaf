"""C16: no hidden state; operations on separate data are independent."""
import time
from vx import frame
from vx.run import Rec
from . import common as cm, fastcore

KINDS = {'frame', 'uninitialised', 'undefined', 'hidden', 'determined'}
TAGS = {'hidden', 'race'}

def t_frame(env, rec, which):
    """assigns nothing outside the objects passed in: every function of the program"""
    t0 = time.time()
    r = frame.analyse(env[which].mod)
    rec.fails += [('frame', m) for m in r.fails]
    rec.unsup += [('frame of the %s program' % which, m) for m in r.unsup]
    rec.obl['assigns clause (all functions)'] = r.obl
    rec.recs.append(('assigns clauses of all %d functions' % r.funcs, which, 'objects that outlive a call: %s; written: %s' % (', '.join(r.objects), r.written), not r.fails and not r.unsup, round(time.time() - t0, 2), r.obl, None))
    rec.notes.append('external functions called: ' + ', '.join(sorted(r.extern)))

def t_memory_hash(env, rec, n):
    cm.t_contracts(env, rec, n, 16, None, cm.HASH_VARIANTS)

def check(c):
    c.programs('ref', 'fast')
    shapes = cm.SHAPES if c.tier == 'thorough' else [s for s in cm.SHAPES if s[1] // s[2] <= 10 and (s[0] == 24 or s[1] // s[2] <= 5)]
    ts = [cm.Task('frame %s' % w, t_frame, (w,)) for w in ('ref', 'fast')]
    for s in shapes:
        ts += [cm.Task('sign n=%d h=%d d=%d' % s, cm.t_sign, s), cm.Task('open n=%d h=%d d=%d' % s, cm.t_open, s), cm.Task('keypair n=%d h=%d d=%d' % s, cm.t_keypair, s)]
    ts += fastcore.tasks_keypair([s for s in shapes if s[0] == 24])
    ts += [cm.Task('wrapper %s %s mt=%d' % (o, v, m), cm.t_wrap, (o, m, v)) for o in ('keypair', 'sign') for m in (0, 1) for v in ('ref', 'fast')]
    ts += [cm.Task('wrapper open %s mt=%d' % (v, m), cm.t_wrap_open, (m, v)) for m in (0, 1) for v in ('ref', 'fast')]
    c.prove(ts, total=400)
    weak = bool(c.fails()) or bool(c.unsup())
    N = c.native
    L = ('-lcrypto', '-lpthread')
    jobs = []
    for k, fast in (('ref', False), ('fast', True)):
        d = ('FAST',) if fast else ()
        N.build('conc' + k, ['conc.c'], fast, defs=d, libs=L)
        N.build('conct' + k, ['conc.c'], fast, defs=d, libs=L + ('-fsanitize=thread',), cc='clang')
        rounds = 4 if c.tier == 'thorough' or weak else 1
        for r in range(rounds):
            jobs += [('conc' + k, ['seq', c.seed + 10 * r, 10]), ('conc' + k, ['thr', c.seed + 10 * r, 10])]
        jobs += [('conct' + k, ['thr', c.seed, 5], {'TSAN_OPTIONS': 'halt_on_error=1'})]
    out = N.run_many(jobs, limit=200 if c.tier == 'quick' else 600, par=3)
    hits = []
    for j, fl, n in out:
        for t, d in fl:
            if j[0].startswith('conct') and t == 'crash':
                if 'ThreadSanitizer: data race' in d or 'WARNING: ThreadSanitizer' in d:
                    hits.append((j, 'race', d))
            elif t in TAGS:
                hits.append((j, t, d))
    c.bounded.append('keys sharing none, some or almost all of their seeds: each alone in a fresh process, interleaved step by step, and at the same time in six threads (also under ThreadSanitizer); stack, heap and buffers filled with noise')
    c.assumptions.append('the one-shot digests of OpenSSL and the C library functions used have no state of their own that matters')
    return c.finish(KINDS, hits)
