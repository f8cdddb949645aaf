"""The frame condition `assigns nothing but the objects passed in` for every
function of a program at once: which objects with static storage may be
written, and which external functions are called.  A flow-insensitive
points-to fixpoint over the IR of the current source (every function, also
those no proof task runs)."""

PURE = {'memcpy', 'memmove', 'memset', 'memcmp', 'strcmp', 'strncmp', 'strlen', 'bcmp', 'bzero', 'explicit_bzero', 'memchr', 'strchr',
        'malloc', 'calloc', 'free', 'realloc', 'alloca', 'abort', '__assert_fail', 'abs', 'labs',
        'SHA256', 'SHA512', 'SHA256_Init', 'SHA256_Update', 'SHA256_Final', 'SHA512_Init', 'SHA512_Update', 'SHA512_Final', 'OPENSSL_cleanse', '__stack_chk_fail'}
DEVICE = {'open', 'open64', 'read', 'close', 'sleep', 'usleep', 'nanosleep', 'getrandom', '__errno_location', 'poll', 'sched_yield'}
HIDDEN = {'rand', 'rand_r', 'random', 'srand', 'srandom', 'drand48', 'lrand48', 'mrand48', 'arc4random', 'arc4random_buf', 'time', 'clock', 'clock_gettime', 'gettimeofday',
          'getenv', 'getpid', 'getppid', 'gettid', 'pthread_self', 'strtok', 'setenv', 'signal', 'setlocale', 'srand48', 'rdtsc', 'llvm.readcyclecounter'}
COPY = {'memcpy', 'memmove', 'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'llvm.memcpy.p0.p0.i32', 'llvm.memcpy.inline.p0.p0.i64'}
SET = {'memset', 'llvm.memset.p0.i64', 'llvm.memset.p0.i32', 'bzero', 'explicit_bzero', 'OPENSSL_cleanse', 'SHA256_Init', 'SHA512_Init'}
READONLY = {'memcmp', 'strcmp', 'strncmp', 'strlen', 'bcmp', 'abort', '__assert_fail', '__stack_chk_fail', 'sleep', 'usleep', 'close', 'open', 'open64', 'abs', 'labs'}
FIRST = {'SHA256_Update', 'SHA512_Update', 'SHA256_Final', 'SHA512_Final', 'nanosleep', 'getrandom', 'poll', 'read'}

class Report:
    def __init__(s):
        s.fails = []; s.unsup = []; s.obl = 0; s.written = {}; s.funcs = 0; s.extern = set(); s.objects = []

def analyse(mod):
    rep = Report()
    gl = {k: g for k, g in mod.globals.items()}
    def gkey(f, name):
        k = f.file + ':' + name
        return k if k in gl else name if name in gl else None
    pts = {}        # node -> set of objects
    succ = {}       # node -> nodes its set flows to
    contents = {}   # object -> node
    written = {}    # object -> [(function, value operand or None)]
    loads = {}; stores = {}; copies = []; writes = []
    work = []
    def P(n):
        return pts.setdefault(n, set())
    def addp(n, o):
        s = P(n)
        if o not in s:
            s.add(o); work.append((n, o))
    def edge(a, b):
        s = succ.setdefault(a, set())
        if b not in s:
            s.add(b)
            for o in list(P(a)):
                addp(b, o)
    def C(o):
        return ('*', o)
    def node(f, v):
        """node of an operand; None if it carries no address"""
        if v[0] == 'r':
            return (f.key, v[1])
        if v[0] == 'g':
            k = gkey(f, v[1])
            if k is None:
                return None
            n = ('g', k); addp(n, ('G', k)); return n
        if v[0] == 'ce':
            import re
            for m in re.finditer(r'@("[^"]*"|[\w.$-]+)', v[1]):
                k = gkey(f, m.group(1))
                if k is not None:
                    n = ('g', k); addp(n, ('G', k)); return n
        return None
    def resolve(f, name):
        k = f.file + ':' + name
        return k if k in mod.funcs else name if name in mod.funcs else None
    for k, f in mod.funcs.items():
        f.key = k
    rets = {}
    wnodes = []     # (node, function, value operand): everything the node points to is written
    for k, f in mod.funcs.items():
        rep.funcs += 1
        for t, r, a in f.params:
            if not f.internal:
                addp((k, r), ('EXT',))
        addp(C(('EXT',)), ('EXT',))
        for lab, blk in f.blocks.items():
            for ins in blk:
                op, d = ins[0], ins[1]
                D = (k, d)
                if op == 'alloca':
                    addp(D, ('A', k, d))
                elif op == 'load':
                    n = node(f, ins[3])
                    if n: loads.setdefault(n, []).append(D); 
                elif op == 'store':
                    n = node(f, ins[4]); v = node(f, ins[3])
                    if n:
                        wnodes.append((n, k, ins[3]))
                        if v: stores.setdefault(n, []).append(v)
                elif op == 'gep':
                    n = node(f, ins[3])
                    if n: edge(n, D)
                elif op == 'cast':
                    n = node(f, ins[4])
                    if n: edge(n, D)
                elif op == 'phi':
                    for x in ins[3]:
                        for y in x:
                            if isinstance(y, tuple):
                                n = node(f, y)
                                if n: edge(n, D)
                elif op == 'select':
                    for y in ins[4:6]:
                        n = node(f, y)
                        if n: edge(n, D)
                elif op in ('extractvalue', 'insertvalue', 'bin', 'freeze') or op not in ('br', 'condbr', 'switch', 'ret', 'call', 'icmp', 'unreachable', 'unsupported', 'jmp'):
                    for y in ins[2:]:
                        if isinstance(y, tuple) and len(y) == 2 and y[0] in ('r', 'g', 'ce'):
                            n = node(f, y)
                            if n: edge(n, D)
                if op == 'unsupported':
                    rep.unsup.append('%s: instruction %s' % (k, str(ins[1:])[:80]))
                if op == 'ret':
                    for y in ins[1:]:
                        if isinstance(y, tuple) and len(y) == 2 and y[0] in ('r', 'g', 'ce'):
                            n = node(f, y)
                            if n: edge(n, ('ret', k))
                if op == 'call':
                    name, args = ins[3], ins[4]
                    ns = [node(f, a[1]) for a in args]
                    if not isinstance(name, str):
                        rep.unsup.append('%s: indirect call' % k); continue
                    tgt = resolve(f, name)
                    if tgt:
                        for p, n in zip(mod.funcs[tgt].params, ns):
                            if n: edge(n, (tgt, p[1]))
                        if d: edge(('ret', tgt), D)
                        continue
                    rep.extern.add(name); rep.obl += 1
                    base = name
                    if name in HIDDEN:
                        rep.fails.append('%s calls %s: the result depends on more than the arguments' % (k, name))
                    elif name in DEVICE:
                        pass
                    elif not (name in PURE or name.startswith('llvm.')):
                        rep.unsup.append('%s calls %s, for which there is no contract' % (k, name))
                    if name in ('asm',) :
                        rep.unsup.append('%s: inline assembly' % k)
                    if name in COPY:
                        copies.append((ns[0], ns[1])); 
                        if ns[0]: wnodes.append((ns[0], k, None))
                        if ns[0] and d: edge(ns[0], D)
                    elif name in SET:
                        if ns[0]: wnodes.append((ns[0], k, None))
                        if ns[0] and d: edge(ns[0], D)
                    elif name in ('SHA256', 'SHA512'):
                        if len(ns) > 2 and ns[2]:
                            wnodes.append((ns[2], k, None))
                            if d: edge(ns[2], D)
                        if len(args) > 2 and args[2][1] == ('c', 0):
                            rep.fails.append('%s calls %s with its static output buffer' % (k, name))
                    elif name in READONLY:
                        pass
                    elif name.startswith('llvm.threadlocal'):
                        edge(ns[0], D)
                    elif name in ('malloc', 'calloc'):
                        addp(D, ('H', k, d))
                    elif name in FIRST or True:
                        for n in ns:
                            if n and not name.startswith(('llvm.stack', 'llvm.fshl', 'llvm.fshr', 'llvm.b', 'llvm.umin', 'llvm.umax', 'llvm.ct')):
                                wnodes.append((n, k, None))
    for k, g in gl.items():
        for b in g.get('bytes') or ():
            if isinstance(b, tuple) and b[0] == 'gp' and b[2] == 0:
                for kk in (g['file'] + ':' + b[1], b[1]):
                    if kk in gl:
                        addp(C(('G', k)), ('G', kk)); break
    # fixpoint
    cp = {}
    for a, b in copies:
        if a and b:
            cp.setdefault(a, []).append(('dst', b)); cp.setdefault(b, []).append(('src', a))
    seen = set()
    while work:
        n, o = work.pop()
        for m in list(succ.get(n, ())):
            addp(m, o)
        for d in loads.get(n, ()):
            edge(C(o), d)
        for v in stores.get(n, ()):
            edge(v, C(o))
        for kind, m in cp.get(n, ()):
            for q in list(P(m)):
                a, b = (o, q) if kind == 'dst' else (q, o)
                edge(C(b), C(a))
    for n, k, v in wnodes:
        for o in P(n):
            written.setdefault(o, []).append((k, v))
            rep.obl += 1
    # objects with static storage that outlive a call
    for k, g in sorted(gl.items()):
        if g['kind'] == 'constant' or g.get('ext'):
            continue
        o = ('G', k)
        rep.objects.append(k)
        rep.obl += 1
        w = written.get(o, [])
        if o in P(C(('EXT',))):
            rep.unsup.append('the address of %s is handed out' % k)
        if not w:
            continue
        rep.written[k] = sorted({x for x, _ in w})
        if device(mod, g, w):
            continue
        rep.fails.append('%s, which outlives the call, is written by %s' % (k, ', '.join(rep.written[k])[:200]))
    for k, g in sorted(gl.items()):
        if g.get('ext') and ('G', k) in written:
            rep.unsup.append('external object %s is written' % k)
    return rep

def device(mod, g, w):
    """the descriptor of the random device: an integer that only ever gets the
    result of open or a constant, in the code that opens the device"""
    if g['type'] != ('i', 32):
        return False
    for k, v in w:
        f = mod.funcs[k]
        if v is None:
            return False
        if v[0] == 'c':
            continue
        ok = False
        defs = {}
        for blk in f.blocks.values():
            for ins in blk:
                if ins[1] is not None and ins[0] != 'store':
                    defs[ins[1]] = ins
        todo = [v]; seen = set(); src = []
        while todo:
            x = todo.pop()
            if x[0] != 'r' or x[1] in seen:
                continue
            seen.add(x[1])
            i = defs.get(x[1])
            if i is None:
                return False
            if i[0] == 'call':
                src.append(i[3])
            elif i[0] == 'load' and i[3][0] == 'r':
                for blk in f.blocks.values():
                    for q in blk:
                        if q[0] == 'store' and q[4] == i[3]:
                            todo.append(q[3])
            elif i[0] == 'select':
                todo += [i[4], i[5]]
            elif i[0] == 'phi':
                todo += [y for q in i[3] for y in q if isinstance(y, tuple)]
            elif i[0] == 'load':
                pass
            else:
                return False
        # a value handed back by a helper counts if the helper opens the device
        for q in src:
            if q not in ('open', 'open64') and not (isinstance(q, str) and any(j[0] == 'call' and j[3] in ('open', 'open64') for h in (mod.funcs.get(q), mod.funcs.get(f.file + ':' + q)) if h for b in h.blocks.values() for j in b)):
                return False
    return True
