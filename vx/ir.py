"""Textual LLVM IR (clang -O0) reader.  Nothing of a function body is dropped
except debug/alignment/attribute annotations; an instruction this reader does
not know becomes ('unsupported', text) and fails the obligation that runs it."""
import re, subprocess, os

CLANG = '/usr/bin/clang'

class Func:
    def __init__(s):
        s.name = None; s.ret = None; s.params = []; s.blocks = {}; s.entry = None
        s.file = None; s.internal = False

class Module:
    def __init__(s):
        s.funcs = {}; s.globals = {}; s.structs = {}; s.decls = set()

def split_top(s):
    out = []; d = 0; cur = ''
    q = False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in '([{<':
                d += 1
            elif ch in ')]}>':
                d -= 1
            elif ch == ',' and d == 0:
                out.append(cur.strip()); cur = ''
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out

_ty = {}

def parse_type(s, structs):
    """returns (type, rest).  types: ('i',n) ('ptr',) ('arr',n,t) ('struct',name) ('void',)"""
    s = s.lstrip()
    m = re.match(r'i(\d+)\b', s)
    if m:
        return ('i', int(m.group(1))), s[m.end():]
    if s.startswith('ptr'):
        return ('ptr',), s[3:]
    if s.startswith('void'):
        return ('void',), s[4:]
    if s.startswith('double'):
        return ('f', 64), s[6:]
    if s.startswith('float'):
        return ('f', 32), s[5:]
    m = re.match(r'\[(\d+) x ', s)
    if m:
        t, r = parse_type(s[m.end():], structs)
        r = r.lstrip()
        assert r[0] == ']', s
        return ('arr', int(m.group(1)), t), r[1:]
    m = re.match(r'%("[^"]*"|[\w.$-]+)', s)
    if m:
        return ('struct', m.group(1)), s[m.end():]
    if s.startswith('{'):
        d = 0
        for i, ch in enumerate(s):
            if ch == '{':
                d += 1
            elif ch == '}':
                d -= 1
                if d == 0:
                    body = s[1:i]
                    return ('lit', tuple(parse_type(x, structs)[0] for x in split_top(body))), s[i + 1:]
    if s.startswith('...'):
        return ('vararg',), s[3:]
    raise ValueError('type: ' + s[:60])

class Layout:
    def __init__(s, mod):
        s.mod = mod; s.cache = {}

    def size_align(s, t):
        r = s.cache.get(t)
        if r is None:
            r = s.cache[t] = s._sa(t)
        return r

    def _sa(s, t):
        if t[0] == 'i':
            n = (t[1] + 7) // 8
            a = 1
            while a < n:
                a *= 2
            return (a, min(a, 16))
        if t[0] == 'ptr':
            return (8, 8)
        if t[0] == 'f':
            return (t[1] // 8, t[1] // 8)
        if t[0] == 'arr':
            z, a = s.size_align(t[2])
            return (z * t[1], a)
        offs, z, a = s.struct(t)
        return (z, a)

    def fields(s, t):
        return s.mod.structs[t[1]] if t[0] == 'struct' else t[1]

    def struct(s, t):
        off = 0; al = 1; offs = []
        for f in s.fields(t):
            z, a = s.size_align(f)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += z; al = max(al, a)
        return offs, (off + al - 1) // al * al, al

def parse_value(tok, ty):
    """operand: ('c',int) | ('r',name) | ('g',name) | ('ce', text)"""
    tok = tok.strip()
    if tok.startswith('%'):
        return ('r', tok[1:])
    if tok.startswith('@'):
        return ('g', tok[1:])
    if tok in ('null', 'zeroinitializer'):
        return ('c', 0)
    if tok == 'true':
        return ('c', 1)
    if tok == 'false':
        return ('c', 0)
    if tok in ('undef', 'poison'):
        return ('u', None)
    if re.match(r'-?\d+$', tok):
        v = int(tok)
        w = ty[1] if ty[0] == 'i' else 64
        return ('c', v & ((1 << w) - 1))
    return ('ce', tok)

_ATTR = re.compile(r'\b(noundef|zeroext|signext|nonnull|nocapture|readonly|writeonly|noalias|returned|inreg|immarg|inbounds|nuw|nsw|exact|dereferenceable\(\d+\)|align \d+|sret\([^)]*\)|byval\([^)]*\)|captures\([^)]*\)|nofree|noreturn|nneg|disjoint)\b\s*')

def parse_operand(s, mod):
    """'<type> [attrs] <value>' -> (type, operand, attrs)"""
    t, r = parse_type(s, mod.structs)
    attrs = _ATTR.findall(r)
    r = _ATTR.sub('', r).strip()
    if t[0] == 'vararg':
        return t, ('c', 0), attrs
    return t, parse_value(r, t), attrs

def parse_instr(line, mod, fn):
    line = line.strip()
    line = re.sub(r', !\w+(\.\w+)* !\d+', '', line)
    line = re.sub(r', !srcloc !\d+', '', line)
    dest = None
    m = re.match(r'%("[^"]*"|[\w.$-]+) = ', line)
    if m:
        dest = m.group(1); body = line[m.end():]
    else:
        body = line
    try:
        return _instr(dest, body, mod)
    except Exception as e:
        return ('unsupported', dest, '%s (%s)' % (line, e))

BINOPS = ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor')

def _instr(dest, b, mod):
    op = b.split(None, 1)[0]
    rest = b[len(op):].strip()
    if op == 'alloca':
        rest = re.sub(r', align \d+$', '', rest)
        ps = split_top(rest)
        t, _ = parse_type(ps[0], mod.structs)
        n = ('c', 1)
        nt = ('i', 64)
        if len(ps) > 1:
            nt, n, _ = parse_operand(ps[1], mod)
        return ('alloca', dest, t, n)
    if op == 'load':
        rest = re.sub(r'^volatile ', '', rest)
        ps = split_top(rest)
        t, _ = parse_type(ps[0], mod.structs)
        _, p, _ = parse_operand(ps[1], mod)
        return ('load', dest, t, p)
    if op == 'store':
        rest = re.sub(r'^volatile ', '', rest)
        ps = split_top(rest)
        t, v, _ = parse_operand(ps[0], mod)
        _, p, _ = parse_operand(ps[1], mod)
        return ('store', None, t, v, p)
    if op == 'getelementptr':
        inb = rest.startswith('inbounds')
        rest = re.sub(r'^(inbounds|nuw|nusw)\s+', '', rest)
        rest = re.sub(r'^(inbounds|nuw|nusw)\s+', '', rest)
        ps = split_top(rest)
        t, _ = parse_type(ps[0], mod.structs)
        _, p, _ = parse_operand(ps[1], mod)
        idx = []
        for x in ps[2:]:
            it, iv, _ = parse_operand(x, mod)
            idx.append((it, iv))
        return ('gep', dest, t, p, idx)
    if op in BINOPS:
        flags = []
        while True:
            m = re.match(r'(nuw|nsw|exact|disjoint)\s+', rest)
            if not m:
                break
            flags.append(m.group(1)); rest = rest[m.end():]
        t, r = parse_type(rest, mod.structs)
        ps = split_top(r)
        return ('bin', dest, op, t, parse_value(ps[0], t), parse_value(ps[1], t), tuple(flags))
    if op == 'icmp':
        pred, r = rest.split(None, 1)
        if pred == 'samesign':
            pred, r = r.split(None, 1)
        t, r = parse_type(r, mod.structs)
        ps = split_top(r)
        return ('icmp', dest, pred, t, parse_value(ps[0], t), parse_value(ps[1], t))
    if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
        rest = re.sub(r'^(nneg|nuw|nsw)\s+', '', rest)
        if op == 'freeze':
            t, v, _ = parse_operand(rest, mod)
            return ('cast', dest, 'bitcast', t, v, t)
        a, tt = rest.rsplit(' to ', 1)
        t, v, _ = parse_operand(a, mod)
        t2, _ = parse_type(tt, mod.structs)
        return ('cast', dest, op, t, v, t2)
    if op == 'br':
        if rest.startswith('label'):
            return ('br', None, rest.split('%', 1)[1].strip().strip('"'))
        ps = split_top(rest)
        _, c, _ = parse_operand(ps[0], mod)
        return ('cbr', None, c, ps[1].split('%', 1)[1].strip('"'), ps[2].split('%', 1)[1].strip('"'))
    if op == 'switch':
        m = re.match(r'(.*?), label %([\w.$-]+) \[(.*)\]$', rest, re.S)
        t, v, _ = parse_operand(m.group(1), mod)
        cases = [(int(x) & ((1 << t[1]) - 1), l) for x, l in re.findall(r'i\d+ (-?\d+), label %([\w.$-]+)', m.group(3))]
        return ('switch', None, t, v, m.group(2), cases)
    if op == 'ret':
        if rest == 'void':
            return ('ret', None, None, None)
        t, v, _ = parse_operand(rest, mod)
        return ('ret', None, t, v)
    if op == 'unreachable':
        return ('unreachable', None)
    if op == 'phi':
        t, r = parse_type(rest, mod.structs)
        inc = []
        for x in split_top(r):
            m = re.match(r'\[\s*(.*?),\s*%([\w.$-]+)\s*\]', x)
            inc.append((parse_value(m.group(1), t), m.group(2)))
        return ('phi', dest, t, inc)
    if op == 'select':
        ps = split_top(rest)
        _, c, _ = parse_operand(ps[0], mod)
        t, a, _ = parse_operand(ps[1], mod)
        _, bb, _ = parse_operand(ps[2], mod)
        return ('select', dest, t, c, a, bb)
    if op in ('call', 'tail', 'musttail', 'notail'):
        if op != 'call':
            rest = rest.split(None, 1)[1]
        m = re.match(r'(?:(?:noalias|noundef|zeroext|signext|nonnull|fastcc|ccc|dereferenceable\(\d+\)|align \d+)\s+)*', rest)
        r = rest[m.end():]
        t, r = parse_type(r, mod.structs)
        r = r.strip()
        if r.startswith('('):       # vararg function type
            d = 0
            for i, ch in enumerate(r):
                d += (ch == '(') - (ch == ')')
                if d == 0:
                    r = r[i + 1:].strip()
                    break
        m = re.match(r'@("[^"]*"|[\w.$-]+)\(', r)
        ind = None
        if not m:
            m = re.match(r'%([\w.$-]+)\(', r)
            if not m:
                raise ValueError('call target')
            ind = m.group(1)
        d = 1; i = m.end()
        while d:
            d += (r[i] == '(') - (r[i] == ')')
            i += 1
        args = []
        for x in split_top(r[m.end():i - 1]):
            args.append(parse_operand(x, mod))
        return ('call', dest, t, ('r', ind) if ind else m.group(1), args)
    if op == 'extractvalue':
        ps = split_top(rest)
        t, v, _ = parse_operand(ps[0], mod)
        return ('extractvalue', dest, t, v, [int(x) for x in ps[1:]])
    if op == 'insertvalue':
        ps = split_top(rest)
        t, v, _ = parse_operand(ps[0], mod)
        t2, v2, _ = parse_operand(ps[1], mod)
        return ('insertvalue', dest, t, v, t2, v2, [int(x) for x in ps[2:]])
    raise ValueError('op ' + op)

def const_bytes(t, s, mod, lay):
    """initialiser text -> (bytes list, rest)"""
    s = s.strip()
    z, _ = lay.size_align(t)
    if s.startswith('zeroinitializer'):
        return [0] * z, s[len('zeroinitializer'):]
    if s.startswith('undef') or s.startswith('poison'):
        return [0] * z, s[5:]
    if t[0] == 'i':
        m = re.match(r'-?\d+|true|false', s)
        v = {'true': 1, 'false': 0}.get(m.group(0))
        if v is None:
            v = int(m.group(0))
        return list((v & ((1 << (8 * z)) - 1)).to_bytes(z, 'little')), s[m.end():]
    if t[0] == 'ptr':
        m = re.match(r'null', s)
        if m:
            return [0] * 8, s[4:]
        m = re.match(r'@("[^"]*"|[\w.$-]+)', s)
        if m:
            return [('gp', m.group(1), k) for k in range(8)], s[m.end():]
        raise ValueError('ptr const ' + s[:40])
    if t[0] == 'arr':
        if s.startswith('c"'):
            out = []; i = 2
            while s[i] != '"':
                if s[i] == '\\':
                    out.append(int(s[i + 1:i + 3], 16)); i += 3
                else:
                    out.append(ord(s[i])); i += 1
            return out, s[i + 1:]
        assert s[0] == '[', s[:40]
        s = s[1:]; out = []
        for k in range(t[1]):
            et, s = parse_type(s, mod.structs)
            b, s = const_bytes(et, s, mod, lay)
            out += b
            s = s.lstrip()
            if s.startswith(','):
                s = s[1:]
        s = s.lstrip()
        assert s[0] == ']'
        return out, s[1:]
    if t[0] in ('struct', 'lit'):
        assert s[0] == '{', s[:40]
        s = s[1:]
        offs, z, _ = lay.struct(t)
        out = [0] * z
        for k, f in enumerate(lay.fields(t)):
            et, s = parse_type(s, mod.structs)
            b, s = const_bytes(et, s, mod, lay)
            out[offs[k]:offs[k] + len(b)] = b
            s = s.lstrip()
            if s.startswith(','):
                s = s[1:]
        s = s.lstrip()
        assert s[0] == '}'
        return out, s[1:]
    raise ValueError('const')

def parse_module(text, mod, fname):
    lines = text.split('\n')
    i = 0
    ren = {}
    # first pass: structs
    for l in lines:
        m = re.match(r'%("[^"]*"|[\w.$-]+) = type (.*)$', l)
        if m:
            if m.group(2).strip() == 'opaque':
                mod.structs.setdefault(m.group(1), ())
                continue
            body = m.group(2).strip()
            packed = body.startswith('<{')
            if packed:
                body = body[1:-1]
            mod.structs[m.group(1)] = tuple(parse_type(x, mod.structs)[0] for x in split_top(body.strip()[1:-1]))
    lay = Layout(mod)
    cur = None; blk = None; acc = None
    for l in lines:
        m = re.match(r'@("[^"]*"|[\w.$-]+) = (.*)$', l)
        if m and cur is None:
            name, r = m.group(1), m.group(2)
            kind = None
            mm = re.search(r'\b(global|constant)\b', r)
            kind = mm.group(1)
            pre = r[:mm.start()]
            r2 = r[mm.end():].strip()
            ext = 'external' in pre
            t, rr = parse_type(r2, mod.structs)
            loc = ('internal' in pre) or ('private' in pre)
            g = dict(name=name, kind=kind, type=t, ext=ext, file=fname, bytes=None, local=loc)
            if not ext:
                try:
                    g['bytes'], _ = const_bytes(t, rr, mod, lay)
                except Exception as e:
                    g['err'] = str(e)
            key = name
            if loc:
                key = fname + ':' + name
            mod.globals[key] = g
            continue
        if l.startswith('define '):
            f = Func()
            f.internal = ' internal ' in l
            m = re.search(r'@("[^"]*"|[\w.$-]+)\((.*)\)[^()]*\{$', l)
            # find param list with balanced parentheses
            m0 = re.search(r'@("[^"]*"|[\w.$-]+)\(', l)
            f.name = m0.group(1)
            d = 1; k = m0.end()
            while d:
                d += (l[k] == '(') - (l[k] == ')')
                k += 1
            plist = l[m0.end():k - 1]
            pre = l[len('define '):m0.start()]
            pre = re.sub(r'\b(internal|dso_local|noundef|zeroext|signext|hidden|linkonce_odr|weak|noalias|inlinehint)\b\s*', '', pre)
            f.ret, _ = parse_type(pre, mod.structs)
            for x in split_top(plist):
                if x == '...':
                    continue
                t, v, a = parse_operand(x, mod)
                f.params.append((t, v[1], a))
            f.file = fname
            cur = f; blk = None
            continue
        if cur is not None:
            if l == '}':
                if acc:
                    raise ValueError('dangling')
                key = cur.name
                if key in mod.funcs and cur.internal:
                    key = fname + ':' + cur.name
                mod.funcs[key] = cur
                cur = None
                continue
            m = re.match(r'([\w.$-]+):', l)
            if m and not l.startswith(' '):
                blk = m.group(1)
                cur.blocks[blk] = []
                if cur.entry is None:
                    cur.entry = blk
                continue
            s = l.strip()
            if not s or s.startswith(';'):
                continue
            if acc is not None:
                acc += ' ' + s
                if s.startswith(']'):
                    cur.blocks[blk].append(parse_instr(acc, mod, cur)); acc = None
                continue
            if s.startswith('switch') and not s.endswith(']'):
                acc = s
                continue
            if s.startswith('call void @llvm.lifetime') or s.startswith('call void @llvm.dbg') or s.startswith('#dbg'):
                continue
            if blk is None:
                blk = 'entry0'
                cur.blocks[blk] = []; cur.entry = blk
            cur.blocks[blk].append(parse_instr(s, mod, cur))
    return mod

def compile_ll(src, out, defs=()):
    r = subprocess.run([CLANG, '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
                        '-w', '-S', '-emit-llvm', '-o', out, src] + list(defs), capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('clang failed on %s:\n%s' % (src, r.stderr[-2000:]))

def load(repo, files, outdir, defs=()):
    mod = Module()
    os.makedirs(outdir, exist_ok=True)
    for f in files:
        o = os.path.join(outdir, f.replace('/', '_') + '.ll')
        compile_ll(os.path.join(repo, f), o, defs)
        parse_module(open(o).read(), mod, f)
    for f in mod.funcs.values():
        analyse(f)
    return mod

# ---------------------------------------------------------------- CFG analysis

def succs(ins):
    t = ins[-1]
    if t[0] == 'br':
        return [t[2]]
    if t[0] == 'cbr':
        return [t[3], t[4]] if t[3] != t[4] else [t[3]]
    if t[0] == 'switch':
        r = [t[4]]
        for _, l in t[5]:
            if l not in r:
                r.append(l)
        return r
    return []

def analyse(f):
    blocks = list(f.blocks)
    S = {b: [x for x in succs(f.blocks[b])] if f.blocks[b] else [] for b in blocks}
    f.succ = S
    EXIT = None
    P = {b: [] for b in blocks}
    for b in blocks:
        for x in S[b]:
            P[x].append(b)
    f.pred = P
    # reachable
    seen = {f.entry}; st = [f.entry]
    while st:
        b = st.pop()
        for x in S[b]:
            if x not in seen:
                seen.add(x); st.append(x)
    blocks = [b for b in blocks if b in seen]
    # dominators
    dom = {b: set(blocks) for b in blocks}
    dom[f.entry] = {f.entry}
    ch = True
    while ch:
        ch = False
        for b in blocks:
            if b == f.entry:
                continue
            ps = [dom[p] for p in P[b] if p in seen]
            n = set.intersection(*ps) | {b} if ps else {b}
            if n != dom[b]:
                dom[b] = n; ch = True
    f.dom = dom
    # post-dominators (virtual exit 'X')
    full = set(blocks) | {'<exit>'}
    pd = {b: set(full) for b in blocks}
    pd['<exit>'] = {'<exit>'}
    ch = True
    while ch:
        ch = False
        for b in reversed(blocks):
            ss = S[b] or ['<exit>']
            n = set.intersection(*[pd[x] for x in ss]) | {b}
            if n != pd[b]:
                pd[b] = n; ch = True
    ip = {}
    for b in blocks:
        c = pd[b] - {b}
        r = None
        for x in c:
            if all((y in pd[x]) for y in c):
                r = x
                break
        ip[b] = r if r != '<exit>' else None
    f.ipdom = ip
    # natural loops
    loops = {}
    for b in blocks:
        for x in S[b]:
            if x in dom[b]:
                body = loops.setdefault(x, {x})
                st = [b]
                while st:
                    y = st.pop()
                    if y in body:
                        continue
                    body.add(y)
                    st.extend(p for p in P[y] if p in seen)
    f.loops = loops
    # live scalar allocas (never escaping: only load/store through them)
    al = {}
    for b in f.blocks:
        for ins in f.blocks[b]:
            if ins[0] == 'alloca' and ins[3] == ('c', 1) and ins[2][0] in ('i', 'ptr'):
                al[ins[1]] = True
    def uses(ins):
        for x in ins[1:]:
            yield x
    for b in f.blocks:
        for ins in f.blocks[b]:
            if ins[0] == 'load':
                continue
            if ins[0] == 'store':
                v = ins[3]
                if v[0] == 'r' and v[1] in al:
                    al[v[1]] = False
                continue
            st = [ins[1:]]
            while st:
                x = st.pop()
                if isinstance(x, (tuple, list)):
                    if len(x) == 2 and x[0] == 'r' and x[1] in al:
                        al[x[1]] = False
                    else:
                        st.extend(x)
    sc = {a for a, ok in al.items() if ok}
    f.scalars = sc
    use = {}; df = {}
    for b in blocks:
        u = set(); d = set()
        for ins in f.blocks[b]:
            if ins[0] == 'load' and ins[3][0] == 'r' and ins[3][1] in sc and ins[3][1] not in d:
                u.add(ins[3][1])
            elif ins[0] == 'store' and ins[4][0] == 'r' and ins[4][1] in sc:
                d.add(ins[4][1])
        use[b] = u; df[b] = d
    live = {b: set() for b in blocks}
    ch = True
    while ch:
        ch = False
        for b in reversed(blocks):
            o = set()
            for x in S[b]:
                o |= live[x]
            n = use[b] | (o - df[b])
            if n != live[b]:
                live[b] = n; ch = True
    f.live = live
