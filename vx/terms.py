"""Interned bit-vector terms with normalising constructors.

A value is a Python int (a constant; its width is known from the context) or
a T.  Values are kept in a slice normal form: a value is a concatenation of
pieces (constant | slice of an atom), least significant first, so that byte
splitting, shifting, masking and re-assembling are all canonical.  Addition is
kept in linear normal form, XOR as a sorted set.  Every constructor is an
equality-preserving rewrite (checked against z3 by vx/selftest.py)."""

class T:
    __slots__ = ('op', 'w', 'args', 'id', '_rng', '_z')

    def __repr__(self):
        return show(self, 4)

    def __reduce__(self):
        raise TypeError('terms do not pickle')

_tab = {}
_next = [0]

def mk(op, w, args):
    k = (op, w, args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op; t.w = w; t.args = args; t.id = _next[0]
        t._rng = None; t._z = None
        _next[0] += 1
        _tab[k] = t
    return t

def reset():
    _tab.clear()

_fresh = [0]

def var(name, w):
    return mk('var', w, (name,))

def fresh(name, w):
    _fresh[0] += 1
    return mk('var', w, ('%s!%d' % (name, _fresh[0]),))

def app(name, w, *args):
    return mk('app', w, (name,) + args)

def show(t, d=6):
    if isinstance(t, int):
        return hex(t) if t > 255 else str(t)
    if isinstance(t, tuple):
        return '(' + ','.join(show(x, d) for x in t[:8]) + (',..' if len(t) > 8 else '') + ')'
    if not isinstance(t, T):
        return str(t)
    if t.op == 'var':
        return t.args[0]
    if d <= 0:
        return '..'
    if t.op == 'cat':
        ps = []
        for (v, lo, w) in reversed(t.args[:12]):
            if isinstance(v, int):
                ps.append('%s:%d' % (show(v), w))
            elif lo == 0 and w == v.w:
                ps.append(show(v, d - 1))
            else:
                ps.append('%s[%d+:%d]' % (show(v, d - 1), lo, w))
        return '{' + ','.join(ps) + (',..' if len(t.args) > 12 else '') + '}'
    if t.op == 'app':
        return '%s(%s)' % (t.args[0], ','.join(show(x, d - 1) for x in t.args[1:]))
    if t.op == 'add':
        return '(' + ' + '.join([str(t.args[0])] + ['%d*%s' % (c, show(a, d - 1)) for a, c in t.args[1]]) + ')'
    return '%s(%s)' % (t.op, ','.join(show(x, d - 1) for x in t.args[:8]))

# ---------------------------------------------------------------- slices

def pieces(v, w):
    if isinstance(v, int):
        return ((v, 0, w),)
    if v.op == 'cat':
        return v.args
    return ((v, 0, v.w),)

def from_pieces(ps):
    """ps: iterable of (int|T(non cat), lo, w), LSB first; merges neighbours."""
    out = []
    for p in ps:
        v, lo, w = p
        if w == 0:
            continue
        if out:
            v0, lo0, w0 = out[-1]
            if isinstance(v, int):
                if isinstance(v0, int):
                    out[-1] = (v0 | (v << w0), 0, w0 + w)
                    continue
            elif v0 is v and lo0 + w0 == lo:
                out[-1] = (v0, lo0, w0 + w)
                continue
        out.append((v, lo, w))
    if len(out) == 1:
        v, lo, w = out[0]
        if isinstance(v, int):
            return v
        if lo == 0 and w == v.w:
            return v
        if lo == 0 and v.op == 'add' and w in (16, 32):
            m = (1 << w) - 1
            c, lin = v.args
            return lin_norm(c & m, [(ext(a, v.w, 0, w), k) for a, k in lin], w)
        return mk('cat', w, tuple(out))
    if not out:
        return 0
    return mk('cat', sum(p[2] for p in out), tuple(out))

_BITWISE = ('xor', 'and', 'or')

def _slice_atom(v, lo, w):
    """slice of a non-cat T as pieces"""
    if lo == 0 and w == v.w:
        return ((v, 0, w),)
    op = v.op
    if op == 'ite':
        r = ite(v.args[0], ext(v.args[1], v.w, lo, w), ext(v.args[2], v.w, lo, w), w)
        return pieces(r, w)
    if op == 'xor':
        return pieces(xor([ext(a, v.w, lo, w) for a in v.args], w), w)
    if op == 'and':
        r = ext(v.args[0], v.w, lo, w)
        for a in v.args[1:]:
            r = and_(r, ext(a, v.w, lo, w), w)
        return pieces(r, w)
    if op == 'or':
        r = ext(v.args[0], v.w, lo, w)
        for a in v.args[1:]:
            r = or_(r, ext(a, v.w, lo, w), w)
        return pieces(r, w)
    if op == 'add' and lo == 0 and w in (16, 32):
        m = (1 << w) - 1
        c, lin = v.args
        return pieces(lin_norm(c & m, [(ext(a, v.w, 0, w), k) for a, k in lin], w), w)
    if op == 'add':
        hi = rng(v)[1]
        if hi < (1 << lo):
            return ((0, 0, w),)
        hb = hi.bit_length()
        if hb < lo + w:
            return ((v, lo, hb - lo), (0, 0, lo + w - hb))
    return ((v, lo, w),)

def ext(v, vw, lo, w):
    """bits [lo, lo+w) of v, which has width vw"""
    if isinstance(v, int):
        return (v >> lo) & ((1 << w) - 1)
    if lo == 0 and w == vw:
        return v
    out = []
    pos = 0
    end = lo + w
    for (pv, plo, pw) in pieces(v, vw):
        if pos >= end:
            break
        a = max(pos, lo); b = min(pos + pw, end)
        if a < b:
            if isinstance(pv, int):
                out.append(((pv >> (a - pos)) & ((1 << (b - a)) - 1), 0, b - a))
            else:
                out.extend(_slice_atom(pv, plo + a - pos, b - a))
        pos += pw
    return from_pieces(out)

def cat(vals):
    """vals: list of (value, width) LSB first"""
    out = []
    for v, w in vals:
        out.extend(pieces(v, w))
    return from_pieces(out)

def cat_bytes_be(bs):
    return cat([(b, 8) for b in reversed(bs)])

def cat_bytes_le(bs):
    return cat([(b, 8) for b in bs])

def zext(v, w, w2):
    if isinstance(v, int) or w == w2:
        return v
    return from_pieces(pieces(v, w) + ((0, 0, w2 - w),))

def sext(v, w, w2):
    if w == w2:
        return v
    if isinstance(v, int):
        if v >> (w - 1):
            return v | (((1 << (w2 - w)) - 1) << w)
        return v
    if rng(v)[1] < (1 << (w - 1)):
        return zext(v, w, w2)
    b = ext(v, w, w - 1, 1)
    return from_pieces(list(pieces(v, w)) + list(pieces(b, 1)) * (w2 - w))

def trunc(v, w, w2):
    return ext(v, w, 0, w2)

def shl(v, k, w):
    if k >= w:
        return 0
    if isinstance(v, int):
        return (v << k) & ((1 << w) - 1)
    if k == 0:
        return v
    return from_pieces(((0, 0, k),) + pieces(ext(v, w, 0, w - k), w - k))

def lshr(v, k, w):
    if k >= w:
        return 0
    if isinstance(v, int):
        return v >> k
    if k == 0:
        return v
    return from_pieces(pieces(ext(v, w, k, w - k), w - k) + ((0, 0, k),))

def ashr(v, k, w):
    if k == 0:
        return v
    k = min(k, w - 1)
    return sext(ext(v, w, k, w - k), w - k, w)

# ---------------------------------------------------------------- ranges

def rng(v):
    if isinstance(v, int):
        return (v, v)
    r = v._rng
    if r is None:
        r = v._rng = _rng(v)
    return r

def _rng(v):
    op = v.op
    if op == 'cat':
        lo = hi = 0; pos = 0
        for (pv, plo, pw) in v.args:
            if isinstance(pv, int):
                lo += pv << pos; hi += pv << pos
            elif plo == 0:
                l, h = rng(pv)
                if h < (1 << pw):
                    lo += l << pos; hi += h << pos
                else:
                    hi += ((1 << pw) - 1) << pos
            else:
                hi += min((1 << pw) - 1, rng(pv)[1] >> plo) << pos
            pos += pw
        return (lo, hi)
    if op == 'add':
        c, lin = v.args
        M = 1 << v.w
        for c0 in ((c, c - M) if c else (0,)):
            lo = hi = c0
            for a, k in lin:
                l, h = rng(a)
                if k >= 0:
                    lo += k * l; hi += k * h
                else:
                    lo += k * h; hi += k * l
            if 0 <= lo and hi < M:
                return (lo, hi)
        return (0, M - 1)
    if op == 'ite':
        a = rng(v.args[1]); b = rng(v.args[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    if op == 'and':
        return (0, min(rng(a)[1] for a in v.args))
    if op == 'urem' and isinstance(v.args[1], int) and v.args[1]:
        return (0, v.args[1] - 1)
    if op == 'lshr' or op == 'udiv':
        return (0, rng(v.args[0])[1])
    return (0, (1 << v.w) - 1)

def exact_lin(v):
    """v is an 'add' node whose integer value (signed coefficients) never wraps:
    return (const, lin) over the integers, else None"""
    c, lin = v.args
    M = 1 << v.w
    for c0 in ((c, c - M) if c else (0,)):
        lo = hi = c0
        for a, k in lin:
            l, h = rng(a)
            if k >= 0:
                lo += k * l; hi += k * h
            else:
                lo += k * h; hi += k * l
        if 0 <= lo and hi < M:
            return (c0, lin)
    return None

# ---------------------------------------------------------------- arithmetic

def _lin_add(acc, v, k, w):
    """acc: [const, dict]; add k*v"""
    if isinstance(v, int):
        acc[0] += k * v
        return
    if v.op == 'add' and v.w == w:
        c, lin = v.args
        acc[0] += k * c
        for a, c1 in lin:
            acc[1][a] = acc[1].get(a, 0) + k * c1
        return
    if v.op == 'cat':
        # zero-extended, never-wrapping sum: distribute the extension
        ps = v.args
        if len(ps) == 2 and isinstance(ps[1][0], int) and ps[1][0] == 0 and not isinstance(ps[0][0], int):
            a0, lo, pw = ps[0]
            if lo == 0 and a0.op == 'add':
                e = exact_lin(a0)
                if e is not None and rng(a0)[1] < (1 << pw):
                    acc[0] += k * e[0]
                    for a, c1 in e[1]:
                        _lin_add(acc, zext(a, a0.w, w), k * c1, w)
                    return
        # low zero bits: x<<s  ==  (1<<s) * x ; keep as an atom
    acc[1][v] = acc[1].get(v, 0) + k

def lin_norm(c, lin, w):
    acc = [c, {}]
    for a, k in lin:
        _lin_add(acc, a, k, w)
    return _lin_done(acc, w)

def _lin_done(acc, w):
    M = 1 << w
    c = acc[0] % M
    half = M >> 1
    out = []
    for a, k in acc[1].items():
        k %= M
        if k == 0:
            continue
        if k > half:
            k -= M
        out.append((a, k))
    if not out:
        return c
    if len(out) == 1 and out[0][1] == 1:
        a = out[0][0]
        if c == 0:
            return a
        # constant that fits into the low constant piece without carry
        ps = pieces(a, w)
        if isinstance(ps[0][0], int):
            cv, _, cw = ps[0]
            s = cv + c
            if s < (1 << cw):
                return from_pieces(((s, 0, cw),) + ps[1:])
            # subtracting a small constant
            s2 = cv + c - M
            if s2 >= 0:
                return from_pieces(((s2, 0, cw),) + ps[1:])
        # constant fitting into zero top bits cannot be merged (carry)
    if len(out) == 1 and c == 0 and out[0][1] > 0 and out[0][1] & (out[0][1] - 1) == 0:
        return shl(out[0][0], out[0][1].bit_length() - 1, w)
    # disjoint-bit sums are concatenations
    if all(k == 1 for _, k in out) and len(out) + (c != 0) == 2:
        a = out[0][0]; b = out[1][0] if len(out) == 2 else c
        r = _disjoint_or(a, b, w)
        if r is not None:
            return r
    out.sort(key=lambda x: x[0].id)
    return mk('add', w, (c, tuple(out)))

def _disjoint_or(a, b, w):
    out = []
    for (x, y, pw) in aligned([a, b], w):
        if isinstance(x, int) and x == 0:
            out.extend(pieces(y, pw))
        elif isinstance(y, int) and y == 0:
            out.extend(pieces(x, pw))
        else:
            return None
    return from_pieces(out)

def aligned(vals, w):
    """split the values at the union of their piece boundaries.
    yields tuples (piece value of each ..., width)"""
    bounds = {0, w}
    for v in vals:
        if not isinstance(v, int) and v.op == 'cat':
            pos = 0
            for p in v.args:
                pos += p[2]
                bounds.add(pos)
    b = sorted(bounds)
    if len(b) == 2:
        yield tuple(vals) + (w,)
        return
    for i in range(len(b) - 1):
        lo, n = b[i], b[i + 1] - b[i]
        yield tuple(ext(v, w, lo, n) for v in vals) + (n,)

def add(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & ((1 << w) - 1)
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, int) and a == 0:
        return b
    acc = [0, {}]
    _lin_add(acc, a, 1, w); _lin_add(acc, b, 1, w)
    return _lin_done(acc, w)

def sub(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & ((1 << w) - 1)
    if isinstance(b, int) and b == 0:
        return a
    if a is b:
        return 0
    acc = [0, {}]
    _lin_add(acc, a, 1, w); _lin_add(acc, b, -1, w)
    return _lin_done(acc, w)

def mul(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a * b) & ((1 << w) - 1)
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return shl(a, b.bit_length() - 1, w) if not (isinstance(a, T) and a.op == 'add') else _scale(a, b, w)
        return _scale(a, b, w)
    if a.id > b.id:
        a, b = b, a
    return mk('mul', w, (a, b))

def _scale(a, k, w):
    acc = [0, {}]
    _lin_add(acc, a, k, w)
    return _lin_done(acc, w)

def udiv(a, b, w):
    if isinstance(b, int) and b:
        if isinstance(a, int):
            return a // b
        if b & (b - 1) == 0:
            return lshr(a, b.bit_length() - 1, w)
        q = _div_lin(a, b)
        if q is not None:
            return lin_norm(q[0] // b, q[1], w)
    return mk('udiv', w, (a, b))

def urem(a, b, w):
    if isinstance(b, int) and b:
        if isinstance(a, int):
            return a % b
        if b & (b - 1) == 0:
            k = b.bit_length() - 1
            return zext(ext(a, w, 0, k), k, w) if k else 0
        q = _div_lin(a, b)
        if q is not None:
            return q[0] % b
    return mk('urem', w, (a, b))

# ---------------------------------------------------------------- bitwise

def xor(vals, w):
    vals = [v for v in vals if not (isinstance(v, int) and v == 0)]
    if not vals:
        return 0
    if len(vals) == 1:
        return vals[0]
    if any(isinstance(v, T) and v.op == 'cat' for v in vals):
        parts = list(aligned(vals, w))
        if len(parts) > 1:
            return cat([(_xor1(p[:-1], p[-1]), p[-1]) for p in parts])
    return _xor1(vals, w)

def _xor1(vals, w):
    c = 0
    s = {}
    st = list(vals)
    while st:
        v = st.pop()
        if isinstance(v, int):
            c ^= v
        elif v.op == 'xor':
            st.extend(v.args)
        elif v.op == 'cat' and len(v.args) > 1:
            return xor(_xset(c, s, st + [v]), w)
        else:
            if v in s:
                del s[v]
            else:
                s[v] = 1
    if not s:
        return c
    l = sorted(s, key=lambda t: t.id)
    if c == 0 and len(l) == 1:
        return l[0]
    if c:
        if w == 1 and len(l) == 1:
            v = l[0]
        l = [c] + l
    return mk('xor', w, tuple(l))

def _xset(c, s, rest):
    l = list(s) + list(rest)
    if c:
        l.append(c)
    return l

def not_(v, w=1):
    return xor([v, (1 << w) - 1], w)

def and_(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    M = (1 << w) - 1
    if a is b:
        return a
    for x, y in ((a, b), (b, a)):
        if isinstance(x, int):
            if x == 0:
                return 0
            if x == M:
                return y
            out = []
            pos = 0
            while pos < w:      # runs of equal bits
                bit = (x >> pos) & 1
                e = pos
                while e < w and ((x >> e) & 1) == bit:
                    e += 1
                if bit:
                    out.extend(pieces(ext(y, w, pos, e - pos), e - pos))
                else:
                    out.append((0, 0, e - pos))
                pos = e
            return from_pieces(out)
    parts = list(aligned([a, b], w))
    if len(parts) > 1:
        return cat([(and_(p[0], p[1], p[2]), p[2]) for p in parts])
    s = {}
    for v in (a, b):
        for x in (v.args if v.op == 'and' else (v,)):
            s[x] = 1
    if w == 1:
        for x in s:
            if not_(x) in s:
                return 0
    if len(s) == 1:
        return next(iter(s))
    return mk('and', w, tuple(sorted(s, key=lambda t: t.id)))

def or_(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    M = (1 << w) - 1
    if a is b:
        return a
    for x, y in ((a, b), (b, a)):
        if isinstance(x, int):
            if x == 0:
                return y
            if x == M:
                return M
            out = []
            pos = 0
            while pos < w:
                bit = (x >> pos) & 1
                e = pos
                while e < w and ((x >> e) & 1) == bit:
                    e += 1
                if bit:
                    out.append(((1 << (e - pos)) - 1, 0, e - pos))
                else:
                    out.extend(pieces(ext(y, w, pos, e - pos), e - pos))
                pos = e
            return from_pieces(out)
    parts = list(aligned([a, b], w))
    if len(parts) > 1:
        return cat([(or_(p[0], p[1], p[2]), p[2]) for p in parts])
    s = {}
    for v in (a, b):
        for x in (v.args if v.op == 'or' else (v,)):
            s[x] = 1
    if w == 1:
        for x in s:
            if not_(x) in s:
                return 1
    if len(s) == 1:
        return next(iter(s))
    return mk('or', w, tuple(sorted(s, key=lambda t: t.id)))

# ---------------------------------------------------------------- predicates

def eq(a, b, w):
    if a is b:
        return 1
    if isinstance(a, int) and isinstance(b, int):
        return 1 if a == b else 0
    ra = rng(a); rb = rng(b)
    if ra[1] < rb[0] or rb[1] < ra[0]:
        return 0
    # linear: same atoms, different constant
    if (isinstance(a, T) and a.op == 'add') or (isinstance(b, T) and b.op == 'add'):
        d = sub(a, b, w)
        if isinstance(d, int):
            return 1 if d == 0 else 0
        if isinstance(a, T) and a.op == 'add' and isinstance(b, int) and a.args[0]:
            c, lin = a.args
            return eq(lin_norm(0, lin, w), (b - c) % (1 << w), w)
        if isinstance(b, T) and b.op == 'add' and isinstance(a, int) and b.args[0]:
            return eq(b, a, w)
    xs = []; ys = []
    for (x, y, pw) in aligned([a, b], w):
        if x is y or (isinstance(x, int) and isinstance(y, int) and x == y):
            continue
        if isinstance(x, int) and isinstance(y, int):
            return 0
        xs.append((x, pw)); ys.append((y, pw))
    if not xs:
        return 1
    if len(xs) == 1:
        (x, pw), (y, _) = xs[0], ys[0]
        if pw == 1:
            if isinstance(y, int):
                return x if y else not_(x)
            if isinstance(x, int):
                return y if x else not_(y)
        for p, q in ((x, y), (y, x)):
            if isinstance(p, T) and p.op == 'ite' and isinstance(q, int) \
                    and isinstance(p.args[1], int) and isinstance(p.args[2], int):
                return ite(p.args[0], eq(p.args[1], q, pw), eq(p.args[2], q, pw), 1)
            if isinstance(p, T) and p.op == 'xor' and isinstance(p.args[0], int) and isinstance(q, int):
                return eq(xor(p.args[1:], pw), q ^ p.args[0], pw)
    x = cat(xs); y = cat(ys)
    return _eqn(x, y)

def _eqn(x, y):
    if isinstance(x, int) or (isinstance(y, T) and x.id > y.id):
        x, y = y, x
    return mk('eq', 1, (x, y))

def ult(a, b, w):
    if a is b:
        return 0
    if isinstance(a, int) and isinstance(b, int):
        return 1 if a < b else 0
    ra = rng(a); rb = rng(b)
    if ra[1] < rb[0]:
        return 1
    if ra[0] >= rb[1]:
        return 0
    if isinstance(a, T) or isinstance(b, T):
        # as integers (when neither side wraps): sign of the difference
        x = int_lin(a); y = int_lin(b)
        if x is not None and y is not None:
            d = dict(y[1])
            for t, k in x[1].items():
                d[t] = d.get(t, 0) - k
            lo = hi = y[0] - x[0]
            for t, k in d.items():
                l, h = rng(t)
                lo += k * (l if k >= 0 else h); hi += k * (h if k >= 0 else l)
            if lo > 0:
                return 1
            if hi <= 0:
                return 0
    return mk('ult', 1, (w, a, b))

def int_lin(v):
    """v as an integer linear form (const, {atom: coefficient}) without wrap, or None"""
    if isinstance(v, int):
        return (v, {})
    if v.op == 'cat' and len(v.args) == 2 and isinstance(v.args[1][0], int) and v.args[1][0] == 0:
        x, lo, pw = v.args[0]
        if lo == 0 and isinstance(x, T) and x.w == pw:
            return int_lin(x)
        return (0, {v: 1})
    if v.op != 'add':
        return (0, {v: 1})
    e = exact_lin(v)
    if e is None:
        return None
    c = e[0]; acc = {}
    for t, k in e[1]:
        y = int_lin(t)
        if y is None:
            y = (0, {t: 1})
        c += k * y[0]
        for u, m in y[1].items():
            acc[u] = acc.get(u, 0) + k * m
    return (c, {u: m for u, m in acc.items() if m})

def _div_lin(a, b):
    """a = b * X + c as integers: (c, [(atom, k / b)])"""
    if not isinstance(a, T) or a.op != 'add':
        return None
    x = int_lin(a)
    if x is None or any(k % b for k in x[1].values()):
        return None
    return (x[0], [(zext(t, t.w, a.w), k // b) for t, k in x[1].items()])

def slt(a, b, w):
    H = 1 << (w - 1)
    if isinstance(a, int) and isinstance(b, int):
        f = lambda x: x - 2 * H if x >= H else x
        return 1 if f(a) < f(b) else 0
    if a is b:
        return 0
    if rng(a)[1] < H and rng(b)[1] < H:
        return ult(a, b, w)
    return mk('slt', 1, (w, a, b))

def ite(c, a, b, w):
    if isinstance(c, int):
        return a if c else b
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return a
    if c.op == 'xor' and isinstance(c.args[0], int):
        return ite(xor(c.args[1:], 1), b, a, w)
    if isinstance(a, T) and a.op == 'ite' and a.args[0] is c:
        return ite(c, a.args[1], b, w)
    if isinstance(b, T) and b.op == 'ite' and b.args[0] is c:
        return ite(c, a, b.args[2], w)
    if w == 1:
        if isinstance(a, int):
            return or_(c, b, 1) if a else and_(not_(c), b, 1)
        if isinstance(b, int):
            return or_(not_(c), a, 1) if b else and_(c, a, 1)
    if (isinstance(a, T) and a.op == 'cat') or (isinstance(b, T) and b.op == 'cat'):
        parts = list(aligned([a, b], w))
        if len(parts) > 1:
            return cat([(ite(c, p[0], p[1], p[2]), p[2]) for p in parts])
    return mk('ite', w, (c, a, b))

def conj(l):
    r = 1
    for x in l:
        r = and_(r, x, 1)
        if r == 0 and isinstance(r, int):
            return 0
    return r

# ---------------------------------------------------------------- substitution

def subst(v, m, memo=None, hooks=None):
    """rebuild v with atoms replaced according to m (dict T -> value)"""
    if memo is None:
        memo = {}
    return _subst(v, m, memo, hooks or {})

def _subst(v, m, memo, hooks):
    if isinstance(v, int):
        return v
    if isinstance(v, tuple):
        return tuple(_subst(x, m, memo, hooks) for x in v)
    if not isinstance(v, T):
        return v
    r = memo.get(v)
    if r is not None:
        return r
    if v in m:
        r = m[v]
    else:
        op = v.op; w = v.w; a = v.args
        S = lambda x: _subst(x, m, memo, hooks)
        if op == 'var':
            r = v
        elif op == 'cat':
            out = []
            for (p, lo, pw) in a:
                if isinstance(p, int):
                    out.append((p, pw))
                else:
                    out.append((ext(S(p), p.w, lo, pw), pw))
            r = cat(out)
        elif op == 'app':
            na = tuple(S(x) for x in a[1:])
            r = hooks[a[0]](w, *na) if a[0] in hooks else app(a[0], w, *na)
        elif op == 'add':
            r = lin_norm(a[0], [(S(x), k) for x, k in a[1]], w)
        elif op == 'xor':
            r = xor([S(x) for x in a], w)
        elif op == 'and':
            r = S(a[0])
            for x in a[1:]:
                r = and_(r, S(x), w)
        elif op == 'or':
            r = S(a[0])
            for x in a[1:]:
                r = or_(r, S(x), w)
        elif op == 'ite':
            c = S(a[0])
            if isinstance(c, int):
                r = S(a[1]) if c else S(a[2])
            else:
                r = ite(c, S(a[1]), S(a[2]), w)
        elif op == 'eq':
            ww = a[0].w if isinstance(a[0], T) else a[1].w
            r = eq(S(a[0]), S(a[1]), ww)
        elif op == 'ult':
            r = ult(S(a[1]), S(a[2]), a[0])
        elif op == 'slt':
            r = slt(S(a[1]), S(a[2]), a[0])
        elif op == 'mul':
            r = mul(S(a[0]), S(a[1]), w)
        elif op == 'udiv':
            r = udiv(S(a[0]), S(a[1]), w)
        elif op == 'urem':
            r = urem(S(a[0]), S(a[1]), w)
        elif op in ('shl', 'lshr', 'ashr'):
            x, y = S(a[0]), S(a[1])
            r = shift(op, x, y, w)
        else:
            raise NotImplementedError(op)
    memo[v] = r
    return r

def shift(op, a, b, w):
    if isinstance(b, int):
        return {'shl': shl, 'lshr': lshr, 'ashr': ashr}[op](a, b, w)
    return mk(op, w, (a, b))

# ---------------------------------------------------------------- z3 / smt2 export

import z3 as _z3

_zf = {}

_lv = {}
def leaves(v):
    """variables and applications (taken as opaque) that occur in v"""
    if isinstance(v, int):
        return frozenset()
    r = _lv.get(v)
    if r is None:
        if v.op in ('var', 'app'):
            r = frozenset((v,))
        else:
            acc = set(); seen = set(); st = [v]
            while st:
                x = st.pop()
                if isinstance(x, tuple):
                    st.extend(x)
                elif isinstance(x, T):
                    if x.id in seen:
                        continue
                    seen.add(x.id)
                    if x.op in ('var', 'app'):
                        acc.add(x)
                    elif x in _lv:
                        acc |= _lv[x]
                    else:
                        st.extend(x.args)
            r = frozenset(acc)
        _lv[v] = r
    return r

def dag_size(ts, lim, opaque=False):
    seen = set(); st = list(ts); n = 0
    while st and n < lim:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x.id not in seen:
            seen.add(x.id); n += 1
            if not (opaque and x.op == 'app'):
                st.extend(x.args)
    return n

def has_t(x):
    if isinstance(x, T):
        return True
    return isinstance(x, tuple) and any(has_t(y) for y in x)

_abs = False
_za = {}
def to_z3(v, w):
    if isinstance(v, int):
        return _z3.BitVecVal(v, w)
    if _abs:
        z = _za.get(v)
        if z is None:
            z = _za[v] = _z3.BitVec('!app%d' % v.id, v.w) if v.op == 'app' else _to_z3(v)
        return z
    if v._z is None:
        # iterative deepening is not needed: terms are shallow enough
        v._z = _to_z3(v)
    return v._z

def _zfun(name, sig, w):
    k = (name, sig, w)
    if k not in _zf:
        nm = '%s_%d' % (name, len(_zf))
        if sig:
            _zf[k] = _z3.Function(nm, *([_z3.BitVecSort(x) for x in sig] + [_z3.BitVecSort(w)]))
        else:
            _zf[k] = _z3.BitVec(nm, w)
    return _zf[k]

def b2bv(e):
    return _z3.If(e, _z3.BitVecVal(1, 1), _z3.BitVecVal(0, 1))

def _flat_args(x, sig, out):
    """flatten app arguments into z3 arguments; ints at static positions become
    part of the function name"""
    if isinstance(x, T):
        sig.append(x.w); out.append(to_z3(x, x.w))
        return ('t', x.w)
    if isinstance(x, tuple):
        return tuple(_flat_args(y, sig, out) for y in x)
    return x

def _to_z3(v):
    op = v.op; w = v.w; a = v.args
    if op == 'var':
        return _z3.BitVec(a[0], w)
    if op == 'cat':
        ps = []
        for (p, lo, pw) in reversed(a):
            if isinstance(p, int):
                ps.append(_z3.BitVecVal(p, pw))
            else:
                z = to_z3(p, p.w)
                ps.append(z if (lo == 0 and pw == p.w) else _z3.Extract(lo + pw - 1, lo, z))
        return ps[0] if len(ps) == 1 else _z3.Concat(*ps)
    if op == 'app':
        sig = []; args = []
        key = []
        for x in a[1:]:
            # small ints are scalar arguments (64 bit) so that congruence works
            if isinstance(x, int) and 0 <= x < (1 << 64):
                sig.append(64); args.append(_z3.BitVecVal(x, 64)); key.append('s')
            elif isinstance(x, T) and x.w <= 64:
                sig.append(64); args.append(_z3.ZeroExt(64 - x.w, to_z3(x, x.w)) if x.w < 64 else to_z3(x, 64)); key.append('s')
            else:
                key.append(_flat_args(x, sig, args))
        f = _zfun(a[0], (tuple(sig), tuple(map(str, key)))[0], w) if not any(k != 's' and not (isinstance(k, tuple) and k[0] == 't') for k in key) \
            else _zfun(a[0] + str(hash(tuple(map(str, key)))), tuple(sig), w)
        return f(*args) if args else f
    if op == 'add':
        r = _z3.BitVecVal(a[0], w)
        for x, k in a[1]:
            r = r + to_z3(x, w) * _z3.BitVecVal(k % (1 << w), w)
        return r
    if op == 'xor':
        r = to_z3(a[0], w)
        for x in a[1:]:
            r = r ^ to_z3(x, w)
        return r
    if op == 'and':
        r = to_z3(a[0], w)
        for x in a[1:]:
            r = r & to_z3(x, w)
        return r
    if op == 'or':
        r = to_z3(a[0], w)
        for x in a[1:]:
            r = r | to_z3(x, w)
        return r
    if op == 'ite':
        return _z3.If(to_z3(a[0], 1) == 1, to_z3(a[1], w), to_z3(a[2], w))
    if op == 'eq':
        ww = a[0].w if isinstance(a[0], T) else a[1].w
        return b2bv(to_z3(a[0], ww) == to_z3(a[1], ww))
    if op == 'ult':
        return b2bv(_z3.ULT(to_z3(a[1], a[0]), to_z3(a[2], a[0])))
    if op == 'slt':
        return b2bv(to_z3(a[1], a[0]) < to_z3(a[2], a[0]))
    if op == 'mul':
        return to_z3(a[0], w) * to_z3(a[1], w)
    if op == 'udiv':
        return _z3.UDiv(to_z3(a[0], w), to_z3(a[1], w))
    if op == 'urem':
        return _z3.URem(to_z3(a[0], w), to_z3(a[1], w))
    if op == 'shl':
        return to_z3(a[0], w) << to_z3(a[1], w)
    if op == 'lshr':
        return _z3.LShR(to_z3(a[0], w), to_z3(a[1], w))
    if op == 'ashr':
        return to_z3(a[0], w) >> to_z3(a[1], w)
    raise NotImplementedError(op)
