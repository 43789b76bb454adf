"""Symbolic Go values."""
from terms import *
from seqops import Split, Unsupported, Mismatch, split_at, slice_seq, be_value, opaque_val, seq_eq
import solver
from solver import prove


class V:
    __slots__ = ()


class Unk(V):
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Unk(%s)' % self.why


class Ghost(V):
    """lazily expanded symbolic input"""
    __slots__ = ('t', 'path', 'args')

    def __init__(self, t, path, args=()):
        self.t, self.path, self.args = t, path, tuple(args)

    def __repr__(self):
        return 'Ghost(%s%s)' % (self.path, list(self.args) if self.args else '')


class StructV(V):
    __slots__ = ('t', 'f')

    def __init__(self, t, f):
        self.t, self.f = t, tuple(f)

    def __repr__(self):
        return 'S%r{%s}' % (self.t, ', '.join(map(repr, self.f)))


class SliceV(V):
    """base: object id (int) or frozen content (Sq/Arr)"""
    __slots__ = ('base', 'off', 'len', 'cap', 'nil', 'et')

    def __init__(self, base, off, len, cap, nil, et):
        self.base, self.off, self.len, self.cap, self.nil, self.et = base, off, len, cap, nil, et

    def __repr__(self):
        return 'Slice(%r,%r,%r%s)' % (self.base, self.off, self.len, '' if self.nil is FALSE else ',nil=%r' % self.nil)


class PtrV(V):
    """tgt: (obj, path) | Box | None"""
    __slots__ = ('nil', 'tgt')

    def __init__(self, nil, tgt):
        self.nil, self.tgt = nil, tgt

    def __repr__(self):
        return 'Ptr(%r%s)' % (self.tgt, '' if self.nil is FALSE else ',nil=%r' % self.nil)


class Box(V):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'Box(%r)' % (self.v,)


class IfaceV(V):
    """nil: Bl ; t: dynamic type id (or a string for modelled types) ; v: value"""
    __slots__ = ('nil', 't', 'v')

    def __init__(self, nil, t, v):
        self.nil, self.t, self.v = nil, t, v

    def __repr__(self):
        return 'Iface(%r,%r,%r)' % (self.nil, self.t, self.v)


class IteV(V):
    """conditional value that has no merged representation"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'IteV(%r,%r,%r)' % (self.c, self.a, self.b)


class ErrInfo(V):
    """value of a modelled error: id distinguishes sentinel errors; wraps: wrapped values"""
    __slots__ = ('id', 'fmt', 'args', 'wraps')

    def __init__(self, id, fmt, args=(), wraps=()):
        self.id, self.fmt, self.args, self.wraps = id, fmt, tuple(args), tuple(wraps)

    def __repr__(self):
        return 'Err(%r,%r,%r)' % (self.id, self.fmt, self.args)


class MapV(V):
    __slots__ = ('nil', 'obj')

    def __init__(self, nil, obj):
        self.nil, self.obj = nil, obj

    def __repr__(self):
        return 'Map(%r)' % (self.obj,)


class MapC(V):
    """map content: updates newest first over a base.  base: None (empty) or (path,args) ghost"""
    __slots__ = ('kt', 'et', 'upd', 'base')

    def __init__(self, kt, et, upd=(), base=None):
        self.kt, self.et, self.upd, self.base = kt, et, tuple(upd), base

    def __repr__(self):
        return 'MapC(%r,%r)' % (self.upd, self.base)


class ClosV(V):
    __slots__ = ('fn', 'binds', 'nil')

    def __init__(self, fn, binds=(), nil=FALSE):
        self.fn, self.binds, self.nil = fn, tuple(binds), nil

    def __repr__(self):
        return 'Clos(%s)' % self.fn


class BufV(V):
    """bytes.Buffer: unread content"""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return 'Buf(%r)' % (self.s,)


class OpaqueV(V):
    """modelled library object with python attributes (immutable tuple of items)"""
    __slots__ = ('kind', 'd')

    def __init__(self, kind, **d):
        self.kind, self.d = kind, d

    def __getitem__(self, k):
        return self.d[k]

    def with_(self, **kw):
        d = dict(self.d)
        d.update(kw)
        return OpaqueV(self.kind, **d)

    def __repr__(self):
        return '%s%r' % (self.kind, self.d)


class Arr(V):
    """content of a non-byte array: pieces
    ('el', (v..)) ('lam', var, lo, hi, body) ('gh', t, path, args, lo, hi) ('zero', t, n) ('hole', id, n)"""
    __slots__ = ('p', '_len')

    def __init__(self, p):
        out = []
        for x in p:
            n = plen(x)
            if n.const() is not None and n.const() <= 0:
                continue
            if out and x[0] == 'el' and out[-1][0] == 'el':
                out[-1] = ('el', out[-1][1] + x[1])
                continue
            if out and x[0] == 'zero' and out[-1][0] == 'zero':
                out[-1] = ('zero', x[1], out[-1][2] + x[2])
                continue
            if out and x[0] == 'gh' and out[-1][0] == 'gh' and out[-1][1:4] == x[1:4] and out[-1][5] is x[4]:
                out[-1] = ('gh', x[1], x[2], x[3], out[-1][4], x[5])
                continue
            if out and x[0] == 'lam' and out[-1][0] == 'lam' and out[-1][1] is x[1] and out[-1][4] is x[4] and out[-1][3] is x[2]:
                out[-1] = ('lam', x[1], out[-1][2], x[3], x[4])
                continue
            out.append(x)
        self.p = tuple(out)
        n = I(0)
        for x in self.p:
            n = n + plen(x)
        self._len = n

    @property
    def len(self):
        return self._len

    def __repr__(self):
        return 'Arr' + repr(list(self.p))


def plen(x):
    k = x[0]
    if k == 'el':
        return I(len(x[1]))
    if k == 'lam':
        return x[3] - x[2]
    if k == 'gh':
        return x[5] - x[4]
    return x[2]      # zero, hole


def pelem(x, j, zerof):
    """element j (relative) of a piece; const j for 'el'"""
    k = x[0]
    if k == 'el':
        return x[1][j.const()]
    if k == 'lam':
        return vsubst(x[4], {x[1]: x[2] + j})
    if k == 'gh':
        return Ghost(x[1], x[2], x[3] + (x[4] + j,))
    if k == 'zero':
        return zerof(x[1])
    raise Unsupported('read of unknown array part')


def psplit(x, j):
    k = x[0]
    if k == 'el':
        c = j.const()
        return ('el', x[1][:c]), ('el', x[1][c:])
    if k == 'lam':
        return ('lam', x[1], x[2], x[2] + j, x[4]), ('lam', x[1], x[2] + j, x[3], x[4])
    if k == 'gh':
        return ('gh', x[1], x[2], x[3], x[4], x[4] + j), ('gh', x[1], x[2], x[3], x[4] + j, x[5])
    if k == 'zero':
        return ('zero', x[1], j), ('zero', x[1], x[2] - j)
    raise Unsupported('split of unknown array part')


def arr_locate(a, i, pc):
    """(piece index, relative index) of element i; needs 0<=i<len"""
    pos = I(0)
    ps = a.p
    starts = []
    for x in ps:
        starts.append(pos)
        pos = pos + plen(x)
    for n, x in enumerate(ps):
        d = i - starts[n]
        c = d.const()
        if c is not None and c >= 0:
            L = plen(x)
            if L.lo is not None and L.lo > c:
                return n, d
    for n, x in enumerate(ps):
        d = i - starts[n]
        if d.hi is not None and d.hi < 0:
            continue
        if prove(pc, and_(le(I(0), d), lt(d, plen(x)))):
            if x[0] == 'el' and d.const() is None:
                for c in range(len(x[1])):
                    if prove(pc, eq(d, I(c))):
                        return n, I(c)
                raise Split(eq(d, I(0)))
            return n, d
    for n, x in enumerate(ps[:-1]):
        c = lt(i, starts[n + 1])
        if not prove(pc, c) and not prove(pc, not_(c)):
            raise Split(c)
    raise Unsupported('array index %r not located in %r' % (i, a))


def arr_get(a, i, pc, zerof):
    n, d = arr_locate(a, i, pc)
    return pelem(a.p[n], d, zerof)


def arr_set(a, i, v, pc):
    n, d = arr_locate(a, i, pc)
    x = a.p[n]
    l, r = psplit(x, d)
    m, r = psplit(r, I(1))
    return Arr(a.p[:n] + (l, ('el', (v,)), r) + a.p[n + 1:])


def arr_split(a, i, pc):
    if i.const() == 0:
        return Arr(()), a
    pos = I(0)
    for n, x in enumerate(a.p):
        if pos is i:
            return Arr(a.p[:n]), Arr(a.p[n:])
        pos = pos + plen(x)
    if pos is i or prove(pc, eq(pos, i)):
        return a, Arr(())
    pos = I(0)
    for n, x in enumerate(a.p):
        d = i - pos
        if prove(pc, eq(d, I(0))):
            return Arr(a.p[:n]), Arr(a.p[n:])
        if prove(pc, le(plen(x), d)):
            pos = pos + plen(x)
            continue
        if not prove(pc, le(d, plen(x))):
            raise Split(le(d, plen(x)))
        if x[0] == 'el' and d.const() is None:
            raise Split(eq(d, I(0)))
        l, r = psplit(x, d)
        return Arr(a.p[:n] + (l,)), Arr((r,) + a.p[n + 1:])
    raise Unsupported('array split')


def arr_slice(a, off, ln, pc):
    if off.const() == 0 and ln is a.len:
        return a
    _, r = arr_split(a, off, pc)
    l, _ = arr_split(r, ln, pc)
    return l


def vmap(v, f):
    """apply f to every term inside v"""
    if isinstance(v, (Lin, Bl, Sq)):
        return f(v)
    if v is None or isinstance(v, (int, str, bytes)):
        return v
    if isinstance(v, tuple):
        return tuple(vmap(x, f) for x in v)
    if isinstance(v, Ghost):
        if not v.args:
            return v
        return Ghost(v.t, v.path, [f(x) for x in v.args])
    if isinstance(v, StructV):
        return StructV(v.t, [vmap(x, f) for x in v.f])
    if isinstance(v, SliceV):
        b = v.base if isinstance(v.base, int) or v.base is None else vmap(v.base, f)
        return SliceV(b, f(v.off), f(v.len), f(v.cap), f(v.nil), v.et)
    if isinstance(v, PtrV):
        t = v.tgt
        if isinstance(t, Box):
            t = Box(vmap(t.v, f))
        elif t is not None:
            t = (Box(vmap(t[0].v, f)) if isinstance(t[0], Box) else t[0], tuple(('i', f(s[1])) if isinstance(s, tuple) else s for s in t[1]))
        return PtrV(f(v.nil), t)
    if isinstance(v, IfaceV):
        return IfaceV(f(v.nil), v.t, vmap(v.v, f))
    if isinstance(v, IteV):
        return ite_val(f(v.c), vmap(v.a, f), vmap(v.b, f))
    if isinstance(v, Arr):
        out = []
        for x in v.p:
            k = x[0]
            if k == 'el':
                out.append(('el', tuple(vmap(y, f) for y in x[1])))
            elif k == 'lam':
                out.append(('lam', x[1], f(x[2]), f(x[3]), vmap(x[4], f)))
            elif k == 'gh':
                out.append(('gh', x[1], x[2], tuple(f(y) for y in x[3]), f(x[4]), f(x[5])))
            elif k == 'zero':
                out.append(('zero', x[1], f(x[2])))
            else:
                out.append((k, x[1], f(x[2])))
        return Arr(out)
    if isinstance(v, ErrInfo):
        return ErrInfo(v.id, v.fmt, [vmap(x, f) for x in v.args], [vmap(x, f) for x in v.wraps])
    if isinstance(v, MapC):
        return MapC(v.kt, v.et, [(vmap(k, f), vmap(x, f)) for k, x in v.upd],
                    None if v.base is None else (v.base[0], tuple(f(y) for y in v.base[1])))
    if isinstance(v, MapV):
        return MapV(f(v.nil), v.obj if isinstance(v.obj, int) or v.obj is None else vmap(v.obj, f))
    if isinstance(v, ClosV):
        return ClosV(v.fn, [vmap(x, f) for x in v.binds], f(v.nil))
    if isinstance(v, BufV):
        return BufV(f(v.s))
    if isinstance(v, Box):
        return Box(vmap(v.v, f))
    if isinstance(v, OpaqueV):
        return OpaqueV(v.kind, **{k: vmap(x, f) for k, x in v.d.items()})
    if isinstance(v, Unk):
        return v
    if isinstance(v, list):
        return [vmap(x, f) for x in v]
    if isinstance(v, bool):
        return v
    raise TypeError(v)


def vsubst(v, env):
    return vmap(v, lambda t: subst(t, env))


def vfree(v):
    s = set()

    def f(t):
        s.update(t.free)
        return t
    vmap(v, f)
    return s


def ite_val(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return IteV(c, a, b)
