"""Wire-layout contracts.  One description, three readings:
   sym   - the symbolic byte sequence an encoder must produce for a Go value (postcondition of encoders)
   wire  - a symbolic well-formed byte sequence and the Go value a decoder must produce from it
   py    - concrete bytes for a concrete value (oracle of the replay harness)
"""
from terms import *
from values import *
import solver
from solver import prove


def deref(m, st, v):
    v = m.force(st, v)
    if isinstance(v, PtrV):
        return m.load(st, v.tgt)
    return v


def getf(m, st, v, name):
    v = deref(m, st, v)
    for part in name.split('.'):
        v = deref(m, st, v)
        i = m.p.field_index(v.t, part)
        v = m.force(st, v.f[i])
    return v


# ---------------------------------------------------------------- expected values (decoders)
class EInt:
    def __init__(self, v):
        self.v = v


class EBool(EInt):
    pass


class EStr:
    """null: Bl under which the result must be nil (pointer) / empty"""
    def __init__(self, s, null=FALSE, nilable=False):
        self.s, self.null, self.nilable = s, null, nilable


class EArr:
    def __init__(self, n, var, elem, null=FALSE, nilable=False):
        self.n, self.var, self.elem, self.null, self.nilable = n, var, elem, null, nilable


class EMap:
    """a map with exactly the n (distinct) keys"""
    def __init__(self, n, var, key, val):
        self.n, self.var, self.key, self.val = n, var, key, val


class EStruct:
    """raw: the bytes, when a decoder with a contract of its own turns them into the structure"""
    def __init__(self, f, raw=None):
        self.f, self.raw = f, raw


class EOff:
    """nothing is required"""


def subst_exp(e, env):
    if isinstance(e, EBool):
        return EBool(subst(e.v, env))
    if isinstance(e, EInt):
        return EInt(subst(e.v, env))
    if isinstance(e, EStr):
        return EStr(subst(e.s, env), subst(e.null, env), e.nilable)
    if isinstance(e, EArr):
        return EArr(subst(e.n, env), e.var, subst_exp(e.elem, env), subst(e.null, env), e.nilable)
    if isinstance(e, EMap):
        return EMap(subst(e.n, env), e.var, subst_exp(e.key, env), subst_exp(e.val, env))
    if isinstance(e, EStruct):
        return EStruct({k: subst_exp(x, env) for k, x in e.f.items()}, None if e.raw is None else subst(e.raw, env))
    return e


def need(pc, c, what):
    if not prove(pc, c):
        raise Mismatch(what, pc)


def match(m, st, e, got, where='result'):
    """obligation: decoded value got equals the expectation e"""
    from seqops import seq_eq
    if isinstance(e, EOff):
        return
    try:
        got = m.force(st, got)
        return match1(m, st, e, got, where)
    except Split as sp:
        for c in (sp.cond, not_(sp.cond)):
            s2 = st.copy()
            s2.assume(c)
            if solver.sat(s2.pc):
                match(m, s2, e, got, where)


def match1(m, st, e, got, where):
    from seqops import seq_eq
    pc = st.pc
    if isinstance(got, Unk):
        raise Unsupported('%s is unknown: %s' % (where, got.why))
    if isinstance(e, EBool):
        if not isinstance(got, Bl):
            raise Mismatch('%s: %r is not a boolean' % (where, got), pc)
        need(pc, and_(implies(e.v, got), implies(got, e.v)), '%s: %r instead of %r' % (where, got, e.v))
        return
    if isinstance(e, EInt):
        need(pc, eq(got, e.v), '%s: %r instead of %r' % (where, got, e.v))
        return
    if isinstance(e, EStr):
        if isinstance(got, Sq):
            c = got
        elif isinstance(got, PtrV):
            need(pc, and_(implies(e.null, got.nil), implies(got.nil, e.null)), '%s: nil exactly when %r instead of %r' % (where, got.nil, e.null))
            if got.tgt is None or prove(pc, e.null):
                return
            st = st.copy()
            st.assume(not_(e.null))
            pc = st.pc
            c = m.load(st, got.tgt)
        elif isinstance(got, SliceV):
            if e.nilable:
                need(pc, and_(implies(e.null, got.nil), implies(got.nil, e.null)), '%s: nil exactly when %r instead of %r' % (where, got.nil, e.null))
            c = m.content(st, got)
        else:
            raise Mismatch('%s: %r' % (where, got), pc)
        try:
            exp = e.s if e.null is FALSE else sq_ite(e.null, EMPTYSEQ, e.s)
            seq_eq(c, exp, pc)
        except Mismatch as x:
            raise Mismatch('%s: %s' % (where, x.why), x.pc)
        return
    if isinstance(e, EStruct):
        if isinstance(got, PtrV):
            need(pc, not_(got.nil), '%s: nil pointer' % where)
            g = got.tgt[0] if isinstance(got.tgt, tuple) else got.tgt
            if isinstance(g, Box) and isinstance(g.v, Ghost) and g.v.path.startswith('decoded by ') and e.raw is not None:
                seq_eq(g.v.args[0], e.raw, pc)
                return
            got = m.load(st, got.tgt)
        for k, x in e.f.items():
            match(m, st, x, getf(m, st, got, k), where + '.' + k)
        return
    if isinstance(e, EMap) and isinstance(got, MapV):
        from loops import entries
        mc = m.force(st, st.heap[got.obj] if isinstance(got.obj, int) else got.obj) if got.obj is not None else None
        if mc is None:
            need(pc, eq(e.n, I(0)), '%s: nil' % where)
            return
        if isinstance(mc, Unk) or mc.base is not None:
            raise Unsupported('%s: map %r' % (where, mc))
        ent = entries(mc.upd)
        need(pc, eq(ent.len, e.n), '%s: %r entries instead of %r' % (where, ent.len, e.n))
        if prove(pc, eq(e.n, I(0))):
            return
        j = fresh('j', 0)
        s2 = st.copy()
        s2.assume(lt(j, e.n))
        (va, _), = e.var.m
        k, v = arr_get(ent, j, s2.pc, m.zero)
        match(m, s2, subst_exp(e.key, {va: j}), k, where + ' key')
        match(m, s2, subst_exp(e.val, {va: j}), v, where + '[]')
        return
    if isinstance(e, EArr):
        if not isinstance(got, SliceV):
            raise Mismatch('%s: %r' % (where, got), pc)
        n = e.n if e.null is FALSE else ite(e.null, I(0), e.n)
        need(pc, eq(got.len, n), '%s: length %r instead of %r' % (where, got.len, n))
        if e.nilable:
            need(pc, and_(implies(e.null, got.nil), implies(got.nil, e.null)), '%s: nil exactly when %r instead of %r' % (where, got.nil, e.null))
        if prove(pc, eq(n, I(0))):
            return
        j = fresh('j', 0)
        s2 = st.copy()
        s2.assume(le(I(0), j))
        s2.assume(lt(j, n))
        (va, _), = e.var.m
        ex = subst_exp(e.elem, {va: j})

        def elem(s2, d=0):
            try:
                c = m.content(s2, got)
                el = arr_get(c, j, s2.pc, m.zero) if isinstance(c, Arr) else m.step(s2, c, ('i', j))
            except Split as sp:
                if d > 12:
                    raise Unsupported('too many cases for an element of ' + where)
                for cd in (sp.cond, not_(sp.cond)):
                    s3 = s2.copy()
                    s3.assume(cd)
                    if solver.sat(s3.pc):
                        elem(s3, d + 1)
                return
            match(m, s2, ex, el, where + '[j]')
        elem(s2)
        return
    raise TypeError(e)


# ---------------------------------------------------------------- kinds
class Bad(Exception):
    pass


def short(b):
    h = bytes(b).hex()
    return h if len(h) < 80 else h[:80] + '..'


class K:
    def eat(self, v, b, i, where=''):
        """oracle: the bytes of v are at b[i:]; returns the position after them"""
        e = self.py(v)
        if b[i:i + len(e)] != e:
            raise Bad('%s: at byte %d: %s instead of %s' % (where, i, short(b[i:i + len(e)]), short(e)))
        return i + len(e)

    def genwire(self, r, d):
        """a value as a broker may send it"""
        return self.gen(r, d)

    def agree(self, v, got, where='result'):
        """oracle: the decoded value got (harness JSON) is v"""
        if v != got:
            raise Bad('%s: %r instead of %r' % (where, got, v))


class Int(K):
    def __init__(self, n, signed=True):
        self.n, self.signed = n, signed
        self.lo, self.hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)

    def sym(self, m, st, v):
        return be(self.n, v)

    def wire(self, c, path, args):
        v = app(path, args, self.lo, self.hi)
        return be(self.n, v), EInt(v)

    def py(self, v):
        return (v % (1 << (8 * self.n))).to_bytes(self.n, 'big')

    def parse(self, b, i):
        return int.from_bytes(b[i:i + self.n], 'big', signed=self.signed), i + self.n

    def gen(self, r, d):
        return r.choice([0, 1, -1 if self.signed else 2, self.hi, self.lo, r.randint(self.lo, self.hi), r.randint(0, 300) % (self.hi + 1)])

    def zero(self):
        return 0


class VInt(Int):
    """zigzag varint of an integer of n bytes"""
    def sym(self, m, st, v):
        return uv(zz(v))

    def wire(self, c, path, args):
        v = app(path, args, self.lo, self.hi)
        return uv(zz(v)), EInt(v)

    def py(self, v):
        return pyvi(v)

    def gen(self, r, d):
        return r.choice([0, 1, -1, 63, 64, -64, -65, 8191, 8192, -8193, self.hi, self.lo, r.randint(self.lo, self.hi), r.randint(0, 300)])


class Sized(K):
    """a value with its length in front"""
    def __init__(self, lk, kind):
        self.lk, self.kind = lk, kind

    def sym(self, m, st, v):
        s = self.kind.sym(m, st, v)
        return sq(lenbytes(self.lk, s.len), s)

    def wire(self, c, path, args):
        s, e = self.kind.wire(c, path, args)
        return sq(lenbytes(self.lk, s.len), s), e

    def py(self, v):
        b = self.kind.py(v)
        return pylen(self.lk, len(b)) + b

    def eat(self, v, b, i, where=''):
        try:
            return K.eat(self, v, b, i, where)
        except Bad:
            n = len(self.py(v)) - len(self.kind.py(v))
            self.kind.eat(v, b, i + n, where)
            raise

    def gen(self, r, d):
        return self.kind.gen(r, d)

    def genwire(self, r, d):
        return self.kind.genwire(r, d)

    def agree(self, v, got, where='result'):
        self.kind.agree(v, got, where)


class Bool(K):
    def sym(self, m, st, v):
        return be(1, ite(v, I(1), I(0)))

    def wire(self, c, path, args):
        v = bapp(path, args)
        return be(1, ite(v, I(1), I(0))), EBool(v)

    def py(self, v):
        return bytes([1 if v else 0])

    def gen(self, r, d):
        return r.random() < 0.5

    def zero(self):
        return False


def lenbytes(lk, n):
    if lk == 'i16':
        return be(2, n)
    if lk == 'i32':
        return be(4, n)
    if lk == 'vi':
        return uv(zz(n))
    return uv(n + 1)


def pylen(lk, n):
    if lk == 'i16':
        return (n % 65536).to_bytes(2, 'big')
    if lk == 'i32':
        return (n % (1 << 32)).to_bytes(4, 'big')
    if lk == 'vi':
        return pyvi(n)
    return pyuv(n + 1)


def pyvi(n):
    return pyuv(n * 2 if n >= 0 else -n * 2 - 1)


def pyuv(v):
    out = bytearray()
    while True:
        b = v & 127
        v >>= 7
        if v:
            out.append(b | 128)
        else:
            out.append(b)
            return bytes(out)


class Str(K):
    """string/bytes with a length prefix.  null: 'no' | 'yes' (nil <-> null) | 'in' (a null is decoded to an empty string)"""
    def __init__(self, lk='i16', null='no', mx=None):
        self.lk, self.null = lk, null
        self.mx = mx or (32767 if lk == 'i16' else 2**31 - 2 if lk == 'i32' else 2**31 - 2)

    def sym(self, m, st, v):
        nil = FALSE
        if isinstance(v, PtrV):
            nil = v.nil
            s = m.load(st, v.tgt) if v.tgt is not None else EMPTYSEQ
        elif isinstance(v, SliceV):
            nil = v.nil if self.null == 'yes' else FALSE
            s = m.content(st, v)
        else:
            s = v
        full = sq(lenbytes(self.lk, s.len), s)
        if nil is FALSE:
            return full
        if self.lk == 'vi' and isinstance(v, SliceV):
            return sq(sq_ite(nil, lenbytes(self.lk, I(-1)), lenbytes(self.lk, s.len)), s)    # a nil slice has no bytes
        return sq_ite(nil, lenbytes(self.lk, I(-1)), full)

    def wire(self, c, path, args):
        s = satom(path, args, self.mx)
        full = sq(lenbytes(self.lk, s.len), s)
        if self.null == 'no':
            return full, EStr(s)
        n = bapp(path + '#null', args)
        return sq(lenbytes(self.lk, ite(n, I(-1), s.len)), sq_ite(n, EMPTYSEQ, s)), EStr(s, n, self.null == 'yes')

    def py(self, v):
        if v is None:
            return pylen(self.lk, -1)
        return pylen(self.lk, len(v)) + v

    def gen(self, r, d):
        if self.null == 'yes' and r.random() < 0.3:
            return None
        n = r.choice([0, 1, 2, 5, r.randint(0, 20), r.randint(100, 300)])
        if r.random() < (0.1 if getattr(r, 'big', False) else 0.01):
            n = r.choice([126, 127, 128, 255, 256, 257, 16382, 16383, 16384, 32766, 32767] + ([65535, 65536, 65537, 70000] if self.lk != 'i16' else []))
        return bytes(r.randint(97, 122) for _ in range(min(n, 40))) + bytes([r.randint(97, 122)]) * (n - 40)

    def genwire(self, r, d):
        if self.null == 'in' and r.random() < 0.3:
            return None
        return self.gen(r, d)

    def agree(self, v, got, where='result'):
        from replay import unb64
        g = unb64(got)
        if self.null == 'yes':
            if (v is None) != (g is None):
                raise Bad('%s: %s instead of %s' % (where, 'null' if g is None else 'not null', 'null' if v is None else 'not null'))
        if (v or b'') != (g or b''):
            raise Bad('%s: %s instead of %s' % (where, short(g or b''), short(v or b'')))

    def zero(self):
        return b''


class Raw(K):
    """bytes without prefix"""
    def sym(self, m, st, v):
        return v if isinstance(v, Sq) else m.content(st, v)


class Const(K):
    def __init__(self, b):
        self.b = b

    def sym(self, m, st, v):
        return lit(self.b)

    def wire(self, c, path, args):
        return lit(self.b), EOff()

    def py(self, v):
        return self.b

    def gen(self, r, d):
        return None


class Array(K):
    def __init__(self, lk, elem, null='no', ptr=False, mx=2**31 - 2):
        self.lk, self.elem, self.null, self.ptr, self.mx = lk, elem, null, ptr, mx

    def sym(self, m, st, v):
        n = v.len
        out = []
        c = m.content(st, v)
        for x in c.p:
            if x[0] == 'el':
                out += [self.elem.sym(m, st, deref(m, st, e)) for e in x[1]]
            else:
                k = fresh('e', 0)
                (ka, _), = k.m
                e = pelem(x, k, m.zero)
                out.append(rep(self.elem.sym(m, st, deref(m, st, e) if isinstance(self.elem, (Struct, Int, Bool)) else m.force(st, e)), ka, I(0), plen(x)))
        full = sq(lenbytes(self.lk, n), *out)
        if self.null == 'yes' and v.nil is not FALSE:
            return sq_ite(v.nil, lenbytes(self.lk, I(-1)), full)
        return full

    def wire(self, c, path, args):
        n = app(path + '#n', args, 0, self.mx)
        k = fresh('e', 0)
        (ka, _), = k.m
        s, e = self.elem.wire(c, path + '[]', args + (k,))
        full = sq(lenbytes(self.lk, n), rep(s, ka, I(0), n))
        if self.null == 'no':
            return full, EArr(n, k, e)
        nl = bapp(path + '#null', args)
        return sq(lenbytes(self.lk, ite(nl, I(-1), n)), sq_ite(nl, EMPTYSEQ, rep(s, ka, I(0), n))), EArr(n, k, e, nl, self.null == 'yes')

    def py(self, v):
        if v is None:
            return pylen(self.lk, -1) if self.null != 'no' else pylen(self.lk, 0)
        return pylen(self.lk, len(v)) + b''.join(self.elem.py(x) for x in v)

    def eat(self, v, b, i, where=''):
        if v is None:
            return K.eat(self, v, b, i, where)
        e = pylen(self.lk, len(v))
        if b[i:i + len(e)] != e:
            raise Bad('%s: at byte %d: count %s instead of %s' % (where, i, short(b[i:i + len(e)]), short(e)))
        i += len(e)
        for j, x in enumerate(v):
            i = self.elem.eat(x, b, i, '%s[%d]' % (where, j))
        return i

    def gen(self, r, d):
        if r.random() < (0.3 if self.null == 'yes' else 0.05):
            return None
        if d >= 3:
            n = r.choice([0, 1])
        else:
            n = r.choice([0, 1, 1, 2, 3, r.randint(0, 6)])
        if r.random() < 0.1 and isinstance(self.elem, Int):
            n = r.choice([126, 127, 128, 200])
        elif getattr(r, 'big', False) and d == 0 and r.random() < 0.05:
            n = r.choice([9, 127, 128, 256])
        return [self.elem.gen(r, d + 1) for _ in range(n)]

    def zero(self):
        return []


def _arr_agree(self, v, got, where='result'):
    if self.null == 'yes' and (v is None) != (got is None):
        raise Bad('%s: %s instead of %s' % (where, 'null' if got is None else 'not null', 'null' if v is None else 'not null'))
    if isinstance(got, str):      # []byte
        from replay import unb64
        got = [x if x < 128 or not isinstance(self.elem, Int) or not self.elem.signed else x - 256 for x in unb64(got)]
    if len(v or []) != len(got or []):
        raise Bad('%s: %d elements instead of %d' % (where, len(got or []), len(v or [])))
    for i, (a, b) in enumerate(zip(v or [], got or [])):
        self.elem.agree(a, b, '%s[%d]' % (where, i))


def _arr_genwire(self, r, d):
    if self.null != 'no' and r.random() < 0.3:
        return None
    n = r.choice([0, 1]) if d >= 3 else r.choice([0, 1, 1, 2, 3, r.randint(0, 6)])
    if r.random() < 0.1 and isinstance(self.elem, Int):
        n = r.choice([126, 127, 128, 200])
    elif getattr(r, 'big', False) and d == 0 and r.random() < 0.05:
        n = r.choice([9, 127, 128, 256])
    return [self.elem.genwire(r, d + 1) for _ in range(n)]


Array.agree = _arr_agree
Array.genwire = _arr_genwire


class MapArr(K):
    """a Go map written as an array of (key, value) entries, in the map's iteration order"""
    def __init__(self, lk, key, val):
        self.lk, self.key, self.val = lk, key, val

    def sym(self, m, st, v):
        n, ent = m.map_entries(st, v)
        k = fresh('e', 0)
        (ka, _), = k.m
        kk, vv = ent(k)
        vv = m.force(st, vv)
        if isinstance(self.val, Struct):
            vv = deref(m, st, vv)
        return sq(lenbytes(self.lk, n), rep(sq(self.key.sym(m, st, m.force(st, kk)), self.val.sym(m, st, vv)), ka, I(0), n))

    def py(self, v):
        raise NotImplementedError

    def eat(self, v, b, i, where=''):
        e = pylen(self.lk, len(v))
        if b[i:i + len(e)] != e:
            raise Bad('%s: at byte %d: count %s instead of %s' % (where, i, short(b[i:i + len(e)]), short(e)))
        i += len(e)
        rest = list(v)
        for _ in v:
            why = None
            for x in rest:
                try:
                    i2 = self.val.eat(x[1], b, self.key.eat(x[0], b, i, where + '.key'), where + '.value')
                    break
                except Bad as e:
                    why = e
            else:
                raise why
            rest.remove(x)
            i = i2
        return i

    def gen(self, r, d):
        n = r.choice([0, 1, 1, 2, 3])
        out = {}
        for _ in range(n):
            k = self.key.gen(r, d)
            out[k] = self.val.gen(r, d + 1)
        return list(out.items())

    def zero(self):
        return []


class Struct(K):
    """fields: list of (go field or None, kind)"""
    def __init__(self, *fields):
        self.fields = [f if isinstance(f, tuple) else (None, f) for f in fields]

    def sym(self, m, st, v):
        v = deref(m, st, v)
        return sq(*[k.sym(m, st, getf(m, st, v, n) if n is not None else None) for n, k in self.fields])

    def wire(self, c, path, args):
        out, ex = [], {}
        for i, (n, k) in enumerate(self.fields):
            s, e = k.wire(c, path + '.' + (n or '_%d' % i).lstrip('?'), args)
            out.append(s)
            if n is not None and not n.startswith('?'):
                ex[n] = e
        return sq(*out), EStruct(ex)

    def py(self, v):
        return b''.join(k.py(v.get((n or '_%d' % i).lstrip('?'))) for i, (n, k) in enumerate(self.fields))

    def eat(self, v, b, i, where=''):
        for f, (n, k) in enumerate(self.fields):
            i = k.eat(v.get((n or '_%d' % f).lstrip('?')), b, i, where + '.' + (n or '_%d' % f))
        return i

    def gen(self, r, d):
        return {(n or '_%d' % i).lstrip('?'): k.gen(r, d) for i, (n, k) in enumerate(self.fields) if n is not None}

    def zero(self):
        return {(n or '_%d' % i).lstrip('?'): k.zero() for i, (n, k) in enumerate(self.fields)}

    def genwire(self, r, d):
        return {(n or '_%d' % i).lstrip('?'): k.genwire(r, d) for i, (n, k) in enumerate(self.fields)}

    def agree(self, v, got, where='result'):
        for i, (n, k) in enumerate(self.fields):
            if n is None or n.startswith('?'):
                continue
            g = got
            for part in n.split('.'):
                if g is None:
                    raise Bad('%s.%s: nil' % (where, n))
                if part in g:
                    g = g[part]
                else:    # promoted from an embedded struct
                    g = next(x[part] for x in g.values() if isinstance(x, dict) and part in x)
            k.agree(v[n], g, where + '.' + n)


class Tags(K):
    """tagged fields (KIP-482)"""
    def sym(self, m, st, v):
        if v is None:
            return lit(b'\0')
        out = []
        c = m.content(st, v)
        for x in c.p:
            if x[0] == 'el':
                els = [(e, None) for e in x[1]]
            else:
                k = fresh('e', 0)
                els = [(pelem(x, k, m.zero), k)]
            for e, k in els:
                e = m.force(st, e)
                t, d = getf(m, st, e, 'Tag'), m.content(st, getf(m, st, e, 'Data'))
                s = sq(uv(t), uv(d.len), d)
                if k is not None:
                    (ka, _), = k.m
                    s = rep(s, ka, I(0), plen(x))
                out.append(s)
        return sq(uv(v.len), *out)

    def wire(self, c, path, args):
        n = app(path + '#n', args, 0, 2**31 - 2)
        k = fresh('e', 0)
        (ka, _), = k.m
        t = app(path + '.Tag', args + (k,), 0, 2**31 - 1)
        d = satom(path + '.Data', args + (k,), 2**31 - 2)
        s = sq(uv(n), rep(sq(uv(t), uv(d.len), d), ka, I(0), n))
        return s, EArr(n, k, EStruct({'Tag': EInt(t), 'Data': EStr(d)}))

    def py(self, v):
        v = v or []
        return pyuv(len(v)) + b''.join(pyuv(x['Tag']) + pyuv(len(x['Data'])) + x['Data'] for x in v)

    def gen(self, r, d):
        if r.random() < 0.5:
            return None
        return [{'Tag': r.choice([0, 1, 127, 128, 300, 2**31 - 1]), 'Data': bytes(r.randint(0, 255) for _ in range(r.choice([0, 1, 3, 130])))} for _ in range(r.choice([0, 1, 2]))]

    def zero(self):
        return None

    def agree(self, v, got, where='result'):
        from replay import unb64
        a = [(x['Tag'], x['Data']) for x in v or []]
        b = [(x['Tag'], unb64(x['Data']) or b'') for x in got or []]
        if a != b:
            raise Bad('%s: tagged fields %r instead of %r' % (where, b, a))


I8, I16, I32, I64 = Int(1), Int(2), Int(4), Int(8)
U8, U16, U32 = Int(1, False), Int(2, False), Int(4, False)
BOOL = Bool()
STR = Str('i16')
NSTR = Str('i16', 'yes')
ZSTR = Str('i16', 'in')
CSTR = Str('uv')
CNSTR = Str('uv', 'yes')
CZSTR = Str('uv', 'in')
BYTES = Str('i32')
NBYTES = Str('i32', 'yes')
ZBYTES = Str('i32', 'in')
CBYTES = Str('uv')
CNBYTES = Str('uv', 'yes')
TAGS = Tags()
VI32 = VInt(4)
VI64 = VInt(8)
VSTR = Str('vi', mx=2**31 - 2)
VBYTES = Str('vi')
NVBYTES = Str('vi', 'yes')



def ARR(e, *more, **kw):
    return Array('i32', e if isinstance(e, K) else Struct(e, *more), **kw)


def CARR(e, *more, **kw):
    return Array('uv', e if isinstance(e, K) else Struct(e, *more), **kw)


def flex(api):
    """first flexible version of each API (Kafka message definitions); None: never flexible"""
    return {0: 9, 1: 12, 2: 6, 3: 9, 8: 8, 9: 6, 10: 3, 11: 6, 12: 4, 13: 4, 14: 4, 15: 5, 16: 3, 17: None, 18: 3, 19: 5, 20: 4,
            29: 2, 30: 2, 31: 2, 32: 4, 33: 2, 35: 2, 36: 2, 37: 2, 42: 2, 43: 2, 44: 1, 45: 0, 46: 0}[api]


def is_flex(api, v):
    f = flex(api)
    return f is not None and v >= f
