"""Operations on symbolic byte sequences: split, slice, read, compare."""
from terms import *
import terms as T
import solver
from solver import prove


class Split(Exception):
    def __init__(self, cond):
        self.cond = cond


class Unsupported(Exception):
    pass


def find_rep_index(rem, seg):
    """x with  len(rep part [lo,x)) + rest == rem ; returns (x, rest) candidates"""
    lvl, body, lo, hi = seg.a
    L = body.len
    if BV(lvl) not in L.free and L.const() is None:
        # constant but symbolic element size: only multiples we can see
        pass
    c = L.const()
    if c is not None and c > 0:
        # rem = c*q + r
        q, r = {}, I(rem.c % c)
        qc = rem.c // c
        for at, cf in rem.m:
            if cf % c == 0:
                q[at] = cf // c
            else:
                r = r + lin(at) * cf
        yield lo + mklin(q, qc), r
        return
    base = rep_len(lvl, body, lo)
    full = rem + base
    # components of the symbolic length with index X
    X = fresh('X', 0)
    (xa, _), = X.m
    LX = rep_len(lvl, body, X)
    seen = set()
    for at, cf in LX.m:
        if at.k == 'sum':
            for at2, cf2 in full.m:
                if at2.k == 'sum' and at2.a[0] == at.a[0] and at2.a[1] is at.a[1] and cf2 == cf:
                    x = at2.a[2]
                    if x not in seen:
                        seen.add(x)
                        yield x, full - subst(LX, {xa: x})
    if lo not in seen:
        yield lo, rem


def split_seg(seg, i, pc):
    """split one segment at 0 < i < len -> (list,list)"""
    k, a = seg.k, seg.a
    c = i.const()
    if k == 'lit':
        if c is None:
            raise Unsupported('symbolic split of literal bytes')
        return [sg('lit', a[0][:c])], [sg('lit', a[0][c:])]
    if k == 'be':
        if c is None:
            raise Unsupported('symbolic split of an integer')
        n, t = a
        return list(be(c, div(mod(t, 1 << (8 * n)), 1 << (8 * (n - c)))).a), list(be(n - c, t).a)
    if k == 'zero':
        return list(zero(i).a), list(zero(a[0] - i).a)
    if k == 'sub':
        return [sg('sub', a[0], a[1], i)], [sg('sub', a[0], a[1] + i, a[2] - i)]
    if k in ('atom', 'uv', 'fn', 'hole'):
        return [sg('sub', seg, I(0), i)], [sg('sub', seg, i, seg.len - i)]
    raise Unsupported('split of ' + k)


def simp(x, lits, memo):
    """x with the conditionals resolved whose condition is literally among the hypotheses"""
    r = memo.get(x)
    if r is not None:
        return r
    r = x
    if isinstance(x, Sq):
        out = []
        for g in x.a:
            if g.k == 'ite':
                c, A, B2 = g.a
                v = lit_val(c, lits)
                out.append(simp(A if v else B2, lits, memo) if v is not None else g)
            elif g.k == 'be':
                t = simp(g.a[1], lits, memo)
                out.append(g if t is g.a[1] else be(g.a[0], t))
            elif g.k == 'uv':
                t = simp(g.a[0], lits, memo)
                out.append(g if t is g.a[0] else uv(t))
            else:
                out.append(g)
        if any(a is not b for a, b in zip(out, x.a)):
            r = sq(*out)
    elif isinstance(x, Lin):
        ch = False
        acc = []
        for at, cf in x.m:
            if at.k == 'ite':
                v = lit_val(at.a[0], lits)
                if v is not None:
                    ch = True
                    acc.append(simp(at.a[1] if v else at.a[2], lits, memo) * cf)
                    continue
            elif at.k == 'app' and at.a[0] == 'uvlen':
                t = simp(at.a[1][0], lits, memo)
                if t is not at.a[1][0]:
                    ch = True
                    acc.append(uvlen(t) * cf)
                    continue
            acc.append(lin(at) * cf)
        if ch:
            r = I(x.c)
            for t in acc:
                r = r + t
    memo[x] = r
    return r


_lo = {}


def lits_of(pc):
    """the hypotheses as a set, and the atoms they force to zero"""
    lits = frozenset(pc)
    r = _lo.get(lits)
    if r is None:
        env = set()
        for h in lits:
            if h.k == 'le' and len(h.a[0].m) == 1 and h.a[0].c == 0:
                at, c = h.a[0].m[0]
                if c > 0 and at.lo == 0:
                    env.add(at)
            elif h.k == 'eq' and len(h.a[0].m) == 1 and h.a[0].c == 0:
                env.add(h.a[0].m[0][0])
        r = _lo[lits] = (lits, env)
    return r


def zsubst(x, env, memo):
    """x with the atoms of env replaced by 0 (top level of lengths, counts and fields)"""
    if isinstance(x, Lin):
        r = memo.get(x)
        if r is None:
            r = x
            ch = False
            acc = {}
            add = I(0)
            for at, cf in x.m:
                if at in env:
                    ch = True
                elif at.k == 'app' and at.a[0] == 'uvlen':
                    t = zsubst(at.a[1][0], env, memo)
                    if t is not at.a[1][0]:
                        ch = True
                        add = add + uvlen(t) * cf
                    else:
                        acc[at] = cf
                elif at.k == 'sum':
                    t = zsubst(at.a[2], env, memo)
                    if t is not at.a[2]:
                        ch = True
                        add = add + mk_sum(at.a[0], at.a[1], t) * cf
                    else:
                        acc[at] = cf
                else:
                    acc[at] = cf
            if ch:
                r = mklin(acc, x.c) + add
            memo[x] = r
        return r
    out = []
    for g in x.a:
        if g.k == 'be':
            t = zsubst(g.a[1], env, memo)
            out.append(g if t is g.a[1] else be(g.a[0], t))
        elif g.k == 'uv':
            t = zsubst(g.a[0], env, memo)
            out.append(g if t is g.a[0] else uv(t))
        elif g.k == 'rep':
            lvl, body, lo, hi = g.a
            lo2, hi2 = zsubst(lo, env, memo), zsubst(hi, env, memo)
            if lo2 is hi2:
                continue
            out.append(g if lo2 is lo and hi2 is hi else sg('rep', lvl, body, lo2, hi2))
        else:
            out.append(g)
    if len(out) == len(x.a) and all(a is b for a, b in zip(out, x.a)):
        return x
    return sq(*out)


def quick(lits, *cs):
    """conditions that hold without a solver"""
    for c in cs:
        if c is TRUE or c in lits:
            continue
        if c.k == 'le' and c.a[0].hi is not None and c.a[0].hi <= 0:
            continue
        if c.k == 'le' and le(c.a[0] + 1, I(0)) in lits:
            continue
        return False
    return True


def is_prefix(s, n, lits, pc):
    """n is a position inside s, for structural reasons"""
    P = I(0)
    if P is n:
        return True
    for x in s.a:
        if x.k == 'rep':
            lvl, body, lo, hi = x.a
            for xi, rest in find_rep_index(n - P, x):
                if quick(lits, le(lo, xi), lt(xi, hi)) and is_prefix(simp(subst(body, {BV(lvl): xi}), lits, {}), rest, lits, pc):
                    return True
        d = (n - P).const()
        if d is not None and d >= 0 and x.len.lo is not None and d <= x.len.lo:
            return True
        P = P + x.len
        if P is n:
            return True
    return False


def lit_val(c, lits):
    if c in lits:
        return True
    if not_(c) in lits:
        return False
    return None


def split_at(s, off, pc):
    """s = L ++ R with |L| == off;  0 <= off <= |s| must be known"""
    lits, env = lits_of(pc)
    s, off = simp(s, lits, {}), simp(off, lits, {})
    if env:
        s, off = zsubst(s, env, {}), zsubst(off, env, {})
    segs = list(s.a)
    # exact boundary
    P = I(0)
    pre = [P]
    for x in segs:
        P = P + x.len
        pre.append(P)
    for i, p in enumerate(pre):
        if p is off:
            return sq(*segs[:i]), sq(*segs[i:])
    # inside a segment at constant distance
    for i, x in enumerate(segs):
        d = (off - pre[i]).const()
        if d is not None and d > 0:
            n = x.len.const()
            if n is not None and d < n and x.k not in ('ite', 'rep'):
                l, r = split_seg(x, I(d), pc)
                return sq(*(segs[:i] + l)), sq(*(r + segs[i + 1:]))
            if x.k in ('atom', 'sub', 'zero', 'uv', 'hole') and x.len.lo is not None and x.len.lo > d:
                l, r = split_seg(x, I(d), pc)
                return sq(*(segs[:i] + l)), sq(*(r + segs[i + 1:]))
    # inside a repetition
    for lim, i, x in [(lim, i, x) for lim in (True, False) for i, x in enumerate(segs)]:
        if x.k == 'rep':
            lvl, body, lo, hi = x.a
            for xi, rest in find_rep_index(off - pre[i], x):
                if lim and not quick(lits, le(lo, xi), le(xi, hi)):
                    continue
                if rest.const() == 0:
                    if prove(pc, and_(le(lo, xi), le(xi, hi))):
                        return (sq(*(segs[:i] + [sg('rep', lvl, body, lo, xi)])),
                                sq(*([sg('rep', lvl, body, xi, hi)] + segs[i + 1:])))
                    continue
                b = simp(subst(body, {BV(lvl): xi}), lits, {})
                if prove(pc, and_(le(lo, xi), lt(xi, hi))) and (is_prefix(b, rest, lits, pc) or prove(pc, and_(le(I(0), rest), le(rest, b.len)))):
                    l, r = split_at(b, rest, pc)
                    return (sq(*(segs[:i] + [sg('rep', lvl, body, lo, xi)]), l),
                            sq(r, *([sg('rep', lvl, body, xi + 1, hi)] + segs[i + 1:])))
    # boundaries that look alike
    for i in sorted(range(len(pre)), key=lambda i: len((off - pre[i]).m))[:3]:
        if len((off - pre[i]).m) <= 6 and prove(pc, eq(off, pre[i])):
            return sq(*segs[:i]), sq(*segs[i:])
    # general walk with the solver
    for i, x in enumerate(segs):
        rem = off - pre[i]
        if prove(pc, eq(rem, I(0))):
            return sq(*segs[:i]), sq(*segs[i:])
        if prove(pc, le(x.len, rem)):
            continue
        if not prove(pc, lt(rem, x.len)):
            if x.k in ('atom', 'sub') and i == len(segs) - 1 and prove(pc, and_(le(I(0), rem), le(rem, x.len))):
                l, r = split_seg(x, rem, pc)
                return sq(*(segs[:i] + l)), sq(*r)
            if i == len(segs) - 1 and (x.k == 'zero' or x.k == 'lit' and not any(x.a[0])) and prove(pc, and_(le(I(0), rem), le(rem, x.len))):
                return sq(*segs[:i], zero(rem)), zero(x.len - rem)
            raise Split(le(x.len, rem))
        if x.k == 'ite':
            c, A, Bq = x.a
            if prove(pc, c):
                return split_at(sq(*(segs[:i] + list(A.a) + segs[i + 1:])), off, pc)
            if prove(pc, not_(c)):
                return split_at(sq(*(segs[:i] + list(Bq.a) + segs[i + 1:])), off, pc)
            raise Split(c)
        if x.k == 'rep':
            lvl, body, lo, hi = x.a
            b = subst(body, {BV(lvl): lo})
            if prove(pc, le(rem, b.len)):
                return split_at(sq(*(segs[:i] + list(b.a) + [sg('rep', lvl, body, lo + 1, hi)] + segs[i + 1:])), off, pc)
            raise Unsupported('offset inside a repetition: %r in %r' % (rem, x))
        if rem.const() is None and x.k in ('lit', 'be'):
            n = x.len.const()
            if x.k == 'lit' and not any(x.a[0]):
                return sq(*segs[:i], zero(rem)), sq(zero(I(n) - rem), *segs[i + 1:])
            for j in range(1, n):
                if prove(pc, eq(rem, I(j))):
                    l, r = split_seg(x, I(j), pc)
                    return sq(*(segs[:i] + l)), sq(*(r + segs[i + 1:]))
            for j in range(1, n):
                if not prove(pc, le(rem, I(j))) and not prove(pc, lt(I(j), rem)):
                    raise Split(le(rem, I(j)))
            raise Unsupported('offset %r inside %r' % (rem, x))
        l, r = split_seg(x, rem, pc)
        return sq(*(segs[:i] + l)), sq(*(r + segs[i + 1:]))
    if prove(pc, eq(off, pre[-1])):
        return s, EMPTYSEQ
    raise Unsupported('offset %r beyond sequence %r' % (off, s))


def slice_seq(s, off, ln, pc):
    if off.const() == 0 and ln is s.len:
        return s
    _, r = split_at(s, off, pc)
    if ln is s.len - off or ln is r.len:
        return r
    lits, _ = lits_of(pc)
    if simp(ln + off - s.len, lits, {}).const() == 0:
        return r
    l, _ = split_at(r, ln, pc)
    return l


def opaque_val(seg, off, n):
    """integer value of n bytes of an opaque segment at off"""
    base = seg
    if seg.k == 'sub':
        base, off = seg.a[0], seg.a[1] + off
    if base.k == 'atom':
        return app('bev%d$%s' % (n, base.a[0]), base.a[1] + (off,), 0, (1 << (8 * n)) - 1)
    return app('bev%d!%d' % (n, base.id), (off,), 0, (1 << (8 * n)) - 1)


def be_value(s, pc):
    """unsigned big-endian value of a constant-length sequence"""
    r = I(0)
    for x in resolve_ites(s, pc).a:
        n = x.len.const()
        if n is None and x.k == 'ite':
            raise Split(x.a[0])
        if n is None and prove(pc, eq(x.len, I(0))):
            continue
        if n is None and x.k in ('atom', 'sub'):
            n = next((k for k in (4, 2, 8, 1) if prove(pc, eq(x.len, I(k)))), None)
        if n is None:
            raise Unsupported('integer read across variable-length data: %r' % (s,))
        if x.k == 'lit':
            v = I(int.from_bytes(x.a[0], 'big'))
        elif x.k == 'be':
            v = wrap_u(x.a[1], 8 * n)
        elif x.k == 'zero':
            v = I(0)
        elif x.k == 'ite':
            raise Split(x.a[0])
        elif x.k == 'rep':
            raise Unsupported('integer read across a repetition')
        else:
            v = opaque_val(x, I(0), n)
        r = r * (1 << (8 * n)) + v
    return r


def resolve_ites(s, pc):
    if not any(x.k == 'ite' for x in s.a):
        return s
    out = []
    for x in s.a:
        if x.k == 'ite':
            if prove(pc, x.a[0]):
                out.append(resolve_ites(x.a[1], pc))
            elif prove(pc, not_(x.a[0])):
                out.append(resolve_ites(x.a[2], pc))
            else:
                out.append(x)
        else:
            out.append(x)
    return sq(*out)


def unzz(t):
    if len(t.m) == 1 and t.c == 0:
        (at, c), = t.m
        if at.k == 'ite' and c == 1:
            cnd, a, b = at.a
            if a is (b + 1) * -1 and a.c % 2 == 0 and all(cf % 2 == 0 for _, cf in a.m):
                x = mklin({z: cf // 2 for z, cf in a.m}, a.c // 2)
                if cnd is le(I(0), x):
                    return x
                if cnd is lt(x, I(0)):
                    return x
    # constant pieces: ite(c, zz(a), zz(b)) with constants etc.
    if len(t.m) == 1 and t.m[0][0].k == 'ite' and t.m[0][1] == 1:
        cnd, a, b = t.m[0][0].a
        return ite(cnd, unzz(a + t.c), unzz(b + t.c))
    return ite(eq(mod(t, 2), I(0)), div(t, 2), -div(t, 2) - 1)


def head_uvarint(s, pc):
    """value and size of the unsigned varint at the head of s"""
    while s.a and s.a[0].k in ('rep', 'ite', 'atom', 'sub'):
        x = s.a[0]
        if x.k == 'ite':
            if prove(pc, x.a[0]):
                s = sq(x.a[1], *s.a[1:])
                continue
            if prove(pc, not_(x.a[0])):
                s = sq(x.a[2], *s.a[1:])
                continue
            raise Split(x.a[0])
        if x.k == 'rep':
            lvl, body, lo, hi = x.a
            if prove(pc, le(hi, lo)):
                s = sq(*s.a[1:])
                continue
            if prove(pc, lt(lo, hi)):
                s = sq(subst(body, {BV(lvl): lo}), sg('rep', lvl, body, lo + 1, hi), *s.a[1:])
                continue
            raise Split(le(hi, lo))
        if prove(pc, eq(x.len, I(0))):
            s = sq(*s.a[1:])
            continue
        break
    if not s.a:
        return I(0), I(0)
    x = s.a[0]
    if x.k == 'uv':
        return x.a[0], uvlen(x.a[0])
    if x.k == 'lit':
        v = sh = 0
        for i, b in enumerate(x.a[0]):
            v |= (b & 127) << sh
            sh += 7
            if not b & 128:
                return I(v), I(i + 1)
    n = x.len
    # unknown bytes
    val = app('uvval!%d' % x.id, (), 0, 2**64 - 1)
    raise Unsupported('varint read from non-varint data %r' % (x,))


def assume_seq(s, c, val):
    """simplify conditionals of s under c==val"""
    if not any(x.k == 'ite' for x in s.a):
        return s
    out = []
    for x in s.a:
        if x.k == 'ite':
            cc = assume_bool(x.a[0], c, val)
            out.append(sq_ite(cc, assume_seq(x.a[1], c, val), assume_seq(x.a[2], c, val)))
        else:
            out.append(x)
    return sq(*out)


class Mismatch(Exception):
    def __init__(self, why, pc):
        self.why, self.pc = why, pc


def seq_eq(a, b, pc, fuel=60):
    """raises Mismatch when equality cannot be proved"""
    A, Bq = list(a.a), list(b.a)
    pc = list(pc)
    while True:
        while A and Bq and A[0] is Bq[0]:
            A.pop(0)
            Bq.pop(0)
        if not A and not Bq:
            return
        if len(A) == len(Bq) and sq(*A) is sq(*Bq):
            return
        # common suffix
        while A and Bq and A[-1] is Bq[-1]:
            A.pop()
            Bq.pop()
        if not A and not Bq:
            return
        fuel -= 1
        if fuel <= 0:
            raise Mismatch('sequence comparison did not converge at %r vs %r' % (A[:2], Bq[:2]), pc)
        # conditionals at the head
        hit = None
        for L in (A, Bq):
            if L and L[0].k == 'ite':
                hit = L[0].a[0]
                break
        if hit is not None:
            c = hit
            for val in (True, False):
                cc = c if val else not_(c)
                pc2 = pc + [cc]
                if not solver.sat(pc2):
                    continue
                A2 = head_resolve(assume_seq(sq(*A), c, val), c, val)
                B2 = head_resolve(assume_seq(sq(*Bq), c, val), c, val)
                seq_eq(A2, B2, pc2, fuel)
            return
        if not A or not Bq:
            L = A or Bq
            x = L[0]
            if prove(pc, eq(x.len, I(0))):
                L.pop(0)
                continue
            raise Mismatch('extra bytes %r' % (sq(*L),), pc)
        x, y = A[0], Bq[0]
        r = head_eq(A, Bq, x, y, pc, fuel)
        if r:
            continue
        # case analysis on emptiness of variable length heads
        for L in (A, Bq):
            z = L[0]
            if z.k in ('atom', 'sub', 'rep', 'zero', 'hole', 'fn') and (z.len.lo is None or z.len.lo <= 0):
                if prove(pc, eq(z.len, I(0))):
                    L.pop(0)
                    r = True
                    break
        if r:
            continue
        for L in (A, Bq):
            z = L[0]
            if z.k == 'rep':
                lvl, body, lo, hi = z.a
                if prove(pc, lt(lo, hi)):
                    L[0:1] = list(subst(body, {BV(lvl): lo}).a) + [sg('rep', lvl, body, lo + 1, hi)]
                    r = True
                    break
                else:
                    e = le(hi, lo)
                    if solver.sat(pc + [not_(e)]) and solver.sat(pc + [e]):
                        seq_eq(sq(*A), sq(*Bq), pc + [e], fuel)
                        seq_eq(sq(*A), sq(*Bq), pc + [not_(e)], fuel)
                        return
        if r:
            continue
        raise Mismatch('%r differs from %r' % (x, y), pc)


def head_resolve(s, c, val):
    if s.a and s.a[0].k == 'ite' and s.a[0].a[0] is c:
        x = s.a[0]
        return sq(x.a[1] if val else x.a[2], *s.a[1:])
    return s


def head_eq(A, Bq, x, y, pc, fuel):
    """try to consume equal heads; returns True when progress was made"""
    kx, ky = x.k, y.k
    if kx == 'lit' and ky == 'lit':
        n = min(len(x.a[0]), len(y.a[0]))
        if x.a[0][:n] != y.a[0][:n]:
            raise Mismatch('bytes %s differ from %s' % (x.a[0].hex(), y.a[0].hex()), pc)
        A[0:1] = list(sq(sg('lit', x.a[0][n:])).a)
        Bq[0:1] = list(sq(sg('lit', y.a[0][n:])).a)
        return True
    if ky == 'be' and kx != 'be' or ky == 'uv' and kx == 'lit':
        return head_eq(Bq, A, y, x, pc, fuel)
    if kx == 'be':
        n, t = x.a
        if ky == 'be':
            m, u = y.a
            if n == m:
                if prove(pc, eq(mod(t - u, 1 << (8 * n)), I(0))):
                    A.pop(0)
                    Bq.pop(0)
                    return True
                raise Mismatch('%d-byte integer %r differs from %r' % (n, t, u), pc)
            k = min(n, m)
            L, z = (A, x) if n > m else (Bq, y)
            l, r = split_seg(z, I(k), pc)
            L[0:1] = list(sq(*(l + r)).a) if False else (l + r)
            return True
        if ky == 'lit':
            b = y.a[0]
            k = min(n, len(b))
            if k < n:
                l, r = split_seg(x, I(k), pc)
                A[0:1] = l + r
                return True
            v = int.from_bytes(b[:k], 'big')
            if prove(pc, eq(mod(t - v, 1 << (8 * n)), I(0))):
                A.pop(0)
                Bq[0:1] = list(sq(sg('lit', b[k:])).a)
                return True
            raise Mismatch('%d-byte integer %r differs from bytes %s' % (n, t, b[:k].hex()), pc)
        if ky == 'zero':
            if prove(pc, and_(le(I(n), y.a[0]), eq(mod(t, 1 << (8 * n)), I(0)))):
                A.pop(0)
                Bq[0:1] = list(zero(y.a[0] - n).a)
                return True
        return False
    if kx == 'uv':
        if ky == 'uv':
            if prove(pc, eq(x.a[0], y.a[0])):
                A.pop(0)
                Bq.pop(0)
                return True
            raise Mismatch('varint %r differs from %r' % (x.a[0], y.a[0]), pc)
        if ky == 'lit':
            b = y.a[0]
            v = sh = 0
            for i, c in enumerate(b):
                v |= (c & 127) << sh
                sh += 7
                if not c & 128:
                    if prove(pc, eq(x.a[0], I(v))):
                        A.pop(0)
                        Bq[0:1] = list(sq(sg('lit', b[i + 1:])).a)
                        return True
                    break
            raise Mismatch('varint %r differs from bytes %s' % (x.a[0], b.hex()), pc)
        return False
    if kx in ('atom', 'sub') and ky in ('atom', 'sub'):
        bx, ox, lx = (x.a[0], x.a[1], x.a[2]) if kx == 'sub' else (x, I(0), x.len)
        by, oy, ly = (y.a[0], y.a[1], y.a[2]) if ky == 'sub' else (y, I(0), y.len)
        if bx is not by and bx.k == 'atom' and by.k == 'atom' and bx.a[0] == by.a[0]:
            if prove(pc, and_(*[eq(p, q) for p, q in zip(bx.a[1], by.a[1])])):
                by = bx
        if bx is by and prove(pc, eq(ox, oy)):
            if prove(pc, eq(lx, ly)):
                A.pop(0)
                Bq.pop(0)
                return True
            if prove(pc, lt(lx, ly)):
                A.pop(0)
                Bq[0:1] = [sg('sub', by, oy + lx, ly - lx)]
                return True
            if prove(pc, lt(ly, lx)):
                Bq.pop(0)
                A[0:1] = [sg('sub', bx, ox + ly, lx - ly)]
                return True
        return False
    if kx == 'zero' and ky == 'zero':
        if prove(pc, eq(x.a[0], y.a[0])):
            A.pop(0)
            Bq.pop(0)
            return True
        if prove(pc, le(x.a[0], y.a[0])):
            A.pop(0)
            Bq[0:1] = list(zero(y.a[0] - x.a[0]).a)
            return True
        if prove(pc, le(y.a[0], x.a[0])):
            Bq.pop(0)
            A[0:1] = list(zero(x.a[0] - y.a[0]).a)
            return True
        return False
    if (kx, ky) in (('zero', 'lit'), ('lit', 'zero')):
        if kx == 'lit':
            return head_eq(Bq, A, y, x, pc, fuel)
        b = y.a[0]
        if prove(pc, le(I(len(b)), x.a[0])):
            if any(b):
                raise Mismatch('zero bytes differ from %s' % b.hex(), pc)
            A[0:1] = list(zero(x.a[0] - len(b)).a)
            Bq.pop(0)
            return True
        return False
    if kx == 'rep' and ky == 'rep':
        l1, b1, lo1, hi1 = x.a
        l2, b2, lo2, hi2 = y.a
        if prove(pc, eq(lo1, lo2)):
            if rep_bodies_eq(x, y, pc, fuel):
                if prove(pc, eq(hi1, hi2)):
                    A.pop(0)
                    Bq.pop(0)
                    return True
                if prove(pc, le(hi1, hi2)):
                    A.pop(0)
                    Bq[0:1] = list(sq(sg('rep', l2, b2, hi1, hi2)).a)
                    return True
                if prove(pc, le(hi2, hi1)):
                    Bq.pop(0)
                    A[0:1] = list(sq(sg('rep', l1, b1, hi2, hi1)).a)
                    return True
        return False
    if kx == 'fn' and ky == 'fn' and x.a[0] == y.a[0]:
        for p, q in zip(x.a[1], y.a[1]):
            if p is q:
                continue
            if isinstance(p, Sq) and isinstance(q, Sq):
                seq_eq(p, q, pc, fuel)
            elif isinstance(p, Lin) and prove(pc, eq(p, q)):
                continue
            else:
                return False
        A.pop(0)
        Bq.pop(0)
        return True
    return False


def rep_bodies_eq(x, y, pc, fuel):
    l1, b1, lo1, hi1 = x.a
    l2, b2, lo2, hi2 = y.a
    if l1 == l2 and b1 is b2:
        return True
    k = fresh('re', 0)
    rng = [le(lo1, k), lt(k, hi1), lt(k, hi2)]
    seq_eq(subst(b1, {BV(l1): k}), subst(b2, {BV(l2): k}), list(pc) + rng, fuel)
    return True
