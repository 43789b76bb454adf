"""Hash-consed terms: linear integers, booleans, byte sequences.

Lin  : integer term, normal form  sum(coef*atom) + const
At   : integer atom (var, bv, app, ite, mul, div, mod, sum, ...)
Bl   : boolean term
Sg,Sq: sequence segment / sequence of bytes
"""
import itertools
from math import gcd

_tab = {}
_ids = itertools.count()
INF = None


class Node:
    __slots__ = ('k', 'a', 'id', 'free', 'lvl', 'lo', 'hi', '_len', 'memo')

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o


def _sub_nodes(a):
    for x in a:
        if isinstance(x, Node):
            yield x
        elif isinstance(x, tuple):
            yield from _sub_nodes(x)


EMPTY = frozenset()


def _mk(cls, k, a):
    key = (cls, k, a)
    n = _tab.get(key)
    if n is None:
        n = object.__new__(cls)
        n.k, n.a, n.id = k, a, next(_ids)
        n.lo = n.hi = None
        n._len = None
        n.memo = None
        fr = None
        lvl = -1
        for s in _sub_nodes(a):
            if s.free:
                fr = s.free if fr is None else (fr if fr is s.free else fr | s.free)
            if s.lvl > lvl:
                lvl = s.lvl
        n.free = fr or EMPTY
        n.lvl = lvl      # highest binder level used inside
        _tab[key] = n
        n._init()
    return n


def _add(a, b):
    return None if a is None or b is None else a + b


class Lin(Node):
    __slots__ = ()
    # k = 'lin'; a = (((atom,coef),...), const)

    def _init(self):
        lo = hi = self.a[1]
        for at, c in self.a[0]:
            l, h = (at.lo, at.hi) if c > 0 else (at.hi, at.lo)
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
            if lo is None and hi is None:
                break
        self.lo, self.hi = lo, hi

    @property
    def m(self):
        return self.a[0]

    @property
    def c(self):
        return self.a[1]

    def const(self):
        return self.a[1] if not self.a[0] else None

    def __add__(self, o):
        if isinstance(o, int):
            if o == 0:
                return self
            return _mk(Lin, 'lin', (self.a[0], self.a[1] + o))
        if not o.a[0]:
            return self + o.a[1]
        if not self.a[0]:
            return o + self.a[1]
        d = dict(self.a[0])
        for at, c in o.a[0]:
            v = d.get(at, 0) + c
            if v:
                d[at] = v
            else:
                d.pop(at, None)
        return mklin(d, self.a[1] + o.a[1])
    __radd__ = __add__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        if isinstance(o, int):
            return self + (-o)
        return self + (o * -1)

    def __rsub__(self, o):
        return (self * -1) + o

    def __mul__(self, o):
        if isinstance(o, Lin):
            c = o.const()
            if c is None:
                c2 = self.const()
                if c2 is None:
                    return mul(self, o)
                return o * c2
            o = c
        if o == 1:
            return self
        if o == 0:
            return I(0)
        return _mk(Lin, 'lin', (tuple((at, c * o) for at, c in self.a[0]), self.a[1] * o))
    __rmul__ = __mul__

    def __repr__(self):
        out = []
        for at, c in self.a[0]:
            out.append(('' if c == 1 else '-' if c == -1 else '%d*' % c) + repr(at))
        if self.a[1] or not out:
            out.append(str(self.a[1]))
        return '+'.join(out).replace('+-', '-')


def mklin(d, c):
    return _mk(Lin, 'lin', (tuple(sorted(d.items(), key=lambda x: x[0].id)), c))


def I(n):
    return _mk(Lin, 'lin', ((), n))


ranges = {}      # function name -> (lo,hi)


class At(Node):
    __slots__ = ()

    def _init(self):
        k, a = self.k, self.a
        if k == 'var':
            self.free = frozenset((self,))
            r = ranges.get(a[0])
            if r:
                self.lo, self.hi = r
        elif k == 'bv':
            self.free = frozenset((self,))
            self.lvl = -1
            self.lo = 0
        elif k == 'app':
            r = ranges.get(a[0])
            if r:
                self.lo, self.hi = r
            if a[0] == 'uvlen':
                t = a[1][0]
                self.lo = uvlen_c(max(t.lo or 0, 0))
                self.hi = 10 if t.hi is None else uvlen_c(max(t.hi, 0))
        elif k == 'ite':
            _, x, y = a
            self.lo = None if x.lo is None or y.lo is None else min(x.lo, y.lo)
            self.hi = None if x.hi is None or y.hi is None else max(x.hi, y.hi)
        elif k == 'mod':
            self.lo, self.hi = 0, a[1] - 1
        elif k == 'div':
            x, c = a
            self.lo = None if x.lo is None else x.lo // c
            self.hi = None if x.hi is None else x.hi // c
        elif k == 'sum':
            lvl, body, n = a
            bv = BV(lvl)
            self.free = n.free | (body.free - {bv})
            self.lvl = max(lvl, n.lvl)
            if body.lo is not None and body.lo >= 0:
                self.lo = 0
            if body.hi is not None and body.hi <= 0:
                self.hi = 0
            if body.hi is not None and body.hi > 0 and n.hi is not None and n.hi >= 0:
                self.hi = body.hi * n.hi
        elif k == 'crc':
            self.lo, self.hi = 0, 2**32 - 1
        elif k == 'mul':
            x, y = a
            if None not in (x.lo, x.hi, y.lo, y.hi):
                ps = [x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi]
                self.lo, self.hi = min(ps), max(ps)
            elif x.lo is not None and y.lo is not None and x.lo >= 0 and y.lo >= 0:
                self.lo = x.lo * y.lo
        elif k == 'bor' or k == 'band' or k == 'bxor':
            x, y = a
            if x.lo is not None and y.lo is not None and x.lo >= 0 and y.lo >= 0:
                self.lo = 0
                if x.hi is not None and y.hi is not None:
                    self.hi = (1 << max(x.hi.bit_length(), y.hi.bit_length())) - 1

    def __repr__(self):
        k, a = self.k, self.a
        if k == 'var':
            return a[0]
        if k == 'bv':
            return '#%d' % a[0]
        if k == 'app':
            return a[0] + ('(' + ','.join(map(repr, a[1])) + ')' if a[1] else '')
        if k == 'ite':
            return '(%r ? %r : %r)' % a
        if k == 'sum':
            return 'SUM[#%d<%r](%r)' % (a[0], a[2], a[1])
        if k == 'div':
            return '(%r)/%d' % a
        if k == 'mod':
            return '(%r)%%%d' % a
        return k + repr(a)


def lin(at):
    return _mk(Lin, 'lin', (((at, 1),), 0))


def BV(l):
    return _mk(At, 'bv', (l,))


_vc = itertools.count()


def var(name, lo=None, hi=None):
    if (lo is not None or hi is not None) and name not in ranges:
        ranges[name] = (lo, hi)
    return lin(_mk(At, 'var', (name,)))


def fresh(prefix, lo=None, hi=None):
    return var('%s!%d' % (prefix, next(_vc)), lo, hi)


def app(name, args=(), lo=None, hi=None):
    if (lo is not None or hi is not None) and name not in ranges:
        ranges[name] = (lo, hi)
    return lin(_mk(At, 'app', (name, tuple(args))))


def uvlen_c(n):
    r = 1
    while n >= 128:
        n >>= 7
        r += 1
    return r


def uvlen(t):
    if t.lo is not None and t.hi is not None and t.lo >= 0 and uvlen_c(t.lo) == uvlen_c(t.hi):
        return I(uvlen_c(t.lo))
    return app('uvlen', (t,))


def zz(t):
    """zigzag of a signed 64 value"""
    if t.lo is not None and t.lo >= 0:
        return t * 2
    if t.hi is not None and t.hi < 0:
        return t * -2 - 1
    return ite(le(I(0), t), t * 2, t * -2 - 1)


def mul(x, y):
    # x,y both non const
    if len(x.m) > 1 or x.c:
        r = y * x.c
        for at, c in x.m:
            r = r + mul(lin(at), y) * c
        return r
    if len(y.m) > 1 or y.c:
        r = x * y.c
        for at, c in y.m:
            r = r + mul(x, lin(at)) * c
        return r
    (xa, xc), = x.m
    (ya, yc), = y.m
    if xa.id > ya.id:
        xa, ya = ya, xa
    return lin(_mk(At, 'mul', (lin(xa), lin(ya)))) * (xc * yc)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if neg_oriented(c):
        c, a, b = not_(c), b, a
    # evaluate nested same-cond ites
    a = assume_int(a, c, True)
    b = assume_int(b, c, False)
    if a is b:
        return a
    # extract the common linear part
    d = a - b
    common = {}
    db = dict(b.m)
    for at, cf in a.m:
        if db.get(at) == cf:
            common[at] = cf
    k = a.c if c.k == 'bapp' and c.a[0].endswith('#nil') and not (a.const() is not None and b.const() is not None) else 0
    if common or k:
        com = mklin(common, k)
        return com + ite_atom(c, a - com, b - com)
    return ite_atom(c, a, b)


def neg_oriented(c):
    return c.k == 'not' or c.k == 'or' or (c.k == 'le' and c.a[0].m[0][1] < 0)


def _is_len(at, nm, args):
    return at.k == 'app' and at.a[0] == nm and at.a[1] == args


def _when_empty(at, nm, args):
    if _is_len(at, nm, args):
        return 0
    if at.k == 'sum' and len(at.a[2].m) == 1 and at.a[2].c == 0 and _is_len(at.a[2].m[0][0], nm, args):
        return 0
    if at.k == 'app' and at.a[0] == 'uvlen' and at.a[1][0].c >= 0 and all(_is_len(x, nm, args) for x, _ in at.a[1][0].m):
        return uvlen(I(at.a[1][0].c)).const()


def ite_atom(c, a, b):
    if a is b:
        return a
    if c.k == 'bapp' and c.a[0].endswith('#nil'):
        # a nil list is empty: pull out of b what has a known value for the empty list
        nm = c.a[0][:-4] + '#len'
        d, v0 = {}, 0
        for at, cf in b.m:
            v = _when_empty(at, nm, c.a[1])
            if v is not None:
                d[at] = cf
                v0 += v * cf
        if d:
            V = mklin(d, 0)
            return V + ite(c, a - v0, b - V)
    return lin(_mk(At, 'ite', (c, a, b)))


def assume_int(t, c, val):
    """simplify nested ites of t under condition c == val (shallow)"""
    if not any(at.k == 'ite' and at.a[0] is c for at, _ in t.m):
        return t
    r = I(t.c)
    for at, cf in t.m:
        if at.k == 'ite' and at.a[0] is c:
            r = r + (at.a[1] if val else at.a[2]) * cf
        else:
            r = r + lin(at) * cf
    return r


def mod(x, m):
    """mathematical x mod m, m>0 const"""
    if m == 1:
        return I(0)
    if x.lo is not None and x.hi is not None and x.lo // m == x.hi // m:
        return x - (x.lo // m) * m
    d = {}
    extra = I(0)
    ch = False
    for at, c in x.m:
        c2 = c % m
        if c2 != c:
            ch = True
        if c2 == 0:
            continue
        if at.k == 'mod' and at.a[1] % m == 0:
            extra = extra + at.a[0] * c2
            ch = True
            continue
        if at.k == 'ite':
            mm = [t for t in (at.a[1], at.a[2])]
            r = [mod_strip(t, m) for t in mm]
            if r != mm:
                extra = extra + ite(at.a[0], r[0], r[1]) * c2
                ch = True
                continue
        if c2 > m // 2:
            c2 -= m
        d[at] = c2
    c0 = x.c % m
    y = mklin(d, c0) + extra
    if ch:
        y = mod_strip(y, m)
        if y.lo is not None and y.hi is not None and y.lo // m == y.hi // m:
            return y - (y.lo // m) * m
    if c0 > m // 2 and False:
        c0 -= m
    return lin(_mk(At, 'mod', (y, m)))


def mod_strip(x, m):
    """some y congruent to x modulo m, with inner mods removed"""
    changed = True
    while changed:
        changed = False
        d = I(x.c % m if (x.c % m) <= m // 2 else x.c % m - m)
        for at, c in x.m:
            c2 = c % m
            if c2 > m // 2:
                c2 -= m
            if c2 == 0:
                changed = True
                continue
            if at.k == 'mod' and at.a[1] % m == 0:
                d = d + at.a[0] * c2
                changed = True
            elif at.k == 'ite':
                p, q = mod_strip(at.a[1], m), mod_strip(at.a[2], m)
                if p is not at.a[1] or q is not at.a[2]:
                    n = ite(at.a[0], p, q) * c2
                    if n is not lin(at) * c2:
                        changed = True
                    d = d + n
                else:
                    d = d + lin(at) * c2
            else:
                d = d + lin(at) * c2
        if d is x:
            break
        x = d
    return x


def div(x, m):
    """floor division by positive const"""
    if m == 1:
        return x
    if x.lo is not None and x.hi is not None and x.lo // m == x.hi // m:
        return I(x.lo // m)
    q = I(0)
    d = {}
    for at, c in x.m:
        if c % m == 0:
            q = q + lin(at) * (c // m)
        else:
            d[at] = c
    qc, rc = divmod(x.c, m)
    y = mklin(d, rc)
    q = q + qc
    if y.lo is not None and y.hi is not None and y.lo // m == y.hi // m:
        return q + (y.lo // m)
    if len(y.m) == 1 and y.c == 0:
        (at, c), = y.m
        if at.k == 'div' and c == 1:
            return q + div(at.a[0], at.a[1] * m)
        if at.k == 'mod' and c == 1 and at.a[1] % m == 0:
            return q + mod(div(at.a[0], m), at.a[1] // m)
    return q + lin(_mk(At, 'div', (y, m)))


def wrap_u(x, bits):
    return mod(x, 1 << bits)


def wrap_s(x, bits):
    h = 1 << (bits - 1)
    if x.lo is not None and x.hi is not None and x.lo >= -h and x.hi < h:
        return x
    y = mod_strip(x, 1 << bits)
    if y.lo is not None and y.hi is not None and y.lo >= -h and y.hi < h:
        return y
    return mod(y + h, 1 << bits) - h


def max_level(body):
    return body.lvl


def bind(body, v):
    """abstract var atom v in body -> (level, body')"""
    lvl = body.lvl + 1
    return lvl, subst(body, {v: lin(BV(lvl))})


def sum_(body, v, n):
    """SUM_{v<n} body, v a var atom"""
    if n.const() == 0:
        return I(0)
    r = I(0)
    if body.c:
        r = n * body.c
    for at, c in body.m:
        if v not in at.free:
            if at.k != 'mul':
                r = r + n * lin(at) * c
                continue
        b = lin(at)
        lvl, bb = bind(b, v)
        r = r + mk_sum(lvl, bb, n) * c
    return r


def mk_sum(lvl, bb, n):
    c = n.const()
    if c is not None and 0 <= c <= 4:
        r = I(0)
        for i in range(c):
            r = r + subst(bb, {BV(lvl): I(i)})
        return r
    return lin(_mk(At, 'sum', (lvl, bb, n)))


# ---------------------------------------------------------------- booleans

class Bl(Node):
    __slots__ = ()

    def _init(self):
        if self.k == 'all':
            lvl, body, lo, hi = self.a
            self.free = (body.free - {BV(lvl)}) | lo.free | hi.free
            self.lvl = max(lvl, lo.lvl, hi.lvl)

    def __repr__(self):
        k, a = self.k, self.a
        if k == 'true' or k == 'false':
            return k
        if k == 'le':
            return '(%r<=0)' % a
        if k == 'eq':
            return '(%r==0)' % a
        if k == 'not':
            return '!%r' % a
        if k == 'bapp':
            return a[0] + '(' + ','.join(map(repr, a[1])) + ')'
        if k == 'all':
            return 'ALL[%r<=#%d<%r](%r)' % (a[2], a[0], a[3], a[1])
        if k == 'seq':
            return '(%r === %r)' % a
        return '(' + (' && ' if k == 'and' else ' || ').join(map(repr, a[0])) + ')'


TRUE = _mk(Bl, 'true', ())
FALSE = _mk(Bl, 'false', ())


def B(b):
    return TRUE if b else FALSE


def le(a, b):
    """a <= b"""
    d = a - b
    if d.hi is not None and d.hi <= 0:
        return TRUE
    if d.lo is not None and d.lo > 0:
        return FALSE
    g = 0
    for _, c in d.m:
        g = gcd(g, c)
    if g > 1:
        d = mklin({at: c // g for at, c in d.m}, -((-d.c) // g))
    if len(d.m) == 1 and d.m[0][0].k == 'ite' and d.m[0][0].a[1].const() is not None and d.m[0][0].a[2].const() is not None:
        at, c = d.m[0]
        x, y = (B(at.a[i].const() * c + d.c <= 0) for i in (1, 2))
        return bite(at.a[0], x, y)
    # canonical negation: le(d) with leading coef negative and its negation both kept
    return _mk(Bl, 'le', (d,))


def lt(a, b):
    return le(a + 1, b)


def eq(a, b):
    d = a - b
    c = d.const()
    if c is not None:
        return B(c == 0)
    if (d.lo is not None and d.lo > 0) or (d.hi is not None and d.hi < 0):
        return FALSE
    g = 0
    for _, cf in d.m:
        g = gcd(g, cf)
    if d.c % g:
        return FALSE
    if d.m[0][1] < 0:
        g = -g
    if g != 1:
        d = mklin({at: cf // g for at, cf in d.m}, d.c // g)
    # ite(c,k1,k2)==const
    if len(d.m) == 1 and d.m[0][0].k == 'ite':
        at, cf = d.m[0]
        x, y = at.a[1], at.a[2]
        ex, ey = eq(x * cf + d.c, I(0)), eq(y * cf + d.c, I(0))
        if ex.k in ('true', 'false') or ey.k in ('true', 'false'):
            return bite(at.a[0], ex, ey)
    return _mk(Bl, 'eq', (d,))


def ne(a, b):
    return not_(eq(a, b))


def bapp(name, args=()):
    return _mk(Bl, 'bapp', (name, tuple(args)))


def not_(b):
    if b.k == 'true':
        return FALSE
    if b.k == 'false':
        return TRUE
    if b.k == 'not':
        return b.a[0]
    if b.k == 'le':
        return le(I(1), b.a[0])
    if b.k == 'and':
        return or_(*[not_(x) for x in b.a[0]])
    if b.k == 'or':
        return and_(*[not_(x) for x in b.a[0]])
    return _mk(Bl, 'not', (b,))


def _flat(k, bs):
    for b in bs:
        if b.k == k:
            yield from b.a[0]
        else:
            yield b


def and_(*bs):
    s = {}
    for b in _flat('and', bs):
        if b is FALSE:
            return FALSE
        if b is not TRUE:
            s[b] = 1
    for b in s:
        if not_simple(b) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return _mk(Bl, 'and', (tuple(sorted(s, key=lambda x: x.id)),))


def not_simple(b):
    return not_(b) if b.k in ('bapp', 'not', 'eq', 'le', 'seq') else None


def or_(*bs):
    s = {}
    for b in _flat('or', bs):
        if b is TRUE:
            return TRUE
        if b is not FALSE:
            s[b] = 1
    for b in s:
        if not_simple(b) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    # absorb and-members:  x || (x && y) = x ; x || (!x && y) = x||y
    lst = list(s)
    for b in lst:
        if b.k == 'and':
            ms = b.a[0]
            if any(m in s for m in ms):
                return or_(*[x for x in lst if x is not b])
            keep = [m for m in ms if not_(m) not in s]
            if len(keep) != len(ms):
                return or_(*([x for x in lst if x is not b] + [and_(*keep)]))
    # (x && y) || (!x && y) = y
    ands = [b for b in lst if b.k == 'and']
    for i in range(len(ands)):
        si = set(ands[i].a[0])
        for j in range(i + 1, len(ands)):
            sj = set(ands[j].a[0])
            d1, d2 = si - sj, sj - si
            if len(d1) == 1 and len(d2) == 1 and not_(next(iter(d1))) is next(iter(d2)):
                rest = [x for x in lst if x is not ands[i] and x is not ands[j]]
                return or_(and_(*(si & sj)), *rest)
    return _mk(Bl, 'or', (tuple(sorted(s, key=lambda x: x.id)),))


def implies(a, b):
    return or_(not_(a), b)


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return or_(and_(c, a), and_(not_(c), b))


def all_(body, v, lo, hi):
    """forall v in [lo,hi). body"""
    if body is TRUE:
        return TRUE
    if v not in body.free:
        return or_(le(hi, lo), body)
    lvl, bb = bind(body, v)
    return _mk(Bl, 'all', (lvl, bb, lo, hi))


# ---------------------------------------------------------------- sequences

class Sg(Node):
    __slots__ = ()

    def _init(self):
        k, a = self.k, self.a
        if k == 'rep':
            lvl, body, lo, hi = a
            self.free = (body.free - {BV(lvl)}) | lo.free | hi.free
            self.lvl = max(lvl, lo.lvl, hi.lvl)
        if k == 'hole':
            self.free = frozenset((self,)) | a[1].free

    @property
    def len(self):
        if self._len is None:
            k, a = self.k, self.a
            if k == 'lit':
                r = I(len(a[0]))
            elif k == 'be':
                r = I(a[0])
            elif k == 'atom':
                r = app('len$' + a[0], a[1], 0, ATOM_MAX.get(a[0], 2**31 - 1))
            elif k == 'sub':
                r = a[2]
            elif k == 'zero':
                r = a[0]
            elif k == 'uv':
                r = uvlen(a[0])
            elif k == 'rep':
                lvl, body, lo, hi = a
                r = rep_len(lvl, body, hi) - rep_len(lvl, body, lo)
            elif k == 'ite':
                r = ite(a[0], a[1].len, a[2].len)
            elif k == 'hole':
                r = a[1]
            elif k == 'fn':
                r = fnlen(self)
            self._len = r
        return self._len

    def __repr__(self):
        k, a = self.k, self.a
        if k == 'lit':
            return a[0].hex() or "''"
        if k == 'be':
            return 'be%d(%r)' % a
        if k == 'atom':
            return '<%s%s>' % (a[0], '(' + ','.join(map(repr, a[1])) + ')' if a[1] else '')
        if k == 'sub':
            return '%r[%r+:%r]' % a
        if k == 'rep':
            return 'REP[%r<=#%d<%r]{%r}' % (a[2], a[0], a[3], a[1])
        if k == 'ite':
            return '(%r ? %r : %r)' % a
        return k + repr(a)


ATOM_MAX = {}


def fnlen(sg):
    # length of an opaque function of a sequence: named per function; argument abstracted
    return lin(_mk(At, 'fnlen', (sg,)))


def rep_len(lvl, body, n):
    """sum_{k<n} len(body(k)) with body using BV(lvl)"""
    L = body.len
    v = fresh('k', 0)
    (va, _), = v.m
    return sum_(subst(L, {BV(lvl): v}), va, n)


class Sq(Node):
    __slots__ = ()

    def _init(self):
        pass

    @property
    def segs(self):
        return self.a

    @property
    def len(self):
        if self._len is None:
            r = I(0)
            for s in self.a:
                r = r + s.len
            self._len = r
        return self._len

    def __repr__(self):
        return '[' + ' '.join(map(repr, self.a)) + ']'


def sg(k, *a):
    return _mk(Sg, k, tuple(a))


def sq(*parts):
    """concatenate segments/sequences with canonicalisation"""
    out = []
    for p in parts:
        for s in (p.a if isinstance(p, Sq) else (p,)):
            _push(out, s)
    return _mk(Sq, 'sq', tuple(out))


def _push(out, s):
    k, a = s.k, s.a
    if k == 'lit' and not a[0]:
        return
    if k == 'be':
        c = a[1].const()
        if a[0] == 0:
            return
        if c is not None:
            s = sg('lit', (c % (1 << (8 * a[0]))).to_bytes(a[0], 'big'))
            k, a = s.k, s.a
    if k == 'uv':
        c = a[0].const()
        if c is not None:
            s = sg('lit', uv_bytes(c))
            k, a = s.k, s.a
    if k == 'zero':
        c = a[0].const()
        if c is not None:
            if c <= 0:
                return
            if c <= 64:
                s = sg('lit', bytes(c))
                k, a = s.k, s.a
    if k in ('rep',):
        d = (a[3] - a[2]).const()
        if d is not None and d <= 0:
            return
        if d == 1:
            b = subst(a[1], {BV(a[0]): a[2]})
            for x in b.a:
                _push(out, x)
            return
        if not a[1].a:
            return
    if k == 'sub' or k == 'atom':
        c = s.len.const()
        if c == 0:
            return
    if k == 'ite':
        if a[0] is TRUE or a[0] is FALSE:
            for x in (a[1] if a[0] is TRUE else a[2]).a:
                _push(out, x)
            return
        if a[1] is a[2]:
            for x in a[1].a:
                _push(out, x)
            return
    if out:
        t = out[-1]
        if k == 'lit' and t.k == 'lit':
            out[-1] = sg('lit', t.a[0] + a[0])
            return
        if k == 'zero' and t.k == 'zero':
            out.pop()
            _push(out, sg('zero', t.a[0] + a[0]))
            return
        if k == 'rep' and t.k == 'rep' and t.a[0] == a[0] and t.a[1] is a[1] and t.a[3] is a[2]:
            out.pop()
            _push(out, sg('rep', a[0], a[1], t.a[2], a[3]))
            return
        if k == 'sub' and t.k == 'sub' and t.a[0] is a[0] and t.a[1] + t.a[2] is a[1]:
            out.pop()
            n = mk_sub(a[0], t.a[1], t.a[2] + a[2])
            for x in n:
                _push(out, x)
            return
        if k == 'be' and t.k == 'be':
            # two adjacent pieces of the same wide value: (x>>8)mod 256, x mod 256
            pass
    out.append(s)


def uv_bytes(c):
    r = bytearray()
    while c >= 128:
        r.append((c & 127) | 128)
        c >>= 7
    r.append(c)
    return bytes(r)


def mk_sub(atom, off, ln):
    if off.const() == 0 and ln is atom.len:
        return (atom,)
    if ln.const() == 0:
        return ()
    return (sg('sub', atom, off, ln),)


def be(n, t):
    t = mod_strip(t, 1 << (8 * n))
    return sq(sg('be', n, t))


def lit(b):
    return sq(sg('lit', b))


def satom(name, args=(), mx=None):
    if mx is not None and name not in ATOM_MAX:
        ATOM_MAX[name] = mx
    return sq(sg('atom', name, tuple(args)))


def uv(t):
    return sq(sg('uv', t))


def zero(n):
    return sq(sg('zero', n))


def rep(body, v, lo, hi):
    """concat_{v in [lo,hi)} body"""
    lvl, bb = bind(body, v)
    return sq(sg('rep', lvl, bb, lo, hi))


def sq_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if neg_oriented(c):
        c, a, b = not_(c), b, a
    # pull common prefix / suffix
    pa, pb = list(a.a), list(b.a)
    pre, suf = [], []
    while pa and pb and pa[0] is pb[0]:
        pre.append(pa.pop(0))
        pb.pop(0)
    while pa and pb and pa[-1] is pb[-1]:
        suf.insert(0, pa.pop())
        pb.pop()
    if not pa and not pb:
        return sq(*(pre + suf))
    if not suf and len(pa) > 1 and len(pb) > 1 and pa[-1].k == 'zero' and pb[-1].k == 'zero':
        suf = [sg('zero', ite(c, pa.pop().a[0], pb.pop().a[0]))]
    return sq(*(pre + [sg('ite', c, sq(*pa), sq(*pb))] + suf))


EMPTYSEQ = sq()


# ---------------------------------------------------------------- substitution

def subst(x, env):
    """env maps var/bv atoms -> Lin, hole segments -> Sq"""
    if isinstance(x, Node):
        ks = frozenset(env)
        return _subst(x, env, ks, {})
    raise TypeError(x)


def _subst(x, env, ks, memo):
    if not (x.free & ks):
        return x
    r = memo.get(x)
    if r is not None:
        return r
    r = _subst1(x, env, ks, memo)
    memo[x] = r
    return r


def _rebind(lvl, body, env, ks, memo):
    bv = BV(lvl)
    if bv in env:
        env = {k: v for k, v in env.items() if k is not bv}
        ks = frozenset(env)
        memo = {}
    nb = _subst(body, env, ks, memo)
    return renorm(lvl, nb)


def renorm(lvl, nb):
    l2 = nb.lvl + 1
    if l2 != lvl:
        bv = BV(lvl)
        if bv in nb.free:
            nb = subst(nb, {bv: lin(BV(l2))})
        # level of nb does not change by renaming a bv
    return l2, nb


def _subst1(x, env, ks, memo):
    S = lambda y: _subst(y, env, ks, memo)
    k, a = x.k, x.a
    if isinstance(x, Lin):
        d = {}
        r = I(x.c)
        rest = {}
        for at, c in x.m:
            if at.free & ks:
                r = r + S(at) * c
            else:
                rest[at] = c
        return mklin(rest, 0) + r if rest else r
    if isinstance(x, At):
        if k in ('var', 'bv'):
            return env.get(x) or lin(x)
        if k == 'app':
            if a[0] == 'uvlen':
                return uvlen(S(a[1][0]))
            return lin(_mk(At, 'app', (a[0], tuple(S(y) for y in a[1]))))
        if k == 'ite':
            return ite(S(a[0]), S(a[1]), S(a[2]))
        if k == 'mod':
            return mod(S(a[0]), a[1])
        if k == 'div':
            return div(S(a[0]), a[1])
        if k == 'mul':
            return S(a[0]) * S(a[1])
        if k == 'sum':
            n = S(a[2])
            l2, nb = _rebind(a[0], a[1], env, ks, memo)
            v = fresh('k', 0)
            (va, _), = v.m
            return sum_(subst(nb, {BV(l2): v}), va, n)
        if k == 'crc':
            return crc(S(a[0]))
        if k == 'fnlen':
            s = S(a[0])
            return s.len
        return rebuild(k, [S(y) if isinstance(y, Node) else y for y in a])
    if isinstance(x, Bl):
        if k == 'le':
            return le(S(a[0]), I(0))
        if k == 'eq':
            return eq(S(a[0]), I(0))
        if k == 'not':
            return not_(S(a[0]))
        if k == 'and':
            return and_(*[S(y) for y in a[0]])
        if k == 'or':
            return or_(*[S(y) for y in a[0]])
        if k == 'bapp':
            return bapp(a[0], tuple(S(y) for y in a[1]))
        if k == 'seq':
            return seq_bool(S(a[0]), S(a[1]))
        if k == 'all':
            lo, hi = S(a[2]), S(a[3])
            l2, nb = _rebind(a[0], a[1], env, ks, memo)
            if nb is TRUE:
                return TRUE
            return _mk(Bl, 'all', (l2, nb, lo, hi))
    if isinstance(x, Sq):
        return sq(*[S(s) for s in a])
    if isinstance(x, Sg):
        if k == 'hole':
            if x in env:
                return env[x]
            return sq(sg('hole', a[0], S(a[1])))
        if k == 'be':
            return be(a[0], S(a[1]))
        if k == 'atom':
            return sq(sg('atom', a[0], tuple(S(y) for y in a[1])))
        if k == 'sub':
            b = S(a[0])
            off, ln = S(a[1]), S(a[2])
            bs = b.a if isinstance(b, Sq) else (b,)
            assert len(bs) == 1
            return sq(*mk_sub(bs[0], off, ln))
        if k == 'zero':
            return zero(S(a[0]))
        if k == 'uv':
            return uv(S(a[0]))
        if k == 'rep':
            lo, hi = S(a[2]), S(a[3])
            l2, nb = _rebind(a[0], a[1], env, ks, memo)
            return sq(sg('rep', l2, nb, lo, hi))
        if k == 'ite':
            return sq_ite(S(a[0]), S(a[1]), S(a[2]))
        if k == 'fn':
            return sq(sg('fn', a[0], tuple(S(y) if isinstance(y, Node) else y for y in a[1])))
    raise TypeError((k, x))


def rebuild(k, a):
    if k in ('bor', 'band', 'bxor'):
        return bitop(k, a[0], a[1])
    if k == 'divv':
        return divv(a[0], a[1])
    if k == 'modv':
        return modv(a[0], a[1])
    raise TypeError(k)


def divv(x, y):
    c = y.const()
    if c is not None and c > 0:
        return div(x, c)
    return lin(_mk(At, 'divv', (x, y)))


def modv(x, y):
    c = y.const()
    if c is not None and c > 0:
        return mod(x, c)
    return x - divv(x, y) * y


def bitop(k, x, y):
    cx, cy = x.const(), y.const()
    if cx is not None and cy is not None:
        return I(cx & cy if k == 'band' else cx | cy if k == 'bor' else cx ^ cy)
    if cx is not None:
        x, y, cx, cy = y, x, cy, cx
    if k == 'band' and cy is not None and cy >= 0:
        # contiguous runs of ones
        r = I(0)
        i = 0
        while cy >> i:
            if (cy >> i) & 1:
                j = i
                while (cy >> j) & 1:
                    j += 1
                r = r + mod(div(x, 1 << i), 1 << (j - i)) * (1 << i)
                i = j
            else:
                i += 1
        return r
    if k == 'bor':
        if cy == 0:
            return x
        # disjoint bits
        for p, q in ((x, y), (y, x)):
            if p.lo is not None and p.lo >= 0 and p.hi is not None and q.lo is not None and q.lo >= 0:
                w = p.hi.bit_length()
                if q.c % (1 << w) == 0 and all(c % (1 << w) == 0 for _, c in q.m):
                    return p + q
        if cy is not None and cy > 0:
            # x | c = x + c - (x & c)
            return x + y - bitop('band', x, y)
    if k == 'bxor' and cy == 0:
        return x
    if x.id > y.id:
        x, y = y, x
    return lin(_mk(At, k, (x, y)))


def crc(s):
    return lin(_mk(At, 'crc', (s,)))


def seq_bool(a, b):
    if a is b:
        return TRUE
    la, lb = a.len.const(), b.len.const()
    if la is not None and lb is not None and la != lb:
        return FALSE
    if all(s.k == 'lit' for s in a.a) and all(s.k == 'lit' for s in b.a):
        return B(b''.join(s.a[0] for s in a.a) == b''.join(s.a[0] for s in b.a))
    if a.id > b.id:
        a, b = b, a
    if not a.a or not b.a:
        c = b if not a.a else a
        return eq(c.len, I(0))
    return _mk(Bl, 'seq', (a, b))


def assume_bool(b, c, val):
    """b simplified given boolean c == val (syntactic)"""
    if b is c:
        return B(val)
    if b.k == 'not':
        return not_(assume_bool(b.a[0], c, val))
    if b.k == 'and':
        return and_(*[assume_bool(x, c, val) for x in b.a[0]])
    if b.k == 'or':
        return or_(*[assume_bool(x, c, val) for x in b.a[0]])
    if c.k in ('le', 'eq') and b is not_(c):
        return B(not val)
    return b


def lit_value(s):
    """bytes of a fully literal sequence or None"""
    r = b''
    for x in s.a:
        if x.k != 'lit':
            return None
        r += x.a[0]
    return r


def atoms_of(x, acc=None, seen=None):
    """all At/Bl/Sg nodes reachable"""
    if acc is None:
        acc, seen = [], set()
    st = [x]
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        acc.append(y)
        st.extend(_sub_nodes(y.a))
    return acc
