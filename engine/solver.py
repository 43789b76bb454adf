"""Discharge of obligations: translation of terms to z3 (integers + uninterpreted functions)."""
import time
import z3
from terms import *
import terms as T

stats = {'queries': 0, 'cached': 0, 'trivial': 0, 'time': 0.0, 'unknown': 0}
TIMEOUT = 4000
DEADLINE = [None]


class TimeUp(Exception):
    pass

nil_len = {}      # name of a nil predicate -> name of the length it forces to 0


class Enc:
    def __init__(self):
        self.c = {}
        self.f = {}

    def fn(self, name, n, boolres=False):
        k = (name, n, boolres)
        f = self.f.get(k)
        if f is None:
            rng = z3.BoolSort() if boolres else z3.IntSort()
            if n == 0:
                f = z3.Const(name, rng)
            else:
                f = z3.Function(name, *([z3.IntSort()] * n + [rng]))
            self.f[k] = f
        return f

    def e(self, x):
        r = self.c.get(x)
        if r is None:
            r = self._e(x)
            self.c[x] = r
        return r

    def call(self, name, args, boolres=False):
        f = self.fn(name, len(args), boolres)
        return f(*[self.arg(a) for a in args]) if args else f

    def arg(self, a):
        if isinstance(a, Lin):
            return self.e(a)
        if isinstance(a, Bl):
            return z3.If(self.e(a), z3.IntVal(1), z3.IntVal(0))
        # sequences as arguments: abstracted to an integer constant per canonical node
        return self.fn('seqid!%d' % a.id, 0)

    def _e(self, x):
        k, a = x.k, x.a
        if isinstance(x, Lin):
            if not x.m:
                return z3.IntVal(x.c)
            ts = [self.e(at) if c == 1 else z3.IntVal(c) * self.e(at) for at, c in x.m]
            if x.c:
                ts.append(z3.IntVal(x.c))
            return ts[0] if len(ts) == 1 else z3.Sum(ts)
        if isinstance(x, At):
            if k == 'var':
                return self.fn(a[0], 0)
            if k == 'bv':
                return self.fn('bv!%d' % a[0], 0)
            if k == 'app':
                if a[0] == 'uvlen':
                    t = self.e(a[1][0])
                    hi = a[1][0].hi
                    r = z3.IntVal(10)
                    top = 10 if hi is None else uvlen_c(max(hi, 0))
                    r = z3.IntVal(top)
                    for n in range(top - 1, 0, -1):
                        r = z3.If(t < (1 << (7 * n)), z3.IntVal(n), r)
                    return r
                return self.call(a[0], a[1])
            if k == 'ite':
                return z3.If(self.e(a[0]), self.e(a[1]), self.e(a[2]))
            if k == 'mod':
                return self.e(a[0]) % z3.IntVal(a[1])
            if k == 'div':
                return self.e(a[0]) / z3.IntVal(a[1])
            if k == 'mul':
                return self.e(a[0]) * self.e(a[1])
            if k == 'divv':
                return self.call('divv', a)
            if k == 'sum':
                return self.call('sum!%d!%d' % (a[0], a[1].id), (a[2],))
            if k in ('crc', 'fnlen'):
                return self.fn('%s!%d' % (k, a[0].id), 0)
            return self.call('op!' + k, [y for y in a if isinstance(y, Node)])
        if isinstance(x, Bl):
            if k == 'true':
                return z3.BoolVal(True)
            if k == 'false':
                return z3.BoolVal(False)
            if k == 'le':
                return self.e(a[0]) <= 0
            if k == 'eq':
                return self.e(a[0]) == 0
            if k == 'not':
                return z3.Not(self.e(a[0]))
            if k == 'and':
                return z3.And([self.e(y) for y in a[0]])
            if k == 'or':
                return z3.Or([self.e(y) for y in a[0]])
            if k == 'bapp':
                return self.call(a[0], a[1], True)
            if k == 'seq':
                return self.fn('seqeq!%d' % x.id, 0, True)
            if k == 'all':
                return self.fn('all!%d' % x.id, 0, True)
        raise TypeError((k, x))


ENC = Enc()


def has_bv(x):
    return any(f.k == 'bv' for f in x.free)


def instantiate(alls, ground):
    """instances of quantified facts at index terms occurring in matching applications"""
    idx = {}
    for g in ground:
        if g.k in ('app', 'bapp', 'atom') and not has_bv(g) and len(g.a) > 1 and isinstance(g.a[1], tuple):
            idx.setdefault((g.k, g.a[0]), []).append(g)
    out = []
    for q in alls:
        lvl, body, lo, hi = q.a
        bv = BV(lvl)
        cands = set()
        for k2, pos, d in patterns(lvl, body):
            for g in idx.get(k2, ()):
                if pos < len(g.a[1]) and isinstance(g.a[1][pos], Lin):
                    cands.add(g.a[1][pos] - d)
        for c in sorted(cands, key=lambda z: z.id)[:24]:
            out.append(ax_inst(q, c))
    return out


_pat = {}


def patterns(lvl, body):
    r = _pat.get((lvl, body))
    if r is None:
        bv = BV(lvl)
        acc = {}
        for n in interesting(body):
            if n.k in ('app', 'bapp', 'atom') and len(n.a) > 1 and isinstance(n.a[1], tuple):
                for pos, arg in enumerate(n.a[1]):
                    if isinstance(arg, Lin) and bv in arg.free:
                        d = arg - lin(bv)
                        if bv not in d.free:
                            acc[(n.k, n.a[0]), pos, d] = None
        r = _pat[lvl, body] = list(acc)
    return r


def index_terms(lvl, body, idx):
    cands = {}
    for k2, pos, d in patterns(lvl, body):
        if k2[0] == 'bapp':
            continue
        for g in idx.get(k2, ()):
            if pos < len(g.a[1]) and isinstance(g.a[1][pos], Lin):
                cands[g.a[1][pos] - d] = None
    return sorted(cands, key=lambda z: z.id)


_int = {}


def interesting(x):
    """descendants of x that matter for axioms and bounds, in a fixed order"""
    r = _int.get(x)
    if r is None:
        acc = {}
        seen = {x}
        st = [x]
        while st:
            y = st.pop()
            if isinstance(y, At) or y.k in ('seq', 'bapp', 'all', 'atom'):
                acc[y] = None
            for z in T._sub_nodes(y.a):
                if z not in seen:
                    seen.add(z)
                    st.append(z)
        r = _int[x] = tuple(acc)
    return r


def collect(xs):
    acc = {}
    for x in xs:
        for y in interesting(x):
            acc[y] = None
    return list(acc)


_ax1, _ax2, _ax3, _ax4, _ax5 = {}, {}, {}, {}, {}


def ax_one(lvl, body, n):
    k = (lvl, body, n)
    r = _ax1.get(k)
    if r is None:
        S = mk_sum(lvl, body, n)
        r = [implies(le(n, I(0)), eq(S, I(0)))]
        if body.lo is not None:
            r.append(implies(le(I(0), n), le(n * body.lo, S)))
        if body.hi is not None:
            r.append(implies(le(I(0), n), le(S, n * body.hi)))
        _ax1[k] = r
    return r


def ax_two(lvl, body, n1, n2):
    k = (lvl, body, n1, n2)
    r = _ax2.get(k)
    if r is None:
        r = []
        if body.lo is not None:
            lo = body.lo
            s1, s2 = mk_sum(lvl, body, n1), mk_sum(lvl, body, n2)
            r.append(implies(and_(le(I(0), n1), le(n1, n2)), le(s1 + (n2 - n1) * lo, s2)))
            r.append(implies(and_(le(I(0), n2), le(n2, n1)), le(s2 + (n1 - n2) * lo, s1)))
        _ax2[k] = r
    return r


def ax_step(lvl, body, n):
    k = (lvl, body, n)
    r = _ax4.get(k)
    if r is None:
        r = _ax4[k] = implies(le(I(0), n), eq(mk_sum(lvl, body, n + 1), mk_sum(lvl, body, n) + subst(body, {BV(lvl): n})))
    return r


def ax_inst(q, c):
    k = (q, c)
    r = _ax5.get(k)
    if r is None:
        lvl, body, lo, hi = q.a
        r = _ax5[k] = implies(and_(q, le(lo, c), lt(c, hi)), subst(body, {BV(lvl): c}))
    return r


def ax_idx(lvl, body, c, n, withbase):
    k = (lvl, body, c, n, withbase)
    r = _ax3.get(k)
    if r is None:
        bc = subst(body, {BV(lvl): c})
        base = mk_sum(lvl, body, c) if withbase else I(0)
        r = _ax3[k] = implies(and_(le(I(0), c), lt(c, n)), le(base + bc, mk_sum(lvl, body, n)))
    return r


def axioms(nodes, depth=0):
    """Bl facts about the nodes (sum unfolding, lengths of equal sequences ...)"""
    out = []
    sums = {}
    idx = {}
    lits = {}
    for n in nodes:
        if has_bv(n):
            continue
        if n.k in ('app', 'atom') and len(n.a) > 1 and isinstance(n.a[1], tuple):
            idx.setdefault((n.k, n.a[0]), []).append(n)
        if n.k == 'sum':
            sums.setdefault((n.a[0], n.a[1]), {})[n.a[2]] = 1
        elif n.k == 'seq':
            out.append(implies(n, eq(n.a[0].len, n.a[1].len)))
            for x, y in (n.a, n.a[::-1]):
                if len(y.a) == 1 and y.a[0].k == 'lit':
                    for z, w in lits.get(x, ()):
                        if z != y.a[0].a[0] and len(z) == len(y.a[0].a[0]):
                            out.append(or_(not_(n), not_(w)))
                    lits.setdefault(x, []).append((y.a[0].a[0], n))
        elif n.k == 'bapp' and n.a[0] in nil_len:
            out.append(implies(n, eq(app(nil_len[n.a[0]], n.a[1], 0, 2**31 - 1), I(0))))
        elif n.k == 'divv':
            x, y = n.a
            q = lin(n)
            p = q * y
            out.append(implies(and_(le(I(0), x), le(I(1), y)),
                               and_(le(p, x), lt(x, p + y), le(I(0), q), le(q, x))))
    for (lvl, body), ns in sums.items():
        bv = BV(lvl)

        def S(n):
            return mk_sum(lvl, body, n)
        lst = sorted(ns, key=lambda z: z.id)
        extra = []
        for n in lst:
            if len(lst) > 1 and any(at.k == 'var' for at, _ in n.m):
                extra.append(n)
        allns = dict.fromkeys(lst)
        for n in extra:
            allns[n + 1] = None
            out.append(ax_step(lvl, body, n))
        ln = list(allns)
        for n in ln:
            out += ax_one(lvl, body, n)
        for i, n1 in enumerate(ln):
            for n2 in ln[i + 1:]:
                d = (n1 - n2).const()
                if d in (1, -1) and not (n1 - 1 in extra or n2 - 1 in extra):
                    a, b = (n2, n1) if d == 1 else (n1, n2)
                    out.append(ax_step(lvl, body, a))
                out += ax_two(lvl, body, n1, n2)
        if body.lo is not None and body.lo >= 0 and depth == 0:
            for c in index_terms(lvl, body, idx)[:6]:
                if c in allns and c in extra:
                    continue
                for n in ln:
                    out.append(ax_idx(lvl, body, c, n, c in allns))
    # pointwise comparison of different sums with the same bound
    keys = list(sums)
    if 1 < len(keys) <= 8 and depth < 2:
        for i, k1 in enumerate(keys):
            for k2 in keys[i + 1:]:
                common = [n for n in sums[k1] if n in sums[k2]]
                b1 = k1[1] if k1[0] == k2[0] else None
                if b1 is None or not common:
                    continue
                r = pointwise(k1[0], k1[1], k2[1], depth)
                for n in common:
                    if r in ('le', 'eq'):
                        out.append(implies(le(I(0), n), le(mk_sum(k1[0], k1[1], n), mk_sum(k1[0], k2[1], n))))
                    if r in ('ge', 'eq'):
                        out.append(implies(le(I(0), n), le(mk_sum(k1[0], k2[1], n), mk_sum(k1[0], k1[1], n))))
    return out


_cs = {}


def combined_sums(goal, depth):
    """facts of the form  Σ_j c_j·S_j(k) ≤ 0  obtained by comparing the summands pointwise"""
    if goal.k != 'le' or depth > 2:
        return []
    e = goal.a[0]
    sums = [(at, c) for at, c in e.m if at.k == 'sum' and not has_bv(at)]
    if len(sums) < 2:
        return []
    coef = {at: c for at, c in e.m}
    ks = {}
    for at, c in sums:
        if c > 0:
            ks[at.a[2]] = None
    Ns = dict.fromkeys(at.a[2] for at, c in sums)
    out = []

    def single(n):
        if len(n.m) == 1 and n.m[0][1] == 1:
            return n.m[0][0], n.c
        return None, 0
    for k in ks:
        for N in Ns:
            grp = [(at, c) for at, c in sums if at.a[2] is k or (at.a[2] is N and c < 0)]
            if len(grp) < 2:
                continue
            ak, _ = single(k)
            aN, _ = single(N)
            per = coef.get(ak, 0) if ak is not None else 0
            if N is not k and aN is not None and aN is not ak:
                per += min(coef.get(aN, 0), 0)
            key = (tuple(sorted((at.a[0], at.a[1].id, c) for at, c in grp)), per)
            r = _cs.get(key)
            if r is None:
                v = fresh('cs', 0)
                g = I(per)
                for at, c in grp:
                    g = g + subst(at.a[1], {BV(at.a[0]): v}) * c
                r = check([], le(g, I(0)), depth + 1)[0]
                _cs[key] = r
            if r:
                f = k * per
                for at, c in grp:
                    f = f + mk_sum(at.a[0], at.a[1], k) * c
                out.append(implies(le(I(0), k), le(f, I(0))))
    return out


_pw = {}


def pointwise(lvl, b1, b2, depth):
    key = (lvl, b1, b2)
    if key in _pw:
        return _pw[key]
    _pw[key] = None
    v = fresh('pw', 0)
    x, y = subst(b1, {BV(lvl): v}), subst(b2, {BV(lvl): v})
    r = None
    if check([], le(x, y), depth + 1)[0]:
        r = 'le'
    if check([], le(y, x), depth + 1)[0]:
        r = 'eq' if r else 'ge'
    _pw[key] = r
    return r


_cache = {}
_bnd = {}


def check(hyps, goal, depth=0, want_model=False, timeout=None):
    """returns (proved, info).  info: None or 'unknown' or model dict"""
    if goal is TRUE:
        stats['trivial'] += 1
        return True, None
    hs = [h for h in hyps if h is not TRUE]
    if goal in hs or FALSE in hs:
        stats['trivial'] += 1
        return True, None
    if goal.k == 'and':
        for g in goal.a[0]:
            r = check(hyps, g, depth, want_model, timeout)
            if not r[0]:
                return r
        return True, None
    if goal.k == 'all':
        lvl, body, lo, hi = goal.a
        v = fresh('sk')
        return check(list(hyps) + [le(lo, v), lt(v, hi)], subst(body, {BV(lvl): v}), depth, want_model, timeout)
    key = (frozenset(hs), goal)
    r = _cache.get(key)
    if r is not None and (r[0] or not want_model):
        stats['cached'] += 1
        return r
    if depth == 0 and not want_model and not has_sum(goal):
        simple = [h for h in hs if not has_sum(h)]
        if len(simple) < len(hs):
            r = check(simple, goal, 1)
            if r[0]:
                _cache[key] = r
                return r
    r = _check(hs, goal, depth, want_model, timeout)
    if not r[0] and goal.k == 'le' and depth == 0:
        for g2 in weakened(hs, goal):
            r2 = check(hs, g2, depth, False, timeout)
            if r2[0]:
                r = r2
                break
    _cache[key] = r
    return r


_hs = {}


def has_sum(x):
    r = _hs.get(x)
    if r is None:
        r = any(n.k == 'sum' for n in interesting(x))
        _hs[x] = r
    return r


def decide(hyps, goal):
    """cheap, incomplete: branch conditions"""
    if goal is TRUE or goal in hyps:
        return True
    if goal is FALSE:
        return False
    if has_sum(goal):
        return check(hyps, goal)[0]
    return check([h for h in hyps if not has_sum(h)], goal, 1)[0]


def weakened(hs, goal):
    """stronger goals obtained by replacing Σ_{i<N} b(i) (b >= 0, negative coefficient) by Σ_{i<k} b(i) + b(k) for k < N"""
    e = goal.a[0]
    neg = {}
    for at, c in e.m:
        if at.k == 'sum' and c < 0 and not has_bv(at):
            neg.setdefault(at.a[2], []).append((at, c))
    if not neg:
        return
    vs = {}
    for at in e.free:
        if at.k == 'var':
            vs[lin(at)] = None
    vs = sorted(vs, key=lambda z: z.id)
    simple = [h for h in hs if not has_sum(h)]
    for N, lst in neg.items():
        aN = N.m[0][0] if len(N.m) == 1 and N.m[0][1] == 1 and N.c == 0 else None
        for k in vs:
            if k is N or not check(simple, and_(le(I(0), k), lt(k, N)), 1)[0]:
                continue
            e2 = e
            for at, c in lst:
                b = at.a[1]
                v = fresh('w', 0)
                if (b.lo is None or b.lo < 0) and not check([], le(I(0), subst(b, {BV(at.a[0]): v})), 1)[0]:
                    continue
                e2 = e2 - lin(at) * c + (mk_sum(at.a[0], b, k) + subst(b, {BV(at.a[0]): k})) * c
            if aN is not None:
                cN = dict(e2.m).get(aN, 0)
                if cN < 0:
                    e2 = e2 - N * cN + (k + 1) * cN
            if e2 is not e:
                yield le(e2, I(0))


def _check(hs, goal, depth, want_model, timeout):
    t0 = time.time()
    if DEADLINE[0] is not None and t0 > DEADLINE[0]:
        raise TimeUp()
    stats['queries'] += 1
    roots = hs + [not_(goal)]
    alls = set()
    facts = list(roots) + combined_sums(goal, depth)
    nodes = collect(facts)
    done = set(facts)
    for rnd in range(3):
        new = []
        for f in axioms(nodes, depth) + instantiate([n for n in nodes if n.k == 'all' and not has_bv(n)], nodes):
            if f is not TRUE and f not in done:
                done.add(f)
                new.append(f)
        if not new:
            break
        facts += new
        nodes = collect(facts)
        if len(facts) > 400:
            break
    s = z3.Solver()
    s.set('timeout', timeout or TIMEOUT)
    s.set('random_seed', 1)
    en = ENC
    ctx, sv = s.ctx.ref(), s.solver

    def add(z):
        z3.Z3_solver_assert(ctx, sv, z.as_ast())
    for f in facts:
        add(en.e(f))
    for n in nodes:
        if isinstance(n, At) and not has_bv(n) and n in en.c:
            if n.k in ('mod', 'div', 'ite'):
                continue
            if n.k == 'app' and n.a[0] == 'uvlen':
                continue
            b = _bnd.get(n)
            if b is None:
                z = en.c[n]
                b = []
                if n.lo is not None:
                    b.append(z >= n.lo)
                if n.hi is not None:
                    b.append(z <= n.hi)
                _bnd[n] = b
            for z in b:
                add(z)
    r = s.check()
    stats['time'] += time.time() - t0
    if r == z3.unsat:
        return True, None
    if r == z3.sat:
        if want_model:
            m = s.model()
            return False, Model(m, en, nodes)
        return False, 'sat'
    stats['unknown'] += 1
    return False, 'unknown'


class Model:
    def __init__(self, m, en, nodes):
        self.vals = {}
        self.consts = []
        for n in nodes:
            if n in en.c and isinstance(n, (At, Bl)) and not has_bv(n):
                try:
                    v = m.eval(en.c[n], model_completion=True)
                    if isinstance(n, At):
                        self.vals[n] = v.as_long()
                    else:
                        self.vals[n] = z3.is_true(v)
                except Exception:
                    pass
        for n in nodes:
            for at in ([n] if isinstance(n, At) else []):
                for x in T._sub_nodes(at.a):
                    if isinstance(x, Lin) and x.const() is not None:
                        self.consts.append(x.const())

    def __repr__(self):
        out = []
        for n, v in sorted(self.vals.items(), key=lambda z: repr(z[0])):
            if n.k in ('app', 'bapp', 'var'):
                out.append('%r = %r' % (n, v))
        return '; '.join(out)


def prove(hyps, goal):
    return check(hyps, goal)[0]


def sat(hyps):
    """False only if hyps are contradictory for sure"""
    return not check(hyps, FALSE)[0]
