"""Loop invariants: inferred from two probing executions, then checked for inductiveness."""
from terms import *
import terms as T
from values import *
import machine as M
from machine import vsame, LoopFail, Infeasible, MergeFail
import solver
from solver import prove

UNROLL = 400


def header_const(m, fr, st, blk):
    """truth of the header test when it is decided without assumptions: True/False/None"""
    last = blk['instrs'][-1]
    if last['op'] != 'If':
        return None
    fr2, st2 = fr.copy(), st.copy()
    m.quiet += 1
    try:
        for ins in blk['instrs'][:-1]:
            if ins['op'] == 'Phi':
                continue
            try:
                r = m.instr(fr2, st2, ins)
            except (Split, Unsupported, Infeasible):
                return None
            if r is not None:
                if len(r) != 1:
                    return None
                fr2, st2 = r[0]
        c = m.val(fr2, st2, last['x'])
    finally:
        m.quiet -= 1
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    return None


def run_loop(m, fr, st, header, pred, body):
    blk = m.p.funcs[fr.fn]['blocks'][header]
    region = (header, body)
    ph = m.phis(fr, st, blk, pred)
    fr = fr.copy()
    fr.regs.update(ph)
    outs = []
    n = 0
    cur = [(fr, st)]
    # concrete unrolling
    while cur:
        nxt = []
        for fr, st in cur:
            hc = header_const(m, fr, st, blk)
            if hc is None and not concrete_body(m, fr, st, blk):
                outs += general(m, fr, st, header, body, blk)
                continue
            for o in m.run(fr, st, header, None, {}, region):
                if o[0] == 'back':
                    f2, s2 = o[1], o[2]
                    f2.regs.update(m.phis(f2, s2, blk, o[3]))
                    nxt.append((f2, s2))
                else:
                    outs.append(o)
        cur = nxt
        n += 1
        if n > UNROLL:
            raise LoopFail('loop in %s unrolled too far' % fr.fn)
    return outs


def concrete_body(m, fr, st, blk):
    return False


class Tmpl:
    def __init__(self, k):
        self.k = k
        (self.ka, _), = k.m
        self.ints = []      # dict(h=, d=)
        self.seqs = []      # dict(seg=, h=, suf=, zero=)
        self.arrs = []      # dict(id=, ...)
        self.bools = {}     # variable (0: nil) of a loop-carried interface value -> (nil on entry)
        self.unks = 0
        self.bounds = []    # candidate iteration counts from repetition hypotheses
        self.reps = []


def view_seqs(m, fr, st):
    """contents of the byte slices in reach that are parts of larger objects"""
    out = []
    seen = set()
    for v in fr.regs.values():
        if isinstance(v, SliceV) and v.base is not None and m.p.is_byte(v.et) and not (v.off.const() == 0):
            key = (v.base if isinstance(v.base, int) else id(v.base), v.off, v.len)
            if key in seen:
                continue
            seen.add(key)
            try:
                c = m.content(st, v)
            except (Split, Unsupported, KeyError, Infeasible):
                continue
            if isinstance(c, Sq) and any(x.k in ('rep', 'ite') for x in c.a):
                out.append(c)
    return out


def all_seqs(m, st):
    for v in list(st.heap.values()):
        if isinstance(v, Sq):
            yield v
        elif isinstance(v, BufV):
            yield v.s
    for s in m.seqs:
        yield s


def rep_at(s, off, pc):
    from seqops import split_at
    try:
        if not prove(pc, and_(le(I(0), off), le(off, s.len))):
            return None
        _, r = split_at(s, off, pc)
    except (Split, Unsupported):
        return None
    a = list(r.a)
    while a and a[0].k != 'rep' and prove(pc, eq(a[0].len, I(0))):
        a.pop(0)
    return a[0] if a and a[0].k == 'rep' else None


def gen(m, t, v0, v1, st0, st1, depth=0):
    """generalise v0 (before) and v1 (after one iteration) to iteration t.k"""
    k = t.k
    if vsame(v0, v1):
        return v0
    if isinstance(v0, Lin) and isinstance(v1, Lin):
        d = v1 - v0
        c = d.const()
        if c is not None:
            return v0 + k * c
        # repetition hypothesis
        for s in all_seqs(m, st0):
            P = I(0)
            for x in s.a:
                if x.k == 'rep':
                    lvl, bd, lo, hi = x.a
                    if P is v0 or (v0 - P).const() is not None and False:
                        L0 = subst(bd, {BV(lvl): lo}).len
                        if L0 is d or prove(st1.pc, eq(L0, d)):
                            t.bounds.append(hi - lo)
                            r = v0 + rep_len(lvl, bd, lo + k) - rep_len(lvl, bd, lo)
                            return r
                P = P + x.len
        # the repetition that starts at v0, possibly inside another one
        for s in all_seqs(m, st0):
            if not any(x.k in ('rep', 'ite') for x in s.a) or v0.c < 0:
                continue
            x = rep_at(s, v0, st0.pc)
            if x is not None:
                lvl, bd, lo, hi = x.a
                L0 = subst(bd, {BV(lvl): lo}).len
                if L0 is d or prove(st1.pc, eq(L0, d)):
                    t.bounds.append(hi - lo)
                    return v0 + rep_len(lvl, bd, lo + k) - rep_len(lvl, bd, lo)
        # relative to a suffix: lengths that shrink by the repetition
        for s in all_seqs(m, st0):
            total = s.len
            P = I(0)
            for x in s.a:
                if x.k == 'rep':
                    lvl, bd, lo, hi = x.a
                    L0 = subst(bd, {BV(lvl): lo}).len
                    if L0 is d:
                        t.bounds.append(hi - lo)
                        return v0 + rep_len(lvl, bd, lo + k) - rep_len(lvl, bd, lo)
                    if L0 is -d:
                        t.bounds.append(hi - lo)
                        return v0 - rep_len(lvl, bd, lo + k) + rep_len(lvl, bd, lo)
                P = P + x.len
        for e in t.ints:
            if e['d0'] is d:
                return v0 + e['h']
            if e['d0'] is -d:
                return v0 - e['h']
        h = fresh('h', 0)
        t.ints.append({'h': h, 'v0': v0, 'd0': d})
        return v0 + h
    if isinstance(v0, Bl) and isinstance(v1, Bl):
        t.unks += 1
        return bapp('lb!%d' % next(T._vc))
    if isinstance(v0, StructV) and isinstance(v1, StructV):
        return StructV(v0.t, [gen(m, t, a, b, st0, st1, depth + 1) for a, b in zip(v0.f, v1.f)])
    if isinstance(v0, StructV) and isinstance(v1, Ghost):
        return gen(m, t, v0, m.expand(st1, v1), st0, st1, depth)
    if isinstance(v1, StructV) and isinstance(v0, Ghost):
        return gen(m, t, m.expand(st0, v0), v1, st0, st1, depth)
    if isinstance(v0, Ghost) or isinstance(v1, Ghost):
        a, b = m.force(st0, v0), m.force(st1, v1)
        if not isinstance(a, Ghost) and not isinstance(b, Ghost):
            return gen(m, t, a, b, st0, st1, depth)
    if isinstance(v0, SliceV) and isinstance(v1, SliceV):
        nil = v0.nil
        if v0.nil is not v1.nil:
            if v1.nil is FALSE:
                nil = and_(v0.nil, eq(k, I(0)))
            else:
                t.unks += 1
                return Unk('loop-carried slice')
        if v0.base is not None and (v0.base == v1.base if isinstance(v0.base, int) else v0.base is v1.base):
            return SliceV(v0.base, gen(m, t, v0.off, v1.off, st0, st1), gen(m, t, v0.len, v1.len, st0, st1),
                          gen(m, t, v0.cap, v1.cap, st0, st1), nil, v0.et)
        try:
            c0, c1 = m.content(st0, v0), m.content(st1, v1)
        except (Unsupported, Split):
            return Unk('loop-carried slice content')
        c = gen(m, t, c0, c1, st0, st1)
        if isinstance(c, Unk):
            return c
        ln = c.len
        o = m.alloc(t.st, c)
        t.newobjs.append(o)
        return SliceV(o, I(0), ln, ln, nil, v0.et)
    if isinstance(v0, Sq) and isinstance(v1, Sq):
        return gen_seq(m, t, v0, v1, st1)
    if isinstance(v0, BufV) and isinstance(v1, BufV):
        return BufV(gen_seq(m, t, v0.s, v1.s, st1))
    if isinstance(v0, Arr) and isinstance(v1, Arr):
        return gen_arr(m, t, v0, v1, st1)
    if isinstance(v0, MapC) and isinstance(v1, MapC):
        return gen_map(m, t, v0, v1, st1)
    if isinstance(v0, OpaqueV) and isinstance(v1, OpaqueV) and v0.kind == v1.kind and v0.d.keys() == v1.d.keys():
        return OpaqueV(v0.kind, **{q: gen(m, t, v0.d[q], v1.d[q], st0, st1) for q in v0.d})
    if isinstance(v0, IfaceV) and isinstance(v1, IfaceV) and isinstance(v0.t if v0.t is not None else v1.t, int) and (v0.t is None or v1.t is None or v0.t == v1.t):
        # an error: whether it is nil is followed, its value is not
        h = fresh('lb', 0, 1)
        (a, _), = h.m
        t.bools[a] = v0.nil
        ty = v0.t if v0.t is not None else v1.t
        return IfaceV(le(h, I(0)), ty, Ghost(ty, 'hv!%d' % next(T._vc), (k,)))
    t.unks += 1
    return Unk('loop-carried value %s' % type(v0).__name__)


def gen_seq(m, t, v0, v1, st1):
    a, b = list(v0.a), list(v1.a)
    i = 0
    while i < len(a) and i < len(b) and a[i] is b[i]:
        i += 1
    if i == len(a):
        # growth at the end
        B0 = sq(*b[i:])
        h = hole_len(t, B0.len, st1)
        seg = sg('hole', 'H%d' % next(T._vc), h)
        t.seqs.append({'seg': seg, 'h': h, 'mode': 'grow'})
        return sq(v0, seg)
    # literal zero bytes that were split by merging
    pre, ra, rb = a[:i], a[i:], b[i:]
    if ra and rb and ra[0].k == 'lit' and rb[0].k == 'lit':
        x, y = ra[0].a[0], rb[0].a[0]
        j = 0
        while j < len(x) and j < len(y) and x[j] == y[j]:
            j += 1
        if j:
            pre = pre + [sg('lit', x[:j])]
            ra = list(sq(sg('lit', x[j:]), *ra[1:]).a)
            rb = list(sq(sg('lit', y[j:]), *rb[1:]).a)
    if ra and ra[0].k == 'zero' or (ra and ra[0].k == 'lit' and not any(ra[0].a[0])):
        Z = ra[0].len
        suf = ra[1:]
        # strip the same suffix of v1
        rb2 = list(rb)
        sfx = list(suf)
        ok = True
        while sfx:
            if rb2 and rb2[-1] is sfx[-1]:
                rb2.pop()
                sfx.pop()
            else:
                ok = False
                break
        if ok:
            tail = I(0)
            if rb2 and rb2[-1].k == 'zero':
                tail = rb2[-1].a[0]
                rb2 = rb2[:-1]
            B0 = sq(*rb2)
            if B0.len + tail is Z or prove(st1.pc, eq(B0.len + tail, Z)):
                h = hole_len(t, B0.len, st1)
                seg = sg('hole', 'H%d' % next(T._vc), h)
                t.seqs.append({'seg': seg, 'h': h, 'mode': 'zero', 'Z': Z, 'suf': suf})
                return sq(*(pre + [seg, sg('zero', Z - h)] + suf))
    t.unks += 1
    return Unk('loop-written bytes')


def hole_len(t, L, st1):
    c = L.const()
    if c is not None:
        return t.k * c
    for e in t.ints:
        if e['d0'] is L:
            return e['h']
    for e in t.ints:
        if prove(st1.pc, eq(e['d0'], L)):
            return e['h']
    h = fresh('h', 0)
    t.ints.append({'h': h, 'v0': I(0), 'd0': L, 'seqonly': True})
    return h


def gen_arr(m, t, v0, v1, st1):
    k = t.k
    p0, p1 = list(v0.p), list(v1.p)
    i = 0
    while i < len(p0) and i < len(p1) and M.psame(p0[i], p1[i]):
        i += 1
    dl = (v1.len - v0.len).const()
    hid = 'A%d' % next(T._vc)
    if dl is not None and dl > 0:
        # growth
        if i < len(p0) and p0[i][0] == 'el' and p1[i][0] == 'el' and i == len(p0) - 1 and i == len(p1) - 1:
            a, b = p0[i][1], p1[i][1]
            if len(b) > len(a) and all(vsame(x, y) for x, y in zip(a, b)) and len(b) - len(a) == 1:
                t.arrs.append({'id': hid, 'n': k, 'pos': None})
                return Arr(p0 + [('hole', hid, k)])
        if i == len(p0) and len(p1) == i + 1 and p1[i][0] == 'el' and len(p1[i][1]) == 1:
            t.arrs.append({'id': hid, 'n': k})
            return Arr(p0 + [('hole', hid, k)])
        t.unks += 1
        return Unk('loop-appended elements')
    if dl == 0:
        # in-place write of one element
        pre = p0[:i]
        a, b = p0[i:], p1[i:]
        if a and b and b[0][0] == 'el' and len(b[0][1]) == 1 and a[0][0] in ('zero', 'gh', 'lam'):
            e, rest = M.psplit(a[0], I(1))
            exp = [] if plen(rest).const() == 0 else [rest]
            if len(b) - 1 == len(exp) + len(a) - 1:
                t.arrs.append({'id': hid, 'n': k})
                rest_k = M.psplit(a[0], k)[1]
                return Arr(pre + [('hole', hid, k), rest_k] + a[1:])
        if a and b and len(a) == len(b) and a[0][0] == 'el' and b[0][0] == 'el' and len(a[0][1]) == len(b[0][1]):
            # element-wise generalisation
            els = tuple(gen(m, t, x, y, st1, st1) for x, y in zip(a[0][1], b[0][1]))
            return Arr(pre + [('el', els)] + a[1:])
    t.unks += 1
    return Unk('loop-written elements')


def entries(u):
    """the entries of a map in the order in which they were made, as an array of pairs"""
    out = []
    for k, v in reversed(u):
        out += v.p if k == 'lam' else [('el', ((k, v),))]
    return Arr(out)


def gen_map(m, t, v0, v1, st1):
    new = v1.upd[:len(v1.upd) - len(v0.upd)]
    if v0.base == v1.base and v0.base is None and new and vsame(v1.upd[len(new):], v0.upd) and not any(v is M.DELETED for _, v in v1.upd):
        c = gen_arr(m, t, entries(v0.upd), entries(v1.upd), st1)
        if not isinstance(c, Unk):
            return MapC(v0.kt, v0.et, [('lam', c)], None)
    t.unks += 1
    return Unk('loop-built map')


def collect_backs(m, fr0, st0, header, blk, outs, base):
    """merge all back-edge outcomes into one (state, phi values)"""
    rs = []
    for o in outs:
        if o[0] == 'back':
            f2, s2 = o[1], o[2]
            rs.append((s2, m.phis(f2, s2, blk, o[3])))
    if not rs:
        return None
    if len(rs) > 1:
        r2 = m.merge_list(rs, base, strict=False)
        if len(r2) > 1:
            raise LoopFail('cannot merge %d paths of a loop body' % len(r2))
        rs = r2
    return rs[0]


def general(m, fr, st0, header, body, blk):
    t0 = None
    region = (header, body)
    fn = fr.fn
    phis0 = {ins['reg']: fr.regs[ins['reg']] for ins in blk['instrs'] if ins['op'] == 'Phi'}
    base = list(st0.pc)
    m.quiet += 1
    try:
        outs = m.run(fr.copy(), st0.copy(), header, None, {}, region)
        back = collect_backs(m, fr, st0, header, blk, outs, base)
    finally:
        m.quiet -= 1
    if back is None:
        # no iteration completes: execute for real
        return m.run(fr, st0, header, None, {}, region)
    changed = {}      # key -> latest value
    # keys: ('phi',reg) / ('obj',id)
    st1, ph1 = back

    def keep(o):
        return o in st0.heap or o in m.gidset

    def frz(v, st):
        try:
            return m.freeze(st, v, keep)
        except Split:
            raise LoopFail('undetermined value carried around a loop')

    def current(st1, ph1, tmpl):
        ch = {}
        for r, v in ph1.items():
            ref = tmpl[('phi', r)] if tmpl and ('phi', r) in tmpl else phis0[r]
            v = frz(v, st1) if tmpl is None or True else v
            if not vsame(ref, v):
                ch[('phi', r)] = v
        for o, v in st1.heap.items():
            if o in st0.heap:
                ref = tmpl[('obj', o)] if tmpl and ('obj', o) in tmpl else st0.heap[o]
                if not vsame(ref, v):
                    ch[('obj', o)] = frz(v, st1)
        return ch

    saved, m.seqs = m.seqs, view_seqs(m, fr, st0)
    try:
        return general2(m, fr, st0, st1, ph1, phis0, header, body, blk, region, fn, current, frz)
    finally:
        m.seqs = saved


def general2(m, fr, st0, st1, ph1, phis0, header, body, blk, region, fn, current, frz):
    first = current(st1, ph1, None)
    keys = dict(first)          # key -> value after first iteration (generalisation source)
    forced_unk = set()
    forced_hole = {}
    for attempt in range(7):
        k = fresh('κ', 0)
        t = Tmpl(k)
        t.st = st0.copy()
        t.newobjs = []
        tm = {}
        order = sorted(keys, key=lambda q: (0 if isinstance(keys[q], Lin) else 1, str(q)))
        for key in order:
            v0 = phis0[key[1]] if key[0] == 'phi' else st0.heap[key[1]]
            if key in forced_unk:
                tm[key] = havoc(m, key, v0, k)
            else:
                tm[key] = gen(m, t, v0, keys[key], st0, st1)
        # probing run from the template
        fr2 = fr.copy()
        s2 = t.st.copy()
        for key, v in tm.items():
            if key[0] == 'phi':
                fr2.regs[key[1]] = v
            else:
                s2.heap[key[1]] = v
        s2.assume(le(I(0), k))
        base2 = list(s2.pc)
        heap2 = dict(s2.heap)
        m.quiet += 1
        try:
            outs2 = m.run(fr2.copy(), s2, header, None, {}, region)
            back2 = collect_backs(m, fr2, s2, header, blk, outs2, base2)
        finally:
            m.quiet -= 1
        if back2 is None:
            raise LoopFail('loop in %s has no completing iteration from the generalised state' % fn)
        st2, ph2 = back2
        # newly changed locations?
        new = False
        for r, v in ph2.items():
            key = ('phi', r)
            if key not in tm:
                v = frz(v, st2)
                if not vsame(v, phis0[r]):
                    keys[key] = v
                    new = True
        for o, v in st2.heap.items():
            key = ('obj', o)
            if o in st0.heap and key not in tm and not vsame(v, heap2[o]):
                keys[key] = frz(v, st2)
                new = True
        if new:
            st1 = st2
            continue
        # extraction of hole bodies
        try:
            env, arrb = extract(m, t, tm, st2, ph2, heap2, frz)
        except Retry as e:
            if e.unk is not None:
                forced_unk.add(e.unk)
            continue
        break
    else:
        raise LoopFail('no loop invariant found for the loop at line %s of %s' % (loop_line(blk, m, fn, body), fn))

    def close(v):
        v = vmap(v, lambda x: subst(x, env)) if env else v
        return close_arr(v, arrb, k)

    tmc = {key: close(v) for key, v in tm.items()}
    newobjs = {o: close(t.st.heap[o]) for o in t.newobjs}
    # facts established by completed iterations
    facts = []
    for c in st2.pc[len(base2):]:
        if c in m.qassumed:
            continue
        c2 = subst(c, env) if env else c
        if any(f.k == 'hole' for f in c2.free):
            continue
        if t.ka in c2.free and c2.k not in ('true',):
            facts.append(c2)
    # candidate iteration counts
    cands = []
    for o in outs2:
        pcx = o[2].pc if o[0] in ('exit', 'back') else o[1].pc
        if o[0] != 'exit':
            continue
        for c in pcx[len(base2):]:
            if c.k == 'le':
                d = dict(c.a[0].m)
                if d.get(t.ka) == -1:
                    N = c.a[0] + k
                    N = subst(N, env) if env else N
                    if t.ka not in N.free and N not in cands:
                        cands.append(N)
    for N in t.bounds:
        if N not in cands:
            cands.append(N)
    inv = []
    Ns = []
    for N in cands:
        if any(f.k == 'hole' for f in N.free):
            continue
        if not prove(st0.pc, le(I(0), N)):
            c = le(I(0), N)
            if solver.sat(st0.pc + [c]) and not any(a.k == 'var' and a not in all_vars(st0) for a in N.free):
                # split on the sign of the bound
                res = []
                for cc in (c, not_(c)):
                    s = st0.copy()
                    s.assume(cc)
                    if solver.sat(s.pc):
                        res += general(m, fr.copy(), s, header, body, blk)
                return res
            continue
        hyp = [subst(c, env) if env else c for c in st2.pc]
        if prove(hyp + [le(k, N)], le(k + 1, N)):
            inv.append(le(k, N))
            Ns.append(N)
    # checked run; facts that an iteration does not establish are dropped
    while True:
        fr3 = fr.copy()
        s3 = st0.copy()
        for o, v in newobjs.items():
            s3.heap[o] = v
        for key, v in tmc.items():
            if key[0] == 'phi':
                fr3.regs[key[1]] = v
            else:
                s3.heap[key[1]] = v
        s3.assume(le(I(0), k))
        for c in inv:
            s3.assume(c)
        qf = [all_(c, t.ka, I(0), k) for c in facts]
        for c in qf:
            s3.assume(c)
        base3 = list(s3.pc)
        n0 = len(m.obls)
        outs3 = m.run(fr3, s3, header, None, {}, region)
        back3 = collect_backs(m, fr3, s3, header, blk, outs3, base3)
        if back3 is None:
            break
        good = [c for c in facts if prove(back3[0].pc, c)]
        if len(good) == len(facts):
            break
        facts = good
        del m.obls[n0:]
    m.loops_inv += 1
    if back3 is not None:
        st3, ph3 = back3
        nxt = {t.ka: k + 1}
        for key, v in tmc.items():
            exp = vsubst(v, nxt)
            got = ph3[key[1]] if key[0] == 'phi' else st3.heap[key[1]]
            if key in forced_unk or isinstance(v, Unk):
                continue
            for o, c in newobjs.items():
                pass
            try:
                check_eq(m, exp, got, st3, {o: vsubst(c, nxt) for o, c in newobjs.items()})
            except Mismatch as e:
                if not m.quiet:
                    line = loop_line(blk, m, fn, body)
                    raise LoopFail('loop invariant of %s (line %s) is not preserved for %s: %s' % (fn, line, key, e.why))
                raise LoopFail('loop invariant not preserved: ' + e.why)
        for r in ph3:
            if ('phi', r) not in tmc and not vsame(ph3[r], phis0[r]):
                check_eq(m, phis0[r], ph3[r], st3, {})
        for o in st0.heap:
            if ('obj', o) not in tmc and st3.heap[o] is not st0.heap[o] and not vsame(st3.heap[o], st0.heap[o]):
                check_eq(m, st0.heap[o], st3.heap[o], st3, {})
        if not m.quiet:
            m.obls.append(M.Obligation('loop-invariant', 'loop-invariant', fn, loop_line(blk, m, fn, body), True))
    # leaving the loop
    res = []
    for o in outs3:
        if o[0] == 'back':
            continue
        if o[0] == 'exit' and Ns:
            f4, s4 = o[1], o[2]
            N = next((N for N in Ns if prove(s4.pc, eq(k, N))), None)
            if N is not None:
                env2 = {t.ka: N}
                sub = lambda x: subst(x, env2)
                f4.regs = {r: vmap(v, sub) if has_free(v, t.ka) else v for r, v in f4.regs.items()}
                s4.heap = {q: vmap(v, sub) if has_free(v, t.ka) else v for q, v in s4.heap.items()}
                pc = []
                for c in s4.pc:
                    c2 = subst(c, env2)
                    if c2 is not TRUE and c2 not in pc:
                        pc.append(c2)
                s4.pc = pc
                res.append(('exit', f4, s4, o[3], o[4]))
                continue
        res.append(o)
    return res


def all_vars(st):
    s = set()
    for c in st.pc:
        s |= c.free
    for v in st.heap.values():
        s |= vfree(v)
    return s


def has_free(v, a):
    if isinstance(v, Node):
        return a in v.free
    return a in vfree(v)


def loop_line(blk, m, fn, body):
    for b in sorted(body):
        for ins in m.p.funcs[fn]['blocks'][b]['instrs']:
            if ins.get('line'):
                return ins['line']
    return 0


def havoc(m, key, v0, k):
    if isinstance(v0, Lin):
        return app('hv!%d' % next(T._vc), (k,))
    if isinstance(v0, Bl):
        return bapp('hv!%d' % next(T._vc), (k,))
    return Unk('changed by a loop')


class Retry(Exception):
    def __init__(self, unk=None):
        self.unk = unk


def extract(m, t, tm, st2, ph2, heap2, frz):
    """bodies of the holes: env for substitution, array bodies"""
    k = t.k
    hat = {}
    for e in t.ints:
        (a, _), = e['h'].m
        hat[a] = e
    env = {}
    arrb = {}
    dfound = {}
    seqB = {}

    def walk(tv, gv, key):
        """compare template value with value after one more iteration"""
        if isinstance(tv, Unk):
            return
        if isinstance(tv, Ghost) and not isinstance(gv, Ghost):
            tv = m.force(st2, tv)
        if isinstance(gv, Ghost) and not isinstance(tv, Ghost):
            gv = m.force(st2, gv)
        if isinstance(tv, Lin):
            hs = [a for a, c in tv.m if a in hat]
            if len(hs) == 1 and isinstance(gv, Lin):
                c = dict(tv.m)[hs[0]]
                if abs(c) == 1:
                    d = (gv - tv) * c
                    if any(x in hat or x.k == 'hole' for x in d.free):
                        raise Retry(key)
                    if hs[0] in dfound and dfound[hs[0]] is not d:
                        if not prove(st2.pc, eq(dfound[hs[0]], d)):
                            raise Retry(key)
                    else:
                        dfound[hs[0]] = d
            elif not hs and isinstance(gv, Lin):
                exp = subst(tv, {t.ka: k + 1})
                if exp is not gv and not prove(st2.pc, eq(exp, gv)):
                    raise Retry(key)
            return
        if isinstance(tv, StructV) and isinstance(gv, StructV):
            for a, b in zip(tv.f, gv.f):
                walk(a, b, key)
            return
        if isinstance(tv, SliceV):
            if not isinstance(gv, SliceV):
                raise Retry(key)
            if isinstance(tv.base, int) and tv.base in t.newobjs:
                c0 = t.st.heap[tv.base]
                c1 = m.content(st2, gv)
                walk(c0, frz(c1, st2), key)
                return
            if tv.base is None or (tv.base != gv.base if isinstance(tv.base, int) else not vsame(tv.base, gv.base)):
                raise Retry(key)
            for x, y in ((tv.off, gv.off), (tv.len, gv.len), (tv.cap, gv.cap)):
                walk(x, y, key)
            return
        if isinstance(tv, BufV) and isinstance(gv, BufV):
            walk(tv.s, gv.s, key)
            return
        if isinstance(tv, OpaqueV) and isinstance(gv, OpaqueV):
            for q in tv.d:
                if q in gv.d:
                    walk(tv.d[q], gv.d[q], key)
            return
        if isinstance(tv, Sq):
            es = [e for e in t.seqs if e['seg'] in tv.a]
            if not es:
                if not vsame(tv, gv):
                    raise Retry(key)
                return
            if not isinstance(gv, Sq):
                raise Retry(key)
            e = es[0]
            i, j = tv.a.index(e['seg']), None
            if e['seg'] not in gv.a:
                raise Retry(key)
            j = gv.a.index(e['seg'])
            if tv.a[:i] != gv.a[:j] or i != j:
                raise Retry(key)
            rest = list(gv.a[j + 1:])
            if e['mode'] == 'zero':
                suf = list(e['suf'])
                while suf and rest and rest[-1] is suf[-1]:
                    rest.pop()
                    suf.pop()
                if suf:
                    raise Retry(key)
                if rest and rest[-1].k == 'zero' and any(f in rest[-1].a[0].free for f in e['h'].free):
                    tail = rest.pop().a[0]
                else:
                    tail = I(0)
                Bq = sq(*rest)
                want = e['Z'] - e['h'] - Bq.len
                if want is not tail and not prove(st2.pc, eq(want, tail)):
                    raise Retry(key)
            else:
                Bq = sq(*rest)
            if any(f in hat or f.k == 'hole' for f in Bq.free):
                raise Retry(key)
            seqB[e['seg']] = Bq
            hv = [a for a, _ in e['h'].m if a in hat]
            if hv:
                d = Bq.len
                if hv[0] in dfound and dfound[hv[0]] is not d and not prove(st2.pc, eq(dfound[hv[0]], d)):
                    raise Retry(key)
                dfound.setdefault(hv[0], d)
            else:
                c = (subst(e['h'], {t.ka: k + 1}) - e['h'])
                if c is not Bq.len and not prove(st2.pc, eq(c, Bq.len)):
                    raise Retry(key)
            return
        if isinstance(tv, Arr):
            if not isinstance(gv, Arr):
                raise Retry(key)
            hs = [i for i, x in enumerate(tv.p) if x[0] == 'hole' and any(e['id'] == x[1] for e in t.arrs)]
            if not hs:
                if len(tv.p) == len(gv.p):
                    for x, y in zip(tv.p, gv.p):
                        if M.psame(x, y):
                            continue
                        if x[0] == 'el' and y[0] == 'el' and len(x[1]) == len(y[1]):
                            for a, b in zip(x[1], y[1]):
                                walk(a, b, key)
                        else:
                            raise Retry(key)
                    return
                raise Retry(key)
            i = hs[0]
            if len(gv.p) <= i + 1 or gv.p[i][0] != 'hole' or gv.p[i][1] != tv.p[i][1] or gv.p[i + 1][0] != 'el' or len(gv.p[i + 1][1]) != 1:
                raise Retry(key)
            v = frz(gv.p[i + 1][1][0], st2)
            if any(f in hat or f.k == 'hole' for f in vfree(v)):
                raise Retry(key)
            arrb[tv.p[i][1]] = v
            return
        if isinstance(tv, MapC) and isinstance(gv, MapC) and tv.upd and tv.upd[0][0] == 'lam' and gv.base is None:
            walk(tv.upd[0][1], entries(gv.upd), key)
            return
        if isinstance(tv, IfaceV) and isinstance(gv, IfaceV) and isinstance(tv.nil, Bl) and tv.nil.free & set(t.bools):
            (a,) = tv.nil.free & set(t.bools)
            c = subst(gv.nil, {a: I(0)})
            if any(f in hat or f in t.bools or f.k == 'hole' for f in c.free) or not prove(st2.pc, not_(subst(gv.nil, {a: I(1)}))) or gv.t not in (None, tv.t):
                raise Retry(key)
            env[a] = ite(and_(t.bools[a], all_(c, t.ka, I(0), k)), I(0), I(1))
            return
        # anything else must be unchanged
        if not vsame(tv, gv):
            if isinstance(tv, Bl):
                return
            raise Retry(key)

    for key, tv in tm.items():
        gv = ph2[key[1]] if key[0] == 'phi' else st2.heap[key[1]]
        if isinstance(gv, IteV) and not isinstance(tv, Unk):
            raise Retry(key)
        try:
            walk(tv, gv, key)
        except Split:
            raise Retry(key)
    for a, e in hat.items():
        if a not in dfound:
            # hole never used
            env[a] = I(0)
            continue
        env[a] = sum_(dfound[a], t.ka, k)
    for seg, Bq in seqB.items():
        # segment keys carry their length; after substitution of h the key changes, so map the original
        env[seg] = rep(Bq, t.ka, I(0), k)
    return env, arrb


def close_arr(v, arrb, k):
    if not arrb:
        return v
    (ka, _), = k.m
    if isinstance(v, Arr):
        out = []
        for x in v.p:
            if x[0] == 'hole' and x[1] in arrb:
                kv = fresh('i', 0)
                (kva, _), = kv.m
                out.append(('lam', kva, I(0), x[2], vsubst(arrb[x[1]], {ka: kv})))
            elif x[0] == 'el':
                out.append(('el', tuple(close_arr(y, arrb, k) for y in x[1])))
            else:
                out.append(x)
        return Arr(out)
    if isinstance(v, StructV):
        return StructV(v.t, [close_arr(x, arrb, k) for x in v.f])
    if isinstance(v, MapC):
        return MapC(v.kt, v.et, [(a, close_arr(b, arrb, k) if a == 'lam' else b) for a, b in v.upd], v.base)
    if isinstance(v, SliceV) and isinstance(v.base, Arr):
        return SliceV(close_arr(v.base, arrb, k), v.off, v.len, v.cap, v.nil, v.et)
    return v


def peel(pc, b):
    """all x in [lo, hi+1) = all x in [lo, hi) and the case hi"""
    if b.k == 'all' and prove(pc, lt(b.a[2], b.a[3])):
        lvl, bd, lo, hi = b.a
        v = fresh('k', 0)
        (va, _), = v.m
        g = subst(bd, {BV(lvl): v})
        return and_(all_(g, va, lo, hi - 1), subst(g, {va: hi - 1}))
    return b


def conjuncts(b):
    return [y for x in b.a[0] for y in conjuncts(x)] if b.k == 'and' else [b]


def check_eq(m, exp, got, st, newobjs):
    """semantic equality of two values (Mismatch when not provable)"""
    pc = st.pc
    try:
        exp, got = m.force(st, exp), m.force(st, got)
    except Split as sp:
        for c in (sp.cond, not_(sp.cond)):
            s2 = st.copy()
            s2.assume(c)
            if solver.sat(s2.pc):
                check_eq(m, exp, got, s2, newobjs)
        return
    if vsame(exp, got):
        return
    if isinstance(exp, Lin) and isinstance(got, Lin):
        if not prove(pc, eq(exp, got)):
            raise Mismatch('%r differs from %r' % (got, exp), pc)
        return
    if isinstance(exp, Bl) and isinstance(got, Bl):
        if exp.k == 'bapp' and exp.a[0].startswith(('lb!', 'hv!')):
            return
        if not prove(pc, and_(implies(exp, got), implies(got, exp))):
            raise Mismatch('%r differs from %r' % (got, exp), pc)
        return
    if isinstance(exp, Sq) and isinstance(got, Sq):
        seq_eq(got, exp, pc)
        return
    if isinstance(exp, BufV):
        seq_eq(got.s, exp.s, pc)
        return
    if isinstance(exp, StructV) and isinstance(got, StructV):
        for a, b in zip(exp.f, got.f):
            check_eq(m, a, b, st, newobjs)
        return
    if isinstance(exp, SliceV) and isinstance(got, SliceV):
        if not prove(pc, eq(exp.len, got.len)):
            raise Mismatch('length %r differs from %r' % (got.len, exp.len), pc)
        if not prove(pc, and_(implies(exp.nil, got.nil), implies(got.nil, exp.nil))):
            raise Mismatch('nil-ness %r differs from %r' % (got.nil, exp.nil), pc)
        if exp.base is not None and exp.base == got.base and isinstance(exp.base, int):
            if not prove(pc, eq(exp.off, got.off)):
                raise Mismatch('offset %r differs from %r' % (got.off, exp.off), pc)
            if not prove(pc, eq(exp.cap, got.cap)):
                raise Mismatch('cap', pc)
            return
        st2 = st.copy()
        if isinstance(exp.base, int) and exp.base in newobjs:
            st2.heap[exp.base] = newobjs[exp.base]
        con = m.content_ite if m.p.is_byte(exp.et) else m.content
        check_eq(m, con(st2, exp), con(st, got), st, newobjs)
        return
    if isinstance(exp, Arr) and isinstance(got, Arr):
        arr_eq(m, exp, got, st, newobjs)
        return
    if isinstance(exp, MapC) and isinstance(got, MapC) and exp.base is None and got.base is None and not any(v is M.DELETED for _, v in got.upd):
        arr_eq(m, entries(exp.upd), entries(got.upd), st, newobjs)
        return
    if isinstance(exp, tuple) and isinstance(got, tuple) and len(exp) == len(got):
        for a, b in zip(exp, got):
            check_eq(m, a, b, st, newobjs)
        return
    if isinstance(exp, PtrV) and isinstance(got, PtrV):
        if not prove(pc, and_(implies(exp.nil, got.nil), implies(got.nil, exp.nil))):
            raise Mismatch('nil-ness %r differs from %r' % (got.nil, exp.nil), pc)
        if exp.tgt is None or got.tgt is None or prove(pc, exp.nil):
            return
        s2 = st.copy()
        s2.assume(not_(exp.nil))
        check_eq(m, m.load(s2, exp.tgt), m.load(s2, got.tgt), s2, newobjs)
        return
    if isinstance(exp, OpaqueV) and isinstance(got, OpaqueV) and exp.kind == got.kind:
        for q in exp.d:
            if q in got.d:
                check_eq(m, exp.d[q], got.d[q], st, newobjs)
        return
    if isinstance(exp, IfaceV) and isinstance(got, IfaceV) and isinstance(exp.v, Ghost) and exp.v.path.startswith('hv!'):
        if got.t not in (None, exp.t):
            raise Mismatch('another type of error', pc)
        en = and_(*[peel(pc, g) for g in conjuncts(exp.nil)])
        for a, b in ((en, got.nil), (got.nil, en)):
            for g in conjuncts(b):
                if not prove(list(pc) + [a], g):
                    raise Mismatch('nil-ness %r differs from %r' % (got.nil, exp.nil), pc)
        return
    if isinstance(exp, IfaceV) and isinstance(got, IfaceV):
        if not prove(pc, and_(implies(exp.nil, got.nil), implies(got.nil, exp.nil))):
            raise Mismatch('nil-ness %r differs from %r' % (got.nil, exp.nil), pc)
        if prove(pc, exp.nil):
            return
        if exp.t == got.t:
            check_eq(m, exp.v, got.v, st, newobjs)
            return
    if isinstance(exp, Unk):
        return
    if exp is None and got is None:
        return
    raise Mismatch('%r differs from %r' % (got, exp), pc)


def arr_eq(m, exp, got, st, newobjs, fuel=40):
    pc = st.pc
    A, Bp = list(exp.p), list(got.p)
    while A or Bp:
        fuel -= 1
        if fuel < 0:
            raise Mismatch('array comparison did not converge', pc)
        for L in (A, Bp):
            while L and (plen(L[0]).const() == 0 or (plen(L[0]).const() is None and prove(pc, eq(plen(L[0]), I(0))))):
                L.pop(0)
        if not A and not Bp:
            return
        if not A or not Bp:
            raise Mismatch('array lengths differ', pc)
        x, y = A[0], Bp[0]
        if M.psame(x, y):
            A.pop(0)
            Bp.pop(0)
            continue
        lx, ly = plen(x), plen(y)
        if prove(pc, eq(lx, ly)):
            n = lx
        elif prove(pc, le(lx, ly)):
            n = lx
        elif prove(pc, le(ly, lx)):
            n = ly
        else:
            raise Mismatch('array parts of undetermined length %r / %r' % (lx, ly), pc)
        x1, x2 = M.psplit(x, n) if n is not lx else (x, None)
        y1, y2 = M.psplit(y, n) if n is not ly else (y, None)
        A[0:1] = [] if x2 is None else [x2]
        Bp[0:1] = [] if y2 is None else [y2]
        c = n.const()
        if c is not None and c <= 8:
            for i in range(c):
                check_eq(m, pelem(x1, I(i), m.zero), pelem(y1, I(i), m.zero), st, newobjs)
        else:
            j = fresh('j', 0)
            s2 = st.copy()
            s2.assume(le(I(0), j))
            s2.assume(lt(j, n))
            check_eq(m, pelem(x1, j, m.zero), pelem(y1, j, m.zero), s2, newobjs)
