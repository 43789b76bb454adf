"""C10: range assignment.  Layouts of member metadata and assignments, the split of one topic's partitions, the whole assignment."""
from wire import *
from terms import *
from values import *
from machine import State, LoopFail
from seqops import seq_eq, slice_seq
from solver import prove
import solver
import prims
import havoc
import responses as RS
from settings import isnil, elem, deref, veq
from havoc import Each
from machine import vsame
from values import arr_get
import world as W
import routing as R
from producer_ import elem_, same_slice
from builders import live, same, appended

AP = '(*rangeAssignmentStrategy).assignPartitions'
ASSIGN = '(*rangeAssignmentStrategy).Assign'
META = Struct(('Version', U16), ('Subscription', ARR(STR)), ('UserData', BYTES))
MA = Struct(('Version', I16), ('PartitionAssignments', ARR(('Topic', STR), ('Partitions', ARR(I32)))), ('UserData', BYTES))


def encode_job(name, kind):
    fn = '(*%s).Encode' % name

    def body(c):
        m = c.m
        prims.install(m, prims.VERIFIED)
        st = State()
        m.nonnil.add('x')
        x = m.force(st, Ghost(m.p.byname['*' + name], 'x'))
        st0 = st.copy()
        spec = kind.sym(m, st0, x)
        for o, v in st0.heap.items():
            st.heap.setdefault(o, v)
        n = 0
        for s, (res,) in m.call_fn(fn, [x], st):
            n += 1

            def chk(s):
                seq_eq(m.content(s, m.force(s, res)), spec, s.pc)
            c.post('ensures: %s.Encode is the documented layout' % name, s, chk, fn)
        return n
    return body


def encode_cases(name, kind):
    from runner import Case
    from replay import unb64

    def cases(rng, n):
        for _ in range(n):
            val = kind.gen(rng, 0)

            def check(a, val=val):
                if 'panic' in a:
                    return '%s.Encode panics: %s' % (name, a['panic'])
                b = unb64(a['res'][0]['r'][0])
                try:
                    i = kind.eat(val, b, 0, name)
                    if i != len(b):
                        return '%s: %d bytes after the documented layout' % (name, len(b) - i)
                except Bad as e:
                    return '%s: %s' % (name, e)
            yield Case([{'fn': '(*%s).Encode' % name, 'args': [val]}], check)
    return cases


def decode_job(fn, kind):
    def body(c):
        m = c.m
        prims.install(m, prims.VERIFIED)
        st = State()
        s, e = kind.wire(c, fn, ())
        pl = m.new_bytes(st, s)
        st.assume(le(s.len, I(2**31 - 5)))
        n = 0
        for s1, res in m.call_fn(fn, [pl], st):
            n += 1

            def chk(s2):
                match(m, s2, e, m.force(s2, res[0]), fn)
                if len(res) > 1:
                    need(s2.pc, m.force(s2, res[1]).nil, 'an error is returned for well-formed bytes')
            c.post('ensures: %s decodes the documented layout' % fn, s1, chk, fn)
        return n
    return body


def decode_cases(fn, kind):
    from runner import Case

    def cases(rng, n):
        for _ in range(n):
            val = kind.genwire(rng, 0)

            def check(a, val=val):
                if 'panic' in a:
                    return '%s panics: %s' % (fn, a['panic'])
                r = a['res'][0]['r']
                if len(r) > 1 and r[1] is not None:
                    return '%s: error %r' % (fn, r[1])
                try:
                    kind.agree(val, r[0], fn)
                except Bad as e:
                    return str(e)
            yield Case([{'fn': fn, 'args': [kind.py(val)]}], check)
    return cases


def split_job(c):
    """requires: at least one member, no member twice.
    ensures: member i gets partitions[b(i) : b(i+1)] with b(i) = i*floor + min(i, rest), where |partitions| = n*floor + rest, 0 <= rest < n.
    b(0) = 0, b(n) = |partitions| and b(i) <= b(i+1) <= b(i)+floor+1, so every partition goes to exactly one member, in contiguous ranges whose sizes differ by at most one"""
    m = c.m
    st = State()
    ft = m.p.funcs[AP]['params']
    mem = m.force(st, Ghost(ft[1]['t'], 'members'))
    par = m.force(st, Ghost(ft[2]['t'], 'partitions'))
    n, L = mem.len, par.len
    st.assume(lt(I(0), n))
    fl = divv(L, n)
    w = L - fl * n
    st.assume(and_(le(I(0), w), lt(w, n), le(I(0), fl)))     # definition of division of natural numbers

    def b(i):
        return i * fl + ite(lt(i, w), i, w)
    ghost = {}

    def rule(m, fr, st0, header, pred, body):
        if fr.fn != AP and not fr.fn.startswith(AP + '$'):
            return NotImplemented
        fr, blk, names, steps = havoc.phi_steps(m, fr, st0, header, pred, body)
        idx = [r for r in names if isinstance(fr.regs[r], Lin) and fr.regs[r].const() in (-1, 0) and steps[r] and all((v - fr.regs[r]).const() == 1 for v in steps[r])]
        acc = [r for r in names if r not in idx and isinstance(fr.regs[r], Lin) and fr.regs[r].const() == 0]
        maps = [o for o, v in st0.heap.items() if isinstance(v, MapC) and not v.upd]
        if len(idx) != 1 or len(maps) != 1 or set(names) - set(idx) - set(acc):
            return NotImplemented
        o, = maps
        i = app('i', (), 0)
        base = fr.regs[idx[0]].const()
        c0 = st0.heap[o]
        ghost['map'] = o

        def hv(f2, s2):
            s2.assume(le(i, n))
            f2.regs[idx[0]] = i + base
            for r in acc:
                f2.regs[r] = b(i)
            # lemma (nonlinear): i*floor <= n*floor, and (i+1)*floor <= n*floor when i < n
            s2.assume(le(mul(i, fl), mul(n, fl)))
            s2.assume(implies(lt(i, n), le(mul(i, fl) + fl, mul(n, fl))))
            s2.assume(le(I(0), mul(i, fl)))

        def check(s, ph, where):
            nxt = i + 1 if where != 'on entry' else I(0)
            need(s.pc, eq(ph[idx[0]], nxt + base), 'the loop index ' + where)
            for r in acc:
                need(s.pc, eq(ph[r], b(nxt)), 'the start of the next range %s is %r' % (where, ph[r]))
            if where == 'on entry':
                return
            need(s.pc, lt(i, n), 'more iterations than members')
            u = s.heap[o].upd
            if len(u) != 1:
                raise Mismatch('a member gets %d ranges' % len(u), s.pc)
            k, v = m.force(s, u[0][0]), m.force(s, u[0][1])
            seq_eq(k, m.force(s, elem(m, s, mem, i)), s.pc)
            need(s.pc, and_(eq(v.off, par.off + b(i)), eq(v.len, b(i + 1) - b(i))), 'member i gets the range [%r, +%r)' % (v.off, v.len))
            if v.base != par.base:
                raise Mismatch('the range is not one of the partitions', s.pc)
        try:
            return havoc.run_invariant(m, fr, st0, blk, header, body, hv, check)
        except Mismatch as e:
            raise LoopFail(e.why)
    m.loop_rules.append(rule)
    cnt = 0
    recv = m.force(st, Ghost(ft[0]['t'], 'r'))
    for s1, (res,) in m.call_fn(AP, [recv, mem, par], st, merge=False):
        cnt += 1

        def chk(s):
            r = m.force(s, res)
            if r.obj != ghost.get('map'):
                raise Mismatch('another map is returned', s.pc)
            # the lemmas over the ranges
            j = app('j', (), 0)
            need(s.pc, eq(b(I(0)), I(0)), 'the first range does not start at the beginning')
            need(s.pc, eq(b(n), L), 'the last range does not end at the end')
            need(list(s.pc) + [lt(j, n)], and_(le(fl, b(j + 1) - b(j)), le(b(j + 1) - b(j), fl + 1)), 'ranges differ by more than one')
        c.post('ensures: the partitions are split into contiguous ranges, one per member, whose sizes differ by at most one', s1, chk, AP)
    return cnt


# ---------------------------------------------------------------- the whole assignment
NPM = 'NewProtocolMetadata'
ENC = '(*MemberAssignment).Encode'


def sortable(c, st, v):
    """the list that a call of sort orders, and that its methods order it by the natural order of its elements"""
    m = c.m
    t = v.t
    nm = m.p.name(t)
    u = m.p.u(t)
    if u['k'] != 'slice':
        raise Unsupported('sort of %s' % nm)
    s0 = State()
    a = m.force(s0, Ghost(t, 'sorted'))
    i, j = app('any:i', (), 0, 2**40), app('any:j', (), 0, 2**40)
    s0.assume(and_(lt(i, a.len), lt(j, a.len)))
    meth = {k: '(%s).%s' % (nm.split('.')[-1], k) for k in ('Len', 'Less', 'Swap')}
    if any(f not in m.p.funcs for f in meth.values()):
        raise Unsupported('sort of %s' % nm)
    for s1, (r,) in m.call_fn(meth['Len'], [a], s0.copy()):
        need(s1.pc, eq(m.force(s1, r), a.len), '%s.Len' % nm)
    for s1, (r,) in m.call_fn(meth['Less'], [a, i, j], s0.copy()):
        x, y = m.force(s1, elem_(m, s1, a, i)), m.force(s1, elem_(m, s1, a, j))
        w = lt(x, y) if isinstance(x, Lin) else bapp('strlt', (x, y))
        r = m.force(s1, r)
        ne = not_(veq(m, s1, x, y))
        if isinstance(x, Sq):        # the order of strings is total
            ne = and_(ne, or_(w, bapp('strlt', (y, x))), or_(not_(w), not_(bapp('strlt', (y, x)))))
        need(list(s1.pc) + [ne], and_(or_(not_(w), r), or_(not_(r), w)), '%s.Less' % nm)
    a0 = m.content(s0, a)
    s1 = s0.copy()
    s1.assume(not_(eq(i, j)))
    k = app('any:k', (), 0, 2**40)
    for s2, _ in m.call_fn(meth['Swap'], [a, i, j], s1):
        def swapped(s3):
            now = lambda k: m.force(s3, elem_(m, s3, a, k))
            old = lambda k: m.force(s3, arr_get(a0, k, s3.pc, m.zero))
            same(m, s3, now(i), old(j), '%s.Swap' % nm)
            same(m, s3, now(j), old(i), '%s.Swap' % nm)
            s4 = s3.copy()
            s4.assume(and_(lt(k, a.len), not_(eq(k, i)), not_(eq(k, j))))
            if solver.sat(s4.pc):
                c.cases(s4, lambda s5: same(m, s5, m.force(s5, elem_(m, s5, a, k)), m.force(s5, arr_get(a0, k, s5.pc, m.zero)), '%s.Swap' % nm))
        c.cases(s2, swapped)
    return m.force(st, v.v)


def sort_contract(c):
    """sort.Sort (assumed): the list holds the same elements, in the order given by Less"""
    okt = {}
    m = c.m

    def h(m, fr, st, a, ins):
        v = m.force(st, a[0])
        l = m.force(st, v.v)
        if v.t not in okt:
            okt[v.t] = sortable(c, st, v)
        return order(m, st, l)

    def order(m, st, l):
        if not isinstance(l.base, int) or l.off.const() != 0 or not prove(st.pc, eq(m.content(st, l).len, l.len)):
            raise Unsupported('sort of part of a list')
        old = m.content(st, l)
        nm = 'sorted!%d' % len(st.ev)
        W.ev(st, 'sort', nm + '[]', old, l)
        st.heap[l.base] = Arr([('gh', l.et, nm + '[]', (), I(0), l.len)])
        return ()
    m.contracts['sort.Sort'] = m.contracts['sort.Stable'] = h
    m.contracts['sort.Strings'] = lambda m, fr, st, a, ins: order(m, st, m.force(st, a[0]))


def unsorted(m, s, l):
    """(content before it was sorted, was it sorted); the same elements"""
    c, was = m.content(s, l), False
    while True:
        e = [e for e in W.evs(s, 'sort') if isinstance(c, Arr) and len(c.p) == 1 and c.p[0][0] == 'gh' and c.p[0][2] == e[1] and prove(s.pc, and_(eq(c.p[0][4], I(0)), eq(c.p[0][5], e[3].len)))]
        if not e:
            return c, was
        c, was = e[-1][2], True


def assign_job(c):
    """requires: member ids and topic names are different from each other (as in a JoinGroup response and a metadata response); the members' metadata is well formed.
    ensures, for every topic: the members whose subscription holds the topic, in the order of their ids, are given the sorted partitions by assignPartitions (its contract is `assignPartitions`);
    every range goes to the assignment of its member under its topic, and nothing else does; every member gets one entry, with its encoded assignment"""
    m = c.m
    st = State()
    ft = m.p.funcs[ASSIGN]['params']
    recv = m.force(st, Ghost(ft[0]['t'], 'r'))
    mem = m.force(st, Ghost(ft[1]['t'], 'members'))
    top = m.force(st, Ghost(ft[2]['t'], 'topics'))
    W.conc(m)
    sort_contract(c)
    box, state = {}, {'sorted': True}

    # NewProtocolMetadata: its own contract; here a function of the bytes
    m.nonnil.add('pm')
    rt = m.p.funcs[NPM]['results'][0]['t']

    def meta_of(st, pl):
        return m.force(st, Ghost(rt, 'pm', (m.content(st, m.force(st, pl)),)))
    m.contracts[NPM] = lambda m, fr, st, a, ins: (meta_of(st, a[0]),)

    at_rt = m.p.funcs[AP]['results'][0]['t']

    def split(m, fr, st, a, ins):
        ms, ps = m.force(st, a[1]), m.force(st, a[2])
        r = m.force(st, Ghost(at_rt, 'split'))
        W.ev(st, 'split', ms, ps, r, st.copy())
        return (r,)
    m.contracts[AP] = split

    def encode(m, fr, st, a, ins):
        p = m.force(st, a[0])
        W.ev(st, 'encode', p)
        r = m.force(st, Ghost(m.p.byname['[]byte'], 'enc'))
        return (r,)
    m.contracts[ENC] = encode

    has = lambda fr, body, f: R.calls(m, fr, body, f)

    # A2: the members of one topic
    def topic(s):
        return m.force(s, getf(m, s, elem(m, s, top, A.x), 'TopicName'))

    def members_of(s, x, evs):
        lst = [r for r in A2.start if isinstance(A2.start[r], SliceV) and isinstance(A2.now[r], SliceV)]
        if len(lst) != 1:
            raise Unsupported('the loop over the members')
        r, = lst
        need(s.pc, eq(A2.entry[r].len, I(0)), 'the list of subscribers is not empty at first')
        old, now = A2.start[r], A2.now[r]
        box['subs'] = old
        xs = [e[1] for e in evs if e[0] == 'loop']
        if len(xs) != 1:
            raise Unsupported('the search for the topic')
        y, = xs
        sub = R.at(m, s, meta_of(s, getf(m, s, elem(m, s, mem, x), 'MemberMetadata')), ['Subscription'])
        found = prove(s.pc, lt(y, sub.len))
        if not found and not prove(s.pc, le(sub.len, y)):
            raise Unsupported('end of the search')
        if found:
            need(s.pc, veq(m, s, elem_(m, s, sub, y), topic(s)), 'a member without the topic is counted')
        before, was = unsorted(m, s, now)
        oc = m.content(s, old)
        box['path'] = oc.p[0][2] if isinstance(oc, Arr) and len(oc.p) == 1 and oc.p[0][0] == 'gh' else None
        if not found:
            need(s.pc, eq(before.len, oc.len), 'a member without the topic is counted')
            want = old
        else:
            need(s.pc, eq(before.len, oc.len + 1), 'a member with the topic is not counted once')
            if not was:
                state['sorted'] = False
            seq_eq(m.force(s, arr_get(before, oc.len, s.pc, m.zero)), m.force(s, getf(m, s, elem(m, s, mem, x), 'MemberID')), s.pc)
        j = app('any:j', (), 0, 2**40)
        s2 = s.copy()
        s2.assume(lt(j, oc.len))
        if solver.sat(s2.pc):
            seq_eq(m.force(s2, arr_get(before, j, s2.pc, m.zero)), m.force(s2, arr_get(oc, j, s2.pc, m.zero)), s2.pc)

    def other(s, y, evs):
        sub = R.at(m, s, meta_of(s, getf(m, s, elem(m, s, mem, A2.x), 'MemberMetadata')), ['Subscription'])
        if not prove(s.pc, not_(veq(m, s, elem_(m, s, sub, y), topic(s)))):
            raise Unsupported('a search that goes on after a match')

    # A: the topics
    def tpa(m, st):
        for o, v in list(st.heap.items()):
            if isinstance(v, MapC) and m.p.u(v.et)['k'] == 'map' and (v.base is None or v.base[0] == 'tpa'):
                box['tpa'] = o
                st.heap[o] = MapC(v.kt, v.et, (), ('tpa', ()))

    def topic_done(s, x, evs):
        if 'tpa' not in box:
            raise Unsupported('the map of the topics')
        u = s.heap[box['tpa']].upd
        sp = W.evs(s, 'split')
        if not A2.done or 'subs' not in box:
            raise Unsupported('the loop over the members')
        xs = [e[1] for e in evs if e[0] == 'loop']
        if not xs:
            raise Unsupported('the loop over the members')
        need(s.pc, le(mem.len, xs[0]), 'not every member is asked')
        if not u:
            need(s.pc, eq(box['subs'].len, I(0)), 'a topic with subscribers is not assigned')
            return
        if len(u) != 1 or len(sp) != 1:
            raise Mismatch('a topic is assigned %d times' % len(u), s.pc)
        seq_eq(m.force(s, u[0][0]), topic(s), s.pc)
        _, ms, ps, r, then = sp[0]
        if not vsame(m.force(s, u[0][1]), r):
            raise Mismatch('the topic gets another split', s.pc)
        then = then.copy()
        then.pc = s.pc
        before, was = unsorted(m, then, ms)
        if not (was or state['sorted']):
            raise Mismatch('the members are not in the order of their ids', s.pc)
        need(s.pc, eq(before.len, box['subs'].len), 'not the subscribers of the topic')
        if not (isinstance(before, Arr) and len(before.p) == 1 and before.p[0][0] == 'gh' and before.p[0][2] == box['path']):
            raise Unsupported('the list of the subscribers')
        before, was = unsorted(m, then, ps)
        if not was:
            raise Mismatch('the partitions are not sorted', s.pc)
        pm = m.force(s, getf(m, s, elem(m, s, top, x), 'PartitionMetadatas'))
        need(s.pc, eq(before.len, pm.len), 'not all the partitions of the topic')
        j = app('any:j', (), 0, 2**40)
        s2 = s.copy()
        s2.assume(lt(j, pm.len))
        if solver.sat(s2.pc):
            need(s2.pc, eq(m.force(s2, arr_get(before, j, s2.pc, m.zero)), m.force(s2, getf(m, s2, elem(m, s2, pm, j), 'PartitionID'))), 'not the partitions of the topic')

    # B: an empty assignment for every member
    def ma(m, st):
        for o, v in list(st.heap.items()):
            if isinstance(v, MapC) and m.p.name(v.et) == '*MemberAssignment' and (v.base is None or v.base[0] == 'ma'):
                box['ma'] = o
                st.heap[o] = MapC(v.kt, v.et, (), ('ma', ()))

    def member_done(s, x, evs):
        if 'ma' not in box:
            raise Unsupported('the map of the members')
        u = s.heap[box['ma']].upd
        if len(u) != 1:
            raise Mismatch('a member gets %d assignments' % len(u), s.pc)
        seq_eq(m.force(s, u[0][0]), m.force(s, getf(m, s, elem(m, s, mem, x), 'MemberID')), s.pc)
        v = deref(m, s, m.force(s, u[0][1]))
        need(s.pc, eq(m.force(s, getf(m, s, v, 'Version')), I(0)), 'version of the assignment')
        for f in ('PartitionAssignments', 'UserData'):
            need(s.pc, eq(m.force(s, getf(m, s, v, f)).len, I(0)), 'an assignment starts with %s' % f)

    # C: the ranges go to their members
    kt = m.p.byname['string']
    key = lambda s, x, y: m.force(s, Ghost(kt, 'tpa{v}#key', (x, y)))
    live(m, 'ma{}')

    def known(s, y):
        s.assume(bapp('ma#has', (key(s, C.x, y),)))

    def given_(s, y, evs):
        objs = [(o, v) for o, v in s.heap.items() if isinstance(v, StructV) and m.p.name(v.t) == 'MemberAssignment' and o not in C1.st0.heap]
        if len(objs) != 1:
            raise Mismatch('%d assignments change for one range' % len(objs), s.pc)
        k = key(s, C.x, y)
        p = m.force(s, m.map_get(s, MapV(FALSE, box['ma']), k, m.p.u(m.p.byname['map[string]*MemberAssignment']))[0])
        if p.tgt[0] != objs[0][0]:
            raise Mismatch('the assignment of another member changes', s.pc)
        g = m.force(s, Ghost(m.p.byname['MemberAssignment'], 'ma{}*', (k,)))
        for f in ('Version', 'UserData'):
            same(m, s, getf(m, s, objs[0][1], f), getf(m, s, g, f), f)
        e = appended(m, s, m.force(s, getf(m, s, objs[0][1], 'PartitionAssignments')), m.force(s, getf(m, s, g, 'PartitionAssignments')), 'PartitionAssignments')
        seq_eq(m.force(s, getf(m, s, e, 'Topic')), m.force(s, Ghost(kt, 'tpa#key', (C.x,))), s.pc)
        pt = m.p.u(at_rt)['e']
        if not same_slice(m, s, getf(m, s, e, 'Partitions'), m.force(s, Ghost(pt, 'tpa{v}{v}', (C.x, y)))):
            raise Mismatch('the member gets other partitions', s.pc)

    def all_given(s, x, evs):
        xs = [e[1] for e in evs if e[0] == 'loop']
        if len(xs) != 1:
            raise Unsupported('the loop over the ranges of a topic')
        need(s.pc, le(app('tpa{v}#n', (x,), 0, 2**31 - 2), xs[0]), 'not every range is given to its member')

    # D: the entries of the answer
    def entry(s, x, evs):
        ch = [o for o in D.chg if isinstance(s.heap[o], Arr)]
        en = [e for e in evs if e[0] == 'encode']
        if len(ch) != 1 or len(en) != 1:
            raise Unsupported('the entries of the answer')
        box['out'] = ch[0]
        if not vsame(m.force(s, en[0][1]), m.force(s, Ghost(m.p.byname['*MemberAssignment'], 'ma{v}', (x,)))):
            raise Mismatch('the assignment of another member is encoded', s.pc)
        now = s.heap[ch[0]]
        e = m.force(s, arr_get(now, x, s.pc, m.zero))
        seq_eq(m.force(s, getf(m, s, e, 'MemberID')), m.force(s, Ghost(kt, 'ma#key', (x,))), s.pc)
        seq_eq(m.content(s, m.force(s, getf(m, s, e, 'MemberAssignment'))), m.content(s, m.force(s, Ghost(m.p.byname['[]byte'], 'enc'))), s.pc)
        j = app('any:j', (), 0, 2**40)
        s2 = s.copy()
        s2.assume(and_(lt(j, mem.len), not_(eq(j, x))))
        if solver.sat(s2.pc):
            a, b = m.force(s2, arr_get(now, j, s2.pc, m.zero)), m.force(s2, arr_get(D.before[ch[0]], j, s2.pc, m.zero))
            if not vsame(a, b):
                same(m, s2, a, b, 'an entry')

    def count(s, x):
        s.assume(eq(app('ma#n', (), 0, 2**31 - 2), mem.len))
    phase = lambda n: len([1 for e in (A, B_, C) if e.done]) >= n
    cc = lambda f: (lambda s, x, evs: c.cases(s, lambda s2: f(s2, x, evs)))
    A = Each(m, None, loose=True, allowed=[tpa], check=cc(topic_done), want=lambda m, fr, st0, h, b: has(fr, b, AP) and has(fr, b, NPM))
    A2 = Each(m, None, loose=True, check=cc(members_of), want=lambda m, fr, st0, h, b: A.active and has(fr, b, NPM))
    A3 = Each(m, None, loose=True, check=cc(other), want=lambda m, fr, st0, h, b: A2.active)
    B_ = Each(m, None, loose=True, allowed=[ma], check=cc(member_done), want=lambda m, fr, st0, h, b: not A.active and R.updates(m, fr, b))
    D = Each(m, None, loose=True, check=cc(entry), more=count, want=lambda m, fr, st0, h, b: not A.active and has(fr, b, ENC))
    C1 = Each(m, None, loose=True, check=cc(given_), more=known, want=lambda m, fr, st0, h, b: C.active)
    C = Each(m, None, loose=True, allowed=[tpa, ma], check=cc(all_given), want=lambda m, fr, st0, h, b: A.done and B_.done and not D.done)
    n = 0
    for s1, (res,) in m.call_fn(ASSIGN, [recv, mem, top], st, merge=False):
        n += 1

        def chk(s):
            r = m.force(s, res)
            xs = [e[1] for e in s.ev if e[0] == 'loop']
            if not (A.done and B_.done and C.done and D.done):
                raise Unsupported('the loops of the assignment')
            if r.base != box['out'] or r.off.const() != 0:
                raise Mismatch('another list is returned', s.pc)
            need(s.pc, eq(r.len, mem.len), 'not one entry per member')
            if len(xs) != 4:
                raise Unsupported('the loops of the assignment')
            for x, k, w in zip(xs, [top.len, mem.len, app('tpa#n', (), 0, 2**31 - 2), mem.len], ['topic', 'member', 'assigned topic', 'entry']):
                need(s.pc, le(k, x), 'not every %s is dealt with' % w)
        c.post('ensures: every member gets exactly the ranges of the topics it subscribes to', s1, chk, ASSIGN)
    return n


# ---------------------------------------------------------------- concrete inputs
def oracle(members, topics):
    """members: {id: [topic]}; topics: {name: [partition id]}; what the property requires"""
    out = {x: {} for x in members}
    for t, ps in topics.items():
        subs = sorted(x for x in members if t in members[x])
        if not subs:
            continue
        ps = sorted(ps)
        q, r = divmod(len(ps), len(subs))
        pos = 0
        for k, x in enumerate(subs):
            n = q + (1 if k < r else 0)
            if n:
                out[x][t] = ps[pos:pos + n]
            pos += n
    return out


def assign_cases(rng, n):
    from runner import Case
    from replay import unb64
    for _ in range(n):
        names = [('t%d' % i).encode() for i in range(rng.randint(0, 5))]
        topics = {t: rng.sample(range(rng.choice([1, 5, 20, 300])), 1) for t in names}
        for t in names:
            k = rng.choice([0, 1, 2, 3, 5, 7, 12, 30])
            topics[t] = rng.sample(range(k + rng.choice([0, 0, 10])), k)
        ids = [rng.choice([b'm', b'member-', b'z', b'']) + str(i).encode() for i in range(rng.choice([1, 1, 2, 3, 4, 7, 11]))]
        rng.shuffle(ids)
        sub = {x: [t for t in names + [b'other'] if rng.random() < rng.choice([0.3, 0.8, 1.0])] for x in ids}
        for x in sub:
            if sub[x] and rng.random() < 0.2:
                sub[x].append(rng.choice(sub[x]))        # a topic may be listed twice
            rng.shuffle(sub[x])
        members = [{'MemberID': x, 'MemberMetadata': META.py({'Version': 0, 'Subscription': sub[x], 'UserData': b''})} for x in ids]
        tl = [{'TopicName': t, 'PartitionMetadatas': [{'PartitionID': p, 'Leader': 1} for p in topics[t]]} for t in names]
        rng.shuffle(tl)
        want = oracle(sub, topics)

        def check(a, want=want, sub=sub, topics=topics):
            if 'panic' in a:
                return 'Assign panics: %s (members %r, topics %r)' % (a['panic'], sub, topics)
            got = {}
            for e in a['res'][0]['r'][0] or []:
                x = unb64(e['MemberID'])
                if x in got:
                    return 'member %r gets two entries' % x
                b = unb64(e['MemberAssignment'])
                d = {}
                p = 6
                if b[:2] != b'\0\0':
                    return 'assignment version %r' % b[:2]
                for _ in range(int.from_bytes(b[2:6], 'big')):
                    l = int.from_bytes(b[p:p + 2], 'big')
                    t = b[p + 2:p + 2 + l]
                    p += 2 + l
                    k = int.from_bytes(b[p:p + 4], 'big')
                    ps = [int.from_bytes(b[p + 4 + 4 * i:p + 8 + 4 * i], 'big') for i in range(k)]
                    p += 4 + 4 * k
                    if t in d:
                        return 'topic %r twice for member %r' % (t, x)
                    if ps:
                        d[t] = ps
                got[x] = d
            if got != want:
                return 'the assignment is %r instead of %r' % (got, want)
        yield Case([{'fn': ASSIGN, 'args': [{}, members, tl]}], check)


def split_cases(rng, n):
    from runner import Case
    from replay import unb64
    for _ in range(n):
        k = rng.choice([1, 1, 2, 3, 5, 8, 13])
        mem = [b'm%02d' % i for i in range(k)]
        par = list(range(rng.choice([0, 1, k - 1, k, k + 1, 2 * k - 1, 2 * k, 40])))
        want = {x: v for x, v in ((x, oracle({y: [b't'] for y in mem}, {b't': par})[x].get(b't', [])) for x in mem)}

        def check(a, want=want):
            if 'panic' in a:
                return 'assignPartitions panics: ' + a['panic']
            got = {unb64(x): v or [] for x, v in a['res'][0]['r'][0]}
            if got != want:
                return 'the partitions are split as %r instead of %r' % (got, want)
        yield Case([{'fn': AP, 'args': [{}, mem, par]}], check)


def decoders():
    from runner import Job
    return [Job(fn, decode_job(fn, k), phase=5, key=fn, cases=decode_cases(fn, k), fns=[fn])
            for fn, k in (('NewMemberAssignment', RS.ASSIGNMENT), ('NewProtocolMetadata', Struct(('Version', U16), ('Subscription', ARR(STR)), ('UserData', RS.ZBYTES))))]


def codecs():
    from runner import Job
    return [Job(nm + '.Encode', encode_job(nm, k), cases=encode_cases(nm, k), fns=['(*%s).Encode' % nm]) for nm, k in (('MemberAssignment', MA), ('ProtocolMetadata', META))] + decoders()


def c10(P):
    from runner import Job
    out = codecs()
    out.append(Job('assignPartitions', split_job, cases=split_cases, fns=[AP]))
    out.append(Job('Assign', assign_job, cases=assign_cases, fns=[ASSIGN, '(ByPartitionID).Less', '(ByPartitionID).Swap', '(ByPartitionID).Len', '(ByMemberID).Less', '(ByMemberID).Swap', '(ByMemberID).Len']))
    return out
