"""Loops decided with an invariant given by a contract: the invariant holds on entry, an arbitrary iteration that starts in it ends in it (or leaves the loop)."""
from terms import *
from values import *
from machine import LoopFail
from bycases import by_cases
import solver
from solver import prove


def phi_steps(m, fr, st0, header, pred, body, trial=None):
    """(frame with entry values, {phi: (entry value, value after one iteration)}), from one trial iteration"""
    blk = m.p.funcs[fr.fn]['blocks'][header]
    fr = fr.copy()
    fr.regs.update(m.phis(fr, st0, blk, pred))
    names = [ins['reg'] for ins in blk['instrs'] if ins['op'] == 'Phi']
    m.quiet += 1
    try:
        outs = m.run(fr.copy(), st0.copy(), header, None, {}, (header, body))
    finally:
        m.quiet -= 1
    steps = {r: [] for r in names}
    for o in outs:
        if o[0] == 'back':
            if trial is not None:
                trial.append(o[2])
            ph = m.phis(o[1], o[2], blk, o[3])
            for r in names:
                steps[r].append(ph[r])
    return fr, blk, names, steps


def run_invariant(m, fr, st0, blk, header, body, havoc, check):
    """fr: frame with the entry values of the phis; havoc(frame, state): set an arbitrary iteration; check(state, {phi: value}, where)"""
    check(st0, {ins['reg']: fr.regs[ins['reg']] for ins in blk['instrs'] if ins['op'] == 'Phi'}, 'on entry')
    f2, s2 = fr.copy(), st0.copy()
    havoc(f2, s2)
    res = []
    for o in m.run(f2, s2, header, None, {}, (header, body)):
        if o[0] == 'back':
            if solver.sat(o[2].pc):
                check(o[2], m.phis(o[1], o[2], blk, o[3]), 'after an iteration')
        else:
            res.append(o)
    m.loops_inv += 1
    return res


class Each:
    """Loops that do one thing per iteration, for all x < n: at the start of iteration x every loop-carried value is a known function of x
    (its entry value, +-x, or advanced by size(0)+..+size(x-1)); the events of the iteration are judged by `check`.
    m.iter is the iteration under way (None outside)."""
    def __init__(self, m, fn, size=None, allowed=(), check=None, want=None, more=None, inv=None, loose=False):
        self.more, self.inv, self.loose = more, inv, loose
        self.active = False
        self.inv2 = None
        self.assuming = False
        self.m, self.fn, self.size, self.allowed, self.check, self.want = m, fn, size, allowed, check, want
        self.name = (fn or 'loop').split('.')[-1] + '#off'
        self.done = 0
        m.iter = getattr(m, 'iter', None)
        m.loop_rules.append(self.rule)

    def L(self, x):
        return I(0) if x.const() == 0 else app(self.name, (x,), 0, 2**50)

    def value(self, kind, v0, x):
        if kind == 'same':
            return v0
        if isinstance(kind, tuple):
            return v0 + x * kind[1]
        d = self.L(x)
        if kind == 'L':
            return v0 + d
        if kind == 'slice':
            return SliceV(v0.base, v0.off + d, v0.len - d, v0.cap - d, v0.nil, v0.et)
        if kind == 'any':
            return None
        raise AssertionError(kind)

    def classify(self, v0, vs):
        from machine import vsame
        if all(vsame(v0, v) for v in vs):
            return 'same'
        if isinstance(v0, Lin) and all(isinstance(v, Lin) for v in vs):
            d = vs[0] - v0
            if d.const() is not None and all((v - v0) == d for v in vs):
                return ('lin', d.const())
            if self.size and all((v - v0) == self.size(I(0)) for v in vs):
                return 'L'
        if self.size and isinstance(v0, SliceV) and all(isinstance(v, SliceV) and v.base == v0.base and (v.off - v0.off) == self.size(I(0)) for v in vs):
            return 'slice'
        return None

    def rule(self, m, fr, st0, header, pred, body):
        if (self.fn and fr.fn != self.fn) or self.active or (self.want and not self.want(m, fr, st0, header, body)):
            return NotImplemented
        saved, m.iter, self.active = m.iter, I(0), True
        self.x = I(0)
        try:
            trial = []
            fr, blk, names, steps = phi_steps(m, fr, st0, header, pred, body, trial)
            kinds = {}
            for r in names:
                vs = [m.force(st0, v) for v in steps[r]]
                v0 = m.force(st0, fr.regs[r])
                k = self.classify(v0, vs)
                if k is None:
                    if (isinstance(v0, Lin) or isinstance(v0, SliceV)) and not self.loose:
                        raise LoopFail('loop-carried value %s: %r, then %r' % (r, v0, vs))
                    k = 'any'
                kinds[r] = (k, v0)
            x = fresh('x', 0)
            self.trial = trial
            self.x = x
            self.st0, self.before = st0, {}
            self.start, self.entry = {}, {r: v0 for r, (k, v0) in kinds.items()}     # values that the rule does not follow, at the start of iteration x and on entry
            changed = self.changed(st0)

            def hv(f2, s2):
                m.iter = x
                for r, (k, v0) in kinds.items():
                    if k == 'any':
                        t = next(i['t'] for i in blk['instrs'] if i.get('reg') == r)
                        f2.regs[r] = self.start[r] = m.force(s2, Ghost(t, 'loop.%s' % r))
                    else:
                        f2.regs[r] = self.value(k, v0, x)
                if self.size:
                    s2.assume(eq(self.L(x + 1), self.L(x) + self.size(x)))
                if self.inv:
                    s2.assume(self.inv(x))
                if self.inv2:
                    self.assuming = True
                    s2.assume(self.inv2(s2, x))
                    self.assuming = False
                if self.more:
                    self.more(s2, x)
                for o in changed:
                    s2.heap[o] = self.before[o] = self.any_of(m, s2, st0.heap[o], x, o)
                for a in self.allowed:
                    a(m, s2)
                s2.ev.append(('loop', x))

            def check(s, ph, where):
                self.now = {r: m.force(s, v) for r, v in ph.items()}
                if self.inv and not prove(s.pc, self.inv(I(0) if where == 'on entry' else x + 1)):
                    raise LoopFail('the loop invariant does not hold ' + where)
                if self.inv2 and not prove(s.pc, self.inv2(s, I(0) if where == 'on entry' else x + 1)):
                    raise LoopFail('the loop invariant does not hold ' + where)
                if where == 'on entry':
                    return
                for r, (k, v0) in kinds.items():
                    if k == 'any':
                        continue
                    e, g = self.value(k, v0, x + 1), m.force(s, ph[r])
                    es, gs = ([e], [g]) if isinstance(e, Lin) else ([e.off, e.len], [g.off, g.len]) if isinstance(e, SliceV) and k == 'slice' else (None, None)
                    if es is None:
                        from machine import vsame
                        if not vsame(e, g):
                            raise LoopFail('loop-carried value %s' % r)
                    else:
                        for a, b in zip(es, gs):
                            if not prove(s.pc, eq(a, b)):
                                raise LoopFail('loop-carried value %s: %r instead of %r' % (r, b, a))
                self.heap(st0, s)
                i = max(j for j, e in enumerate(s.ev) if e == ('loop', x))
                if self.check:
                    by_cases(s, lambda s2: self.check(s2, x, s2.ev[i + 1:]))
            outs = run_invariant(m, fr, st0, blk, header, body, hv, check)
            self.done += 1
            return outs
        finally:
            m.iter, self.active = saved, False

    def changed(self, st0):
        """objects that an iteration changes, besides the ones of `allowed`"""
        from machine import vsame
        out = []
        s0 = self.canon(st0)
        for s in self.trial:
            s1 = self.canon(s)
            for o, v in s0.heap.items():
                if o in s1.heap and o not in out and not vsame(v, s1.heap[o]):
                    out.append(o)
        self.chg = {}
        for o in out:
            self.chg[o] = [s.heap[o] for s in self.trial]
        return out

    def canon(self, st):
        s1 = st.copy()
        for a in self.allowed:
            a(self.m, s1)
        return s1

    def any_of(self, m, st, v, x, o):
        """the value of a changed object at the start of iteration x"""
        if isinstance(v, OpaqueV) and v.kind == 'stream':
            ds = [w['pos'] - v['pos'] for w in self.chg[o]]
            if self.loose:
                return OpaqueV('stream', pos=app('pos.%s' % o, (x,), 0, 2**50), last=None)
            if any(d.const() is None or d != ds[0] for d in ds):
                raise LoopFail('a loop reads a varying number of bytes')
            return OpaqueV('stream', pos=v['pos'] + x * ds[0].const(), last=None)
        if isinstance(v, OpaqueV) and v.kind == 'mapiter':
            if any(w['i'] - v['i'] != I(1) for w in self.chg[o]):
                raise LoopFail('an iteration does not take one entry of the map')
            return v.with_(i=v['i'] + x)
        if isinstance(v, Sq):
            a = satom('changed.%s' % o, (x,), 2**62)
            st.assume(eq(a.len, v.len))
            return a
        if isinstance(v, Arr) and v.p and v.p[0][0] in ('zero', 'gh'):
            n = I(0)
            for q in v.p:
                n = n + plen(q)
            return Arr([('gh', v.p[0][1], 'changed.%s[]' % o, (x,), I(0), n)])
        if isinstance(v, StructV) and self.loose:
            return m.force(st, Ghost(v.t, 'changed.%s' % o, (x,)))
        return Unk('changed by a loop')

    def heap(self, st0, s):
        from machine import vsame
        s0, s1 = self.canon(st0), self.canon(s)
        for o, v in s0.heap.items():
            if o not in s1.heap:
                continue
            w = s1.heap[o]
            if o in self.chg:
                if isinstance(v, OpaqueV) and v.kind == 'stream' and self.loose:
                    pass
                elif isinstance(v, OpaqueV) and v.kind == 'stream':
                    d = self.chg[o][0]['pos'] - v['pos']
                    if not prove(s.pc, eq(w['pos'], v['pos'] + (self.x + 1) * d.const())):
                        raise LoopFail('position of the stream')
                elif isinstance(v, OpaqueV) and v.kind == 'mapiter':
                    if not prove(s.pc, eq(w['i'], v['i'] + (self.x + 1))):
                        raise LoopFail('an iteration does not take one entry of the map')
                elif isinstance(v, Sq) and not prove(s.pc, eq(v.len, w.len)):
                    raise LoopFail('a loop changes the length of a byte array')
                continue
            if not vsame(v, w):
                raise LoopFail('the loop changes %r: %r instead of %r' % (o, w, v))
