"""A byte stream read piecewise (net.Conn, io.Reader): reads may return any number of bytes.
The invariant of loops that fill a buffer from it: what was read so far lies in the buffer, in order, and nothing else changed."""
from terms import *
import terms as T
from values import *
import machine as M
from machine import vsame, LoopFail, Infeasible
import solver
from solver import prove


class Stream:
    """S: the bytes the peer will send (any number); obj: heap cell with the position"""
    def __init__(self, m, st, name='S'):
        self.S = satom(name, (), 2**62)
        self.obj = m.alloc(st, OpaqueV('stream', pos=I(0), last=None))
        m.stream = self
        m.loop_rules.append(stream_rule)

    def pos(self, st):
        return st.heap[self.obj]['pos']

    def take(self, m, st, d, n):
        """n bytes arrive in slice d (0 <= n <= len(d))"""
        pos = self.pos(st)
        st.assume(le(pos + n, self.S.len))
        if n.const() != 0:
            new = slice_seq(self.S, pos, n, st.pc)
            m.write_bytes(st, d, I(0), new)
        st.heap[self.obj] = OpaqueV('stream', pos=pos + n, last=(d.base, d.off))

    def k(self, st):
        return '%d.%s' % (len(st.ev), self.pos(st))

    def read(self, m, fr, st, args, ins):
        """contract of Read(p): any 0 <= n <= len(p) bytes, with or without an error"""
        import world as W
        d = m.force(st, args[1])
        n = app('read$n', (self.pos(st), I(len(st.ev))), 0, 2**40)   # (a name that stays the same when the call is executed again after a case split)
        st.assume(le(n, d.len))
        self.take(m, st, d, n)
        k = self.k(st)
        st.ev.append(('read',))
        e = m.force(st, Ghost(W.errt(m), 'read.err!' + k))
        return (n, e)

    def readfull(self, m, fr, st, args, ins):
        """contract of io.ReadFull: the buffer is filled, or an error is returned"""
        import world as W
        d = m.force(st, args[1])
        s2 = st.copy()
        self.take(m, st, d, d.len)
        n = app('read$n', (self.pos(st), I(len(st.ev))), 0, 2**40)
        s2.assume(lt(n, d.len))
        outs = [(st, (d.len, IfaceV(TRUE, None, None)))]
        if solver.sat(s2.pc):
            self.take(m, s2, d, n)
            e = W.anyerr(m, s2, 'readfull.err')
            s2.assume(not_(e.nil))
            outs.append((s2, (n, e)))
        return outs


def stream_rule(m, fr, st0, header, pred, body):
    sm = m.stream
    blk = m.p.funcs[fr.fn]['blocks'][header]
    region = (header, body)
    fr = fr.copy()
    fr.regs.update(m.phis(fr, st0, blk, pred))
    phis = [ins['reg'] for ins in blk['instrs'] if ins['op'] == 'Phi']
    m.quiet += 1
    try:
        outs = m.run(fr.copy(), st0.copy(), header, None, {}, region)
    except (Unsupported, Split):
        return NotImplemented
    finally:
        m.quiet -= 1
    backs = [o for o in outs if o[0] == 'back']
    if not backs or not any(o[2].heap[sm.obj] is not st0.heap[sm.obj] for o in backs):
        return NotImplemented
    o = next(o for o in backs if o[2].heap[sm.obj] is not st0.heap[sm.obj])
    s1, ph1 = o[2], m.phis(o[1], o[2], blk, o[3])
    pos0 = sm.pos(st0)
    dn = sm.pos(s1) - pos0
    base, w0 = s1.heap[sm.obj]['last']
    c0 = st0.heap[base]
    if not isinstance(c0, Sq):
        return NotImplemented
    x = fresh('x', 0)

    def at(xx, st):
        """expected values of everything that changes, after xx bytes"""
        exp = {('obj', base): m.splice(st, c0, w0, slice_seq(sm.S, pos0, xx, st.pc))}
        for key, v0, v1 in changed:
            exp[key] = v0 + xx
        return exp
    changed = []
    for r in phis:
        v0, v1 = fr.regs[r], ph1[r]
        if vsame(v0, v1):
            continue
        if isinstance(v0, Lin) and isinstance(v1, Lin) and (v1 - v0) == dn:
            changed.append((('phi', r), v0, v1))
            continue
        return NotImplemented
    for ob, v1 in s1.heap.items():
        if ob in st0.heap and ob not in (base, sm.obj) and not vsame(st0.heap[ob], v1):
            v0 = st0.heap[ob]
            if isinstance(v0, Lin) and isinstance(v1, Lin) and (v1 - v0) == dn:
                changed.append((('obj', ob), v0, v1))
                continue
            return NotImplemented
    f2, s2 = fr.copy(), st0.copy()
    s2.assume(le(x, c0.len - w0))
    s2.assume(le(pos0 + x, sm.S.len))
    for key, v in at(x, s2).items():
        if key[0] == 'phi':
            f2.regs[key[1]] = v
        else:
            s2.heap[key[1]] = v
    s2.heap[sm.obj] = OpaqueV('stream', pos=pos0 + x, last=None)
    s2.ev = list(st0.ev) + [('loop',)]
    keep = set(st0.heap)
    outs = m.run(f2, s2, header, None, {}, region)
    res = []
    for o in outs:
        if o[0] != 'back':
            res.append(o)
            continue
        fb, sb = o[1], o[2]
        ph = m.phis(fb, sb, blk, o[3])
        xx = sm.pos(sb) - pos0
        if not prove(sb.pc, and_(le(I(0), xx), le(xx, c0.len - w0))):
            raise LoopFail('the stream position leaves the buffer')
        exp = at(xx, sb)
        for r in phis:
            e = exp.get(('phi', r), fr.regs[r])
            if isinstance(e, Lin):
                if not prove(sb.pc, eq(e, ph[r])):
                    raise LoopFail('loop-carried value %s' % r)
            elif not vsame(e, ph[r]):
                raise LoopFail('loop-carried value %s' % r)
        for ob in keep:
            if ob == sm.obj:
                continue
            e, g = exp.get(('obj', ob), st0.heap[ob]), sb.heap[ob]
            if isinstance(e, Sq) and isinstance(g, Sq):
                try:
                    seq_eq(g, e, sb.pc)
                except Mismatch as ex:
                    raise LoopFail('bytes read by a loop: ' + ex.why)
            elif isinstance(e, Lin):
                if not prove(sb.pc, eq(e, g)):
                    raise LoopFail('loop-carried value')
            elif not vsame(e, g):
                raise LoopFail('loop-carried object')
    m.loops_inv += 1
    return res
