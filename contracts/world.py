"""Assumed contracts of the world outside the package (connections, locks, time) that record what the code does as a trace of events."""
from terms import *
import terms as T
from values import *
from intrinsics import NILERR
import solver
from solver import prove


def errt(m):
    return m.p.byname['error']


def anyerr(m, st, name):
    """an arbitrary error, possibly nil"""
    return m.force(st, Ghost(errt(m), '%s!%d' % (name, next(T._vc))))


def key(v):
    """what an interface value or pointer denotes, as text"""
    if isinstance(v, IfaceV):
        if isinstance(v.v, Ghost):
            return v.v.path
        return key(v.v)
    if isinstance(v, PtrV):
        return 'nil' if v.tgt is None else repr(v.tgt)
    if isinstance(v, OpaqueV):
        return v.kind + ':' + str(v.d.get('path', v.d.get('id', ''))) if hasattr(v, 'd') else v.kind
    return repr(v)


def ev(st, *e):
    st.ev.append(tuple(e))


def record(name, ret=None):
    """contract: record (name, receiver, args...) and return ret(m, st, args) or nothing"""
    def h(m, fr, st, args, ins):
        args = [m.force(st, a) for a in args]
        ev(st, name, *args)
        r = ret(m, st, args) if ret else ()
        return r if isinstance(r, (tuple, list)) else (r,)
    return h


def copy_(m, fr, st, args, ins):
    """io.Copy(dst, src): the whole content of a buffer goes to dst, unless an error is returned"""
    dst, src = m.force(st, args[0]), m.force(st, args[1])
    p = m.force(st, src.v)
    if not isinstance(p, PtrV) or not isinstance(st.heap.get(p.tgt[0]), BufV):
        raise Unsupported('io.Copy from %r' % (src,))
    data = m.load(st, p.tgt).s
    e = anyerr(m, st, 'write.err')
    ev(st, 'write', dst, data, e)
    return (fresh('copied', 0, 2**40), e)


def write_(m, fr, st, args, ins):
    dst, b = m.force(st, args[0]), m.force(st, args[1])
    e = anyerr(m, st, 'write.err')
    ev(st, 'write', dst, m.content(st, b), e)
    return (fresh('written', 0, 2**40), e)


def lock(name):
    def h(m, fr, st, args, ins):
        ev(st, name, m.force(st, args[0]))
        return ()
    return h


def net(m):
    c = m.contracts
    c['(iface net.Conn).SetReadDeadline'] = record('deadline', lambda m, st, a: anyerr(m, st, 'dl'))
    c['(iface net.Conn).SetWriteDeadline'] = record('wdeadline', lambda m, st, a: anyerr(m, st, 'dl'))
    c['(iface net.Conn).SetDeadline'] = record('deadline', lambda m, st, a: anyerr(m, st, 'dl'))
    opq = lambda m, st, a: IfaceV(FALSE, 'net.Addr', OpaqueV('addr'))
    c['(iface net.Conn).LocalAddr'] = lambda m, fr, st, a, ins: (opq(m, st, a),)
    c['(iface net.Conn).RemoteAddr'] = lambda m, fr, st, a, ins: (opq(m, st, a),)
    c['(iface net.Conn).Close'] = record('close', lambda m, st, a: anyerr(m, st, 'close'))
    c['(iface net.Conn).Write'] = write_
    c['io.Copy'] = copy_
    c['(*sync.Mutex).Lock'] = lock('lock')
    c['(*sync.Mutex).Unlock'] = lock('unlock')


def evs(s, *names):
    return [e for e in s.ev if e[0] in names]


def order(s):
    return [e[0] for e in s.ev]


# ---------------------------------------------------------------- goroutines, contexts, time
def det(m, st, t, name):
    """an arbitrary value of type t, with a name that stays the same when the call is executed again"""
    return m.force(st, Ghost(t, '%s!%d' % (name, len(st.ev))))


def ghost_err(m, st, name):
    return det(m, st, errt(m), name)


def ghost_err_of(m, st, event, name):
    """the error that a recorded contract returned: its name was taken just after the event was recorded"""
    i = next(k for k, e in enumerate(st.ev) if e is event)
    return m.force(st, Ghost(errt(m), '%s!%d' % (name, i + 1)))


def conc(m):
    """channel operations, go statements, locks, contexts and timers are events of the trace of one goroutine.
    Assumed: other goroutines change the state of the receiver only where a contract says so."""
    m.conc = True
    c = m.contracts
    for n in ('Lock', 'Unlock'):
        c['(*sync.Mutex).' + n] = lock(n.lower())
        c['(*sync.RWMutex).' + n] = lock(n.lower())
    c['(*sync.RWMutex).RLock'] = lock('rlock')
    c['(*sync.RWMutex).RUnlock'] = lock('runlock')
    c['(iface context.Context).Done'] = lambda m, fr, st, a, ins: (OpaqueV('chan', nil=FALSE, path=key(m.force(st, a[0])) + '.Done'),)

    def ctxerr(m, fr, st, a, ins):
        e = ghost_err(m, st, 'ctx.err')
        st.assume(not_(e.nil))
        ev(st, 'ctx.Err', key(m.force(st, a[0])))
        return (e,)
    c['(iface context.Context).Err'] = ctxerr

    def with_cancel(m, fr, st, a, ins):
        name = 'ctx!%d' % len(st.ev)
        ct = m.p.byname['context.Context']
        g = IfaceV(FALSE, '?' + name, Ghost(ct, name + '!', ()))
        ev(st, 'WithCancel', name, key(m.force(st, a[0])))
        c['cancel:' + name] = record('cancel ' + name)
        return (g, ClosV('cancel:' + name))
    c['context.WithCancel'] = with_cancel
    c['context.WithTimeout'] = with_cancel

    def background(m, fr, st, a, ins):
        return (IfaceV(FALSE, '?background', Ghost(m.p.byname['context.Context'], 'background!', ())),)
    c['context.Background'] = background
    c['context.TODO'] = background

    def after(m, fr, st, a, ins):
        ev(st, 'After', m.force(st, a[0]))
        return (OpaqueV('chan', nil=FALSE, path='after!%d' % len(st.ev)),)
    c['time.After'] = after

    def ticker(m, fr, st, a, ins):
        t = m.p.byname['time.Ticker']
        name = 'ticker!%d' % len(st.ev)
        ev(st, 'NewTicker', m.force(st, a[0]), name + '.C')
        o = m.alloc(st, StructV(t, [OpaqueV('chan', nil=FALSE, path=name + '.C') if f['n'] == 'C' else m.zero(f['t']) for f in m.p.fields(t)]))
        m.neverclosed.add(name + '.C')
        return (PtrV(FALSE, (o, ())),)
    c['time.NewTicker'] = ticker
    c['(*time.Ticker).Stop'] = record('ticker.Stop')

    def withvalue(m, fr, st, a, ins):
        name = 'ctx!%d' % len(st.ev)
        ev(st, 'WithValue', name, key(m.force(st, a[0])), m.force(st, a[1]), m.force(st, a[2]))
        return (IfaceV(FALSE, '?' + name, Ghost(m.p.byname['context.Context'], name + '!', ())),)
    c['context.WithValue'] = withvalue
    c['time.Sleep'] = record('sleep')
    for n in ('Add', 'Done', 'Wait'):
        c['(*sync.WaitGroup).' + n] = record('wg.' + n)
