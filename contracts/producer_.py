"""C12: the producer: every accepted message goes into one batch, in order; a closed producer refuses."""
import base64
import json
from wire import *
from terms import *
import terms as T
from values import *
from machine import State
from seqops import seq_eq
from solver import prove
import solver
import world as W
from settings import isnil, holds, elem
from fetch2 import setf, iff, same_ptr
from scenario import *

SP = '(*SimpleProducer).'
PR = '(*Producer).'


def recv_of(m, st, t, name):
    m.nonnil |= {name}
    return m.force(st, Ghost(m.p.byname['*' + t], name))


def distinct_elems(m, path):
    """the elements of a list of pointers are different objects (assumed: the buffer holds each record once)"""
    seen = []

    def over(mm, st, g):
        i = g.args[-1]
        for j in seen:
            if j.id != i.id and mm.gid('%s@%d' % (path, j.id)) in st.heap and not prove(st.pc, not_(eq(i, j))):
                raise Unsupported('two elements of %s that may be the same' % path)
        if all(j.id != i.id for j in seen):
            seen.append(i)
        u = mm.p.u(g.t)
        o = mm.gid('%s@%d' % (path, i.id))
        if o not in st.heap:
            st.heap[o] = Ghost(u['e'], path + '*', g.args)
        return PtrV(FALSE, (o, ()))
    m.over[path] = over


def same_slice(m, s, a, b):
    """a and b are the same list (same array, start and length)"""
    a, b = m.force(s, a), m.force(s, b)
    from machine import vsame
    return isinstance(a, SliceV) and isinstance(b, SliceV) and (a.base == b.base or isinstance(a.base, Arr) and isinstance(b.base, Arr) and vsame(a.base, b.base)) and prove(s.pc, and_(eq(a.off, b.off), eq(a.len, b.len)))


CRB = SP + 'createRecordBatch'
BATCH = [('BaseOffset', 0), ('ProducerID', -1)]


def batch_job(c):
    """ensures: the batch holds exactly the given records, in order, record i is numbered i and otherwise unchanged; the attributes are the codec of the producer"""
    m = c.m
    st = State()
    W.conc(m)
    p = recv_of(m, st, 'SimpleProducer', 'p')
    rt = m.p.funcs[CRB]['params'][1]['t']
    m.nonnil |= {'p.config'}
    recs = m.force(st, Ghost(rt, 'records'))
    distinct_elems(m, 'records[]')
    st.assume(lt(I(0), recs.len))
    from havoc import Each
    st00 = st.copy()

    def check(s, x, evs):
        o = m.gid('records[]@%d' % x.id)
        if o not in s.heap:
            raise Mismatch('an iteration does not number its record', s.pc)
        r = m.force(s, s.heap[o])
        for f in m.p.fields(r.t):
            v = m.force(s, getf(m, s, r, f['n']))
            if f['n'] == 'offsetDelta':
                need(s.pc, eq(v, x), 'record x has the number %r' % (v,))
            else:
                from machine import vsame
                if not vsame(v, m.force(s, Ghost(f['t'], 'records[]*.' + f['n'], (x,)))):
                    raise Mismatch('field %s of a record is changed' % f['n'], s.pc)
    E = Each(m, CRB, check=check, inv=lambda x: le(x, recs.len))
    n = 0
    for s1, (b,) in m.call_fn(CRB, [p, recs], st, merge=False):
        n += 1

        def chk(s):
            g = lambda f: m.force(s, getf(m, s, b, f))
            if not same_slice(m, s, g('Records'), recs):
                raise Mismatch('the batch does not hold the given records', s.pc)
            need(s.pc, eq(g('LastOffsetDelta'), recs.len - 1), 'LastOffsetDelta is %r' % (g('LastOffsetDelta'),))
            cv = m.force(s, getf(m, s, p, 'compressionValue'))
            need(list(s.pc) + [le(I(0), cv), le(cv, I(7))], eq(g('Attributes'), cv), 'Attributes is %r' % (g('Attributes'),))
            need(s.pc, eq(g('BaseOffset'), I(0)), 'BaseOffset')
            need(s.pc, eq(g('ProducerID'), I(-1)), 'ProducerID')
            mg = m.force(s, getf(m, s, m.force(s, getf(m, s, p, 'config')), 'HealerMagicByte'))
            need(list(s.pc) + [le(I(0), mg), le(mg, I(127))], eq(g('Magic'), mg), 'Magic')
            if not E.done:
                raise Mismatch('the records are not numbered', s.pc)
            need(s.pc, eq(E.x, recs.len), 'the loop ends at %r' % (E.x,))
        c.post('ensures: the batch holds the records in order, numbered from 0', s1, chk, CRB)
    return n


FLUSH = SP + 'flush'


def response_world(m):
    """the leader: RequestAndGet (contract of C13/C11) answers with a response or an error; Error() of the response is the error the broker reported (C06)"""
    def rag(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'request.err')
        W.ev(st, 'request', W.key(m.force(st, a[0])), m.force(st, a[1]), e)
        rt = m.p.byname['Response']
        r = m.force(st, Ghost(rt, 'resp!%d' % len(st.ev)))
        st.assume(implies(e.nil, not_(r.nil)))
        return (r, e)
    m.contracts['(*Broker).RequestAndGet'] = rag

    def rerr(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'resp.err')
        W.ev(st, 'resp.Error', e)
        return (e,)
    m.contracts['(iface Response).Error'] = rerr


def batch_contract(m):
    """contract of createRecordBatch, discharged by batch_job"""
    bt = m.p.byname['RecordBatch']

    def h(m, fr, st, a, ins):
        b = m.force(st, Ghost(bt, 'batch'))
        i = m.p.field_index(bt, 'Records')
        f = list(b.f)
        f[i] = m.force(st, a[1])
        return (StructV(bt, f),)
    m.contracts[CRB] = h


def produced(m, s, p, req, recs):
    """the request is a produce request that sends exactly the batch of these records to the partition of the producer"""
    r = m.force(s, req)
    if not isinstance(r, IfaceV) or not isinstance(r.t, int) or m.p.name(r.t) != '*ProduceRequest':
        raise Mismatch('the request is %r' % (r,), s.pc)
    r = m.force(s, r.v)
    g = lambda o, f: m.force(s, getf(m, s, o, f))
    cfg = g(p, 'config')
    need(s.pc, eq(g(r, 'RequiredAcks'), g(cfg, 'Acks')), 'RequiredAcks is not the configured one')
    need(s.pc, eq(g(r, 'Timeout'), g(cfg, 'RequestTimeoutMS')), 'Timeout is not the configured one')
    h = g(r, 'RequestHeader')
    need(s.pc, eq(g(h, 'APIKey'), I(0)), 'the api key')
    cid = g(h, 'ClientID')
    need(s.pc, not_(cid.nil), 'no client id')
    seq_eq(m.load(s, cid.tgt), g(cfg, 'ClientID'), s.pc)
    ts = g(r, 'TopicBlocks')
    need(s.pc, eq(ts.len, I(1)), 'not one topic')
    t = elem(m, s, ts, I(0))
    seq_eq(g(t, 'TopicName'), g(p, 'topic'), s.pc)
    ps = g(t, 'PartitonBlocks')
    need(s.pc, eq(ps.len, I(1)), 'not one partition')
    q = elem(m, s, ps, I(0))
    need(s.pc, eq(g(q, 'Partition'), g(p, 'partition')), 'another partition')
    bs = g(q, 'RecordBatches')
    need(s.pc, eq(bs.len, I(1)), 'not one batch')
    b = elem(m, s, bs, I(0))
    if not same_slice(m, s, g(b, 'Records'), recs):
        raise Mismatch('the batch does not hold the given records', s.pc)


def simple(m, st):
    W.conc(m)
    m.nonnil |= {'p.config', 'p.leader'}
    return recv_of(m, st, 'SimpleProducer', 'p')


def flush_job(c):
    """ensures: one produce request with the batch of these records goes to the leader; nil exactly when it is answered and the answer reports no error"""
    m = c.m
    st = State()
    p = simple(m, st)
    response_world(m)
    batch_contract(m)
    recs = m.force(st, Ghost(m.p.funcs[FLUSH]['params'][1]['t'], 'records'))
    st.assume(lt(I(0), recs.len))
    n = 0
    for s1, (err,) in m.call_fn(FLUSH, [p, recs], st, merge=False):
        n += 1

        def chk(s):
            rq = W.evs(s, 'request')
            if len(rq) != 1:
                raise Mismatch('%d requests' % len(rq), s.pc)
            if rq[0][1] != W.key(m.force(s, getf(m, s, p, 'leader'))):
                raise Mismatch('the request does not go to the leader', s.pc)
            produced(m, s, p, rq[0][2], recs)
            e = m.force(s, err)
            re = W.evs(s, 'resp.Error')
            if isnil(m, s, rq[0][3]):
                if not re:
                    raise Mismatch('the error of the response is ignored', s.pc)
                need(s.pc, iff(e.nil, re[0][1].nil), 'the error of the response is not reported')
            else:
                need(s.pc, not_(e.nil), 'a failed request is not reported')
        c.post('ensures: one request with these records; its failure is reported', s1, chk, FLUSH)
    return n


def flush_contract(m):
    """contract of flush, discharged by flush_job"""
    def h(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'flush.err')
        r = m.force(st, a[1])
        W.ev(st, 'flush', W.key(m.force(st, a[0])), r, m.load(st, (r.base, ())) if not isinstance(r.base, Arr) else r.base, e)
        return (e,)
    m.contracts[FLUSH] = h


def is_global_err(m, s, e, name):
    from machine import vsame
    o = m.global_obj(s, name, m.p.byname['*error'])
    return vsame(m.force(s, e), m.force(s, s.heap[o]))


def locked(s):
    """everything happens with the lock of the producer held"""
    o = W.order(s)
    if not o or o[0] != 'lock' or o[-1] != 'unlock' or o.count('lock') != 1 or o.count('unlock') != 1:
        raise Mismatch('not everything happens with the lock held: %r' % (o,), s.pc)


def copied(m, s, got, arg, what, args):
    """got is a copy of arg; nil stays nil, empty stays empty"""
    g, a = m.force(s, got), m.force(s, arg)
    need(s.pc, iff(g.nil, a.nil), 'nil and empty %s are confused' % what)
    if prove(s.pc, a.nil):
        return
    if any(g.base == x.base for x in args):
        raise Mismatch('the %s is not copied' % what, s.pc)
    seq_eq(m.content(s, g), m.content(s, a), s.pc)


ADD = SP + 'AddMessage'


def add_job(c):
    """ensures: when closed: refused with ErrProducerClosed, the buffer is unchanged; else the buffer is the old one and a copy of the message;
    when it is full, all of it is flushed once, the buffer is empty, and the error of the flush is returned"""
    m = c.m
    st = State()
    p = simple(m, st)
    flush_contract(m)
    t = m.p.byname['[]byte']
    key, val = m.force(st, Ghost(t, 'key')), m.force(st, Ghost(t, 'value'))
    distinct_elems(m, 'p.records[]')
    g0 = lambda f: m.force(st, getf(m, st, p, f))
    closed, mx = g0('closed'), m.force(st, getf(m, st, g0('config'), 'MessageMaxCount'))
    st.assume(le(I(0), mx))
    st.assume(le(mx, I(2**31)))
    old = g0('records')
    st0 = st.copy()
    n = 0
    for s1, (err,) in m.call_fn(ADD, [p, key, val], st, merge=False):
        n += 1

        def chk(s):
            locked(s)
            e = m.force(s, err)
            fl = W.evs(s, 'flush')
            buf = m.force(s, getf(m, s, p, 'records'))
            need(s.pc, iff(m.force(s, getf(m, s, p, 'closed')), closed), 'closed is changed')
            if holds(s, closed):
                need(s.pc, not_(e.nil), 'a closed producer accepts a message')
                if not is_global_err(m, s, e, 'ErrProducerClosed'):
                    raise Mismatch('a closed producer refuses with %r' % (e,), s.pc)
                if fl or not same_slice(m, s, buf, old):
                    raise Mismatch('a closed producer changes its buffer', s.pc)
                return
            if fl:
                if len(fl) != 1 or fl[0][1] != W.key(p):
                    raise Mismatch('more than one flush', s.pc)
                _, _, lst, content, fe = fl[0]
                need(s.pc, le(mx, old.len + 1), 'a flush although the buffer is not full')
                need(s.pc, iff(e.nil, fe.nil), 'the error of the flush is not returned')
                need(s.pc, eq(buf.len, I(0)), 'the buffer is not empty after the flush')
            else:
                lst, content = buf, m.load(s, (buf.base, ()))
                need(s.pc, lt(old.len + 1, mx), 'no flush although the buffer is full')
                need(s.pc, e.nil, 'an error although the message is accepted')
            s2 = s.copy()
            o = m.alloc(s2, content)
            L = SliceV(o, lst.off, lst.len, lst.cap, lst.nil, lst.et)
            need(s.pc, eq(L.len, old.len + 1), '%r buffered messages after %r' % (L.len, old.len))
            j = fresh('j', 0)
            s3 = s2.copy()
            s3.assume(lt(j, old.len))
            if solver.sat(s3.pc):
                a, b = m.force(s3, elem_(m, s3, L, j)), m.force(s3, elem_(m, s3, old, j))
                if not same_ptr(a, b):
                    raise Mismatch('a buffered message is replaced', s.pc)
                r0, r1 = m.force(s3, m.load(s3, a.tgt)), m.force(s3, Ghost(m.p.u(lst.et)['e'], 'p.records[]*', (j,)))
                from machine import vsame
                for f in m.p.fields(r1.t):
                    if not vsame(m.force(s3, getf(m, s3, r0, f['n'])), m.force(s3, getf(m, s3, r1, f['n']))):
                        raise Mismatch('field %s of a buffered message is changed' % f['n'], s.pc)
            r = m.force(s2, m.load(s2, m.force(s2, elem_(m, s2, L, old.len)).tgt))
            copied(m, s2, getf(m, s2, r, 'key'), key, 'key', (key, val))
            copied(m, s2, getf(m, s2, r, 'value'), val, 'value', (key, val))
            for f in ('attributes', 'timestampDelta'):
                need(s2.pc, eq(m.force(s2, getf(m, s2, r, f)), I(0)), f)
            need(s2.pc, eq(m.force(s2, getf(m, s2, r, 'Headers')).len, I(0)), 'headers')
        c.post('ensures: the message is buffered once, unchanged, after the earlier ones; a full buffer is flushed; a closed producer refuses', s1, chk, ADD)
    return n


def elem_(m, st, sl, i):
    """element i of a slice, not dereferenced"""
    return m.load(st, (sl.base, (('i', sl.off + i),))) if not isinstance(sl.base, Arr) else m.step(st, sl.base, ('i', sl.off + i))


FL = SP + 'Flush'


def all_flushed(m, s, p, old, fl, err=None):
    """everything buffered is flushed once, the buffer is empty"""
    buf = m.force(s, getf(m, s, p, 'records'))
    need(s.pc, eq(buf.len, I(0)), 'the buffer is not empty after a flush')
    if not fl:
        need(s.pc, eq(old.len, I(0)), 'buffered messages are not sent')
        if err is not None:
            need(s.pc, err.nil, 'an error without a flush')
        return
    if len(fl) != 1 or fl[0][1] != W.key(p):
        raise Mismatch('more than one flush', s.pc)
    if not same_slice(m, s, fl[0][2], old):
        raise Mismatch('not all buffered messages are sent', s.pc)
    need(s.pc, lt(I(0), old.len), 'an empty batch is sent')
    if err is not None:
        need(s.pc, iff(err.nil, fl[0][4].nil), 'the error of the flush is not returned')


def flushall_job(c):
    """ensures: all buffered messages are sent in one flush, the buffer is empty, the error of the flush is returned"""
    m = c.m
    st = State()
    p = simple(m, st)
    flush_contract(m)
    old = m.force(st, getf(m, st, p, 'records'))
    mx = m.force(st, getf(m, st, m.force(st, getf(m, st, p, 'config')), 'MessageMaxCount'))
    st.assume(and_(le(I(0), mx), le(mx, I(2**31))))
    n = 0
    for s1, (err,) in m.call_fn(FL, [p], st, merge=False):
        n += 1

        def chk(s):
            locked(s)
            all_flushed(m, s, p, old, W.evs(s, 'flush'), m.force(s, err))
        c.post('ensures: everything buffered is sent once and the buffer is empty', s1, chk, FL)
    return n


def once_do(m, fr, st, a, ins):
    """sync.Once: the function runs at the first call, later calls do nothing"""
    s2 = st.copy()
    W.ev(s2, 'again')
    f = m.force(st, a[1])
    W.ev(st, 'first')
    out = [(s, ()) for s, _ in m.call_named(fr, st, f.fn, [], f.binds, ins)]
    return out + [(s2, ())]


CL = SP + 'Close'


def close_job(c):
    """ensures (first call): all buffered messages are sent, the producer is closed for further messages, its flusher is told to stop, the connection is closed unless the parent owns it;
    (later calls): nothing"""
    m = c.m
    st = State()
    p = simple(m, st)
    flush_contract(m)
    m.contracts['(*sync.Once).Do'] = once_do
    m.contracts['(*Broker).Close'] = W.record('broker.Close')
    old = m.force(st, getf(m, st, p, 'records'))
    cl0 = m.force(st, getf(m, st, p, 'closed'))
    parent = m.force(st, getf(m, st, p, 'parent'))
    leader = m.force(st, getf(m, st, p, 'leader'))
    n = 0
    for s1, _ in m.call_fn(CL, [p], st, merge=False):
        n += 1

        def chk(s):
            if W.evs(s, 'again'):
                if [e for e in W.order(s) if e not in ('again', 'lock', 'unlock')]:
                    raise Mismatch('a second close does something', s.pc)
                return
            if not W.evs(s, 'first'):
                # without sync.Once: closing again must be guarded by the closed flag
                if prove(s.pc, cl0):
                    if W.evs(s, 'flush', 'broker.Close', 'closechan'):
                        raise Mismatch('a second close does something', s.pc)
                    return
            o = [e for e in W.order(s) if e != 'first']
            if not o or o[0] != 'lock' or o[-1] != 'unlock':
                raise Mismatch('not everything happens with the lock held: %r' % (o,), s.pc)
            need(s.pc, m.force(s, getf(m, s, p, 'closed')), 'the producer still accepts messages after Close')
            all_flushed(m, s, p, old, W.evs(s, 'flush'))
            cc = W.evs(s, 'closechan')
            if len(cc) != 1 or cc[0][1] != 'p.closeChan':
                raise Mismatch('the flusher is not told to stop', s.pc)
            bc = W.evs(s, 'broker.Close')
            need(s.pc, iff(parent.nil, TRUE if bc else FALSE), 'the connection is closed %d times' % len(bc))
            if bc and (len(bc) != 1 or W.key(bc[0][1]) != W.key(leader)):
                raise Mismatch('another connection is closed', s.pc)
            if bc and [e for e in W.order(s) if e in ('flush', 'broker.Close')][-1] != 'broker.Close':
                raise Mismatch('the connection is closed before the last flush', s.pc)
        c.post('ensures: closing sends everything buffered, once, and refuses further messages', s1, chk, CL)
    return n


NEW = 'NewSimpleProducer'
CODES = [('none', 0), ('gzip', 1), ('snappy', 2), ('lz4', 3)]


def const_str(v):
    b = v.bytes() if hasattr(v, 'bytes') else None
    return b


def key_name(m, s, k):
    """which context key: by value"""
    k = m.force(s, k)
    v = m.force(s, k.v) if isinstance(k, IfaceV) else k
    for n in ('leader', 'parentProducer'):
        from seqops import seq_bool
        if prove(s.pc, seq_bool(v, sq(lit(n.encode())))):
            return n
    return None


def ctx_value(m):
    """ctx.Value: what the caller put in, or nil"""
    def h(m, fr, st, a, ins):
        k = key_name(m, st, a[1])
        if k is None:
            raise Unsupported('another key of a context')
        t = {'leader': '*Broker', 'parentProducer': '*Producer'}[k]
        path = 'ctx.' + k
        m.nonnil.add(path)
        has = bapp(path + '#has', ())
        s2 = st.copy()
        st.assume(has)
        s2.assume(not_(has))
        ti = m.p.byname[t]
        out = []
        if solver.sat(st.pc):
            out.append((st, (IfaceV(FALSE, ti, m.force(st, Ghost(ti, path))),)))
        if solver.sat(s2.pc):
            out.append((s2, (IfaceV(TRUE, None, None),)))
        return out
    m.contracts['(iface context.Context).Value'] = h


def config_contract(m):
    """contract of createProducerConfig (C17): a checked configuration or an error"""
    t = m.p.byname['ProducerConfig']

    def h(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'config.err')
        cfg = m.force(st, Ghost(t, 'cfg'))
        W.ev(st, 'config', m.force(st, a[0]), e)
        mx = m.force(st, getf(m, st, cfg, 'MessageMaxCount'))
        st.assume(and_(le(I(0), mx), le(mx, I(2**31))))
        return (cfg, e)
    m.contracts['createProducerConfig'] = h
    m.contracts['NewCompressor'] = lambda m, fr, st, a, ins: (m.force(st, Ghost(m.p.funcs['NewCompressor']['results'][0]['t'], 'compressor')),)


def new_job(c):
    """ensures: the producer is for this topic and partition, with an empty buffer, open, the codec of the configuration, the leader of the context or else a looked-up one;
    its flusher calls Flush at every tick until the producer is closed"""
    m = c.m
    st = State()
    W.conc(m)
    ctx_value(m)
    config_contract(m)

    def cl(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'leader.err')
        m.nonnil.add('new.leader')
        b = m.force(st, Ghost(m.p.byname['*Broker'], 'new.leader'))
        W.ev(st, 'createLeader', W.key(m.force(st, a[0])), b, e)
        return (b, e)
    m.contracts[SP + 'createLeader'] = cl
    m.contracts[FL] = W.record('Flush', lambda m, st, a: W.ghost_err(m, st, 'Flush.err'))
    topic, part = satom('topic', (), 32767), app('partition', (), -2**31, 2**31 - 1)
    ctx = m.force(st, Ghost(m.p.byname['context.Context'], 'ctx'))
    st.assume(not_(ctx.nil))
    anyt = m.p.funcs[NEW]['params'][3]['t']
    conf = m.force(st, Ghost(anyt, 'conf'))
    n = 0
    for s1, (res, err) in m.call_fn(NEW, [ctx, topic, part, conf], st, merge=False):
        n += 1

        def chk(s):
            e = m.force(s, err)
            ce = W.evs(s, 'config')
            if len(ce) != 1 or W.key(ce[0][1]) != W.key(conf):
                raise Mismatch('the configuration is not created from the argument', s.pc)
            if not isnil(m, s, e):
                if W.evs(s, 'go'):
                    raise Mismatch('a goroutine is left after an error', s.pc)
                return
            need(s.pc, ce[0][2].nil, 'an invalid configuration is accepted')
            p = m.force(s, res)
            need(s.pc, not_(p.nil), 'nil without an error')
            g = lambda f: m.force(s, getf(m, s, p, f))
            seq_eq(g('topic'), topic, s.pc)
            need(s.pc, eq(g('partition'), part), 'another partition')
            need(s.pc, not_(g('closed')), 'born closed')
            need(s.pc, eq(g('records').len, I(0)), 'a buffer that is not empty')
            cfg = g('config')
            need(s.pc, not_(cfg.nil), 'no configuration')
            for f in ('MessageMaxCount', 'Acks', 'RequestTimeoutMS', 'FlushIntervalMS'):
                need(s.pc, eq(m.force(s, getf(m, s, cfg, f)), m.force(s, Ghost(m.p.fields(m.p.byname['ProducerConfig'])[m.p.field_index(m.p.byname['ProducerConfig'], f)]['t'], 'cfg.' + f))), 'another ' + f)
            ct = m.force(s, getf(m, s, cfg, 'CompressionType'))
            from seqops import seq_bool
            for nm, v in CODES:
                need(s.pc, implies(seq_bool(ct, sq(lit(nm.encode()))), eq(g('compressionValue'), I(v))), 'the codec of %s' % nm)
            need(s.pc, or_(*[seq_bool(ct, sq(lit(nm.encode()))) for nm, _ in CODES]), 'an unknown codec is accepted')
            ld, cl = g('leader'), W.evs(s, 'createLeader')
            if holds(s, bapp('ctx.leader#has', ())):
                if cl or W.key(ld) != W.key(m.force(s, Ghost(m.p.byname['*Broker'], 'ctx.leader'))):
                    raise Mismatch('the leader of the context is not used', s.pc)
            else:
                if len(cl) != 1 or W.key(ld) != W.key(cl[0][2]) or cl[0][1] != W.key(p):
                    raise Mismatch('the leader is not looked up', s.pc)
                need(s.pc, cl[0][3].nil, 'a failed lookup is not reported')
            if holds(s, bapp('ctx.parentProducer#has', ())):
                if W.key(g('parent')) != W.key(m.force(s, Ghost(m.p.byname['*Producer'], 'ctx.parentProducer'))):
                    raise Mismatch('the parent of the context is not used', s.pc)
            else:
                need(s.pc, g('parent').nil, 'a parent that the context does not have')
            go = W.evs(s, 'go')
            if len(go) != 1:
                raise Mismatch('%d goroutines' % len(go), s.pc)
            flusher(c, s, go[0], p, m.chan_key(s, g('closeChan')))
        c.post('ensures: a new producer is empty, open, for this partition and its leader, and flushed at every tick', s1, chk, NEW)
    return n


def flusher(c, s, go, p, cchan):
    """the goroutine of a producer: Flush at every tick, ends when the producer is closed"""
    from havoc import Each
    m = c.m
    s = s.copy()
    s.ev = []
    bad = []

    def judge(s, evs, back):
        o = [e for e in evs if e[0] in ('recv', 'Flush')]
        if back:
            if len(o) != 2 or o[0][0] != 'recv' or not o[0][1].startswith('ticker!') or o[1][0] != 'Flush' or W.key(o[1][1]) != W.key(p):
                raise Mismatch('a tick does not flush: %r' % ([e[:2] for e in o],), s.pc)
        elif not o or o[-1][:2] != ('recv', cchan):
            raise Mismatch('the flusher ends although the producer is not closed', s.pc)
    E = Each(m, go[1], check=lambda s, x, evs: judge(s, evs, True))
    for s1, _ in m.call_fn(go[1], go[2], s, binds=go[3], merge=False):
        judge(s1, s1.ev, False)
    m.loop_rules.remove(E.rule)
    if not E.done:
        raise Mismatch('the flusher does not run until the producer is closed', s.pc)


# ---------------------------------------------------------------- Producer
GLI, GLB, GSP = PR + 'getLeaderID', PR + 'getLeaderBroker', PR + 'getSimpleProducer'


def prod(m, st):
    W.conc(m)
    m.nonnil |= {'p.brokers', 'p.pidToSimpleProducers', 'p.leaderBrokersMapping', 'p.pidToSimpleProducers{}', 'p.leaderBrokersMapping{}', 'p.currentProducer'}
    return recv_of(m, st, 'Producer', 'p')


def metas(m, s, p):
    return m.force(s, getf(m, s, m.force(s, getf(m, s, p, 'topicMeta')), 'PartitionMetadatas'))


def leader_id_job(c):
    """ensures: nil error: the leader of a partition with this id and no error in the metadata; an error exactly when the first one with this id has an error code or there is none"""
    m = c.m
    st = State()
    p = prod(m, st)
    pid = app('pid', (), -2**31, 2**31 - 1)
    m.contracts['getErrorFromErrorCode'] = errcode_contract
    n = 0
    for s1, (lead, err) in m.call_fn(GLI, [p, pid], st, merge=False):
        n += 1

        def chk(s):
            ps = metas(m, s, p)
            f = lambda s, j, k: m.force(s, getf(m, s, elem(m, s, ps, j), k))
            from settings import ground_indices
            if isnil(m, s, err):
                for j in ground_indices(m, s, ()):
                    if prove(s.pc, and_(le(I(0), j), lt(j, ps.len))) and prove(s.pc, and_(eq(f(s, j, 'PartitionID'), pid), eq(f(s, j, 'PartitionErrorCode'), I(0)), eq(m.force(s, lead), f(s, j, 'Leader')))):
                        return
                raise Mismatch('the leader %r is not the one of the partition' % (lead,), s.pc)
            s2 = s.copy()
            j = fresh('j', 0)
            s2.assume(lt(j, ps.len))
            for k in ground_indices(m, s, ()):      # requires: the metadata of a topic list a partition once
                if prove(s.pc, and_(le(I(0), k), lt(k, ps.len))):
                    s2.assume(implies(eq(f(s2, j, 'PartitionID'), f(s2, k, 'PartitionID')), eq(j, k)))
            need(s2.pc, not_(and_(eq(f(s2, j, 'PartitionID'), pid), eq(f(s2, j, 'PartitionErrorCode'), I(0)))), 'an error although the metadata have the leader')
        c.post('ensures: the leader is the one the metadata give for the partition', s1, chk, GLI)
    return n


def errcode_contract(m, fr, st, a, ins):
    """contract of getErrorFromErrorCode (C06): nil exactly for code 0"""
    code = m.force(st, a[0])
    e = W.ghost_err(m, st, 'code.err')
    W.ev(st, 'errcode', code, e)
    st.assume(iff(e.nil, eq(code, I(0))))
    return (e,)


def leader_broker_job(c):
    """ensures: the cached connection of this broker id, or a new one to this id, which is then cached; an error when it cannot be made"""
    m = c.m
    st = State()
    p = prod(m, st)
    newbroker_contract(m)
    lid = app('lid', (), -2**31, 2**31 - 1)
    mp = m.force(st, getf(m, st, p, 'leaderBrokersMapping'))
    n = 0
    for s1, (b, err) in m.call_fn(GLB, [p, lid], st, merge=False):
        n += 1

        def chk(s):
            nb = W.evs(s, 'NewBroker')
            has = holds(s, bapp('p.leaderBrokersMapping#has', (lid,)))
            e = m.force(s, err)
            if has:
                need(s.pc, e.nil, 'an error although the connection is cached')
                if nb or not same_ptr(m.force(s, b), m.force(s, Ghost(m.p.byname['*Broker'], 'p.leaderBrokersMapping{}', (lid,)))):
                    raise Mismatch('the cached connection is not used', s.pc)
                return
            if len(nb) != 1:
                raise Mismatch('%d new connections' % len(nb), s.pc)
            need(s.pc, eq(nb[0][1], lid), 'a connection to another broker')
            need(s.pc, iff(e.nil, nb[0][3].nil), 'a failed connection is not reported')
            if isnil(m, s, e):
                if W.key(m.force(s, b)) != W.key(nb[0][2]):
                    raise Mismatch('another connection', s.pc)
                u = s.heap[mp.obj].upd
                if len(u) != 1 or not prove(s.pc, eq(m.force(s, u[0][0]), lid)) or W.key(m.force(s, u[0][1])) != W.key(nb[0][2]):
                    raise Mismatch('the connection is not cached for the broker', s.pc)
        c.post('ensures: the connection is one to this broker', s1, chk, GLB)
    return n


def newbroker_contract(m):
    """contract of Brokers.NewBroker (C14): a connection to the broker with this id, or an error"""
    def h(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'nb.err')
        path = 'nb!%d' % len(st.ev)
        m.nonnil.add(path)
        b = m.force(st, Ghost(m.p.byname['*Broker'], path))
        W.ev(st, 'NewBroker', m.force(st, a[1]), b, e)
        return (b, e)
    m.contracts['(*Brokers).NewBroker'] = h


def leader_contracts(m):
    """contracts of getLeaderID and getLeaderBroker, discharged by leader_id_job and leader_broker_job"""
    def gli(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'gli.err')
        l = app('gli!%d' % len(st.ev), (), -2**31, 2**31 - 1)
        W.ev(st, 'leaderID', m.force(st, a[1]), l, e)
        return (l, e)
    m.contracts[GLI] = gli

    def glb(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'glb.err')
        path = 'glb!%d' % len(st.ev)
        m.nonnil.add(path)
        b = m.force(st, Ghost(m.p.byname['*Broker'], path))
        W.ev(st, 'leaderBroker', m.force(st, a[1]), b, e)
        return (b, e)
    m.contracts[GLB] = glb


def new_contract(m):
    """contract of NewSimpleProducer, discharged by new_job"""
    def h(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'new.err')
        path = 'sp!%d' % len(st.ev)
        m.nonnil.add(path)
        b = m.force(st, Ghost(m.p.byname['*SimpleProducer'], path))
        W.ev(st, 'new', W.key(m.force(st, a[0])), a[1], m.force(st, a[2]), m.force(st, a[3]), b, e)
        return (b, e)
    m.contracts[NEW] = h


def get_job(c):
    """ensures: closed: ErrProducerClosed; no key: the current producer; else the producer of partition hash(key) mod the number of partitions: the known one,
    or a new one for that partition and its leader, which is then the known one"""
    m = c.m
    st = State()
    p = prod(m, st)
    leader_contracts(m)
    new_contract(m)
    key = m.force(st, Ghost(m.p.byname['[]byte'], 'key'))
    cnt = metas(m, st, p).len
    st.assume(lt(I(0), cnt))            # established by updateCurrentSimpleProducer
    closed = m.force(st, getf(m, st, p, 'closed'))
    cur = m.force(st, getf(m, st, p, 'currentProducer'))
    topic = m.force(st, getf(m, st, p, 'topic'))
    mp = m.force(st, getf(m, st, p, 'pidToSimpleProducers'))
    h = app('murmur', (m.content(st, key), I(0)), 0, 2**32 - 1)
    pid = modv(h, cnt)
    n = 0
    for s1, (sp, err) in m.call_fn(GSP, [p, key], st, merge=False):
        n += 1

        def chk(s):
            locked(s)
            e, q = m.force(s, err), m.force(s, sp)
            u = s.heap[mp.obj].upd if isinstance(s.heap[mp.obj], MapC) else ()
            if holds(s, closed):
                if not is_global_err(m, s, e, 'ErrProducerClosed'):
                    raise Mismatch('a closed producer does not refuse', s.pc)
                return
            if holds(s, key.nil):
                need(s.pc, e.nil, 'an error without a key')
                if W.key(q) != W.key(cur) or u:
                    raise Mismatch('a message without a key does not go to the current producer', s.pc)
                return
            nw = W.evs(s, 'new')
            if holds(s, bapp('p.pidToSimpleProducers#has', (pid,))):
                need(s.pc, e.nil, 'an error although the producer is known')
                if nw or u or not same_ptr(q, m.force(s, Ghost(m.p.byname['*SimpleProducer'], 'p.pidToSimpleProducers{}', (pid,)))):
                    raise Mismatch('the producer of the partition is not used', s.pc)
                return
            li, lb, wv = W.evs(s, 'leaderID'), W.evs(s, 'leaderBroker'), W.evs(s, 'WithValue')
            if isnil(m, s, e):
                if len(nw) != 1 or len(li) != 1 or len(lb) != 1:
                    raise Mismatch('the producer is not created once for its leader', s.pc)
                need(s.pc, and_(eq(li[0][1], pid), li[0][3].nil), 'the leader of another partition')
                need(s.pc, and_(eq(lb[0][1], li[0][2]), lb[0][3].nil), 'another broker')
                lv = [x for x in wv if key_name(m, s, x[3]) == 'leader']
                if len(lv) != 1 or lv[0][1] != nw[0][1].rstrip('!') or W.key(lv[0][4]) != W.key(lb[0][2]):
                    raise Mismatch('the producer is not given the leader', s.pc)
                if not lv[0][2].startswith('p.ctx'):
                    raise Mismatch('the producer is not given its parent', s.pc)
                seq_eq(nw[0][2], topic, s.pc)
                need(s.pc, and_(eq(nw[0][3], pid), nw[0][6].nil), 'a producer for another partition')
                if W.key(q) != W.key(nw[0][5]):
                    raise Mismatch('another producer is returned', s.pc)
                if len(u) != 1 or not prove(s.pc, eq(m.force(s, u[0][0]), pid)) or W.key(m.force(s, u[0][1])) != W.key(nw[0][5]):
                    raise Mismatch('the producer is not kept for its partition', s.pc)
            else:
                if not (li and prove(s.pc, not_(li[0][3].nil)) or lb and prove(s.pc, not_(lb[0][3].nil)) or nw and prove(s.pc, not_(nw[0][6].nil))):
                    raise Mismatch('an error although the producer could be created', s.pc)
                if u:
                    raise Mismatch('a producer is kept after an error', s.pc)
        c.post('ensures: the message goes to the producer of the partition of its key', s1, chk, GSP)
    return n


PADD = PR + 'AddMessage'


def padd_job(c):
    """ensures: the message is offered to the producer of its key until one accepts or refuses it for another reason than being closed; never again after that;
    nil only when it was accepted, ErrProducerClosed when all tries found a closed one"""
    from havoc import Each
    m = c.m
    st = State()
    p = prod(m, st)
    t = m.p.byname['[]byte']
    key, val = m.force(st, Ghost(t, 'key')), m.force(st, Ghost(t, 'value'))

    def gsp(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'gsp.err')
        path = 'sp!%d' % len(st.ev)
        m.nonnil.add(path)
        b = m.force(st, Ghost(m.p.byname['*SimpleProducer'], path))
        W.ev(st, 'get', m.force(st, a[1]), b, e)
        return (b, e)
    m.contracts[GSP] = gsp

    def add(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'add.err')
        W.ev(st, 'add', W.key(m.force(st, a[0])), m.force(st, a[1]), m.force(st, a[2]), e)
        return (e,)
    m.contracts[ADD] = add

    def is_closed(s, e):
        o = m.global_obj(s, 'ErrProducerClosed', m.p.byname['*error'])
        return m.equal(s, m.force(s, e), m.force(s, s.heap[o]))

    def judge(s, evs, err):
        """one try; err is None when another one follows"""
        g, a = [e for e in evs if e[0] == 'get'], [e for e in evs if e[0] == 'add']
        if len(g) != 1 or len(a) > 1:
            raise Mismatch('%d producers and %d messages in a try' % (len(g), len(a)), s.pc)
        if W.key(g[0][1]) != W.key(key):
            raise Mismatch('the producer of another key', s.pc)
        if not a:
            need(s.pc, not_(g[0][3].nil), 'the message is dropped')
            if err is None:
                return
            need(s.pc, not_(err.nil), 'the message is dropped without an error')
            return
        need(s.pc, g[0][3].nil, 'an error is ignored')
        if a[0][1] != W.key(g[0][2]) or not same_slice(m, s, a[0][2], key) or not same_slice(m, s, a[0][3], val):
            raise Mismatch('another message is added', s.pc)
        if err is None:
            need(s.pc, is_closed(s, a[0][4]), 'the message is offered again although it was not refused by a closed producer')
        else:
            need(s.pc, iff(err.nil, a[0][4].nil), 'the result of the producer is not returned')
    E = Each(m, PADD, check=lambda s, x, evs: judge(s, evs, None))
    n = 0
    for s1, (err,) in m.call_fn(PADD, [p, key, val], st, merge=False):
        n += 1

        def chk(s):
            i = max([j for j, e in enumerate(s.ev) if e[0] == 'loop'] or [-1])
            evs = s.ev[i + 1:]
            e = m.force(s, err)
            if not [x for x in evs if x[0] in ('get', 'add')]:
                if i < 0:
                    raise Mismatch('the message is dropped', s.pc)
                need(s.pc, is_closed(s, e), 'a message that no producer accepted is reported as accepted')
                need(s.pc, lt(I(0), s.ev[i][1]), 'the message is not offered to any producer')
                return
            judge(s, evs, e)
        c.post('ensures: the message is accepted at most once and never dropped without an error', s1, chk, PADD)
    return n


PCL = PR + 'Close'


def pclose_job(c):
    """ensures: the producer is closed for further messages, with the lock held; the current producer and every producer of a partition are closed, then every connection"""
    from havoc import Each
    m = c.m
    st = State()
    p = prod(m, st)
    m.contracts[CL] = W.record('sp.Close')
    m.contracts['(*Broker).Close'] = W.record('broker.Close')
    m.nonnil |= {'p.pidToSimpleProducers{v}', 'p.leaderBrokersMapping{v}'}
    cnt = lambda s, f: m.map_len(s, m.force(s, getf(m, s, p, f)))
    seen = {}

    def check(s, x, evs):
        evs = [e for e in evs if e[0] in ('sp.Close', 'broker.Close')]
        if len(evs) != 1:
            raise Mismatch('%d closes in an iteration' % len(evs), s.pc)
        f, t = {'sp.Close': ('p.pidToSimpleProducers{v}', '*SimpleProducer'), 'broker.Close': ('p.leaderBrokersMapping{v}', '*Broker')}[evs[0][0]]
        if not same_ptr(m.force(s, evs[0][1]), m.force(s, Ghost(m.p.byname[t], f, (x,)))):
            raise Mismatch('another one is closed', s.pc)
        seen[f.split('{')[0][2:]] = x
    E = Each(m, PCL, check=check)
    n = 0
    for s1, _ in m.call_fn(PCL, [p], st, merge=False):
        n += 1

        def chk(s):
            locked(s)
            need(s.pc, m.force(s, getf(m, s, p, 'closed')), 'the producer is not closed')
            cur = m.force(s, getf(m, s, p, 'currentProducer'))
            cl = [e for e in s.ev if e[0] == 'sp.Close']
            if [W.key(e[1]) for e in cl].count(W.key(cur)) != 1:
                raise Mismatch('the current producer is not closed', s.pc)
            for f in ('pidToSimpleProducers', 'leaderBrokersMapping'):
                if f not in seen:
                    raise Mismatch('not all of %s are closed' % f, s.pc)
                need(s.pc, le(cnt(s, f), seen[f]), 'not all of %s are closed' % f)
            o = [seen['pidToSimpleProducers'].id if False else e[1] for e in s.ev if e[0] == 'loop']
            if len(o) != 2 or o[0] != seen['pidToSimpleProducers']:
                raise Mismatch('the connections are closed before the producers have sent their messages', s.pc)
        c.post('ensures: everything is closed and further messages are refused', s1, chk, PCL)
    return n


UPD = PR + 'updateCurrentSimpleProducer'
FOL = PR + 'followLeaders'


def metadata_contract(m):
    """contract of Brokers.RequestMetaData (C14) and of Error() of its answer (C06)"""
    rt = m.p.funcs['(*Brokers).RequestMetaData']['results'][0]['t']

    def h(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'meta.err')
        r = m.force(st, Ghost(rt, 'meta'))
        W.ev(st, 'metadata', m.force(st, a[1]), m.force(st, a[2]), e)
        return (r, e)
    m.contracts['(*Brokers).RequestMetaData'] = h

    def er(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'meta.Error')
        W.ev(st, 'meta.Error', e)
        return (e,)
    for n in list(m.p.funcs):
        if n in ('(MetadataResponse).Error', '(*MetadataResponse).Error'):
            m.contracts[n] = er


def update_job(c):
    """ensures: nil error: the metadata of the topic are the ones just received, with at least one partition; unless closed, the current producer is a new one for a partition without an error,
    and the previous one is closed (which sends its messages)"""
    from havoc import Each
    m = c.m
    st = State()
    p = prod(m, st)
    m.nonnil.discard('p.currentProducer')
    metadata_contract(m)
    new_contract(m)
    m.contracts[CL] = W.record('sp.Close')
    m.contracts[FOL] = W.record('followLeaders')
    closed = m.force(st, getf(m, st, p, 'closed'))
    old = m.force(st, getf(m, st, p, 'currentProducer'))
    topic = m.force(st, getf(m, st, p, 'topic'))
    tm = lambda s: elem(m, s, m.force(s, getf(m, s, m.force(s, Ghost(m.p.funcs['(*Brokers).RequestMetaData']['results'][0]['t'], 'meta')), 'TopicMetadatas')), I(0))
    parts = lambda s: m.force(s, getf(m, s, tm(s), 'PartitionMetadatas'))
    part = lambda s, j, f: m.force(s, getf(m, s, elem(m, s, parts(s), j), f))
    # the list of valid partitions: every element is the id of some partition (number w(k)) without an error
    E = Each(m, UPD, loose=True)
    def over(mm, st, g):
        w = app('w', (g.args[-1],), 0)
        st.assume(lt(w, parts(st).len))
        st.assume(eq(part(st, w, 'PartitionErrorCode'), I(0)))
        return part(st, w, 'PartitionID')
    n = 0
    # the slice the loop appends to is havocked as a ghost list; its elements obey `over`, which every append must preserve
    app0 = m.append

    def append(st, d, add):
        if m.iter is not None and isinstance(d, SliceV) and m.p.name(d.et) == 'int32':
            j = m.iter
            if not isinstance(add, Arr) or len(add.p) != 1 or add.p[0][0] != 'el' or len(add.p[0][1]) != 1:
                raise Unsupported('a loop that adds more than one partition: %r' % (add,))
            v = m.force(st, add.p[0][1][0])
            if not prove(st.pc, and_(eq(v, part(st, j, 'PartitionID')), eq(part(st, j, 'PartitionErrorCode'), I(0)))):
                raise Mismatch('a partition with an error may be chosen', st.pc)
        return app0(st, d, add)
    m.append = append
    for r in ('t%d' % i for i in range(60)):
        m.over['loop.%s[]' % r] = over
    try:
        outs = m.call_fn(UPD, [p], st, merge=False)
    except Mismatch as e:
        c.ob('invariant: the chosen partition has no error', False, e.why, fn=UPD)
        return 1
    c.ob('invariant: the chosen partition has no error', True)
    for s1, (err,) in outs:
        n += 1

        def chk(s):
            e = m.force(s, err)
            md, me, nw, cl = W.evs(s, 'metadata'), W.evs(s, 'meta.Error'), W.evs(s, 'new'), W.evs(s, 'sp.Close')
            cur = m.force(s, getf(m, s, p, 'currentProducer'))
            if not isnil(m, s, e):
                if cl or not same_ptr(cur, old):
                    raise Mismatch('the current producer is lost when the update fails', s.pc)
                return
            if len(md) != 1 or len(me) != 1 or len(nw) != 1:
                raise Mismatch('not one metadata request and one new producer', s.pc)
            need(s.pc, and_(md[0][3].nil, me[0][1].nil, nw[0][6].nil), 'an error is ignored')
            ts = md[0][2]
            need(s.pc, eq(ts.len, I(1)), 'not one topic is asked for')
            seq_eq(m.force(s, elem_(m, s, ts, I(0))), topic, s.pc)
            seq_eq(nw[0][2], topic, s.pc)
            if not E.done or not repr(nw[0][3]).startswith('meta.TopicMetadatas[].PartitionMetadatas[].PartitionID'):
                raise Mismatch('the partition %r is not one of the list of partitions without an error' % (nw[0][3],), s.pc)
            o = W.order(s)
            lk = [x for x in o if x in ('lock', 'unlock')]
            if lk != ['lock', 'unlock'] or o[-1] != 'unlock' or o.index('lock') < o.index('new'):
                raise Mismatch('the current producer is replaced without the lock', s.pc)
            got = m.force(s, getf(m, s, p, 'topicMeta'))
            if not same_slice(m, s, getf(m, s, got, 'PartitionMetadatas'), parts(s)):
                raise Mismatch('the metadata are not the ones received', s.pc)
            need(s.pc, lt(I(0), parts(s).len), 'metadata without partitions')
            if holds(s, closed):
                if [W.key(x[1]) for x in cl] != [W.key(nw[0][5])] or not same_ptr(cur, old):
                    raise Mismatch('a closed producer gets a new current producer', s.pc)
                return
            if not same_ptr(cur, nw[0][5]):
                raise Mismatch('the new producer is not the current one', s.pc)
            if not W.evs(s, 'followLeaders'):
                raise Mismatch('the producers of keyed messages keep their old leaders', s.pc)
            if holds(s, old.nil):
                if cl:
                    raise Mismatch('the new producer is closed', s.pc)
            elif len(cl) != 1 or not same_ptr(m.force(s, cl[0][1]), old):
                raise Mismatch('the previous producer is not closed: its messages are lost', s.pc)
        c.post('ensures: the current producer is replaced by one for a partition of the current metadata', s1, chk, UPD)
    return n


def follow_job(c):
    """ensures: for every producer of a partition whose leader is known and reachable, its leader becomes that one, with its lock held; the others keep theirs"""
    from havoc import Each
    m = c.m
    st = State()
    p = prod(m, st)
    leader_contracts(m)
    distinct_elems(m, 'p.pidToSimpleProducers{v}')
    path = 'p.pidToSimpleProducers{v}'

    def check(s, x, evs):
        o = m.gid('%s@%d' % (path, x.id))
        li, lb = [e for e in evs if e[0] == 'leaderID'], [e for e in evs if e[0] == 'leaderBroker']
        pid = m.force(s, Ghost(m.p.byname['int32'], 'p.pidToSimpleProducers#key', (x,)))
        if len(li) != 1 or not prove(s.pc, eq(li[0][1], pid)):
            raise Mismatch('the leader of the partition is not looked up', s.pc)
        lead = m.force(s, getf(m, s, m.force(s, s.heap[o]), 'leader')) if o in s.heap else None
        keep = m.force(s, Ghost(m.p.byname['*Broker'], path + '*.leader', (x,)))
        ok = prove(s.pc, li[0][3].nil) and lb and prove(s.pc, lb[0][3].nil)
        if not ok:
            if lead is not None and not same_ptr(lead, keep):
                raise Mismatch('the leader is replaced although the new one is not known', s.pc)
            return
        need(s.pc, eq(lb[0][1], li[0][2]), 'another broker')
        if lead is None or not same_ptr(lead, lb[0][2]):
            raise Mismatch('the producer of a partition does not follow the leader', s.pc)
        lk = [e[0] for e in evs if e[0] in ('lock', 'unlock')]
        if lk != ['lock', 'unlock']:
            raise Mismatch('the leader is replaced without the lock', s.pc)
    E = Each(m, FOL, check=check)
    n = 0
    for s1, _ in m.call_fn(FOL, [p], st, merge=False):
        n += 1

        def chk(s):
            if not E.done:
                raise Mismatch('no loop over the producers', s.pc)
            need(s.pc, le(m.map_len(s, m.force(s, getf(m, s, p, 'pidToSimpleProducers'))), E.x), 'not all producers follow')
        c.post('ensures: every producer of a partition follows its leader', s1, chk, FOL)
    return n


# ---------------------------------------------------------------- concrete inputs
def murmur2(b, seed=0):
    m, M = 0x5bd1e995, 0xffffffff
    h = seed ^ len(b)
    i = 0
    while len(b) - i >= 4:
        k = int.from_bytes(b[i:i + 4], 'little') * m & M
        k ^= k >> 24
        k = k * m & M
        h = h * m & M ^ k
        i += 4
    r = b[i:]
    if r:
        h ^= int.from_bytes(r, 'little')
        h = h * m & M
    h ^= h >> 13
    h = h * m & M
    return h ^ h >> 15


def metadata(brokers, topics, controller=0, **kw):
    """metadata v1; topics: [(name, error, [(error, id, leader)])]"""
    ps = [i32(len(brokers))]
    for b in brokers:
        ps += [i32(b) + s16('127.0.0.1'), {'port': b}, s16(None)]
    ps.append(i32(controller) + arr([i16(e) + s16(n) + i8(0) + arr([i16(pe) + i32(pid) + i32(ld) + arr([i32(max(ld, 0))]) + arr([i32(max(ld, 0))]) for pe, pid, ld in parts])
                                     for n, e, parts in topics]))
    return rule(3, *merge(ps), **kw)


def merge(ps):
    out = []
    for p in ps:
        if out and isinstance(p, bytes) and isinstance(out[-1], bytes):
            out[-1] += p
        else:
            out.append(p)
    return out


def uvarint(b, i):
    n = s = 0
    while True:
        c = b[i]
        i += 1
        n |= (c & 127) << s
        s += 7
        if c < 128:
            return n, i


def varint(b, i):
    n, i = uvarint(b, i)
    return (n >> 1) ^ -(n & 1), i


def parse_batch(b):
    """[(key, value)] of one record batch"""
    import struct
    import zlib
    base, ln, epoch, magic, crc, attr, lod, bts, mts, pid, pep, seq, cnt = struct.unpack('>qiibIhiqqqhii', b[:61])
    if ln != len(b) - 12:
        raise Bad('batch length %d of %d bytes' % (ln, len(b)))
    if base != 0 or magic != 2 or pid != -1:
        raise Bad('base offset %d, magic %d, producer id %d' % (base, magic, pid))
    if cnt < 1 or lod != cnt - 1:
        raise Bad('%d records, last offset delta %d' % (cnt, lod))
    d = b[61:]
    if attr & 7 == 1:
        d = zlib.decompress(d, 31)
    elif attr & 7:
        return None
    out, i = [], 0
    for k in range(cnt):
        n, i = varint(d, i)
        e = i + n
        i += 1
        _, i = varint(d, i)
        od, i = varint(d, i)
        if od != k:
            raise Bad('record %d has offset delta %d' % (k, od))
        kv = []
        for _ in range(2):
            n, i = varint(d, i)
            kv.append(None if n < 0 else bytes(d[i:i + n]))
            i += max(n, 0)
        nh, i = varint(d, i)
        if nh or i != e:
            raise Bad('record %d ends at %d instead of %d' % (k, i, e))
        out.append(tuple(kv))
    if i != len(d):
        raise Bad('bytes after the last record')
    return out


def parse_produce(r):
    """(acks, timeout, topic, partition, batch) of a produce request the cluster saw, from its body after the correlation id"""
    b, v = r['p'], r['version']
    import struct
    n, = struct.unpack('>h', b[:2])
    i = 2 + max(n, 0)
    flexible = v >= 9
    if flexible:
        t, i = uvarint(b, i)
        n, i = uvarint(b, i)
        i += max(n - 1, 0)
    elif v >= 3:
        n, = struct.unpack('>h', b[i:i + 2])
        i += 2 + max(n, 0)
    acks, to = struct.unpack('>hi', b[i:i + 6])
    i += 6
    if flexible:
        n, i = uvarint(b, i)
        if n != 2:
            raise Bad('%d topics' % (n - 1))
        n, i = uvarint(b, i)
        topic = b[i:i + n - 1].decode()
        i += n - 1
        n, i = uvarint(b, i)
        if n != 2:
            raise Bad('%d partitions' % (n - 1))
        part, = struct.unpack('>i', b[i:i + 4])
        n, i = uvarint(b, i + 4)
        return acks, to, topic, part, b[i:i + n - 1]
    if struct.unpack('>i', b[i:i + 4])[0] != 1:
        raise Bad('not one topic')
    n, = struct.unpack('>h', b[i + 4:i + 6])
    topic = b[i + 6:i + 6 + n].decode()
    i += 6 + n
    k, part, n = struct.unpack('>iii', b[i:i + 12])
    if k != 1:
        raise Bad('%d partitions' % k)
    return acks, to, topic, part, b[i + 12:i + 12 + n]


def produce_answer(v, topic, part, code=0, **kw):
    if v >= 9:
        t = topic.encode()
        b = b'\0' + b'\2' + bytes([len(t) + 1]) + t + b'\2' + i32(part) + i16(code) + i64(5) + i64(-1) + i64(0) + b'\1' + b'\0' + b'\0' + b'\0' + i32(0) + b'\0'
    else:
        b = arr([s16(topic) + arr([i32(part) + i16(code) + i64(5)])])
    return rule(0, b, **kw)


def b64o(x):
    return None if x is None else base64.b64encode(x).decode()


def rnd_bytes(r):
    return r.choice([None, b'', bytes(r.randrange(256) for _ in range(r.randint(1, 9))), bytes(r.randrange(256) for _ in range(r.choice([40, 130, 300])))])


def config(r, mx, ver, **kw):
    d = {'message.max.count': mx, 'flush.interval.ms': '100000', 'compress.type': r.choice(['none', 'none', 'gzip']), 'acks': r.choice([1, -1]),
         'request.timeout.ms': r.choice([1500, 77]), 'retry.backoff.ms': 20, 'healer.magicbyte': 2}
    d.update(kw)
    return d


def got_batches(A):
    out = []
    for r in A.reqs:
        if r['api'] == 0:
            q = parse_produce(r)
            out.append((r['b'], q, parse_batch(q[4])))
    return out


def simple_cases(rng, n):
    """one SimpleProducer: adds, flushes, closes; every batch the leader sees is compared with the accepted messages"""
    for _ in range(n):
        mx = rng.choice([1, 2, 3, 5, 8])
        ver = rng.choice([0, 9])
        topic, part = rng.choice(['t', 'topic-1']), rng.choice([0, 1, 7])
        nb = 2
        leader = rng.randrange(nb)
        cfg = config(rng, mx, ver)
        apis = dict(__import__('scenario').APIS)
        apis[0], apis[3] = ver, 1
        bad = rng.choice([None, None, 0, 1, 2])
        rules = [api_versions(apis), metadata(range(nb), [(topic, 0, [(0, x, leader if x == part else 1 - leader) for x in sorted({0, 1, part})])])]
        if bad is not None:
            rules.append(produce_answer(ver, topic, part, 6, skip=bad, times=1))
        rules.append(produce_answer(ver, topic, part))
        ops, want, res = [('producer', {'topic': topic, 'partition': part, 'simple': True, 'config': cfg})], [], [{'err': False}]
        buf, closed = [], False

        def flush():
            e = len(want) == bad
            want.append(list(buf))
            del buf[:]
            return e
        for _ in range(rng.randint(1, 6)):
            k = rng.random()
            if k < 0.65:
                ms, rs = [], []
                for _ in range(rng.randint(1, 5)):
                    x = (rnd_bytes(rng), rnd_bytes(rng))
                    ms.append({'key': b64o(x[0]), 'value': b64o(x[1])})
                    if closed:
                        rs.append({'err': True, 'closed': True})
                        continue
                    buf.append(x)
                    rs.append({'err': flush() if len(buf) >= mx else False, 'closed': False})
                ops.append(('add', ms))
                res.append(rs)
            elif k < 0.85:
                ops.append(('flush', None))
                res.append({'err': flush() if buf else False})
            else:
                ops.append(('pclose', None))
                res.append(None)
                if buf and not closed:
                    flush()
                closed = True
        ops.append(('pclose', None))
        res.append(None)
        if buf and not closed:
            flush()

        def check(A, want=want, res=res, cfg=cfg, topic=topic, part=part, leader=leader):
            for i, (g, w) in enumerate(zip(A.res, res)):
                if w is None:
                    continue
                for gg, ww in zip(g, w) if isinstance(w, list) else [(g, w)]:
                    if (gg['err'] is not None) != ww['err']:
                        return 'operation %d: error %r, expected %s' % (i, gg['err'], 'one' if ww['err'] else 'none')
                    if 'closed' in ww and gg['closed'] != ww['closed']:
                        return 'operation %d: refused with %r instead of ErrProducerClosed' % (i, gg['err'])
            try:
                got = got_batches(A)
            except Bad as e:
                return 'a produce request is malformed: %s' % e
            for b, q, recs in got:
                if b != leader:
                    return 'a batch goes to broker %d instead of the leader %d' % (b, leader)
                if q[2:4] != (topic, part) or q[0] != cfg['acks'] or q[1] != cfg['request.timeout.ms']:
                    return 'a batch for %s-%d with acks %d, timeout %d' % (q[2], q[3], q[0], q[1])
            g = [x[2] for x in got]
            if g != want:
                return 'batches sent %r instead of %r' % (g, want)
        yield scenario(nb, rules, ops, check)


def moving_case(rng):
    """the leaders change: messages accepted after metadata has been refreshed go to the new leaders"""
    ver, topic, np, nb = rng.choice([0, 9]), 'tp', rng.choice([1, 2, 3, 5]), 2
    old = [rng.randrange(nb) for _ in range(np)]
    new = [1 - x for x in old]
    cfg = config(rng, 1, ver, **{'metadata.max.age.ms': 50})
    apis = dict(__import__('scenario').APIS)
    apis[0], apis[3] = ver, 1
    bad = set(rng.sample(range(np), rng.randrange(0, np))) if rng.random() < 0.6 else set()        # partitions without a leader after the change
    meta = lambda ld, bad, **kw: metadata(range(nb), [(topic, 0, [(5, x, -1) if x in bad else (0, x, ld[x]) for x in range(np)])], **kw)
    keys = [None] + [b'k%d' % x for x in rng.sample(range(40), rng.randint(1, 6))]
    rules = [api_versions(apis), meta(new, bad, when='moved'), meta(old, ())]
    rules += [produce_answer(ver, topic, 0, skip=len(keys) - 1, times=1, set='moved'), produce_answer(ver, topic, 0)]
    late = [x for x in keys if x is None or murmur2(x) % np not in bad]
    early = [x if x is not None else keys[-1] for x in keys]
    ops = [('producer', {'topic': topic, 'config': cfg}), ('add', [{'key': b64o(x), 'value': b64o(b'early')} for x in early]), ('sleep', 400),
           ('add', [{'key': b64o(x), 'value': b64o(b'late%d' % i)} for i, x in enumerate(late)]), ('pclose', None)]

    def check(A):
        if isinstance(A.res[0], dict) and A.res[0].get('err'):
            return 'no producer: %r' % (A.res[0]['err'],)
        metas = sum(r['api'] == 3 for r in A.upto(2)) - sum(r['api'] == 3 for r in A.upto(1))
        if metas < 9:           # too slow: not certain that a whole refresh is over
            return None
        for g in A.res[1] + A.res[3]:
            if g['err'] is not None:
                return 'error %r' % (g['err'],)
        try:
            got = got_batches(A)
        except Bad as e:
            return 'a produce request is malformed: %s' % e
        vals = []
        for b, q, recs in got:
            for kk, val in recs:
                vals.append(val)
                if val != b'early' and (q[3] in bad or b != new[q[3]]):
                    return 'a message of partition %d goes to broker %d, which has not been its leader since before it was accepted' % (q[3], b)
        if sorted(vals) != sorted([b'early'] * len(early) + [b'late%d' % i for i in range(len(late))]):
            return 'sent messages: %r' % (vals,)
    return scenario(nb, rules, ops, check)


def producer_cases(rng, n):
    """Producer: keyed messages go to the partition of their key, every accepted message is sent once, in order per partition"""
    for k in range(n):
        if k % 6 == 1:
            yield moving_case(rng)
            continue
        mx = rng.choice([1, 2, 4, 50])
        ver = rng.choice([0, 9])
        topic = 'tp'
        np = rng.choice([1, 2, 3, 5])
        nb = 2
        leaders = [rng.randrange(nb) for _ in range(np)]
        age = rng.choice([100000, 100000, 100000, 70])
        cfg = config(rng, mx, ver, **{'metadata.max.age.ms': age})
        apis = dict(__import__('scenario').APIS)
        apis[0], apis[3] = ver, 1
        rules = [api_versions(apis), metadata(range(nb), [(topic, 0, [(0, x, leaders[x]) for x in range(np)])])]
        bad = rng.random() < 0.3        # a batch is refused: the message that filled it reports the error, and is not sent again
        if bad:
            rules.append(produce_answer(ver, topic, 0, 6, skip=rng.choice([0, 0, 1, 2]), times=1))
        rules.append(produce_answer(ver, topic, 0))
        ops, acc = [('producer', {'topic': topic, 'config': cfg})], []
        closed = False
        k = 0
        nops = [None]
        for _ in range(rng.randint(1, 4)):
            if age < 1000 and rng.random() < 0.5:
                ops.append(('sleep', 110))
                nops.append(None)
            ms = []
            for _ in range(rng.randint(1, 6)):
                key = rng.choice([None, None, b'', b'k%d' % rng.randrange(6), bytes(rng.randrange(256) for _ in range(rng.randint(1, 12)))])
                val = b'%d' % k
                k += 1
                ms.append({'key': b64o(key), 'value': b64o(val)})
                acc.append((key, val))
            ops.append(('add', ms))
            nops.append('any' if bad else False)
        ops.append(('pclose', None))
        nops.append(None)
        ops.append(('add', [{'key': b64o(x), 'value': b64o(b'late')} for x in (None, b'k1')]))
        nops.append(True)

        def check(A, acc=acc, nops=nops, np=np, leaders=leaders, topic=topic):
            for i, w in enumerate(nops):
                if w is None:
                    continue
                for g in A.res[i]:
                    if w is False and g['err'] is not None:
                        return 'operation %d: error %r' % (i, g['err'])
                    if w is True and not g['closed']:
                        return 'a closed producer answers %r instead of ErrProducerClosed' % (g['err'],)
            if isinstance(A.res[0], dict) and A.res[0].get('err'):
                return 'no producer: %r' % (A.res[0]['err'],)
            try:
                got = got_batches(A)
            except Bad as e:
                return 'a produce request is malformed: %s' % e
            seq = {}
            for b, q, recs in got:
                if not 0 <= q[3] < np or b != leaders[q[3]]:
                    return 'a batch of partition %d goes to broker %d' % (q[3], b)
                seq.setdefault(q[3], []).extend(recs)
            pos = {x[1]: i for i, x in enumerate(acc)}
            cnt = 0
            for pt, rs in seq.items():
                lasts = {True: -1, False: -1}
                for key, val in rs:
                    if val not in pos or acc[pos[val]] != (key, val):
                        return 'a message %r that was not accepted is sent' % ((key, val),)
                    if pos[val] <= lasts[key is None]:
                        return 'messages of partition %d are sent twice or out of order' % pt
                    lasts[key is None] = pos[val]
                    cnt += 1
                    if key is not None and murmur2(key) % np != pt:
                        return 'key %r goes to partition %d instead of %d' % (key, pt, murmur2(key) % np)
            if cnt != len(acc):
                return '%d messages are sent, %d were accepted' % (cnt, len(acc))
        yield scenario(nb, rules, ops, check)


def c12(P):
    from runner import Job
    X = dict(SCN)
    X['extra'] = ['cluster', 'producer']
    S = dict(cases=simple_cases, limit=60, **X)
    R = dict(cases=producer_cases, limit=60, **X)
    J = [('records of a batch', batch_job, [CRB], S), ('flush', flush_job, [FLUSH], S), ('AddMessage', add_job, [ADD], S), ('Flush', flushall_job, [FL], S), ('Close', close_job, [CL], S),
         ('NewSimpleProducer and its flusher', new_job, [NEW], S), ('leader of a partition', leader_id_job, [GLI], R), ('connection of a leader', leader_broker_job, [GLB], R),
         ('producer of a key', get_job, [GSP], R), ('Producer.AddMessage', padd_job, [PADD], R), ('Producer.Close', pclose_job, [PCL], R),
         ('current producer', update_job, [UPD], R), ('leaders of keyed producers', follow_job, [FOL], R)]
    return [Job(n, b, require=f, **k) for n, b, f, k in J]
