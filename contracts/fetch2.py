"""C08: contracts of the functions that decode fetch responses."""
from fetch import *

D = '(*fetchResponseStreamDecoder).'


def decoder(m, st):
    m.nonnil |= {'d'}
    d = m.force(st, Ghost(m.p.byname['*fetchResponseStreamDecoder'], 'd'))
    st.assume(not_(m.force(st, getf(m, st, d, 'ctx')).nil))
    W.conc(m)
    m.neverclosed.add('d.messages')
    return d


def put_job(c):
    """ensures: the message is sent once to the channel of the decoder, or the decoder's context is done and its error is returned"""
    m = c.m
    st = State()
    d = decoder(m, st)
    msg = m.force(st, Ghost(m.p.byname['*FullMessage'], 'msg'))
    n = 0
    for s1, (err,) in m.call_fn(D + 'putMessage', [d, msg], st, merge=False):
        n += 1

        def chk(s):
            sends = W.evs(s, 'send')
            if isnil(m, s, err):
                if len(sends) != 1 or sends[0][1] != 'd.messages' or W.key(m.force(s, sends[0][2])) != W.key(msg):
                    raise Mismatch('the message is not sent exactly once', s.pc)
            elif sends or not [e for e in s.ev if e[0] == 'recv' and e[1].startswith('d.ctx')]:
                raise Mismatch('an error although the context is not done, or after the message was sent', s.pc)
        c.post('ensures: the message is delivered once or the context is done', s1, chk, D + 'putMessage')
    return n


DREC = 'DecodeToRecord'


def drec_job(c):
    """requires payload == RECORD(r) ++ rest; ensures the record is r, the count its size, no error"""
    m = c.m
    st = State()
    s, e = RECORD.wire(c, 'rec', ())
    pl = m.new_bytes(st, sq(s, satom('rest', (), 2**40)))
    n = 0
    for s1, (res, cnt, err) in m.call_fn(DREC, [pl], st):
        n += 1

        def chk(s2):
            need(s2.pc, m.force(s2, err).nil, 'an error is returned for a whole record')
            match(m, s2, e, res, 'record')
            need(s2.pc, eq(m.force(s2, cnt), s.len), 'count %r instead of %r' % (cnt, s.len))
        c.post('ensures: a whole record is decoded to what was encoded', s1, chk, DREC)
    return n


def filter_job(c):
    """ensures: the message is put, once, with its topic and partition, exactly when its offset is at least the start offset"""
    m = c.m
    st = State()
    d = decoder(m, st)
    m.nonnil |= {'message'}
    fn = D + 'filterAndPutMessage'
    msg = m.force(st, Ghost(m.p.byname['*Message'], 'message'))
    topic, part = satom('topic', (), 32767), app('partition', (), -2**31, 2**31 - 1)
    off, start = m.force(st, getf(m, st, msg, 'Offset')), m.force(st, getf(m, st, d, 'startOffset'))
    has0 = m.force(st, getf(m, st, d, 'hasOneMessage'))
    n = 0
    for s1, (err,) in m.call_fn(fn, [d, msg, topic, part], st, merge=False):
        n += 1

        def chk(s):
            sends = W.evs(s, 'send')
            done = [e for e in s.ev if e[0] == 'recv' and e[1].startswith('d.ctx')]
            has = m.force(s, getf(m, s, d, 'hasOneMessage'))
            if done:
                if sends:
                    raise Mismatch('a message is sent although the context is done', s.pc)
                need(s.pc, not_(m.force(s, err).nil), 'no error although the context is done')
                return
            need(s.pc, m.force(s, err).nil, 'an error although the context is not done')
            if not sends:
                need(s.pc, lt(off, start), 'a message from the start offset on is dropped')
                need(s.pc, iff(has, has0), 'hasOneMessage is changed for a dropped message')
                return
            need(s.pc, le(start, off), 'a message before the start offset is emitted')
            need(s.pc, has, 'hasOneMessage is not set')
            if len(sends) != 1 or sends[0][1] != 'd.messages':
                raise Mismatch('the message is not sent exactly once', s.pc)
            f = deref(m, s, m.force(s, sends[0][2]))
            seq_eq(m.force(s, getf(m, s, f, 'TopicName')), topic, s.pc)
            need(s.pc, eq(m.force(s, getf(m, s, f, 'PartitionID')), part), 'wrong partition')
            need(s.pc, m.force(s, getf(m, s, f, 'Error')).nil, 'an error with a message')
            if W.key(m.force(s, getf(m, s, f, 'Message'))) != W.key(msg):
                raise Mismatch('another message is sent', s.pc)
            g = m.force(s, msg)
            for fld in ('Offset',):
                need(s.pc, eq(m.force(s, getf(m, s, g, fld)), off), 'the message is changed')
        c.post('ensures: the message is emitted once exactly when its offset is at least the start offset', s1, chk, fn)
    return n


def iff(a, b):
    return and_(implies(a, b), implies(b, a))


BHEAD = [('base', 8), ('batchLength', 4), ('epoch', 4), ('magic', 1), ('crc', 4), ('attributes', 2), ('lastOffsetDelta', 4), ('baseTimestamp', 8), ('maxTimestamp', 8),
         ('producerId', 8), ('producerEpoch', 2), ('baseSequence', 4), ('count', 4)]
MAGIC2 = D + 'decodeRecordsMagic2'
UNC = 'uncompress'


def setf(m, st, p, name, v):
    """store v in field `name` of the struct p points to"""
    o, path = p.tgt
    cur = m.force(st, m.load(st, p.tgt))
    i = m.p.field_index(cur.t, name)
    m.store(st, (o, path + (i,)), v)


def field_havoc(d, *names):
    def h(m, st):
        for nm in names:
            cur = m.force(st, m.load(st, d.tgt))
            t = m.p.fields(cur.t)[m.p.field_index(cur.t, nm)]['t']
            setf(m, st, d, nm, m.force(st, Ghost(t, 'any.' + nm)))
    return h


def put_contract(m, d):
    """contract of filterAndPutMessage, discharged by filter_job: the message is emitted when its offset is at least the start offset"""
    def h(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'put.err')
        W.ev(st, 'put', m.force(st, a[1]), a[2], a[3], e)
        has = m.force(st, getf(m, st, d, 'hasOneMessage'))
        setf(m, st, d, 'hasOneMessage', or_(has, bapp('put.has', (I(len(st.ev)),))))
        return (e,)
    m.contracts[D + 'filterAndPutMessage'] = h


def read_contract(m, d, nxt):
    """contract of read(n), discharged by read_job: n bytes of the stream, or an error; nxt(st, n) gives the bytes"""
    def h(m, fr, st, a, ins):
        n = m.force(st, a[1])
        s2 = st.copy()
        data = nxt(st, n)
        W.ev(st, 'read', n, None)
        e = W.ghost_err(m, s2, 'read.err')
        s2.assume(not_(e.nil))
        k = app('read.n', (I(len(s2.ev)),), 0, 2**40)
        s2.assume(lt(k, n))
        W.ev(s2, 'read', n, e)
        junk = m.new_bytes(s2, satom('junk', (I(len(s2.ev)),), 2**40))
        s2.assume(eq(junk.len, n))
        return [(st, (m.new_bytes(st, data), n, IfaceV(TRUE, None, None))), (s2, (junk, k, e))]
    m.contracts[D + 'read'] = h


def magic2_(c, cut):
    """requires: header17 and the next 44 bytes are the head of a batch, the rest of the batch decompresses to its records;
    ensures: every record of the batch is offered to filterAndPutMessage once, in order, with the offset and timestamp of the batch;
    the result is the size of the batch after its first 17 bytes.
    cut: the bytes end inside a record of the batch; every whole record before it is offered as above, and there is no error"""
    m = c.m
    st = State()
    d = decoder(m, st)
    from havoc import Each
    h = {}
    for n, w in BHEAD:
        h[n] = app('h.' + n, (), 0, 256**w - 1)
    bts = app('h.baseTimestamp', (), 0, 2**63 - 1)
    head = [be(w, h[n]) for n, w in BHEAD]
    H17 = m.new_bytes(st, sq(*head[:4]))
    s64 = lambda v: ite(lt(v, I(2**63)), v, v - 2**64)
    st.assume(le(h['count'], I(2**31 - 1)))
    st.assume(le(I(49), h['batchLength']))
    st.assume(le(h['batchLength'], I(2**31 - 1)))
    put_contract(m, d)
    read_contract(m, d, lambda st, n: sq(*head[4:]))
    rt = m.p.byname['Record']
    whole = app('whole', (), 0, 2**31 - 1) if cut else h['count']
    if cut:
        st.assume(lt(whole, h['count']))
        if INCOMPLETE not in m.p.globals:
            raise Unsupported('no error for a record that is cut')
    st0 = st.copy()
    cache = {}

    def R(st, i):
        return m.force(st, Ghost(rt, 'R', (i,)))

    def size(i):
        if i.id not in cache:
            cache[i.id] = app('R#size', (i,), 1, 2**31 - 1)
        return cache[i.id]
    box = {}

    def uncompress(m, fr, st, a, ins):
        s2 = st.copy()
        r = m.force(st, a[1])
        lim = None
        if isinstance(r, IfaceV) and isinstance(r.t, int) and m.p.name(r.t) == '*io.LimitedReader':
            lr = m.force(st, r.v)
            lim = (W.key(m.force(st, getf(m, st, lr, 'R'))), m.force(st, getf(m, st, lr, 'N')))
        W.ev(st, 'uncompress', m.force(st, a[0]), lim, None)
        u = m.new_bytes(st, satom('U', (), 2**50))
        box['u'] = u
        e = W.ghost_err(m, s2, 'uncompress.err')
        s2.assume(not_(e.nil))
        W.ev(s2, 'uncompress', m.force(s2, a[0]), lim, e)
        return [(st, (u, IfaceV(TRUE, None, None))), (s2, (m.force(s2, Ghost(m.p.funcs[UNC]['results'][0]['t'], 'partial')), e))]
    m.contracts[UNC] = uncompress
    m.contracts['io.ReadAll'] = W.record('drain', lambda m, st, a: (m.force(st, Ghost(m.p.funcs[UNC]['results'][0]['t'], 'drained!%d' % len(st.ev))), W.ghost_err(m, st, 'drain.err')))

    def drec(m, fr, st, a, ins):
        p = m.force(st, a[0])
        if m.iter is None or p.base != box['u'].base:
            raise Unsupported('DecodeToRecord outside the loop over the records')
        if not m.quiet:
            m.oblige(fr, st, 'requires', eq(p.off, each.L(m.iter)), ins.get('line', 0), 'record %r is decoded at its place' % (m.iter,))
        W.ev(st, 'rec', m.iter, False)
        out = [(st, (R(st, m.iter), size(m.iter), IfaceV(TRUE, None, None)))]
        if cut:
            # contract of DecodeToRecord on the beginning of a record (drec_cut_job)
            s2 = st.copy()
            s2.ev[-1] = ('rec', m.iter, True)
            st.assume(lt(m.iter, whole))
            s2.assume(le(whole, m.iter))
            o = m.global_obj(s2, INCOMPLETE, m.p.byname['*error'])
            out.append((s2, (m.force(s2, Ghost(rt, 'cut')), app('cut#size', (), 0, 10), m.force(s2, s2.heap[o]))))
        return out
    m.contracts[DREC] = drec

    def one(s, x, evs):
        puts = [e for e in evs if e[0] == 'put']
        if len(puts) != 1:
            raise Mismatch('record is offered %d times' % len(puts), s.pc)
        judge_put(s, x, puts[0])
        if not prove(s.pc, puts[0][4].nil):
            raise Mismatch('the loop goes on after an error', s.pc)

    def judge_put(s, x, p):
        msg = deref(m, s, p[1])
        r = R(s, x)
        g = lambda v, f: m.force(s, getf(m, s, v, f))
        need(s.pc, eq(g(msg, 'Offset'), s64(h['base']) + g(r, 'offsetDelta')), 'offset of a record')
        ts = mod(g(r, 'timestampDelta') + h['baseTimestamp'], 2**64)
        app_ = eq(mod(div_(h['attributes'], 8), 2), I(1))
        need(s.pc, eq(g(msg, 'Timestamp'), ite(app_, h['maxTimestamp'], ts)), 'timestamp of a record: %r' % (g(msg, 'Timestamp'),))
        for a, b in (('Key', 'key'), ('Value', 'value'), ('Headers', 'Headers')):
            x1, x2 = g(msg, a), g(r, b)
            from machine import vsame
            if not vsame(x1, x2):
                raise Mismatch('%s of a record' % a, s.pc)
        seq_eq(p[2], topic, s.pc)
        need(s.pc, eq(p[3], part), 'partition of a record')

    def wrap_one(s, x, evs):
        from machine import LoopFail
        try:
            one(s, x, evs)
        except Mismatch as e:
            box.setdefault('bad', (e.why, s))
    def more(s, x):
        # the records lie one after the other in U
        U = box['u'].len
        s.assume(le(each.L(x), U))
        s.assume(or_(le(whole, x), le(each.L(x) + size(x), U)))
    each = Each(m, MAGIC2, size, [field_havoc(d, 'hasOneMessage')], wrap_one, more=more, inv=lambda x: le(x, whole))
    topic, part = satom('topic', (), 32767), app('partition', (), -2**31, 2**31 - 1)
    n = 0
    for s1, (off, err) in m.call_fn(MAGIC2, [d, topic, part, H17], st, merge=False):
        n += 1

        def chk(s):
            if 'bad' in box:
                raise Mismatch(box['bad'][0], box['bad'][1].pc)
            puts = W.evs(s, 'put')
            rd = W.evs(s, 'read')
            if len(rd) != 1 or not prove(s.pc, eq(rd[0][1], I(44))):
                raise Unsupported('the head of the batch is read in another way')
            if rd[0][2] is not None:
                if puts:
                    raise Mismatch('a record is emitted without a head', s.pc)
                return
            un = W.evs(s, 'uncompress')
            if not un:
                need(s.pc, eq(h['count'], I(0)), 'a batch with records is skipped')
                return
            if len(un) != 1:
                raise Mismatch('the records are decompressed %d times' % len(un), s.pc)
            need(s.pc, eq(un[0][1], mod(h['attributes'], 8)), 'the codec is not the one of the batch')
            if un[0][2] is None or un[0][2][0] != W.key(d):
                raise Unsupported('the records are read in another way')
            need(s.pc, eq(un[0][2][1], h['batchLength'] - 49), 'the records end %r bytes after the head' % (un[0][2][1],))
            o = m.force(s, off)
            need(s.pc, eq(o, h['batchLength'] - 5), 'size of the batch: %r' % (o,))
            if un[0][3] is not None:
                if puts:
                    raise Mismatch('a record is emitted although decompression failed', s.pc)
                return
            last = [e for e in s.ev if e[0] == 'loop']
            lp = W.evs(s, 'put')
            er = m.force(s, err)
            if lp:    # left inside an iteration, after offering its record: only with the error of the consumer
                need(s.pc, not_(lp[-1][4].nil), 'decoding stops without an error before the last record')
                need(s.pc, not_(er.nil), 'the error of the consumer is swallowed')
                judge_put(s, last[-1][1], lp[-1])
            else:
                if not last:
                    raise Mismatch('no loop over the records', s.pc)
                need(s.pc, le(whole, last[-1][1]), 'decoding stops before the last record')
                need(s.pc, er.nil, 'an error although every record was decoded')
        c.post('ensures: every record of a batch is offered once, in order, with its offset, timestamp, key, value, headers', s1, chk, MAGIC2)
    if not each.done:
        raise Unsupported('no loop over the records was recognised')
    return n



INCOMPLETE = 'errUncompleteRecord'


def magic2_job(c):
    return magic2_(c, False)


def magic2_cut_job(c):
    return magic2_(c, True)


def drec_cut_job(c):
    """requires: payload is a proper beginning of RECORD(r); ensures: the error for a record that is cut, and nothing else happens"""
    m = c.m
    n = 0
    if INCOMPLETE not in m.p.globals:
        raise Unsupported('no error for a record that is cut')
    for inside in (False, True):
        st = State()
        ln = app('record.len', (), 1, 2**31 - 1)
        if inside:      # the length is there, but not as many bytes
            rest = satom('begun', (), 2**31 - 1)
            st.assume(lt(rest.len, ln))
            pl = m.new_bytes(st, sq(uv(zz(ln)), rest))
        else:           # not even the length: binary.Varint reports 0, 0
            cutlen = satom('cutlen', (), 4)
            pl = m.new_bytes(st, cutlen)
            m.contracts['encoding/binary.Varint'] = lambda m, fr, st, a, ins: (I(0), I(0)) if m.force(st, a[0]).base == pl.base else NotImplemented
        for s1, (res, cnt, err) in m.call_fn(DREC, [pl], st, merge=False):
            n += 1

            def chk(s):
                from producer_ import is_global_err
                if not is_global_err(m, s, err, INCOMPLETE):
                    raise Mismatch('a record that is cut is not reported as such', s.pc)
            c.post('ensures: a record that is cut is reported as such', s1, chk, DREC)
        m.contracts.pop('encoding/binary.Varint', None)
    return n


def div_(a, k):
    from terms import div
    return div(a, k)


# ---------------------------------------------------------------- reading
def read_job(c):
    """ensures: read(n) gives the next n bytes of the stream and counts them, or an error"""
    from stream import Stream
    m = c.m
    st = State()
    fn = D + 'read'
    d = decoder(m, st)
    S = Stream(m, st)
    m.contracts['io.ReadFull'] = S.readfull
    for t in ('io.Reader',):
        m.contracts['(iface %s).Read' % t] = S.read
    k = app('n', (), 0, 2**31)
    off0 = m.force(st, getf(m, st, d, 'offset'))
    n = 0
    for s1, (res, ln, err) in m.call_fn(fn, [d, k], st, merge=False):
        n += 1

        def chk(s):
            if not isnil(m, s, err):
                return
            need(s.pc, eq(S.pos(s), k), 'bytes consumed: %r instead of %r' % (S.pos(s), k))
            need(s.pc, eq(m.force(s, ln), k), 'length %r' % (ln,))
            seq_eq(m.content(s, m.force(s, res)), slice_seq(S.S, I(0), k, s.pc), s.pc)
            need(s.pc, eq(m.force(s, getf(m, s, d, 'offset')), off0 + k), 'the bytes read are not counted')
        c.post('ensures: read returns the next n bytes', s1, chk, fn)
    return n


def stream_of(m, st, content):
    """a stream with known content"""
    from stream import Stream
    S = Stream(m, st)
    m.loop_rules.pop()
    S.S = content
    return S


def reads(m, d, S):
    """contract of read(n) over a stream (discharged by read_job) and of io.ReadFull"""
    def h(m, fr, st, a, ins):
        n = m.force(st, a[1])
        s2 = st.copy()
        pos = S.pos(st)
        st.assume(le(pos + n, S.S.len))
        data = slice_seq(S.S, pos, n, st.pc)
        st.heap[S.obj] = OpaqueV('stream', pos=pos + n, last=None)
        W.ev(st, 'read', n, None)
        e = W.ghost_err(m, s2, 'read.err')
        s2.assume(not_(e.nil))
        s2.assume(lt(S.S.len, pos + n))     # (a whole frame: the read fails only at its end)
        outs = [(st, (m.new_bytes(st, data), n, IfaceV(TRUE, None, None)))]
        if solver_sat(s2.pc):
            k = app('read.n', (I(len(s2.ev)),), 0, 2**40)
            s2.assume(lt(k, n))
            W.ev(s2, 'read', n, e)
            junk = m.new_bytes(s2, satom('junk', (I(len(s2.ev)),), 2**40))
            s2.assume(eq(junk.len, n))
            outs.append((s2, (junk, k, e)))
        return outs
    m.contracts[D + 'read'] = h

    def rf(m, fr, st, a, ins):
        r = m.force(st, a[0])
        if W.key(r) != W.key(d):
            raise Unsupported('io.ReadFull from %r' % (r,))
        b = m.force(st, a[1])
        pos = S.pos(st)
        s2 = st.copy()
        st.assume(le(pos + b.len, S.S.len))
        S.take(m, st, b, b.len)
        outs = [(st, (b.len, IfaceV(TRUE, None, None)))]
        s2.assume(lt(S.S.len, pos + b.len))
        if solver_sat(s2.pc):
            e = W.ghost_err(m, s2, 'readfull.err')
            s2.assume(not_(e.nil))
            W.ev(s2, 'readerr')
            outs.append((s2, (app('read.n', (I(len(s2.ev)),), 0, 2**40), e)))
        return outs
    m.contracts['io.ReadFull'] = rf


def solver_sat(pc):
    import solver
    return solver.sat(pc)


def dheader_job(v):
    def body(c):
        """requires: the stream starts with the head of a fetch response of version v; ensures: correlation id and number of topics are read"""
        m = c.m
        st = State()
        fn = D + 'decodeHeader'
        d = decoder(m, st)
        corr, cnt = app('corr', (), -2**31, 2**31 - 1), app('topics', (), 0, 2**31 - 1)
        head = sq(be(4, corr), *([be(4, app('throttle', (), 0, 2**32 - 1)), be(2, app('code', (), 0, 65535)), be(4, app('session', (), 0, 2**32 - 1))] if v >= 7 else []), be(4, cnt))
        S = stream_of(m, st, sq(head, satom('rest', (), 2**40)))
        reads(m, d, S)
        n = 0
        for s1, (err,) in m.call_fn(fn, [d, I(v)], st, merge=False):
            n += 1

            def chk(s):
                need(s.pc, m.force(s, err).nil, 'an error for a whole head')
                need(s.pc, eq(m.force(s, getf(m, s, d, 'correlationID')), corr), 'correlation id')
                need(s.pc, eq(m.force(s, getf(m, s, d, 'responsesCount')), cnt), 'number of topics')
                need(s.pc, eq(S.pos(s), head.len), '%r bytes are consumed instead of %r' % (S.pos(s), head.len))
            c.post('ensures: the head of a fetch response v%d is consumed and its number of topics read' % v, s1, chk, fn)
        return n
    return body


def part_job(v):
    """requires: the stream has a partition of a fetch response of version v; ensures: an error code is reported as that error;
    otherwise the message set decoder is called once, where the message set starts, with topic, partition and size (unless it is empty)"""
    def body(c):
        from havoc import Each
        m = c.m
        st = State()
        fn = D + 'decodePartitionResponse'
        d = decoder(m, st)
        pid, code, size = app('pid', (), -2**31, 2**31 - 1), app('code', (), -2**15, 2**15 - 1), app('size', (), -2**31, 2**31 - 1)
        mid = []
        if v >= 4:
            na = app('aborted', (), -1, 2**24)
            ab = satom('abortedbytes', (), 2**40)
            st.assume(eq(ab.len, ite(le(na, I(0)), I(0), na * 16)))
            mid = [be(8, app('lso', (), 0, 2**64 - 1)), be(8, app('lwm', (), 0, 2**64 - 1)), be(4, na), ab]
        head = sq(be(4, pid), be(2, code), be(8, app('hw', (), 0, 2**64 - 1)), *mid, be(4, size))
        S = stream_of(m, st, sq(head, satom('rest', (), 2**40)))
        reads(m, d, S)
        import broker_
        broker_.errors_model(m)
        m.contracts['errors.Is'] = errors_is
        topic = satom('topic', (), 32767)

        def setc(m, fr, st, a, ins):
            e = W.ghost_err(m, st, 'set.err')
            W.ev(st, 'set', a[1], m.force(st, a[2]), m.force(st, a[3]), m.force(st, a[4]), S.pos(st), e)
            return (e,)
        m.contracts[D + 'decodeMessageSet'] = setc
        each = Each(m, fn, inv=(lambda x: le(x, ite(le(na, I(0)), I(0), na))) if v >= 4 else None)
        n = 0
        for s1, (err,) in m.call_fn(fn, [d, topic, I(v)], st, merge=False):
            n += 1

            def chk(s):
                er = m.force(s, err)
                sets = W.evs(s, 'set')
                if prove(s.pc, not_(eq(code, I(0)))):
                    if sets:
                        raise Mismatch('records are decoded although there is an error code', s.pc)
                    need(s.pc, not_(er.nil), 'an error code is swallowed')
                    t = er.t
                    if not isinstance(t, int) or m.p.name(t) != 'KafkaError':
                        raise Mismatch('an error code is reported as %r' % (er,), s.pc)
                    need(s.pc, eq(m.force(s, er.v), code), 'an error code is reported as another one')
                    return
                need(s.pc, eq(code, I(0)), 'an error code is ignored')
                if not sets:
                    need(s.pc, le(size, I(0)), 'a message set is skipped')
                    need(s.pc, er.nil, 'an error for an empty message set')
                    need(s.pc, eq(S.pos(s), head.len), '%r bytes are consumed instead of %r' % (S.pos(s), head.len))
                    return
                if len(sets) != 1:
                    raise Mismatch('the message set is decoded twice', s.pc)
                e = sets[0]
                seq_eq(e[1], topic, s.pc)
                need(s.pc, eq(e[2], pid), 'partition')
                need(s.pc, eq(e[3], size), 'size of the message set')
                need(s.pc, eq(e[5], head.len), 'the message set is decoded at byte %r instead of %r' % (e[5], head.len))
                need(s.pc, iff(e[6].nil, er.nil), 'the result of the message set is changed')
            c.post('ensures: a partition of a fetch response v%d is decoded where its records are' % v, s1, chk, fn)
        return n
    return body


def errors_is(m, fr, st, a, ins):
    """errors.Is(e, x): false for nil, possible for any error from outside"""
    e = m.force(st, a[0])
    if e.nil is TRUE:
        return (FALSE,)
    t = m.force(st, a[1])
    if isinstance(e.v, Ghost):
        name = t['name'] if isinstance(t, OpaqueV) else W.key(t)
        return (and_(not_(e.nil), bapp('is$%s$%s' % (name, e.v.path), e.v.args)),)
    if isinstance(e.v, ErrInfo) and e.v.wraps:
        return (and_(not_(e.nil), bapp('is!%d' % len(st.ev))),)
    return (FALSE,)


def topics_job(c):
    """requires: the stream has a topic of a fetch response; ensures: each of its partitions is decoded once, in order, under its name; an error stops it and is returned"""
    from havoc import Each
    m = c.m
    st = State()
    fn = D + 'decodeResponses'
    d = decoder(m, st)
    topic, cnt = satom('topic', (), 32767), app('partitions', (), 0, 2**31 - 1)
    head = sq(be(2, topic.len), topic, be(4, cnt))
    S = stream_of(m, st, sq(head, satom('rest', (), 2**40)))
    reads(m, d, S)
    v = app('version', (), 0, 65535)
    bad = []

    def part(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'part.err')
        W.ev(st, 'part', a[1], m.force(st, a[2]), S.pos(st) if m.iter is not None and m.iter.const() == 0 else None, e)
        return (e,)
    m.contracts[D + 'decodePartitionResponse'] = part

    def judge1(s, e):
        seq_eq(m.force(s, e[1]), topic, s.pc)
        need(s.pc, eq(e[2], v), 'a partition is decoded for version %r' % (e[2],))

    def one(s, x, evs):
        try:
            ps = [e for e in evs if e[0] == 'part']
            if len(ps) != 1:
                raise Mismatch('a partition is decoded %d times' % len(ps), s.pc)
            judge1(s, ps[0])
            need(s.pc, ps[0][4].nil, 'decoding goes on after an error')
        except Mismatch as e:
            bad.append((e.why, s.pc))
    each = Each(m, fn, check=one, inv=lambda x: le(x, cnt))
    n = 0
    for s1, (err,) in m.call_fn(fn, [d, topic_arg(v)], st, merge=False):
        n += 1

        def chk(s):
            if bad:
                raise Mismatch(*bad[0])
            er = m.force(s, err)
            ps = W.evs(s, 'part')
            lp = [e for e in s.ev if e[0] == 'loop']
            need(s.pc, eq(S.pos(s), head.len), '%r bytes are consumed before the partitions instead of %r' % (S.pos(s), head.len))
            if ps:
                judge1(s, ps[-1])
                need(s.pc, not_(ps[-1][4].nil), 'the partitions after one are skipped')
                need(s.pc, not_(er.nil), 'the error of a partition is swallowed')
            elif lp:
                need(s.pc, eq(lp[-1][1], cnt), 'not every partition is decoded')
                need(s.pc, er.nil, 'an error although every partition was decoded')
            else:
                need(s.pc, eq(cnt, I(0)), 'the partitions are skipped')
        c.post('ensures: every partition of a topic is decoded once, in order', s1, chk, fn)
    return n


def topic_arg(v):
    return v


def stream_job(c):
    """ensures: after the head every topic is decoded once, in order; an error is sent once to the channel, unless a context is done; what is left of the frame is read"""
    from havoc import Each
    m = c.m
    st = State()
    fn = D + 'streamDecode'
    d = decoder(m, st)
    ctx = m.force(st, Ghost(m.p.funcs[fn]['params'][1]['t'], 'ctx'))
    st.assume(not_(ctx.nil))
    start = app('start', (), -2**63, 2**63 - 1)
    cnt = app('topics', (), 0, 2**31 - 1)
    v = m.force(st, getf(m, st, d, 'version'))
    bad = []

    def dh(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'header.err')
        W.ev(st, 'header', m.force(st, a[1]), e)
        setf(m, st, d, 'responsesCount', cnt)
        return (e,)
    m.contracts[D + 'decodeHeader'] = dh

    def dr(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'topic.err')
        W.ev(st, 'topic', m.force(st, a[1]), m.force(st, getf(m, st, d, 'startOffset')), e)
        setf(m, st, d, 'hasOneMessage', bapp('has', (I(len(st.ev)),)))
        return (e,)
    m.contracts[D + 'decodeResponses'] = dr
    m.contracts[D + 'readAll'] = W.record('drain', lambda m, st, a: (app('drained', (I(len(st.ev)),), 0, 2**40), W.ghost_err(m, st, 'drain.err')))

    def judge1(s, e):
        need(s.pc, eq(e[1], v), 'a topic is decoded for version %r' % (e[1],))
        need(s.pc, eq(e[2], start), 'the start offset is not set')

    def one(s, x, evs):
        try:
            ps = [e for e in evs if e[0] == 'topic']
            if len(ps) != 1:
                raise Mismatch('a topic is decoded %d times' % len(ps), s.pc)
            judge1(s, ps[0])
            need(s.pc, ps[0][3].nil, 'decoding goes on after an error')
            if [e for e in evs if e[0] == 'send']:
                raise Mismatch('something is sent without an error', s.pc)
        except Mismatch as e:
            bad.append((e.why, s.pc))
    each = Each(m, fn, check=one, inv=lambda x: le(x, cnt), allowed=[field_havoc(d, 'hasOneMessage')])
    n = 0
    for s1, (err,) in m.call_fn(fn, [d, ctx, start], st, merge=False):
        n += 1

        def chk(s):
            if bad:
                raise Mismatch(*bad[0])
            er = m.force(s, err)
            hd, tp, sends, dr, lp = [W.evs(s, k) for k in ('header', 'topic', 'send', 'drain', 'loop')]
            if len(hd) != 1:
                raise Mismatch('the head is decoded %d times' % len(hd), s.pc)
            need(s.pc, eq(hd[0][1], v), 'the head is decoded for version %r' % (hd[0][1],))
            if prove(s.pc, not_(hd[0][2].nil)):
                need(s.pc, not_(er.nil), 'a failed head is not reported')
                if tp or sends:
                    raise Mismatch('decoding goes on after a failed head', s.pc)
                return
            if not dr:
                raise Mismatch('what is left of the frame is not read', s.pc)
            last = max(i for i, e in enumerate(s.ev) if e[0] in ('topic', 'header'))
            if max(i for i, e in enumerate(s.ev) if e[0] == 'drain') < last:
                raise Mismatch('the rest of the frame is read too early', s.pc)
            done = [e for e in s.ev if e[0] == 'recv' and e[1].endswith('.Done')]
            if tp:
                judge1(s, tp[-1])
                need(s.pc, not_(tp[-1][3].nil), 'the topics after one are skipped')
                if done:
                    if sends:
                        raise Mismatch('sent although a context is done', s.pc)
                    return
                if len(sends) != 1 or sends[0][1] != 'd.messages':
                    raise Mismatch('the error is not sent once', s.pc)
                f = deref(m, s, m.force(s, sends[0][2]))
                need(s.pc, m.force(s, getf(m, s, f, 'Message')).nil, 'a message with the error')
                if W.key(m.force(s, getf(m, s, f, 'Error'))) != W.key(tp[-1][3]):
                    raise Mismatch('another error is sent', s.pc)
            else:
                if sends:
                    raise Mismatch('something is sent without an error', s.pc)
                if lp:
                    need(s.pc, eq(lp[-1][1], cnt), 'not every topic is decoded')
                else:
                    need(s.pc, eq(cnt, I(0)), 'the topics are skipped')
        c.post('ensures: every topic is decoded once, in order, an error is sent once, the frame is read to its end', s1, chk, fn)
    return n


def set_job(c):
    """ensures: while a message set is decoded the decoder reads from its bytes only; each batch goes, with its head, to the decoder of its version;
    afterwards the rest of the set is read and the decoder reads from the frame again"""
    from havoc import Each
    m = c.m
    st = State()
    fn = D + 'decodeMessageSet'
    d = decoder(m, st)
    topic, part = satom('topic', (), 32767), app('partition', (), -2**31, 2**31 - 1)
    size = app('size', (), 1, 2**31 - 1)
    buffers = m.force(st, getf(m, st, d, 'buffers'))
    st.assume(not_(buffers.nil))
    import broker_
    broker_.errors_model(m)
    m.contracts['errors.Is'] = errors_is
    bad = []

    def limited(s):
        r = m.force(s, getf(m, s, d, 'buffers'))
        if isinstance(r, IfaceV) and isinstance(r.t, int) and m.p.name(r.t) == '*io.LimitedReader':
            lr = m.force(s, r.v)
            return W.key(m.force(s, getf(m, s, lr, 'R'))) == W.key(buffers)
        return False

    def rd(m, fr, st, a, ins):
        n = m.force(st, a[1])
        s2 = st.copy()
        if not limited(st):
            raise Unsupported('the end of the message set is kept in another way')
        data = satom('head', (I(len(st.ev)),), 2**31)
        st.assume(eq(data.len, n))
        b = m.new_bytes(st, data)
        W.ev(st, 'read', n, data, None)
        e = W.ghost_err(m, s2, 'read.err')
        s2.assume(not_(e.nil))
        k = app('read.n', (I(len(s2.ev)),), 0, 2**40)
        s2.assume(lt(k, n))
        W.ev(s2, 'read', n, None, e)
        junk = m.new_bytes(s2, satom('junk', (I(len(s2.ev)),), 2**40))
        s2.assume(eq(junk.len, n))
        return [(st, (b, n, IfaceV(TRUE, None, None))), (s2, (junk, k, e))]
    m.contracts[D + 'read'] = rd

    def dec(kind, hi):
        def h(m, fr, st, a, ins):
            e = W.ghost_err(m, st, 'batch.err')
            W.ev(st, 'batch', kind, a[1], m.force(st, a[2]), m.content(st, m.force(st, a[hi])), e)
            setf(m, st, d, 'hasOneMessage', bapp('has', (I(len(st.ev)),)))
            return (app('batch.n', (I(len(st.ev)),), 0, 2**32), e)
        return h
    m.contracts[D + 'decodeMessageSetMagic0or1'] = dec(0, 4)
    m.contracts[MAGIC2] = dec(2, 3)
    m.contracts[D + 'readAll'] = lambda m, fr, st, a, ins: (W.ev(st, 'drain', limited(st)), (app('drained', (I(len(st.ev)),), 0, 2**40), W.ghost_err(m, st, 'drain.err')))[1]

    def judge1(s, evs):
        rs, bs = [e for e in evs if e[0] == 'read'], [e for e in evs if e[0] == 'batch']
        if not rs or rs[-1][3] is not None:
            if bs:
                raise Mismatch('a batch is decoded without its head', s.pc)
            return None
        if len(rs) != 1 or not prove(s.pc, eq(rs[0][1], I(17))):
            raise Unsupported('the head of a batch is read in another way')
        if not bs:
            return None
        if len(bs) != 1:
            raise Mismatch('a batch is decoded %d times' % len(bs), s.pc)
        b = bs[0]
        seq_eq(b[4], rs[0][2], s.pc)
        seq_eq(m.force(s, b[2]), topic, s.pc)
        need(s.pc, eq(b[3], part), 'partition')
        from seqops import be_value
        mg = be_value(slice_seq(rs[0][2], I(16), I(1), s.pc), s.pc)
        need(s.pc, lt(mg, I(2)) if b[1] == 0 else le(I(2), mg), 'a batch goes to the decoder of another version')
        return b

    def one(s, x, evs):
        try:
            b = judge1(s, evs)
            if b is None:
                raise Mismatch('a batch is skipped', s.pc)
            need(s.pc, b[5].nil, 'decoding goes on after an error')
        except Mismatch as e:
            bad.append((e.why, s.pc))
    each = Each(m, fn, check=one, loose=True, allowed=[field_havoc(d, 'hasOneMessage')])
    n = 0
    for s1, (err,) in m.call_fn(fn, [d, topic, part, size, I(10)], st, merge=False):
        n += 1

        def chk(s):
            if bad:
                raise Mismatch(*bad[0])
            er = m.force(s, err)
            dr = [i for i, e in enumerate(s.ev) if e[0] == 'drain']
            if not dr or dr[-1] < max([i for i, e in enumerate(s.ev) if e[0] in ('read', 'batch')] + [-1]):
                raise Mismatch('the rest of the message set is not read', s.pc)
            if not s.ev[dr[-1]][1]:
                raise Mismatch('more than the rest of the message set is read', s.pc)
            if W.key(m.force(s, getf(m, s, d, 'buffers'))) != W.key(buffers):
                raise Mismatch('afterwards the decoder does not read from the frame', s.pc)
            lp = [i for i, e in enumerate(s.ev) if e[0] == 'loop']
            if not lp:
                raise Unsupported('no loop over the batches')
            b = judge1(s, s.ev[lp[-1] + 1:])
            has = m.force(s, getf(m, s, d, 'hasOneMessage'))
            if b is not None:
                need(s.pc, not_(b[5].nil), 'the batches after one are skipped')
            need(s.pc, or_(has, not_(er.nil)), 'no error although no record was found')
            rs = [e for e in s.ev[lp[-1] + 1:] if e[0] == 'read']
            cause = b[5] if b is not None else rs[-1][3] if rs else None
            if cause is None:
                need(s.pc, or_(not_(has), er.nil), 'an error although every batch was decoded')
                return
            ran = []
            for g in ('io.EOF', 'io.ErrUnexpectedEOF'):
                eq_, is_ = [bapp('%s$%s$%s' % (k, g, cause.v.path), cause.v.args) for k in ('eq', 'is')]
                s.assume(or_(not_(eq_), is_))
                ran.append(is_)
            need(s.pc, or_(not_(has), not_(or_(*ran)), er.nil), 'an error although records were found before the bytes ran out')
        c.post('ensures: every batch of a message set is decoded, within its bytes', s1, chk, fn)
    return n




# ---------------------------------------------------------------- decompression (the codecs are assumed)
def unc_job(codec):
    """ensures: the result is what the codec's reader yields for the bytes of the argument; an error of the codec is returned"""
    def body(c):
        m = c.m
        st = State()
        rd = m.force(st, Ghost(m.p.funcs[UNC]['params'][1]['t'], 'reader'))
        st.assume(not_(rd.nil))
        m.conc = True

        def who(st, v):
            v = m.force(st, v)
            if isinstance(v, IfaceV):
                if isinstance(v.v, Ghost):
                    return v.v.path.rstrip('!')
                return who(st, v.v)
            if isinstance(v, PtrV):
                x = st.heap.get(v.tgt[0])
                if isinstance(x, OpaqueV) and x.kind == 'codec':
                    return x['name']
            return repr(v)

        def ctor(name, fn):
            def h(m, fr, st, a, ins):
                ts = ins['t']
                tt = m.p.types[ts] if isinstance(ts, int) else None
                o = m.alloc(st, OpaqueV('codec', name='%s(%s)' % (name, who(st, a[0]))))
                p = PtrV(FALSE, (o, ()))
                if tt and tt['k'] == 'tuple':
                    e = W.ghost_err(m, st, name + '.err')
                    W.ev(st, 'err', e)
                    return (p, e)
                return (p,)
            return h
        m.contracts['compress/gzip.NewReader'] = ctor('gzip', None)
        m.contracts['github.com/pierrec/lz4/v4.NewReader'] = ctor('lz4', None)
        m.contracts['gzip.NewReader'] = ctor('gzip', None)
        m.contracts['lz4.NewReader'] = ctor('lz4', None)

        def readall(m, fr, st, a, ins):
            e = W.ghost_err(m, st, 'readall.err')
            k = who(st, a[0])
            W.ev(st, 'err', e)
            W.ev(st, 'all', k)
            return (m.new_bytes(st, satom('all:' + k, (), 2**40)), e)
        m.contracts['io.ReadAll'] = readall

        def snappy(m, fr, st, a, ins):
            e = W.ghost_err(m, st, 'snappy.err')
            W.ev(st, 'err', e)
            b = m.content(st, m.force(st, a[0]))
            W.ev(st, 'snappy', b)
            return (m.new_bytes(st, satom('snappyout', (), 2**40)), e)
        for n in m.p.externs if hasattr(m.p, 'externs') else ():
            pass
        m.contracts['github.com/eapache/go-xerial-snappy.Decode'] = snappy
        k = I(codec) if codec is not None else app('codec', (), 4, 127)
        n = 0
        for s1, (res, err) in m.call_fn(UNC, [k, rd], st, merge=False):
            n += 1

            def chk(s):
                er = m.force(s, err)
                if codec is None:
                    need(s.pc, not_(er.nil), 'an unknown codec is accepted')
                    return
                errs = [e[1] for e in W.evs(s, 'err')]
                if not prove(s.pc, er.nil):
                    need(s.pc, or_(*[not_(e.nil) for e in errs]), 'an error although none happened')
                    return
                for e in errs:
                    k = 'eq$io.EOF$%s' % e.v.path
                    need(s.pc, or_(e.nil, bapp(k, e.v.args)), 'an error of the codec is swallowed')
                got = m.content(s, m.force(s, res))
                if codec == 2:
                    sn = W.evs(s, 'snappy')
                    if len(sn) != 1:
                        raise Mismatch('snappy is applied %d times' % len(sn), s.pc)
                    seq_eq(sn[0][1], satom('all:reader', (), 2**40), s.pc)
                    seq_eq(got, satom('snappyout', (), 2**40), s.pc)
                else:
                    seq_eq(got, satom('all:' + {0: 'reader', 1: 'gzip(reader)', 3: 'lz4(reader)'}[codec], (), 2**40), s.pc)
            c.post('ensures: codec %s is undone by its own decompressor over all the bytes' % codec, s1, chk, UNC)
        return n
    return body


MSET = 'DecodeToMessageSet'


def mset_job(magic):
    """requires: payload is a sequence of whole uncompressed messages; ensures: exactly these messages, in order"""
    def body(c):
        m = c.m
        st = State()
        fields = [('Offset', I64), ('MessageSize', I32), ('Crc', Int(4, False)), (None, Const(bytes([magic]))), (None, Const(b'\0'))]
        if magic:
            fields.append(('Timestamp', Int(8, False)))
        fields += [('Key', Str('i32', 'yes')), ('Value', Str('i32', 'yes'))]
        s, e = Array('i32', Struct(*fields)).wire(c, 'M', ())
        _, s = split_at(s, I(4), [])
        pl = m.new_bytes(st, s)
        n = 0
        for s1, (res, err) in m.call_fn(MSET, [pl], st):
            n += 1

            def chk(s2):
                need(s2.pc, m.force(s2, err).nil, 'an error for whole messages')
                match(m, s2, e, res, 'messages')
            c.post('ensures: whole messages of magic %d are decoded to what was sent' % magic, s1, chk, MSET)
        return n
    return body


MAGIC01 = D + 'decodeMessageSetMagic0or1'


def magic01_job(c):
    """ensures: each message (header, then as many bytes as it says) is decoded once, whole; every message that results is offered once, in order;
    decoding stops only at the end of the bytes, at an error, or at an empty set"""
    from havoc import Each
    from seqops import be_value
    m = c.m
    st = State()
    d = decoder(m, st)
    topic, part = satom('topic', (), 32767), app('partition', (), -2**31, 2**31 - 1)
    h17 = satom('h17', (), 17)
    st.assume(eq(h17.len, I(17)))
    H = m.new_bytes(st, h17)
    S = stream_of(m, st, satom('S', (), 2**62))
    reads(m, d, S)
    rd0, rf0 = m.contracts[D + 'read'], m.contracts['io.ReadFull']

    def rd(m, fr, st, a, ins):
        out = rd0(m, fr, st, a, ins)
        s, (b, n, e) = out[0]
        s.ev[-1] = ('read', n, m.content(s, b))
        return out

    def rf(m, fr, st, a, ins):
        out = rf0(m, fr, st, a, ins)
        s, (n, e) = out[0]
        W.ev(s, 'full', m.content(s, m.force(s, a[1])))
        return out
    m.contracts[D + 'read'], m.contracts['io.ReadFull'] = rd, rf
    put_contract(m, d)
    ms = m.p.funcs[MSET]['results'][0]['t']

    def dec(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'decode.err')
        g = m.force(st, Ghost(ms, 'set!%d' % len(st.ev)))
        W.ev(st, 'decode', m.content(st, m.force(st, a[0])), g, e)
        return (g, e)
    m.contracts[MSET] = dec
    bad = []
    loops_ = m.p.loops(MAGIC01)

    def nested(header, body):
        return any(h != header and h in body for h in loops_)

    def guard(f):
        def g(s, x, evs):
            try:
                f(s, x, evs)
            except Mismatch as e:
                bad.append((e.why, s.pc))
        return g

    def judge_put(s, x, p):
        de = [e for e in s.ev if e[0] == 'decode'][-1]
        want = m.force(s, elem_at(m, s, de[2], x))
        if not same_ptr(deref(m, s, p[1]), want):
            raise Mismatch('message %r of the set is offered out of order: %r, %r' % (x, p[1], want), s.pc)
        seq_eq(m.force(s, p[2]), topic, s.pc)
        need(s.pc, eq(m.force(s, p[3]), part), 'partition')

    def inner(s, x, evs):
        puts = [e for e in evs if e[0] == 'put']
        if len(puts) != 1:
            raise Mismatch('a message is offered %d times' % len(puts), s.pc)
        judge_put(s, x, puts[0])
        need(s.pc, puts[0][4].nil, 'decoding goes on after an error')

    def decoded(s, evs):
        rs, fs, ds = [[e for e in evs if e[0] == k] for k in ('read', 'full', 'decode')]
        if not ds:
            return None
        if len(ds) != 1 or len(fs) != 1 or len(rs) > 1:
            raise Unsupported('messages are read in another way')
        head = rs[0][2] if rs else h17
        seq_eq(ds[0][1], sq(head, fs[0][1]), s.pc)
        size = be_value(slice_seq(head, I(8), I(4), s.pc), s.pc)
        need(s.pc, eq(ds[0][1].len, size + 12), 'the message has %r bytes instead of %r' % (ds[0][1].len, size + 12))
        return ds[0]

    def complete(s, de, evs):
        lp = [e for e in evs if e[0] == 'loop']
        if not lp:
            raise Mismatch('the messages are not offered', s.pc)
        need(s.pc, eq(lp[-1][1], de[2].len), 'not every message is offered')

    def outer(s, x, evs):
        de = decoded(s, evs)
        if de is None:
            raise Mismatch('a message is skipped', s.pc)
        need(s.pc, de[3].nil, 'decoding goes on after an error')
        complete(s, de, evs)
    has = field_havoc(d, 'hasOneMessage')
    ein = Each(m, MAGIC01, check=guard(inner), allowed=[has], want=lambda m, fr, st, h, b: not nested(h, b))
    ein.inv2 = lambda s, x: le(x, [e for e in s.ev if e[0] == 'decode'][-1][2].len)
    Each(m, MAGIC01, check=guard(outer), allowed=[has], loose=True, want=lambda m, fr, st, h, b: nested(h, b))
    n = 0
    for s1, (off, err) in m.call_fn(MAGIC01, [d, topic, part, app('magic', (), 0, 1), H], st, merge=False):
        n += 1

        def chk(s):
            if bad:
                raise Mismatch(*bad[0])
            er = m.force(s, err)
            lp = [i for i, e in enumerate(s.ev) if e[0] == 'loop']
            if not lp:
                raise Unsupported('no loop over the messages')
            ds = [i for i, e in enumerate(s.ev) if e[0] == 'decode']
            if not ds:
                return
            outer_i = max(i for i in lp if i < ds[-1])
            evs = s.ev[outer_i + 1:]
            de = decoded(s, evs)
            puts = [e for e in evs if e[0] == 'put']
            if puts:
                judge_put(s, s.ev[lp[-1]][1], puts[-1])
                need(s.pc, not_(puts[-1][4].nil), 'the messages after one are skipped')
                need(s.pc, not_(er.nil), 'an error of the consumer is swallowed')
            elif not prove(s.pc, de[3].nil):
                need(s.pc, not_(de[3].nil), 'the messages after one are skipped')
                need(s.pc, not_(er.nil), 'an error of a message is swallowed')
            else:
                need(s.pc, eq(de[2].len, I(0)), 'decoding stops after a message')
        c.post('ensures: every message of magic 0 or 1 is decoded whole and offered once, in order', s1, chk, MAGIC01)
    return n


def elem_at(m, s, sl, x):
    from settings import elem
    return elem(m, s, sl, x)


def same_ptr(a, b):
    from machine import vsame
    return vsame(a, b)


def unroll(m, want, most=3):
    """loops that end after a known number of iterations are run, not generalised"""
    def rule(m, fr, st0, header, pred, body):
        if not want(m, fr, st0, header, body):
            return NotImplemented
        blk = m.p.funcs[fr.fn]['blocks'][header]
        res, todo = [], [(fr, st0, pred)]
        for _ in range(most):
            nxt = []
            for f, s, p in todo:
                f2 = f.copy()
                f2.regs.update(m.phis(f, s, blk, p))
                for o in m.run(f2, s.copy(), header, None, {}, (header, body)):
                    if o[0] != 'back':
                        res.append(o)
                    elif solver.sat(o[2].pc):
                        nxt.append((o[1], o[2], o[3]))
            todo = nxt
        if todo:
            raise Unsupported('a loop that goes on')
        return res
    m.loop_rules.append(rule)


def wrapped_job(magic):
    """requires: payload is one whole message whose value is compressed; ensures: exactly the messages of the decompressed value, in order;
    with magic 1 their offsets are shifted so that the last has the offset of the wrapper; an error of the codec or of the value is reported"""
    def body(c):
        from havoc import Each
        from builders import live, same
        from routing import calls
        n = 0
        for attr in (1, 2, 3, 9, 11):
            m = c.m
            m.loop_rules[:] = []
            st = State()
            fields = [('Offset', I64), ('MessageSize', I32), ('Crc', Int(4, False)), (None, Const(bytes([magic]))), (None, Const(bytes([attr])))]
            if magic:
                fields.append(('Timestamp', Int(8, False)))
            fields += [('Key', Str('i32', 'yes')), ('Value', Str('i32', 'no'))]
            s, e = Struct(*fields).wire(c, 'M', ())
            pl = m.new_bytes(st, s)
            ms = m.p.funcs[MSET]['results'][0]['t']

            def newreader(m, fr, st, a, ins):
                return (PtrV(FALSE, (m.alloc(st, OpaqueV('bytes', s=m.content(st, m.force(st, a[0])))), ())),)
            m.contracts['bytes.NewReader'] = m.intr['bytes.NewReader'] = newreader

            def unc(m, fr, st, a, ins):
                """contract of uncompress (unc_job)"""
                r = m.force(st, a[1])
                r = m.force(st, r.v) if isinstance(r, IfaceV) else r
                o = st.heap.get(r.tgt[0]) if isinstance(r, PtrV) and r.tgt else None
                if not isinstance(o, OpaqueV) or o.kind != 'bytes':
                    raise Unsupported('another reader')
                er = W.ghost_err(m, st, 'codec.err')
                W.ev(st, 'uncompress', m.force(st, a[0]), o['s'], er)
                return (m.new_bytes(st, satom('plain', (), 2**40)), er)
            m.contracts[UNC] = unc
            m.nonnil |= {'inner[]'}
            live(m, 'inner[]')

            def dec(m, fr, st, a, ins):
                """contract of DecodeToMessageSet (mset_job)"""
                er = W.ghost_err(m, st, 'decode.err')
                g = m.force(st, Ghost(ms, 'inner'))
                W.ev(st, 'decode', m.content(st, m.force(st, a[0])), g, er)
                return (g, er)
            m.contracts[MSET] = dec
            mt = m.p.byname['Message']
            orig = lambda s, x: m.force(s, Ghost(mt, 'inner[]*', (x,)))
            ef = dict(e.f)
            off = ef['Offset'].v

            def shifted(s, x, evs):
                l = W.evs(s, 'decode')[-1][2]
                p = m.force(s, elem_at(m, s, l, x))
                o, w = m.force(s, deref(m, s, p)), orig(s, x)
                d = off - m.force(s, getf(m, s, orig(s, l.len - 1), 'Offset')) if magic else I(0)
                r = l.len - 1 - x
                if not prove(s.pc, eq(r, x)) and not prove(s.pc, eq(m.force(s, getf(m, s, deref(m, s, m.force(s, elem_at(m, s, l, r))), 'Offset')), m.force(s, getf(m, s, orig(s, r), 'Offset')))):
                    raise Unsupported('the messages are visited in another order')
                need(s.pc, eq(m.force(s, getf(m, s, o, 'Offset')), m.force(s, getf(m, s, w, 'Offset')) + d), 'the offset of a compressed message')
                for f in m.p.fields(mt):
                    if f['n'] != 'Offset':
                        same(m, s, getf(m, s, o, f['n']), getf(m, s, w, f['n']), f['n'])
            E = Each(m, None, check=shifted, want=lambda m, fr, st0, h, body: not calls(m, fr, body, MSET))
            unroll(m, lambda m, fr, st0, h, body: fr.fn == MSET and calls(m, fr, body, MSET))
            for s1, (res, err) in m.call_fn(MSET, [pl], st, merge=False):
                n += 1

                def chk(s):
                    er = m.force(s, err)
                    uc, de = W.evs(s, 'uncompress'), W.evs(s, 'decode')
                    if len(uc) != 1 or len(de) > 1:
                        raise Mismatch('uncompressed %d times, decoded %d times' % (len(uc), len(de)), s.pc)
                    need(s.pc, eq(uc[0][1], I(attr & 7)), 'another codec')
                    seq_eq(uc[0][2], ef['Value'].s, s.pc)
                    if not prove(s.pc, er.nil):
                        need(s.pc, or_(*[not_(x[3].nil) for x in uc + de]), 'an error although none happened')
                        return
                    for x in uc + de:
                        need(s.pc, x[3].nil, 'an error is swallowed')
                    if not de:
                        raise Mismatch('the value is not decoded', s.pc)
                    seq_eq(de[0][1], satom('plain', (), 2**40), s.pc)
                    l = de[0][2]
                    r = m.force(s, res)
                    need(s.pc, eq(r.len, l.len), 'another number of messages')
                    lp = [x for x in s.ev if x[0] == 'loop']
                    if magic and not lp and not prove(s.pc, eq(l.len, I(0))):
                        raise Unsupported('the offsets are set in another way')
                    if magic and lp:
                        need(s.pc, le(l.len, lp[-1][1]), 'a message keeps its relative offset')
                    j = app('any:j', (), 0, 2**40)
                    s2 = s.copy()
                    s2.assume(lt(j, l.len))
                    if not solver.sat(s2.pc):
                        return
                    if not same_ptr(m.force(s2, elem_at(m, s2, r, j)), m.force(s2, elem_at(m, s2, l, j))):
                        raise Mismatch('another message', s.pc)
                c.post('ensures: the messages inside a compressed message of magic %d, attributes %d' % (magic, attr), s1, chk, MSET)
        return n
    return body
