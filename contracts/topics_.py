"""C09: a Consumer of several topics (consumer.go): which partitions it consumes, from which end, into which channel."""
from consumer_ import *

CC = '(*Consumer).Consume'
NSC = 'NewSimpleConsumerWithBrokers'
GCO = SC + 'getCoordinator'
SCC = SC + 'Consume'
RMD = '(*Brokers).RequestMetaData'


def new_contract(m):
    """contract of NewSimpleConsumerWithBrokers (new_simple_job)"""
    def nsc(m, fr, st, a, ins):
        o = m.alloc(st, m.zero(m.p.byname['SimpleConsumer']))
        p = PtrV(FALSE, (o, ()))
        W.ev(st, 'new', m.force(st, a[0]), m.force(st, a[1]), m.force(st, a[2]), m.force(st, a[3]), p)
        return (p,)
    m.contracts[NSC] = nsc


def consume_job(c):
    """ensures: one consumer for each partition the consumer was assigned, or for every partition of a topic without a list, in the order of the answer;
    all of them are started, once each, at the configured end of the log, with the caller's channel; a closed consumer starts none"""
    m = c.m
    st = State()
    W.conc(m)
    BR.errors_model(m)
    m.nonnil |= {'c.brokers'}
    cn = recv_of(m, st, 'Consumer', 'c')
    new_contract(m)
    rt = m.p.funcs[RMD]['results'][0]['t']

    def rmd(m, fr, st, a, ins):
        """contract of Brokers.RequestMetaData (C14)"""
        e = W.ghost_err(m, st, 'md.err')
        path = 'md!%d' % len(st.ev)
        m.nonnil |= {path + '.TopicMetadatas[]', path + '.TopicMetadatas[].PartitionMetadatas[]'}
        r = m.force(st, Ghost(rt, path))
        W.ev(st, 'metadata', [m.force(st, x) for x in a], r, e)
        return (r, e)
    m.contracts[RMD] = rmd

    def gco(m, fr, st, a, ins):
        """contract of SimpleConsumer.getCoordinator (C14)"""
        return (W.ghost_err(m, st, 'co.err'),)
    m.contracts[GCO] = gco
    st0 = st.copy()
    cur = {}
    lt_ = next(f['t'] for f in m.p.fields(m.p.byname['Consumer']) if f['n'] == 'simpleConsumers')

    def hv(m, st):
        if 'l' not in cur:
            cur['l'] = m.force(st, Ghost(lt_, 'consumers.so.far', (I(0),)))
        setf(m, st, cn, 'simpleConsumers', cur['l'])

    def answer(s):
        d = W.evs(s, 'metadata')
        if not d:
            raise Mismatch('goes on without an answer', s.pc)
        return at(m, s, d[-1][2], ['TopicMetadatas'])

    def wanted(s, i):
        """(number of partitions of entry i of the answer, the x-th of them)"""
        t = elem(m, s, answer(s), i)
        mp = at(m, s, cn, ['assign'])
        u = m.p.u(next(f['t'] for f in m.p.fields(m.p.byname['Consumer']) if f['n'] == 'assign'))
        l, ok = m.map_get(s, mp, at(m, s, t, ['TopicName']), u)
        l = m.force(s, l)
        given = and_(ok, lt(I(0), l.len))
        if holds(s, given):
            return l.len, lambda x: m.force(s, elem_(m, s, l, x))
        if prove(s.pc, not_(given)):
            pm = at(m, s, t, ['PartitionMetadatas'])
            return pm.len, lambda x: at(m, s, elem(m, s, pm, x), ['PartitionID'])
        raise Mismatch('it is not asked whether partitions of the topic were assigned', s.pc)

    outer = {}

    def inner_check(s, x, evs):
        nw = [e for e in evs if e[0] == 'new']
        if len(nw) != 1:
            raise Mismatch('%d consumers for a partition' % len(nw), s.pc)
        t, pid, cfg, bs, p = nw[0][1:6]
        n, part = wanted(s, outer['i'])
        seq_eq(t, at(m, s, elem(m, s, answer(s), outer['i']), ['TopicName']), s.pc)
        v = part(x)
        s.assume(and_(le(I(-2**31), v), lt(v, I(2**31))))
        need(s.pc, eq(pid, v), 'another partition')
        from machine import vsame
        if not vsame(cfg, at(m, s, cn, ['config'])) or W.key(bs) != W.key(at(m, s, cn, ['brokers'])):
            raise Mismatch('another configuration', s.pc)
        need(s.pc, not_(at(m, s, p, ['wg']).nil), 'nobody waits for the consumer')
        need(s.pc, at(m, s, p, ['belongTO']).nil, 'a consumer of a group')
        l = at(m, s, cn, ['simpleConsumers'])
        need(s.pc, eq(l.len, cur['l'].len + 1), 'not one consumer more')
        if not same_ptr(m.force(s, elem_(m, s, l, cur['l'].len)), p):
            raise Mismatch('another consumer is kept', s.pc)
        j = app('any:j', (), 0, 2**40)
        s2 = s.copy()
        s2.assume(lt(j, cur['l'].len))
        if not same_ptr(m.force(s2, elem_(m, s2, l, j)), m.force(s2, elem_(m, s2, cur['l'], j))):
            raise Mismatch('an earlier consumer is lost', s.pc)

    def builds(m, fr, body):
        return calls(m, fr, body, NSC)

    def is_inner(m, fr, st0, header, body):
        if m.iter is None or not outer['E'].active or not builds(m, fr, body):
            return False
        outer['i'] = m.iter
        return True

    def outer_check(s, x, evs):
        lp = [e for e in evs if e[0] == 'loop' and e[1] in outer['xs']]
        if not lp or any(e[0] == 'new' for e in evs[:evs.index(lp[-1])]):
            raise Mismatch('the partitions are not visited one by one', s.pc)
        n, _ = wanted(s, x)
        need(s.pc, le(n, lp[-1][1]), 'a partition is left out')

    def entry(s, x):
        if x.const() == 0:
            need(s.pc, eq(at(m, s, cn, ['simpleConsumers']).len, I(0)), 'consumers of an earlier call are kept')
        return TRUE
    outer['xs'], outer['xs0'], outer['xz'] = [], [], []
    R = Each(m, None, want=lambda m, fr, st, h, body: calls(m, fr, body, RMD) and not builds(m, fr, body) and not calls(m, fr, body, GCO),
             check=lambda s, x, evs: ask_check(s, evs, True), loose=True)

    def ask_check(s, evs, failed):
        d = [e for e in evs if e[0] == 'metadata']
        if len(d) != 1:
            raise Mismatch('%d lookups' % len(d), s.pc)
        a, r, e = d[0][1:4]
        if W.key(a[0]) != W.key(at(m, s, cn, ['brokers'])):
            raise Mismatch('another cluster is asked', s.pc)
        seq_eq(a[1], at(m, s, cn, ['config', 'ClientID']), s.pc)
        mp = at(m, s, cn, ['assign'])
        n, ent = m.map_entries(s, mp)
        need(s.pc, eq(a[2].len, n), 'asks for another number of topics')
        if ent:
            k = app('any:k', (), 0, 2**40)
            s2 = s.copy()
            s2.assume(lt(k, n))
            seq_eq(m.force(s2, elem_(m, s2, a[2], k)), m.force(s2, ent(k)[0]), s2.pc)
        need(s.pc, e.nil if not failed else not_(e.nil), 'goes on after an answer' if failed else 'goes on with an answer that failed')
    E = outer['E'] = Each(m, CC, allowed=[hv], check=outer_check, want=lambda m, fr, st, h, body: m.iter is None and builds(m, fr, body))
    E.inv2 = entry
    E.more = lambda s, x: outer['xs0'].append(x)
    I2 = Each(m, None, allowed=[hv], check=inner_check, want=is_inner)
    I2.more = lambda s, x: outer['xs'].append(x)
    G = Each(m, None, check=lambda s, x, evs: None, loose=True, want=lambda m, fr, st, h, body: m.iter is not None and calls(m, fr, body, GCO) and not builds(m, fr, body))
    out = {}

    def start(m, fr, st, a, ins):
        """contract of SimpleConsumer.Consume (consume_job of consumer_.py)"""
        W.ev(st, 'start', W.key(m.force(st, a[0])), m.force(st, a[1]), m.chan_key(st, m.force(st, a[2])))
        return (OpaqueV('chan', nil=FALSE, path='out.of.one'), m.force(st, m.zero(W.errt(m))))
    m.contracts[SCC] = start

    def start_check(s, x, evs):
        g = [e for e in evs if e[0] == 'start']
        if len(g) != 1:
            raise Mismatch('%d starts of a consumer' % len(g), s.pc)
        l = at(m, s, cn, ['simpleConsumers'])
        if g[0][1] != W.key(m.force(s, elem_(m, s, l, x))):
            raise Mismatch('another consumer is started', s.pc)
        need(s.pc, eq(g[0][2], ite(at(m, s, cn, ['config', 'FromBeginning']), I(-2), I(-1))), 'another end of the log')
        out.setdefault(g[0][3], 0)
        counts = [m.force(s, e[2]) for e in evs[:evs.index(g[0])] if e[0] == 'wg.Add']
        if not counts and any(e[0] == 'wg.Add' for e in s.ev):
            out['before'] = True        # counted before the loop
        elif len(counts) != 1:
            raise Mismatch('nobody waits for a consumer that was started', s.pc)
        else:
            need(s.pc, eq(counts[0], I(1)), 'not one consumer to wait for')
    Z = Each(m, None, check=start_check, want=lambda m, fr, st, h, body: calls(m, fr, body, SCC) and not builds(m, fr, body))
    Z.more = lambda s, x: outer['xz'].append(x)
    mc = OpaqueV('chan', nil=bapp('nochan', ()), path='out')
    n = 0
    for s1, (res, err) in m.call_fn(CC, [cn, mc], st, merge=False):
        n += 1

        def chk(s):
            same_fields(m, s, st0, cn, 'Consumer', 'simpleConsumers', 'wg')
            need(s.pc, m.force(s, err).nil, 'an error')
            if not any(e[0] == 'loop' and e[1] in outer['xs0'] for e in s.ev):
                need(s.pc, at(m, s, cn, ['closed']), 'nothing is consumed')
                return
            if not E.done or not Z.done:
                raise Unsupported('the partitions are taken over in another way')
            need(s.pc, not_(at(m, s, cn, ['closed'])), 'a closed consumer consumes')
            xo = [e for e in s.ev if e[0] == 'loop' and e[1] in outer['xs0']][-1][1]
            need(s.pc, le(answer(s).len, xo), 'a topic is left out')
            if s.ev[last_loop(s)][1] not in outer['xz']:
                raise Mismatch('the consumers are not started', s.pc)
            need(s.pc, le(at(m, s, cn, ['simpleConsumers']).len, s.ev[last_loop(s)][1]), 'a consumer is not started')
            if out.get('before'):
                a = [m.force(s, e[2]) for e in W.evs(s, 'wg.Add')]
                if len(a) != 1:
                    raise Mismatch('nobody waits for the consumers', s.pc)
                need(s.pc, eq(a[0], at(m, s, cn, ['simpleConsumers']).len), 'another number of consumers to wait for')
            o = m.chan_key(s, m.force(s, res))
            if holds(s, mc['nil']):
                if o == 'out':
                    raise Mismatch('no channel', s.pc)
            elif o != 'out':
                raise Mismatch('another channel is returned', s.pc)
            if o not in out:
                raise Mismatch('the consumers write to another channel', s.pc)
            j = s.ev.index(next(e for e in s.ev if e[0] == 'loop' and e[1] in outer['xs0']))
            i = max([k for k in range(j) if s.ev[k][0] == 'loop'] or [-1])
            ask_check(s, s.ev[i + 1:j], False)
        c.post('ensures: one consumer for every partition, started at the configured end', s1, chk, CC)
    return n


def topics_map(m, s, mp, topics, pc=None):
    """the map has exactly the topics as keys, each without a list of partitions"""
    from loops import entries
    mp = m.force(s, mp)
    if mp.obj is None or not isinstance(mp.obj, int):
        if prove(s.pc, eq(topics.len, I(0))):
            return
        raise Mismatch('the map is not made from the topics', s.pc)
    mc = m.force(s, s.heap[mp.obj])
    if isinstance(mc, Unk) or mc.base is not None:
        raise Unsupported('a map that is built in another way')
    l = entries(mc.upd)
    n = I(0)
    for q in l.p:
        n = n + plen(q)
    need(s.pc, eq(n, topics.len), 'another number of topics')
    k = app('any:k', (), 0, 2**40)
    s2 = s.copy()
    s2.assume(lt(k, n))
    if prove(s.pc, eq(n, I(0))):
        return
    from values import arr_get
    key, v = arr_get(l, k, s2.pc, None)
    seq_eq(m.force(s2, key), m.force(s2, elem_(m, s2, topics, k)), s2.pc)
    need(s2.pc, eq(m.force(s2, v).len, I(0)), 'partitions of a topic that was subscribed to')


def subscribe_job(c):
    """ensures: the topics of the consumer are exactly those given, with all of their partitions"""
    m = c.m
    st = State()
    cn = recv_of(m, st, 'Consumer', 'c')
    fn = '(*Consumer).Subscribe'
    ts = m.force(st, Ghost(m.p.funcs[fn]['params'][1]['t'], 'topics'))
    st0, n = st.copy(), 0
    for s1, _ in m.call_fn(fn, [cn, ts], st, merge=False):
        n += 1

        def chk(s):
            same_fields(m, s, st0, cn, 'Consumer', 'assign')
            topics_map(m, s, at(m, s, cn, ['assign']), ts)
        c.post('ensures: exactly the topics given', s1, chk, fn)
    return n


def assign_job(c):
    """ensures: the partitions of the consumer are those given"""
    m = c.m
    st = State()
    cn = recv_of(m, st, 'Consumer', 'c')
    fn = '(*Consumer).Assign'
    ps = m.force(st, Ghost(m.p.funcs[fn]['params'][1]['t'], 'parts'))
    st0, n = st.copy(), 0
    for s1, _ in m.call_fn(fn, [cn, ps], st, merge=False):
        n += 1

        def chk(s):
            same_fields(m, s, st0, cn, 'Consumer', 'assign')
            a = at(m, s, cn, ['assign'])
            if W.key(a) != W.key(ps):
                raise Unsupported('the partitions are copied')
        c.post('ensures: exactly the partitions given', s1, chk, fn)
    return n


def new_job(c):
    """ensures: a consumer made without an error has exactly the topics given, with all of their partitions"""
    m = c.m
    st = State()
    W.conc(m)
    BR.errors_model(m)
    fn = 'NewConsumer'
    for f, t in (('createConsumerConfig', 'cfg'), ('NewBrokersWithConfig', 'brokers')):
        def mk(m, fr, st, a, ins, f=f, t=t):
            return (m.force(st, Ghost(m.p.funcs[f]['results'][0]['t'], t)), W.ghost_err(m, st, t + '.err'))
        m.contracts[f] = mk
    m.contracts['getBrokerConfigFromConsumerConfig'] = lambda m, fr, st, a, ins: (m.force(st, Ghost(m.p.funcs['getBrokerConfigFromConsumerConfig']['results'][0]['t'], 'bc')),)
    args = [m.force(st, Ghost(p['t'], 'arg.' + p['n'])) for p in m.p.funcs[fn]['params']]
    n = 0
    for s1, (res, err) in m.call_fn(fn, args, st, merge=False):
        n += 1

        def chk(s):
            if isnil(m, s, m.force(s, err)):
                topics_map(m, s, at(m, s, m.force(s, res), ['assign']), args[1])
                need(s.pc, not_(at(m, s, m.force(s, res), ['closed'])), 'a closed consumer')
        c.post('ensures: exactly the topics given', s1, chk, fn)
    return n


def new_simple_job(c):
    """ensures: the consumer is of the topic, partition, configuration and brokers given, of no group and not stopped; with a group id its coordinator has been found"""
    m = c.m
    st = State()
    W.conc(m)
    BR.errors_model(m)
    fn = NSC
    args = [m.force(st, Ghost(p['t'], 'arg.' + p['n'])) for p in m.p.funcs[fn]['params']]
    st.assume(not_(args[3].nil))

    def rfp(m, fr, st, a, ins):
        """contract of refreshPartiton: it changes what is known of the partition only"""
        setf(m, st, m.force(st, a[0]), 'partition', m.force(st, Ghost(m.p.byname['PartitionMetadataInfo'], 'partition!%d' % len(st.ev))))
        return (W.ghost_err(m, st, 'rfp.err'),)
    m.contracts[SC + 'refreshPartiton'] = rfp

    def gco(m, fr, st, a, ins):
        """contract of SimpleConsumer.getCoordinator (C14)"""
        e = W.ghost_err(m, st, 'co.err')
        W.ev(st, 'coord', m.force(st, a[0]), e)
        return (e,)
    m.contracts[GCO] = gco
    G = Each(m, None, check=lambda s, x, evs: None, loose=True, want=lambda m, fr, st, h, body: calls(m, fr, body, GCO))
    n = 0
    for s1, (res,) in m.call_fn(fn, args, st, merge=False):
        n += 1

        def chk(s):
            from machine import vsame
            r = m.force(s, res)
            need(s.pc, not_(r.nil), 'nothing')
            seq_eq(at(m, s, r, ['topic']), args[0], s.pc)
            need(s.pc, eq(at(m, s, r, ['partitionID']), args[1]), 'another partition')
            if not vsame(at(m, s, r, ['config']), args[2]) or W.key(at(m, s, r, ['brokers'])) != W.key(args[3]):
                raise Mismatch('another configuration', s.pc)
            for f in ('belongTO', 'wg'):
                need(s.pc, at(m, s, r, [f]).nil, f)
            need(s.pc, not_(at(m, s, r, ['stop'])), 'a stopped consumer')
            need(s.pc, not_(at(m, s, r, ['ctx']).nil), 'a consumer that cannot be stopped')
            co = W.evs(s, 'coord')
            from seqops import seq_bool
            hasgroup = not_(seq_bool(at(m, s, args[2], ['GroupID']), sq()))
            if not co or not same_ptr(co[-1][1], r) or not holds(s, co[-1][2].nil):
                need(s.pc, not_(hasgroup), 'no coordinator for a group')
        c.post('ensures: a consumer of this partition', s1, chk, fn)
    return n


STP = SC + 'Stop'


def stop_simple_job(c):
    """ensures: the consumer is marked stopped and its context cancelled before its loop is waited for; its own connection is closed after that, and whoever waits for it is told once"""
    m = c.m
    st = State()
    cn = consumer(m, st, leader=False)
    m.contracts['cancel:own'] = W.record('cancel')
    setf(m, st, cn, 'cancel', ClosV('cancel:own'))
    m.contracts[BK + 'Close'] = W.record('Close')

    def wait(m, fr, st, a, ins):
        W.ev(st, 'wait', at(m, st, cn, ['stop']))
        return ()
    m.contracts['(*sync.WaitGroup).Wait'] = wait
    st0, n = st.copy(), 0
    for s1, _ in m.call_fn(STP, [cn], st, merge=False):
        n += 1

        def chk(s):
            same_fields(m, s, st0, cn, 'SimpleConsumer', 'stop')
            need(s.pc, at(m, s, cn, ['stop']), 'not stopped')
            o = [e[0] for e in s.ev]
            w = W.evs(s, 'wait')
            if 'cancel' not in o or not w or o.index('cancel') > o.index('wait'):
                raise Mismatch('the loop is not told to end and waited for: %r' % (o,), s.pc)
            need(s.pc, w[0][1], 'the loop is waited for before it is stopped')
            l = at(m, s, cn, ['leaderBroker'])
            cl = W.evs(s, 'Close')
            if cl and (o.index('Close') < o.index('wait') or len(cl) > 1 or W.key(m.force(s, cl[0][1])) != W.key(l)):
                raise Mismatch('another connection is closed, or one in use', s.pc)
            need(s.pc, iff(TRUE if cl else FALSE, not_(l.nil)), 'the connection')
            d = W.evs(s, 'wg.Done')
            if d and (len(d) > 1 or o.index('wg.Done') < o.index('wait')):
                raise Mismatch('whoever waits is told too early or twice', s.pc)
            need(s.pc, iff(TRUE if d else FALSE, not_(at(m, s, cn, ['wg']).nil)), 'whoever waits for the consumer')
        c.post('ensures: stopped', s1, chk, STP)
    return n


def stop_topics_job(c):
    """ensures: the consumer is closed and each of its consumers is stopped once"""
    m = c.m
    st = State()
    W.conc(m)
    BR.errors_model(m)
    cn = recv_of(m, st, 'Consumer', 'c')
    m.nonnil.add('c.simpleConsumers[]')
    m.contracts[STP] = W.record('Stop')
    fn = '(*Consumer).stop'
    l = at(m, st, cn, ['simpleConsumers'])

    def each(s, x, evs):
        o = [e for e in evs if e[0] == 'Stop']
        if len(o) != 1 or W.key(o[0][1]) != W.key(m.force(s, elem_(m, s, l, x))):
            raise Mismatch('an iteration does not stop its consumer', s.pc)
    E = Each(m, None, check=each)
    st0, n = st.copy(), 0
    for s1, _ in m.call_fn(fn, [cn], st, merge=False):
        n += 1

        def chk(s):
            need(s.pc, at(m, s, cn, ['closed']), 'not closed')
            lp = [e for e in s.ev if e[0] == 'loop']
            need(s.pc, le(l.len, lp[-1][1] if lp else I(0)), 'a consumer is not stopped')
        c.post('ensures: all consumers are stopped', s1, chk, fn)
    return n


AWT = '(*Consumer).AwaitClose'


def await_job(c):
    """ensures: the consumers are stopped; the connections are closed only after all of them have ended, and it returns then or when the time is over"""
    m = c.m
    st = State()
    W.conc(m)
    m.nonnil |= {'t', 't.brokers'}
    t = m.force(st, Ghost(m.p.byname['*Consumer'], 't'))
    m.contracts['(*Consumer).stop'] = W.record('stop')
    m.contracts['(*Brokers).Close'] = W.record('Close')
    n = 0
    for s1, _ in m.call_fn(AWT, [t, app('timeout', (), -2**63, 2**63 - 1)], st, merge=False):
        n += 1

        def chk(s):
            names = [e[0] for e in s.ev]
            if names.count('stop') != 1:
                raise Mismatch('the consumers are stopped %d times' % names.count('stop'), s.pc)
            # stop returns after the consumers have ended (contracts of stop and Stop)
            at_, go = names.index('stop'), [(i, e) for i, e in enumerate(s.ev) if e[0] == 'go']
            done = [i for i, x in enumerate(names) if x == 'Close']
            k = len(s.ev)
            for i, e in go:
                for s2, _ in m.call_fn(e[1], e[2], s.copy(), e[3], merge=False):
                    o = [x[0] for x in s2.ev[k:]]
                    if 'Close' not in o:
                        raise Unsupported('the connections are closed in another way')
                    # it runs after the consumers were stopped, or waits for them
                    done += [k if i > at_ or 'wg.Wait' in o[:o.index('Close')] else -1] * o.count('Close')
            if len(done) != 1:
                raise Mismatch('the connections are closed %d times' % len(done), s.pc)
            if done[0] < at_:
                raise Mismatch('the connections are closed although consumers use them', s.pc)
        c.post('ensures: consumers stop, then the connections are closed', s1, chk, AWT)
    return n


def jobs(P):
    from runner import Job
    import consumer_ as C
    X = dict(cases=C.topics_cases, limit=20, **C.CSCN)
    Y = dict(cases=C.topics_cases, limit=5, **C.CSCN)
    return [Job('Consume of topics', consume_job, require=[CC], **X),
            Job('topics of a consumer: Subscribe', subscribe_job, require=['(*Consumer).Subscribe'], **Y),
            Job('topics of a consumer: Assign', assign_job, require=['(*Consumer).Assign'], **Y),
            Job('topics of a consumer: NewConsumer', new_job, require=['NewConsumer'], **Y),
            Job('Stop of a consumer', stop_simple_job, require=[STP], **Y),
            Job('closing a consumer of topics', await_job, require=[AWT], **Y),
            Job('stop of a consumer of topics', stop_topics_job, require=['(*Consumer).stop'], **Y),
            Job('a new consumer of one partition', new_simple_job, require=[NSC], **Y)]
