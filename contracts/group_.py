"""C15: group membership, as contracts over traces."""
from consumer_ import *

JOIN, SYNC, JAS, HB, LEAVE, PGA, CWH, RST, STOP, TPI, GCON, RFM = [GC + n for n in
    ('join', 'sync', 'joinAndSync', 'heartbeat', 'leave', 'parseGroupAssignments', 'consumeWithoutHeartBeat', 'restart', 'stop', 'getTopicPartitionInfo', 'Consume', 'refreshMeta')]
ENC = '(*ProtocolMetadata).Encode'


def asks(m, fn, name, path):
    """contract of Broker.request...: an answer, or an error (of the connection or a code of the answer)"""
    rt = m.p.funcs[BK + fn]['results'][0]['t']

    def h(m, fr, st, a, ins):
        e = W.ghost_err(m, st, name + '.err')
        r = m.force(st, Ghost(rt, path))
        W.ev(st, name, W.key(m.force(st, a[0])), [m.force(st, x) for x in a[1:]], e, r)
        return (r, e)
    m.contracts[BK + fn] = h


def identity(m, s, st0, g, e, last=True):
    """after an error e: the member id is forgotten exactly when the member is unknown; a coordinator that moved or is not available is not available; the rest stays"""
    from seqops import seq_bool
    mid0, mid = at(m, st0, g, ['memberID']), at(m, s, g, ['memberID'])
    if holds(s, code_is(e, 25)):
        seq_eq(mid, sq(), s.pc)
    else:
        seq_eq(mid, mid0, s.pc)
    av = at(m, s, g, ['coordinatorAvailable'])
    need(s.pc, implies(or_(code_is(e, 15), code_is(e, 16)), not_(av)), 'a coordinator that moved stays in use')
    need(s.pc, implies(av, at(m, st0, g, ['coordinatorAvailable'])), 'the coordinator becomes available by an error')


def quiet_text(m):
    """err.Error() of an error from outside: any text"""
    def txt(m, fr, st, a, ins):
        e = m.force(st, a[0])
        if isinstance(e.v, Ghost):
            return (satom('text$' + e.v.path, e.v.args, 10000),)
        return (satom('text$%d' % len(st.ev), (), 10000),)
    m.contracts['(iface error).Error'] = txt

    def contains(m, fr, st, a, ins):
        return (bapp('contains$%r$%r' % (m.force(st, a[0]), m.force(st, a[1])), ()),)
    m.contracts['strings.Contains'] = contains


def join_job(c):
    """ensures: the coordinator is asked with the member id of this member; nil: member id, generation and leadership are those of the answer;
    otherwise an error: generation and leadership stay, the member id is forgotten exactly when it is unknown, a coordinator that moved or went away is looked up again"""
    m = c.m
    st = State()
    g = group(m, st)
    kafka_errors(m)
    quiet_text(m)
    asks(m, 'requestJoinGroup', 'join', 'joined')

    def enc(m, fr, st, a, ins):
        p = m.force(st, a[0])
        need(st.pc, eq(at(m, st, p, ['Subscription']).len, I(1)), 'not one topic')
        seq_eq(at(m, st, p, ['Subscription', 0]), at(m, st, g, ['topic']), st.pc)
        need(st.pc, eq(at(m, st, p, ['Version']), I(0)), 'another version')
        W.ev(st, 'encode')
        b = satom('metadata', (), 100000)
        o = m.alloc(st, b)
        return (SliceV(o, I(0), b.len, b.len, FALSE, m.byte_t),)
    m.contracts[ENC] = enc
    st0 = st.copy()
    n = 0
    for s1, (err,) in m.call_fn(JOIN, [g], st, merge=False):
        n += 1

        def chk(s):
            from seqops import seq_bool
            j = W.evs(s, 'join')
            if len(j) != 1 or j[0][1] != W.key(at(m, s, g, ['coordinator'])):
                raise Mismatch('the coordinator is not asked once', s.pc)
            a, e, r = j[0][2:5]
            seq_eq(a[1], at(m, s, g, ['config', 'GroupID']), s.pc)
            need(s.pc, eq(a[2], at(m, s, g, ['config', 'SessionTimeoutMS'])), 'another session timeout')
            seq_eq(a[3], at(m, st0, g, ['memberID']), s.pc)
            seq_eq(a[4], lit(b'consumer'), s.pc)
            need(s.pc, eq(a[5].len, I(1)), 'not one protocol')
            gp = elem(m, s, a[5], I(0))
            seq_eq(at(m, s, gp, ['ProtocolName']), lit(b'range'), s.pc)
            seq_eq(m.content(s, at(m, s, gp, ['ProtocolMetadata'])), satom('metadata', (), 100000), s.pc)
            ok = isnil(m, s, m.force(s, err))
            need(s.pc, e.nil if ok else not_(e.nil), 'the outcome of the join is reported wrongly')
            if ok:
                same_fields(m, s, st0, g, 'GroupConsumer', 'memberID', 'generationID', 'ifLeader', 'members')
                seq_eq(at(m, s, g, ['memberID']), at(m, s, r, ['MemberID']), s.pc)
                need(s.pc, eq(at(m, s, g, ['generationID']), at(m, s, r, ['GenerationID'])), 'another generation')
                lead = seq_bool(at(m, s, r, ['LeaderID']), at(m, s, r, ['MemberID']))
                need(s.pc, iff(at(m, s, g, ['ifLeader']), lead), 'leader exactly when the answer says so')
                if holds(s, lead) and not same_slice(m, s, at(m, s, g, ['members']), at(m, s, r, ['Members'])):
                    raise Mismatch('other members', s.pc)
            else:
                same_fields(m, s, st0, g, 'GroupConsumer', 'memberID', 'coordinatorAvailable')
                identity(m, s, st0, g, e)
                need(s.pc, implies(bapp('is$io.EOF$' + e.v.path, e.v.args), not_(at(m, s, g, ['coordinatorAvailable']))), 'a coordinator that closed the connection stays in use')
        c.post('ensures: identity and leadership of the answer', s1, chk, JOIN)
    return n


def sync_job(c):
    """ensures: only a leader computes an assignment, of the members of the join and fresh metadata; the sync carries the member id and generation; nil: the assignment of the answer is taken over"""
    m = c.m
    st = State()
    g = group(m, st)
    kafka_errors(m)
    asks(m, 'requestSyncGroup', 'sync', 'synced')
    st.assume(not_(at(m, st, g, ['assignmentStrategy']).nil))
    ft = {f['n']: f['t'] for f in m.p.fields(m.p.byname['GroupConsumer'])}

    def info(m, fr, st, a, ins):
        """contract of getTopicPartitionInfo (info_job)"""
        W.ev(st, 'info')
        for k in ('topics', 'topicMetadatas'):
            setf(m, st, g, k, m.force(st, Ghost(ft[k], 'new.' + k)))
        return ()
    m.contracts[TPI] = info
    gat = m.p.funcs[BK + 'requestSyncGroup']['params'][5]['t']

    def assign(m, fr, st, a, ins):
        r = m.force(st, Ghost(gat, 'assigned'))
        W.ev(st, 'assign', W.key(m.force(st, a[0])), m.force(st, a[1]), m.force(st, a[2]), r)
        return (r,)
    m.contracts['(iface AssignmentStrategy).Assign'] = assign
    m.contracts[PGA] = W.record('parse', lambda m, st, a: W.ghost_err(m, st, 'parse.err'))
    m.contracts['encoding/json.Marshal'] = lambda m, fr, st, a, ins: (m.zero(m.p.byname['[]byte']), m.force(st, Ghost(W.errt(m), 'json.err')))
    st0 = st.copy()
    n = 0
    for s1, (err,) in m.call_fn(SYNC, [g], st, merge=False):
        n += 1

        def chk(s):
            sy, asn, inf, pa = [W.evs(s, k) for k in ('sync', 'assign', 'info', 'parse')]
            if len(sy) != 1 or sy[0][1] != W.key(at(m, s, g, ['coordinator'])):
                raise Mismatch('the coordinator is not asked once', s.pc)
            a, e, r = sy[0][2:5]
            seq_eq(a[1], at(m, s, g, ['config', 'GroupID']), s.pc)
            need(s.pc, eq(a[2], at(m, st0, g, ['generationID'])), 'another generation')
            seq_eq(a[3], at(m, st0, g, ['memberID']), s.pc)
            lead = at(m, st0, g, ['ifLeader'])
            if asn or inf:
                need(s.pc, lead, 'a member that is not the leader computes an assignment')
                if len(asn) != 1 or len(inf) != 1 or W.order(s).index('info') > W.order(s).index('assign'):
                    raise Mismatch('the assignment is not computed from fresh metadata', s.pc)
                if not same_slice(m, s, asn[0][2], at(m, s, g, ['members'])) or not same_slice(m, s, asn[0][3], at(m, s, g, ['topicMetadatas'])):
                    raise Mismatch('the assignment of other members or topics', s.pc)
                if not same_slice(m, s, a[4], asn[0][4]):
                    raise Mismatch('another assignment is sent', s.pc)
                same_fields(m, s, st0, g, 'GroupConsumer', 'memberID', 'coordinatorAvailable', 'topics', 'topicMetadatas')
            else:
                need(s.pc, not_(lead), 'the leader computes no assignment')
                need(s.pc, or_(a[4].nil, eq(a[4].len, I(0))), 'an assignment out of nowhere')
                same_fields(m, s, st0, g, 'GroupConsumer', 'memberID', 'coordinatorAvailable')
            x = m.force(s, err)
            if holds(s, e.nil):
                if len(pa) != 1:
                    raise Mismatch('the assignment is not taken over', s.pc)
                seq_eq(m.content(s, pa[0][2]), m.content(s, at(m, s, r, ['MemberAssignment'])), s.pc)
                pe = W.ghost_err_of(m, s, pa[0], 'parse.err')
                need(s.pc, iff(x.nil, pe.nil), 'an assignment that cannot be read is not reported')
                same_fields(m, s, st0, g, 'GroupConsumer', 'topics', 'topicMetadatas')
            else:
                if pa:
                    raise Mismatch('an assignment after an error', s.pc)
                need(s.pc, not_(x.nil), 'an error is ignored')
                identity(m, s, st0, g, e)
        c.post('ensures: the sync carries the identity of the join', s1, chk, SYNC)
    return n


def heartbeat_job(c):
    """ensures: a member that joined sends a heartbeat with its member id and generation to the coordinator and reports its outcome; one that did not sends none"""
    m = c.m
    st = State()
    g = group(m, st)
    kafka_errors(m)
    asks(m, 'requestHeartbeat', 'heartbeat', 'beaten')
    st0 = st.copy()
    n = 0
    for s1, (err,) in m.call_fn(HB, [g], st, merge=False):
        n += 1

        def chk(s):
            hb = W.evs(s, 'heartbeat')
            same_fields(m, s, st0, g, 'GroupConsumer', 'memberID', 'coordinatorAvailable')
            x = m.force(s, err)
            if not hb:
                need(s.pc, not_(at(m, st0, g, ['joined'])), 'no heartbeat')
                need(s.pc, x.nil, 'an error')
                same_fields(m, s, st0, g, 'GroupConsumer')
                return
            need(s.pc, at(m, st0, g, ['joined']), 'a heartbeat although the member did not join')
            if len(hb) != 1 or hb[0][1] != W.key(at(m, s, g, ['coordinator'])):
                raise Mismatch('the coordinator is not asked once', s.pc)
            a, e, r = hb[0][2:5]
            seq_eq(a[1], at(m, s, g, ['config', 'GroupID']), s.pc)
            need(s.pc, eq(a[2], at(m, st0, g, ['generationID'])), 'another generation')
            seq_eq(a[3], at(m, st0, g, ['memberID']), s.pc)
            need(s.pc, iff(x.nil, e.nil), 'the outcome of the heartbeat is reported wrongly')
            if holds(s, e.nil):
                same_fields(m, s, st0, g, 'GroupConsumer')
            else:
                identity(m, s, st0, g, e)
        c.post('ensures: heartbeats carry the identity of the join', s1, chk, HB)
    return n


def leave_job(c):
    """ensures: a member that joined leaves with its member id; afterwards it has none, unless the leave failed"""
    m = c.m
    st = State()
    g = group(m, st)
    asks(m, 'requestLeaveGroup', 'leave', 'left')
    st0 = st.copy()
    n = 0
    for s1, _ in m.call_fn(LEAVE, [g], st, merge=False):
        n += 1

        def chk(s):
            lv = W.evs(s, 'leave')
            same_fields(m, s, st0, g, 'GroupConsumer', 'memberID', 'joined')
            if not lv:
                need(s.pc, not_(at(m, st0, g, ['joined'])), 'the member does not leave')
                same_fields(m, s, st0, g, 'GroupConsumer')
                return
            need(s.pc, at(m, st0, g, ['joined']), 'a member that did not join leaves')
            if len(lv) != 1 or lv[0][1] != W.key(at(m, s, g, ['coordinator'])):
                raise Mismatch('the coordinator is not asked once', s.pc)
            a, e, r = lv[0][2:5]
            seq_eq(a[1], at(m, s, g, ['config', 'GroupID']), s.pc)
            seq_eq(a[2], at(m, st0, g, ['memberID']), s.pc)
            if holds(s, e.nil):
                need(s.pc, not_(at(m, s, g, ['joined'])), 'still joined')
                seq_eq(at(m, s, g, ['memberID']), sq(), s.pc)
        c.post('ensures: a member leaves with its identity', s1, chk, LEAVE)
    return n


def parse_job(c):
    """ensures: nil: one consumer for every partition of every entry of the assignment, in order, each of this group; an assignment that cannot be read is an error and changes nothing"""
    m = c.m
    st = State()
    g = group(m, st)
    NMA, NSC = 'NewMemberAssignment', 'NewSimpleConsumerWithBrokers'
    sct = m.p.byname['*SimpleConsumer']
    pay = m.force(st, Ghost(m.p.byname['[]byte'], 'payload'))
    m.nonnil |= {'assignment', 'assignment.PartitionAssignments[]'}

    def nma(m, fr, st, a, ins):
        """contract of NewMemberAssignment (C04)"""
        e = W.ghost_err(m, st, 'ma.err')
        W.ev(st, 'decode', m.force(st, a[0]), e)
        return (m.force(st, Ghost(m.p.funcs[NMA]['results'][0]['t'], 'assignment')), e)
    m.contracts[NMA] = nma
    m.contracts['encoding/json.Marshal'] = lambda m, fr, st, a, ins: (m.zero(m.p.byname['[]byte']), m.force(st, Ghost(W.errt(m), 'json.err')))

    def nsc(m, fr, st, a, ins):
        o = m.alloc(st, m.zero(m.p.byname['SimpleConsumer']))
        p = PtrV(FALSE, (o, ()))
        W.ev(st, 'new', m.force(st, a[0]), m.force(st, a[1]), m.force(st, a[2]), m.force(st, a[3]), p)
        return (p,)
    m.contracts[NSC] = nsc
    n0 = app('cur.consumers', (), 0, 2**31 - 2)
    lt_ = m.p.u(next(f['t'] for f in m.p.fields(m.p.byname['GroupConsumer']) if f['n'] == 'simpleConsumers'))['e']
    cur = {}

    def hv(m, st):
        if 'l' not in cur:
            l = m.force(st, Ghost(m.p.byname['[]*SimpleConsumer'], 'consumers.so.far', (I(0),)))
            cur['l'] = l
        setf(m, st, g, 'simpleConsumers', cur['l'])
    st0 = st.copy()
    al = lambda s: m.force(s, at(m, s, m.force(s, Ghost(m.p.funcs[NMA]['results'][0]['t'], 'assignment')), ['PartitionAssignments']))
    outer = {}

    def inner_check(s, x, evs):
        nw = [e for e in evs if e[0] == 'new']
        if len(nw) != 1:
            raise Mismatch('%d consumers for a partition' % len(nw), s.pc)
        t, pid, cfg, bs, p = nw[0][1:6]
        i = outer['i']
        pa = elem(m, s, al(s), i)
        seq_eq(t, at(m, s, pa, ['Topic']), s.pc)
        need(s.pc, eq(pid, m.force(s, elem_(m, s, at(m, s, pa, ['Partitions']), x))), 'another partition')
        from machine import vsame
        if not vsame(cfg, at(m, s, g, ['config'])) or W.key(bs) != W.key(at(m, s, g, ['brokers'])):
            raise Mismatch('another configuration', s.pc)
        if W.key(at(m, s, p, ['belongTO'])) != W.key(g):
            raise Mismatch('a consumer of another group', s.pc)
        if at(m, s, p, ['wg']).nil is not FALSE:
            need(s.pc, not_(at(m, s, p, ['wg']).nil), 'nobody waits for the consumer')
        l = at(m, s, g, ['simpleConsumers'])
        need(s.pc, eq(l.len, cur['l'].len + 1), 'not one consumer more')
        if not same_ptr(m.force(s, elem_(m, s, l, cur['l'].len)), p):
            raise Mismatch('another consumer is kept', s.pc)
        j = fresh('j', 0)
        s2 = s.copy()
        s2.assume(lt(j, cur['l'].len))
        if not same_ptr(m.force(s2, elem_(m, s2, l, j)), m.force(s2, elem_(m, s2, cur['l'], j))):
            raise Mismatch('an earlier consumer is lost', s.pc)
        outer['inner'] = x

    def is_inner(m, fr, st0, header, body):
        if m.iter is not None:
            outer['i'] = m.iter
        return m.iter is not None

    def outer_check(s, x, evs):
        if any(e[0] == 'new' for e in evs[:max([k for k, e in enumerate(evs) if e[0] == 'loop'] or [-1])]) or not [e for e in evs if e[0] == 'loop']:
            raise Mismatch('the partitions are not visited one by one', s.pc)
        y = [e for e in evs if e[0] == 'loop'][-1][1]
        need(s.pc, le(at(m, s, elem(m, s, al(s), x), ['Partitions']).len, y), 'a partition is left out')
    outer['E'] = Each(m, PGA, allowed=[hv], check=outer_check, want=lambda *a: m.iter is None)

    def entry(s, x):
        if x.const() == 0:
            need(s.pc, eq(at(m, s, g, ['simpleConsumers']).len, I(0)), 'consumers of an earlier assignment are kept')
        return TRUE
    outer['E'].inv2 = entry
    I2 = Each(m, PGA, allowed=[hv], check=inner_check, want=is_inner)
    n = 0
    for s1, (err,) in m.call_fn(PGA, [g, pay], st, merge=False):
        n += 1

        def chk(s):
            d = W.evs(s, 'decode')
            if len(d) != 1 or not same_slice(m, s, d[0][1], pay):
                raise Mismatch('something else is read', s.pc)
            need(s.pc, iff(m.force(s, err).nil, d[0][2].nil), 'an assignment that cannot be read')
            if not isnil(m, s, m.force(s, err)):
                same_fields(m, s, st0, g, 'GroupConsumer')
                return
            if not outer['E'].done or not I2.done or s.ev[-1][0] != 'loop':
                raise Unsupported('the assignment is taken over in another way')
            same_fields(m, s, st0, g, 'GroupConsumer', 'partitionAssignments', 'simpleConsumers')
            if not same_slice(m, s, at(m, s, g, ['partitionAssignments']), al(s)):
                raise Mismatch('other partitions', s.pc)
            need(s.pc, le(al(s).len, s.ev[-1][1]), 'an entry is left out')
        c.post('ensures: one consumer for every assigned partition', s1, chk, PGA)
    return n


def join_and_sync_job(c):
    """each round: a coordinator that is not available is looked up first; the member joins only with a coordinator, and syncs only after a successful join;
    ensures: nil exactly when the sync succeeded or the consumer is closed"""
    m = c.m
    st = State()
    g = group(m, st)
    kafka_errors(m)
    m.contracts['(KafkaError).IsRetriable'] = lambda m, fr, st, a, ins: (bapp('retriable!%d' % len(st.ev), ()),)
    st0 = st.copy()

    def step(fn, name, after):
        def h(m, fr, st, a, ins):
            e = W.ghost_err(m, st, name + '.err')
            W.ev(st, name, e, at(m, st, g, ['coordinatorAvailable']))
            k = len(st.ev)
            setf(m, st, g, 'closed', or_(at(m, st, g, ['closed']), bapp('closed!%d' % k, ())))
            for f in after:
                v = getf(m, st, g, f)
                v = m.force(st, v)
                new = bapp('%s!%d' % (f, k), ()) if isinstance(v, Bl) else None
                if f == 'coordinatorAvailable':
                    setf(m, st, g, f, and_(v, or_(e.nil, new)))
            return (e,)
        m.contracts[fn] = h
    step(GC + 'getCoordinator', 'lookup', ())
    step(JOIN, 'join', ('coordinatorAvailable',))
    step(SYNC, 'sync', ('coordinatorAvailable',))

    def hv(m, st):
        setf(m, st, g, 'closed', bapp('cur.closed', ()))
        setf(m, st, g, 'coordinatorAvailable', bapp('cur.available', ()))
    av0 = bapp('cur.available', ())

    def judge(s, evs, back, err=None):
        o = [e for e in evs if e[0] in ('lookup', 'join', 'sync')]
        names = [e[0] for e in o]
        if names not in ([], ['lookup'], ['join'], ['lookup', 'join'], ['join', 'sync'], ['lookup', 'join', 'sync']):
            raise Mismatch('a round of %r' % (names,), s.pc)
        if back and not o:
            raise Mismatch('an empty round', s.pc)
        cl = at(m, s, g, ['closed'])
        if 'lookup' in names:
            need(s.pc, not_(av0), 'an available coordinator is looked up')
            lk = o[0]
            if 'join' in names:
                need(s.pc, lk[1].nil, 'a join without a coordinator')
        elif names:
            need(s.pc, av0, 'a join without a coordinator')
        if 'sync' in names:
            need(s.pc, o[names.index('join')][1].nil, 'a sync after a failed join')
        if back:
            if 'sync' in names:
                need(s.pc, not_(o[-1][1].nil), 'a member that synced joins again')
            elif 'join' in names:
                need(s.pc, or_(not_(o[-1][1].nil), cl), 'a join without a sync')
            else:
                need(s.pc, or_(not_(o[-1][1].nil), cl), 'no join')
            # a lookup that is over is not repeated, one that failed is
            if 'join' in names:
                jn = o[-1]
                need(s.pc, implies(at(m, s, g, ['coordinatorAvailable']), jn[2]), 'a coordinator becomes available without a lookup')
            else:
                need(s.pc, implies(at(m, s, g, ['coordinatorAvailable']), o[-1][1].nil), 'a coordinator that is not known is used')
            return
        if isnil(m, s, err):
            if not ('sync' in names and prove(s.pc, o[-1][1].nil)):
                need(s.pc, cl, 'reported as joined although nothing was synced')
        elif 'sync' in names:
            need(s.pc, not_(o[-1][1].nil), 'an error after a successful sync')
    E = Each(m, JAS, allowed=[hv], check=lambda s, x, evs: c.cases(s, lambda s2: judge(s2, evs, True)), loose=True)
    n = 0
    for s1, (err,) in m.call_fn(JAS, [g], st, merge=False):
        n += 1

        def chk(s):
            same_fields(m, s, st0, g, 'GroupConsumer', 'closed', 'coordinatorAvailable')
            i = last_loop(s)
            if i < 0 or not E.done:
                raise Unsupported('no loop')
            judge(s, s.ev[i + 1:], False, m.force(s, err))
        c.post('ensures: joined and synced, in this order', s1, chk, JAS)
    return n


def stop_job(c):
    """ensures: every consumer of the group is stopped, then there is none"""
    m = c.m
    st = State()
    g = group(m, st)
    m.nonnil.add('g.simpleConsumers[]')
    m.contracts[SC + 'Stop'] = W.record('Stop')
    l = at(m, st, g, ['simpleConsumers'])
    st0 = st.copy()

    def each(s, x, evs):
        o = [e for e in evs if e[0] == 'Stop']
        if len(o) != 1 or W.key(o[0][1]) != W.key(m.force(s, elem_(m, s, l, x))):
            raise Mismatch('an iteration does not stop its consumer', s.pc)
    E = Each(m, STOP, check=each)
    n = 0
    for s1, _ in m.call_fn(STOP, [g], st, merge=False):
        n += 1

        def chk(s):
            same_fields(m, s, st0, g, 'GroupConsumer', 'simpleConsumers')
            lp = [e for e in s.ev if e[0] == 'loop']
            if lp:
                need(s.pc, le(l.len, lp[-1][1]), 'a consumer is not stopped')
            else:
                need(s.pc, eq(l.len, I(0)), 'a consumer is not stopped')
            need(s.pc, eq(at(m, s, g, ['simpleConsumers']).len, I(0)), 'stopped consumers are kept')
            if 'wg.Wait' not in W.order(s):
                raise Mismatch('nobody waits for the consumers', s.pc)
        c.post('ensures: every consumer is stopped', s1, chk, STOP)
    return n


AWC = GC + 'AwaitClose'
CLG = GC + 'Close'


def await_job(c):
    """ensures: the member is closed, its consumers are stopped; once they have ended it leaves the group, and the connections are closed last"""
    m = c.m
    st = State()
    g = group(m, st)
    m.contracts[STOP] = lambda m, fr, st, a, ins: (W.ev(st, 'stop', at(m, st, g, ['closed'])), ())[1]
    m.contracts[LEAVE] = W.record('leave')
    m.contracts[BS + 'Close'] = W.record('Close')
    n = 0
    for s1, _ in m.call_fn(AWC, [g, app('timeout', (), -2**63, 2**63 - 1)], st, merge=False):
        n += 1

        def chk(s):
            o = [e[0] for e in s.ev if e[0] in ('stop', 'leave', 'Close', 'recv')]
            sp = W.evs(s, 'stop')
            if len(sp) != 1 or o[-1] != 'Close' or o.count('Close') != 1 or o.count('leave') > 1:
                raise Mismatch('the order of closing: %r' % (o,), s.pc)
            need(s.pc, sp[0][1], 'stopped before it is closed: it may start again')
            if 'recv' not in o:
                raise Unsupported('the consumers are waited for in another way')
            rc = W.evs(s, 'recv')[-1]
            if not rc[1].startswith('after!') and 'leave' not in o:
                raise Mismatch('the group is not left', s.pc)
            # stop returns after the consumers have ended (contract of stop)
            if 'leave' in o and o.index('leave') < o.index('stop'):
                raise Mismatch('the group is left while messages are consumed', s.pc)
        c.post('ensures: consumers stop, then the member leaves', s1, chk, AWC)
    return n


def close_group_job(c):
    """ensures: closes the member, and waits for its consumers: AwaitClose with a time to wait"""
    m = c.m
    st = State()
    g = group(m, st)
    m.contracts[AWC] = lambda m, fr, st, a, ins: (W.ev(st, 'await', a[0], m.force(st, a[1])), ())[1]
    for k, v in ((STOP, 'stop'), (LEAVE, 'leave'), (BS + 'Close', 'Close')):
        m.contracts[k] = W.record(v)
    n = 0
    for s1, _ in m.call_fn(CLG, [g], st, merge=False):
        n += 1

        def chk(s):
            aw = W.evs(s, 'await')
            if any(e[0] in ('stop', 'leave', 'Close') for e in s.ev):
                raise Unsupported('closed in another way')
            if len(aw) != 1 or W.key(aw[0][1]) != W.key(g):
                raise Mismatch('the member is not closed', s.pc)
            need(s.pc, lt(0, aw[0][2]), 'the consumers are not waited for')
        c.post('ensures: the member is closed', s1, chk, CLG)
    return n


def restart_job(c):
    """ensures: the consumers are stopped, heartbeats stop, then the member joins again; two restarts exclude each other"""
    m = c.m
    st = State()
    g = group(m, st)
    m.contracts[STOP] = W.record('stop')
    ch = lambda m, st, a: (OpaqueV('chan', nil=FALSE, path='out'), W.ghost_err(m, st, 'c.err'))

    def again(m, fr, st, a, ins):
        W.ev(st, 'again', m.force(st, a[1]), at(m, st, g, ['joined']))
        return ch(m, st, a)
    m.contracts[CWH] = again
    n = 0
    for s1, _ in m.call_fn(RST, [g], st, merge=False):
        n += 1

        def chk(s):
            o = [e for e in s.ev if e[0] in ('stop', 'again', 'lock', 'unlock')]
            ag = W.evs(s, 'again')
            if [e[0] for e in o if e[0] in ('stop', 'again')] != ['stop', 'again'] or W.key(W.evs(s, 'stop')[0][1]) != W.key(g):
                raise Mismatch('not stopped and joined again', s.pc)
            need(s.pc, not_(ag[0][2]), 'heartbeats go on')
            need(s.pc, iff(ag[0][1], at(m, s, g, ['config', 'FromBeginning'])), 'another end of the log')
            if o[0][0] != 'lock' or o[-1][0] != 'unlock':
                raise Mismatch('two restarts at a time', s.pc)
        c.post('ensures: stopped, then joined again', s1, chk, RST)
    return n


def start_job(c):
    """ensures: the member joins and syncs until that succeeds (or it is closed); then every consumer of the assignment starts once, at the committed position or the configured end, into the channel of the group"""
    m = c.m
    st = State()
    g = group(m, st)
    m.nonnil.add('g.simpleConsumers[]')
    fb = bapp('fromBeginning', ())
    l = at(m, st, g, ['simpleConsumers'])
    cc = m.chan_key(st, at(m, st, g, ['closeChan']))
    mc = m.chan_key(st, at(m, st, g, ['messages']))
    st0 = st.copy()

    def jas(m, fr, st, a, ins):
        """contract of joinAndSync (join_and_sync_job)"""
        e = W.ghost_err(m, st, 'jas.err')
        W.ev(st, 'joinAndSync', W.key(m.force(st, a[0])), e)
        setf(m, st, g, 'closed', or_(at(m, st, g, ['closed']), bapp('closed!%d' % len(st.ev), ())))
        return (e,)
    m.contracts[JAS] = jas

    def each(s, x, evs):
        o = [e for e in evs if e[0] in ('wg.Add', 'go')]
        if [e[0] for e in o] != ['wg.Add', 'go'] or o[1][1] != CONS:
            raise Mismatch('an iteration does not start its consumer', s.pc)
        a = [m.force(s, v) for v in o[1][2]]
        if W.key(a[0]) != W.key(m.force(s, elem_(m, s, l, x))) or m.chan_key(s, a[2]) != mc:
            raise Mismatch('another consumer or channel', s.pc)
        need(s.pc, eq(a[1], ite(fb, I(-2), I(-1))), 'the consumer starts at %r' % (a[1],))
    hv = lambda m, st: setf(m, st, g, 'joined', TRUE)
    E = Each(m, CWH, check=each, allowed=[hv])

    def joiner(s, go):
        s = s.copy()
        s.ev = []

        def stopped(m, st):
            setf(m, st, g, 'closed', bapp('cur.closed', ()))

        def judge(s, evs, back):
            j = [e for e in evs if e[0] == 'joinAndSync']
            if back:
                if len(j) != 1:
                    raise Mismatch('a round without a join', s.pc)
                need(s.pc, not_(j[0][2].nil), 'a member that joined joins again')
                return None
            if len(j) > 1:
                raise Mismatch('joined twice', s.pc)
            if j:
                need(s.pc, j[0][2].nil, 'a failed join is taken for a success')
            else:
                need(s.pc, at(m, s, g, ['closed']), 'the member does not join')
            sn = [e for e in evs if e[0] == 'send']
            if len(sn) != 1:
                raise Mismatch('the join is not signalled', s.pc)
            return sn[0][1]
        F = Each(m, go[1], allowed=[stopped], check=lambda s, x, evs: c.cases(s, lambda s2: judge(s2, evs, True)), loose=True)
        ks = set()
        for s1, _ in m.call_fn(go[1], go[2], s, binds=go[3], merge=False):
            def f(s2):
                i = last_loop(s2)
                ks.add(judge(s2, s2.ev[i + 1:], False))
            c.cases(s1, f)
        m.loop_rules.remove(F.rule)
        if not F.done:
            raise Unsupported('no loop around the join')
        return ks
    n = 0
    for s1, (res, err) in m.call_fn(CWH, [g, fb], st, merge=False):
        n += 1

        def chk(s):
            same_fields(m, s, st0, g, 'GroupConsumer', 'joined', 'closed')
            if m.chan_key(s, m.force(s, res)) != mc:
                raise Mismatch('another channel', s.pc)
            need(s.pc, m.force(s, err).nil, 'an error')
            k = last_loop(s)
            head = s.ev[:k] if k >= 0 else s.ev
            go = [e for e in head if e[0] == 'go']
            rc = [e for e in head if e[0] == 'recv']
            if len(go) != 1 or len(rc) != 1:
                raise Unsupported('the join is awaited in another way')
            ws = [j for j, e in enumerate(head) if e[0] == 'wg.Wait']
            if not ws or ws[0] > head.index(go[0]):
                raise Mismatch('the earlier consumers are not awaited', s.pc)
            ks = joiner(s, go[0])
            if rc[0][1] == cc:
                need(s.pc, iff(at(m, s, g, ['joined']), at(m, st0, g, ['joined'])), 'a closed consumer is taken for a joined one')
                if k >= 0:
                    raise Mismatch('a closed consumer starts', s.pc)
                return
            if ks != {rc[0][1]}:
                raise Mismatch('the consumers start before the join', s.pc)
            need(s.pc, at(m, s, g, ['joined']), 'no heartbeats')
            if k < 0 or not E.done:
                raise Mismatch('the consumers do not start', s.pc)
            need(s.pc, le(l.len, s.ev[k][1]), 'a consumer does not start')
        c.post('ensures: joined, then every consumer starts', s1, chk, CWH)
    return n


def group_consume_job(c):
    """ensures: the member starts; until it is closed every tick sends a heartbeat, and a failed one makes it join again"""
    m = c.m
    st = State()
    g = group(m, st)
    m.contracts[RFM] = W.record('refreshMeta')
    m.contracts[RST] = W.record('restart')

    def hb(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'hb.err')
        W.ev(st, 'heartbeat', e)
        return (e,)
    m.contracts[HB] = hb

    def start(m, fr, st, a, ins):
        W.ev(st, 'start', m.force(st, a[1]), m.chan_key(st, at(m, st, g, ['messages'])), at(m, st, g, ['closed']))
        return (at(m, st, g, ['messages']), W.ghost_err(m, st, 'start.err'))
    m.contracts[CWH] = start
    mc = OpaqueV('chan', nil=bapp('nochan', ()), path='out')

    def ticks(s, go):
        s = s.copy()
        s.ev = []
        seen = []

        def closed(m, st):
            setf(m, st, g, 'closed', bapp('cur.closed', ()))

        def judge(s, evs, back):
            o = [e for e in evs if e[0] in ('recv', 'heartbeat', 'restart')]
            if back:
                if not o or o[0][0] != 'recv' or not o[0][1].startswith('ticker!'):
                    raise Mismatch('no tick', s.pc)
                h = [e for e in o if e[0] == 'heartbeat']
                r = [e for e in o if e[0] == 'restart']
                if len(h) != 1 or len(r) > 1:
                    raise Mismatch('a tick sends %d heartbeats' % len(h), s.pc)
                need(s.pc, h[0][1].nil if not r else not_(h[0][1].nil), 'joined again exactly after a failed heartbeat')
                seen.append(1)
            else:
                need(s.pc, at(m, s, g, ['closed']), 'heartbeats end although the member is not closed')
                if [e for e in o if e[0] != 'recv']:
                    raise Mismatch('a closed member goes on', s.pc)
        T = Each(m, go[1], allowed=[closed], check=lambda s, x, evs: c.cases(s, lambda s2: judge(s2, evs, True)), loose=True)
        kinds = set()
        for s1, _ in m.call_fn(go[1], go[2], s, binds=go[3], merge=False):
            if W.evs(s1, 'refreshMeta'):
                kinds.add('meta')
                continue
            i = last_loop(s1)
            if i < 0:
                raise Unsupported('a goroutine without a loop')
            c.cases(s1, lambda s2: judge(s2, s2.ev[i + 1:], False))
            kinds.add('beat')
        m.loop_rules.remove(T.rule)
        return kinds
    n = 0
    for s1, (res, err) in m.call_fn(GCON, [g, mc], st, merge=False):
        n += 1

        def chk(s):
            go, sr = W.evs(s, 'go'), W.evs(s, 'start')
            if len(sr) != 1:
                raise Mismatch('the member does not start once', s.pc)
            need(s.pc, iff(sr[0][1], at(m, s, g, ['config', 'FromBeginning'])), 'another end of the log')
            need(s.pc, not_(sr[0][3]), 'the member is closed')
            if holds(s, not_(mc['nil'])) and sr[0][2] != 'out':
                raise Mismatch('another channel', s.pc)
            if m.chan_key(s, m.force(s, res)) != sr[0][2]:
                raise Mismatch('another channel is returned', s.pc)
            kinds = set()
            for x in go:
                kinds |= {'meta'} if x[1] == RFM else ticks(s, x)
            if kinds != {'meta', 'beat'}:
                raise Mismatch('goroutines of %r' % sorted(kinds), s.pc)
        c.post('ensures: the member starts and sends heartbeats', s1, chk, GCON)
    return n


def refresh_meta_job(c):
    """each tick of a member that is the leader: the metadata of the topics of the group; it joins again exactly when they changed"""
    m = c.m
    st = State()
    g = group(m, st)
    m.contracts[RST] = W.record('restart')
    rt = m.p.funcs['(*Brokers).RequestMetaData']['results'][0]['t']

    def meta(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'meta.err')
        r = m.force(st, Ghost(rt, 'meta'))
        W.ev(st, 'metadata', m.force(st, a[2]), e)
        return (r, e)
    m.contracts['(*Brokers).RequestMetaData'] = meta

    def same(m, fr, st, a, ins):
        """contract of ifTopicMetadatasSame (C18)"""
        r = bapp('same!%d' % len(st.ev), ())
        W.ev(st, 'compare', m.force(st, a[0]), m.force(st, a[1]), r)
        return (r,)
    m.contracts['ifTopicMetadatasSame'] = same
    tm = m.force(st, Ghost(next(f['t'] for f in m.p.fields(m.p.byname['GroupConsumer']) if f['n'] == 'topicMetadatas'), 'cur.metas', (I(0),)))

    def hv(m, st):
        setf(m, st, g, 'closed', bapp('cur.closed', ()))
        setf(m, st, g, 'ifLeader', bapp('cur.leader', ()))
        setf(m, st, g, 'topicMetadatas', tm)
    metas_ = lambda s: at(m, s, m.force(s, Ghost(rt, 'meta')), ['TopicMetadatas'])

    def judge(s, evs, back):
        md, cp, rs = [[e for e in evs if e[0] == k] for k in ('metadata', 'compare', 'restart')]
        if not back:
            if md or rs:
                raise Mismatch('a closed member goes on', s.pc)
            need(s.pc, at(m, s, g, ['closed']), 'the refresh ends although the member is not closed')
            return
        if len(md) > 1 or len(cp) > 1 or len(rs) > 1:
            raise Mismatch('more than one refresh at a tick', s.pc)
        if not md:
            need(s.pc, or_(not_(at(m, s, g, ['ifLeader'])), at(m, s, g, ['closed'])), 'the leader does not refresh')
            if rs:
                raise Mismatch('joined again without a change', s.pc)
            return
        need(s.pc, at(m, s, g, ['ifLeader']), 'a member that is not the leader refreshes')
        if not same_slice(m, s, md[0][1], at(m, s, g, ['topics'])):
            raise Mismatch('other topics', s.pc)
        if rs:
            if not cp:
                raise Mismatch('joined again without a comparison', s.pc)
            need(s.pc, not_(cp[0][3]), 'joined again without a change')
        elif not cp:
            need(s.pc, not_(md[0][2].nil), 'the metadata are not compared')
        else:
            need(s.pc, cp[0][3], 'a change is ignored')
        if cp:
            need(s.pc, md[0][2].nil, 'a failed answer is compared')
            ls = [cp[0][1], cp[0][2]]
            if not any(same_slice(m, s, a, tm) and same_slice(m, s, b, metas_(s)) for a, b in (ls, ls[::-1])):
                raise Mismatch('something else is compared', s.pc)
    E = Each(m, RFM, allowed=[hv], check=lambda s, x, evs: c.cases(s, lambda s2: judge(s2, evs, True)), loose=True)
    n = 0
    for s1, _ in m.call_fn(RFM, [g], st, merge=False):
        n += 1

        def chk(s):
            i = last_loop(s)
            if i < 0:
                raise Unsupported('no loop')
            judge(s, s.ev[i + 1:], False)
        c.post('ensures: a change of the metadata makes the leader join again', s1, chk, RFM)
    return n


def info_job(c):
    """ensures: the metadata kept are the answer for exactly the topics that members subscribe to (unless the member is closed)"""
    m = c.m
    st = State()
    g = group(m, st)
    NPM = 'NewProtocolMetadata'
    rt = m.p.funcs['(*Brokers).RequestMetaData']['results'][0]['t']
    pt = m.p.funcs[NPM]['results'][0]['t']
    m.contracts['encoding/json.Marshal'] = lambda m, fr, st, a, ins: (m.zero(m.p.byname['[]byte']), m.force(st, Ghost(W.errt(m), 'json.err')))
    mem = at(m, st, g, ['members'])
    m.nonnil.add('subscription')
    cur = {}

    def npm(m, fr, st, a, ins):
        """contract of NewProtocolMetadata (C04): the subscription of this member"""
        W.ev(st, 'decode', m.force(st, a[0]))
        return (m.force(st, Ghost(pt, 'subscription', (m.iter,) if m.iter is not None else ())),)
    m.contracts[NPM] = npm

    def meta(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'meta.err')
        r = m.force(st, Ghost(rt, 'meta!%d' % len(st.ev)))
        W.ev(st, 'metadata', m.force(st, a[2]), e, r)
        setf(m, st, g, 'closed', or_(at(m, st, g, ['closed']), bapp('closed!%d' % len(st.ev), ())))
        return (r, e)
    m.contracts['(*Brokers).RequestMetaData'] = meta
    st0 = st.copy()

    def maps(m, s):
        return [(o, v) for o, v in s.heap.items() if isinstance(v, MapC) and m.p.name(v.kt) == 'string' and m.p.u(v.et)['k'] == 'basic' and m.p.name(v.et) == 'bool']

    def hv(m, s):
        for o, v in maps(m, s):
            s.heap[o] = MapC(v.kt, v.et, (), ('topicset', ()))

    def the_map(s):
        l = maps(m, s)
        if len(l) != 1:
            raise Unsupported('%d sets of topics' % len(l))
        return l[0][1]

    def entry(s, x):
        if x.const() == 0 and cur.get('first') is None:
            cur['first'] = 1
            v = the_map(s)
            if v.upd or v.base is not None:
                raise Mismatch('other topics at the beginning', s.pc)
        return TRUE

    def is_inner(m, fr, st0, header, body):
        if m.iter is not None:
            cur['i'] = m.iter
        return m.iter is not None and not calls(m, fr, body, NPM)

    def inner_check(s, x, evs):
        v = the_map(s)
        if len(v.upd) != 1 or v.base is None:
            raise Mismatch('%d topics added at a time' % len(v.upd), s.pc)
        sub = m.force(s, Ghost(pt, 'subscription', (cur['i'],)))
        seq_eq(m.force(s, v.upd[0][0]), m.force(s, elem_(m, s, at(m, s, sub, ['Subscription']), x)), s.pc)
        if m.force(s, v.upd[0][1]) is not TRUE:
            raise Unsupported('another kind of set')

    def outer_check(s, x, evs):
        d = [e for e in evs if e[0] == 'decode']
        lp = [e for e in evs if e[0] == 'loop']
        if len(d) != 1 or len(lp) != 1:
            raise Unsupported('the subscriptions are read in another way')
        seq_eq(m.content(s, d[0][1]), m.content(s, at(m, s, elem_(m, s, mem, x), ['MemberMetadata'])), s.pc)
        sub = m.force(s, Ghost(pt, 'subscription', (x,)))
        need(s.pc, le(at(m, s, sub, ['Subscription']).len, lp[0][1]), 'a topic of a member is left out')
    A = Each(m, TPI, allowed=[hv], check=outer_check, want=lambda m, fr, st0, header, body: m.iter is None and calls(m, fr, body, NPM))
    A.inv2 = entry
    B = Each(m, TPI, allowed=[hv], check=inner_check, want=is_inner)
    lst = m.force(st, Ghost(m.p.byname['[]string'], 'topics.so.far', (I(0),)))

    def grow(m, s):
        setf(m, s, g, 'topics', lst)

    def key_check(s, x, evs):
        l = at(m, s, g, ['topics'])
        need(s.pc, eq(l.len, lst.len + 1), 'not one topic more')
        n, ent = m.map_entries(s, MapV(FALSE, maps(m, s)[0][0]))
        seq_eq(m.force(s, elem_(m, s, l, lst.len)), m.force(s, ent(x)[0]), s.pc)

    def entry2(s, x):
        if x.const() == 0:
            need(s.pc, eq(at(m, s, g, ['topics']).len, I(0)), 'topics of an earlier join are kept')
        return TRUE
    nexts = lambda m, fr, body: any(i['op'] == 'Next' for bl in body for i in m.p.funcs[fr.fn]['blocks'][bl]['instrs'])
    K = Each(m, TPI, allowed=[grow], check=key_check, want=lambda m, fr, st0, header, body: nexts(m, fr, body))
    K.inv2 = entry2

    def ask_check(s, x, evs):
        md = [e for e in evs if e[0] == 'metadata']
        if len(md) != 1 or not same_slice(m, s, md[0][1], at(m, s, g, ['topics'])):
            raise Mismatch('other topics', s.pc)
        need(s.pc, not_(md[0][2].nil), 'an answer is thrown away')
    Q = Each(m, TPI, allowed=[lambda m, s: setf(m, s, g, 'closed', bapp('cur.closed', ()))], check=ask_check, want=lambda m, fr, st0, header, body: calls(m, fr, body, '(*Brokers).RequestMetaData'), loose=True)
    n = 0
    for s1, _ in m.call_fn(TPI, [g], st, merge=False):
        n += 1

        def chk(s):
            if not (A.done and B.done and K.done and Q.done):
                raise Unsupported('the topics are collected in another way')
            same_fields(m, s, st0, g, 'GroupConsumer', 'topics', 'topicMetadatas', 'closed')
            lp = [e for e in s.ev if e[0] == 'loop']
            need(s.pc, le(mem.len, lp[0][1]), 'a member is left out')
            nn, ent = m.map_entries(s, MapV(FALSE, maps(m, s)[0][0]))
            if len(lp) != 3:
                raise Unsupported('%d loops' % len(lp))
            need(s.pc, le(nn, lp[1][1]), 'a topic is left out')
            if not same_slice(m, s, at(m, s, g, ['topics']), lst):
                raise Mismatch('other topics are kept', s.pc)
            md = [e for e in s.ev[last_loop(s):] if e[0] == 'metadata']
            if not md:
                need(s.pc, at(m, s, g, ['closed']), 'no metadata')
                return
            if not same_slice(m, s, md[-1][1], lst):
                raise Mismatch('other topics', s.pc)
            need(s.pc, md[-1][2].nil, 'an error is ignored')
            if not same_slice(m, s, at(m, s, g, ['topicMetadatas']), at(m, s, md[-1][3], ['TopicMetadatas'])):
                raise Mismatch('other metadata are kept', s.pc)
        c.post('ensures: the metadata of the topics of the group', s1, chk, TPI)
    return n


# ---------------------------------------------------------------- scenarios
class Rd:
    def __init__(self, p):
        self.p, self.o = p, 0

    def n(self, k):
        if self.o + k > len(self.p):
            raise ValueError('short request')
        v = int.from_bytes(self.p[self.o:self.o + k], 'big', signed=True)
        self.o += k
        return v

    def s(self, w=2):
        k = self.n(w)
        v = self.p[self.o:self.o + max(k, 0)]
        self.o += max(k, 0)
        return v if w == 4 else v.decode()

    def end(self):
        if self.o != len(self.p):
            raise ValueError('bytes at the end of a request')


def b32(b):
    return i32(len(b)) + b


def member_metadata(topics):
    return i16(0) + arr([s16(t) for t in topics]) + i32(0)


def assignment(d):
    return i16(0) + arr([s16(t) + arr([i32(p) for p in ps]) for t, ps in d]) + i32(0)


def group_cases(rng, n):
    """one GroupConsumer against scripted join, sync and heartbeat answers: every request carries the identity of the latest join"""
    import scenario as S
    from producer_ import metadata
    for _ in range(n):
        apis = dict(S.APIS)
        apis[1], apis[3] = rng.choice([0, 10]), 1
        topic, grp = rng.choice(['t', 'topic-1']), 'grp'
        np = 4
        logs = [{'topic': topic, 'p': p, 'first': 0, 'end': rng.choice([1, 3, 8]), 'gap': 0, 'batch': 1, 'per': 10, 'wait': 5, 'size': 0} for p in range(np)]
        joins, syncs, beats = [], [], []
        ids = iter('m%d' % k for k in range(1, 100))
        gens = iter(sorted(rng.sample(range(1, 1000), 30)))
        assigned = []
        mid = ''
        wantbeats = 0
        phases = rng.choice([1, 2, 2, 3])
        for ph in range(phases):
            for _ in range(rng.choice([0, 0, 1, 2, 3])):
                if rng.random() < 0.6:
                    joins.append(('err', rng.choice([25, 25, 15, 16, 16, 14, 22, 27, 'close'])))
                    if joins[-1][1] == 25:
                        mid = ''
                else:
                    mid = mid if mid and rng.random() < 0.6 else next(ids)
                    joins.append(('ok', mid, next(gens), rng.random() < 0.5))
                    syncs.append(('err', rng.choice([25, 22, 27, 16, 15])))
                    if syncs[-1][1] == 25:
                        mid = ''
            mid = mid if mid and rng.random() < 0.6 else next(ids)
            joins.append(('ok', mid, next(gens), rng.random() < 0.5))
            asg = sorted(rng.sample(range(np), rng.choice([0, 1, 2, 3])))
            syncs.append(('ok', asg))
            assigned.append(asg)
            if ph < phases - 1:
                k = rng.choice([0, 1, 2])
                beats += ['ok'] * k + [('err', rng.choice([22, 25, 27, 16, 15]))]
                if beats[-1][1] == 25:
                    mid = ''
        moves = rng.random() < 0.5
        rules = [api_versions(apis), metadata([0, 1], [(topic, 0, [(0, p, p % 2) for p in range(np)])])]
        co = lambda b, **kw: rule(10, i16(0) + i32(b) + s16('127.0.0.1'), {'port': b}, **kw)
        mv = lambda code: {'set': 'moved'} if moves and code in (15, 16) else {}
        for j in joins:
            if j == ('err', 'close'):
                rules.append(rule(11, do='close', times=1))
            elif j[0] == 'err':
                rules.append(rule(11, i16(j[1]) + i32(-1) + s16('') + s16('') + s16('') + i32(0), times=1, **mv(j[1])))
            else:
                lead = j[1] if j[3] else 'boss'
                mem = [(j[1], member_metadata([topic])), ('zz', member_metadata([topic]))] if j[3] else []
                rules.append(rule(11, i16(0) + i32(j[2]) + s16('range') + s16(lead) + s16(j[1]) + arr([s16(a) + b32(b) for a, b in mem]), times=1))
        for y in syncs:
            if y[0] == 'err':
                rules.append(rule(14, i16(y[1]) + i32(0), times=1, **mv(y[1])))
            else:
                rules.append(rule(14, i16(0) + b32(assignment([(topic, y[1])] if y[1] else [])), times=1))
        for b in beats:
            rules.append(rule(12, i16(0 if b == 'ok' else b[1]), times=1, **(mv(b[1]) if b != 'ok' else {})))
        com = {p: rng.choice([-1, 0, 1]) for p in range(np)}
        begin = rng.random() < 0.7
        rules += [co(1, when='moved'), co(0), rule(12, i16(0)), rule(13, i16(0)), raw(1, 'log', logs), raw(2, 'offsets', {'logs': logs, 'code': 0}), raw(9, 'committed', {str(p): com[p] for p in com}),
                  raw(8, 'commitok', None)]
        cfg = {'client.id': 'cid', 'group.id': grp, 'retry.backoff.ms': 2, 'auto.commit': False, 'offsets.storage': 1, 'from.beginning': begin, 'session.timeout.ms': 300,
               'fetch.max.wait.ms': 50, 'metadata.max.age.ms': 1000000, 'net': {'timeout.ms': 3000, 'connect.timeout.ms': 2000}}
        ops = [('group', {'topic': topic, 'config': cfg}, 9000), ('until', {'12': len(beats) + 2, '14': len(syncs)}, 9000)]
        last = assigned[-1]
        start = {p: com[p] if com[p] >= 0 else (0 if begin else logs[p]['end']) for p in last}
        expect = {p: list(range(start[p], logs[p]['end'])) for p in last}
        total = sum(len(v) for v in expect.values())
        commit = rng.random() < 0.7
        # everything of the last assignment, after what earlier assignments may have handed over
        ops.append(('drain', {'Ms': 150}, 9000))
        if commit:
            ops += [('sleep', 20), ('gcommit', None), ('gcommit', None)]
        ops += [('gclose', None, 9000)]

        def check(A, joins=joins, syncs=syncs, beats=beats, topic=topic, grp=grp, moves=moves, assigned=assigned, expect=expect, commit=commit, com=com, logs=logs, ops=ops, start=start):
            if A.res[0]['err']:
                return 'Consume: %r' % (A.res[0],)
            ji, si, bi = iter(joins), iter(syncs), iter(beats)
            mid, gen, lead, lookup, state, coord = '', None, False, True, 'out', 0
            asg = None
            commits = []
            fetched = set()
            left = None

            def failed(code):
                nonlocal mid, lookup, coord
                if code == 25:
                    mid = ''
                if code in (15, 16, 'close'):
                    lookup = True
                    if moves and code != 'close':
                        coord = 1
            try:
                for r in A.reqs:
                    q = Rd(r['p'])
                    q.s()
                    a = r['api']
                    if a == 10:
                        lookup = False
                    if a in (11, 12, 13, 14):
                        if q.s() != grp:
                            return 'another group'
                        if r['b'] != coord and not (lookup and a == 13):
                            return 'a request (api %d) goes to broker %d although the coordinator is %d' % (a, r['b'], coord)
                    if a == 11:
                        if lookup:
                            return 'a join without looking up the coordinator'
                        if state == 'in':
                            return 'joins again without a reason'
                        q.n(4)
                        g = q.s()
                        if g != mid:
                            return 'joins as %r instead of %r' % (g, mid)
                        o = next(ji, None)
                        if o is None:
                            return 'joins once more'
                        if o[0] == 'ok':
                            mid, gen, lead = o[1:4]
                            state = 'joined'
                        else:
                            failed(o[1])
                            state = 'out'
                    elif a == 14:
                        if state != 'joined':
                            return 'syncs without a join'
                        g = q.n(4), q.s()
                        if g != (gen, mid):
                            return 'syncs as %r instead of %r' % (g, (gen, mid))
                        ms = [(q.s(), q.s(4)) for _ in range(q.n(4))]
                        if not lead and ms:
                            return 'assigns partitions without being the leader'
                        if lead:
                            got = []
                            for k, b in ms:
                                z = Rd(b)
                                z.n(2)
                                for _ in range(z.n(4)):
                                    t = z.s()
                                    got += [(t, z.n(4)) for _ in range(z.n(4))]
                            if sorted(k for k, _ in ms) != sorted([mid, 'zz']) or sorted(got) != [(topic, p) for p in range(4)]:
                                return 'the leader assigns %r' % (ms,)
                        o = next(si, None)
                        if o is None:
                            return 'syncs once more'
                        if o[0] == 'ok':
                            state, asg = 'in', o[1]
                            fetched = set()
                        else:
                            failed(o[1])
                            state = 'out'
                    elif a == 12:
                        if state != 'in':
                            return 'a heartbeat of a member that is not in the group'
                        g = q.n(4), q.s()
                        if g != (gen, mid):
                            return 'a heartbeat as %r instead of %r' % (g, (gen, mid))
                        o = next(bi, 'ok')
                        if o != 'ok':
                            failed(o[1])
                            state = 'out'
                    elif a == 13:
                        g = q.s()
                        if g != mid or state != 'in':
                            return 'leaves as %r instead of %r' % (g, mid)
                        left = g
                        state = 'left'
                    elif a == 8:
                        d = parse_commit(r['version'], r['p'])
                        if (d['group'], d['gen'], d['member']) != (grp, gen, mid) or r['b'] != coord:
                            return 'a commit as %r' % (d,)
                        commits += d['l']
                    elif a == 1:
                        t, p, _ = fetch_offset(r['version'], r['p'])
                        if t != topic or not any(p in x for x in assigned):
                            return 'fetches %s-%d, which was never assigned' % (t, p)
                        if state == 'in':
                            fetched.add(p)
                            if p not in asg:
                                return 'fetches partition %d although %r are assigned' % (p, asg)
            except ValueError as e:
                return 'malformed request: %s' % e
            if A.res[1].get('timeout'):
                return 'the member does not join and send heartbeats: %r' % (A.res[1],)
            if next(ji, None) or next(si, None):
                return 'the member stops joining'
            if left is None:
                return 'the member does not leave'
            if fetched != set(asg):
                return 'fetches %r although %r are assigned' % (sorted(fetched), asg)
            got = {}
            for x in A.res[2]['l']:
                if x['err'] is not None or x['topic'] != topic or x['v'] != 'm%d' % x['o']:
                    return 'handed over: %r' % (x,)
                got.setdefault(x['p'], []).append(x['o'])
            for p, w in expect.items():
                if got.get(p, [])[-len(w):] != w and w:
                    return 'partition %d hands over %r instead of %r' % (p, got.get(p), w)
            if commit:
                want = sorted((topic, p, (w[-1] + 1) if w else start[p]) for p, w in expect.items())
                must = [x for x in want if x[2] > 0]
                if sorted(set(commits)) != must and sorted(set(commits)) != want or len(commits) != len(set(commits)):
                    return 'commits %r instead of %r' % (commits, must)
        yield scenario(2, rules, ops, check)


def rebalance_cases(rng, n):
    """a member whose topic changes: it joins again exactly when it is the leader and the change affects the assignment"""
    import scenario as S
    from producer_ import metadata
    for _ in range(n):
        apis = dict(S.APIS)
        apis[1], apis[3] = rng.choice([0, 10]), 1
        topic, grp = rng.choice(['t', 'topic-1']), 'grp'
        np = rng.choice([2, 3, 4])
        old = [(0, p, p % 2) for p in range(np)]
        new = list(old)
        kind = rng.choice(['leader', 'leader', 'more', 'fewer', 'leaderless', 'none', 'order', 'other'])
        changed = kind in ('leader', 'more', 'fewer', 'leaderless')
        controller = 0
        if kind == 'leader':
            k = rng.randrange(np)
            new[k] = (0, k, 1 - old[k][2])
        elif kind == 'more':
            new.append((0, np, rng.choice([0, 1])))
        elif kind == 'fewer':
            new.pop()
        elif kind == 'leaderless':
            k = rng.randrange(np)
            new[k] = (0, k, -1)
        elif kind == 'order':
            rng.shuffle(new)
        elif kind == 'other':
            controller = 1
        logs = [{'topic': topic, 'p': p, 'first': 0, 'end': 2, 'gap': 0, 'batch': 1, 'per': 10, 'wait': 5, 'size': 0} for p in range(np + 1)]
        leads = [rng.random() < 0.7 for _ in range(2)]
        rejoin = changed and leads[0]
        rules = [api_versions(apis), metadata([0, 1], [(topic, 0, new)], controller=controller, when='changed'), metadata([0, 1], [(topic, 0, old)])]
        mem = [('m1', member_metadata([topic])), ('zz', member_metadata([topic]))]
        for k in range(2):
            l = leads[k]
            rules += [rule(11, i16(0) + i32(5 + k) + s16('range') + s16('m1' if l else 'boss') + s16('m1') + arr([s16(a) + b32(b) for a, b in (mem if l else [])]), times=1),
                      rule(14, i16(0) + b32(assignment([(topic, [0, 1])])), times=1)]
        rules += [rule(12, i16(0), skip=2, times=1, set='changed'), rule(12, i16(0)), rule(13, i16(0)), rule(10, i16(0) + i32(0) + s16('127.0.0.1'), {'port': 0}),
                  raw(1, 'log', logs), raw(2, 'offsets', {'logs': logs, 'code': 0}), raw(9, 'committed', {str(p): -1 for p in range(np)}), raw(8, 'commitok', None)]
        cfg = {'client.id': 'cid', 'group.id': grp, 'retry.backoff.ms': 2, 'auto.commit': False, 'offsets.storage': 1, 'from.beginning': True, 'session.timeout.ms': 300,
               'fetch.max.wait.ms': 50, 'metadata.max.age.ms': 25, 'net': {'timeout.ms': 3000, 'connect.timeout.ms': 2000}}
        ops = [('group', {'topic': topic, 'config': cfg}, 9000), ('drain', {'Ms': 60}, 9000), ('until', {'12': 4}, 9000), ('drain', {'Ms': 120}, 9000)]
        if rejoin:
            ops += [('until', {'11': 2, '14': 2, '12': 7}, 9000), ('drain', {'Ms': 120}, 9000)]
        ops += [('gclose', None, 9000)]

        def check(A, rejoin=rejoin, kind=kind, leads=leads, changed=changed):
            if A.res[0]['err']:
                return 'Consume: %r' % (A.res[0],)
            k = sum(r['api'] == 11 for r in A.reqs)
            if rejoin and (k < 2 or A.res[4].get('timeout')):
                return 'the leader does not join again although the metadata changed (%s)' % kind
            if k > 1 + rejoin:
                return 'joins %d times; change: %s, leader: %r' % (k, kind, leads)
        yield scenario(2, rules, ops, check)


GSCN = dict(extra=['cluster', 'consumer'], xfns=['vScenario'])


def c15(P):
    from runner import Job
    S = dict(cases=group_cases, limit=40, **GSCN)
    J = [('join', join_job, [JOIN]), ('sync', sync_job, [SYNC]), ('join and sync', join_and_sync_job, [JAS]), ('heartbeat', heartbeat_job, [HB]), ('leave', leave_job, [LEAVE]),
         ('assigned partitions', parse_job, [PGA]), ('topics of the group', info_job, [TPI]), ('start', start_job, [CWH]), ('stop', stop_job, [STOP]), ('AwaitClose', await_job, [AWC]), ('Close', close_group_job, [CLG]), ('restart', restart_job, [RST]),
         ('heartbeats', group_consume_job, [GCON]), ('metadata changes', refresh_meta_job, [RFM]), ('commit of a group', commit_job(GCMT, 'GroupConsumer'), [GCMT])]
    B = dict(cases=rebalance_cases, limit=30, **GSCN)
    return [Job(n, b, require=f, **(B if n == 'metadata changes' else S)) for n, b, f in J]
