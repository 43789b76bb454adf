"""C09, C15 and the consumers' part of C14: position, commits and group membership, as contracts over traces."""
from routing import *
import routing as RT
import broker_ as BR

SC = '(*SimpleConsumer).'
GC = '(*GroupConsumer).'


# ---------------------------------------------------------------- contracts of the callees
def lookup_contracts(m, node='NewBroker'):
    """contracts of Brokers.findLeader, NewBroker, GetBroker (node_job, find_job)"""
    def fl(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'fl.err')
        l = app('leader!%d' % len(st.ev), (), -2**31, 2**31 - 1)
        W.ev(st, 'findLeader', m.force(st, a[2]), m.force(st, a[3]), e, l)
        return (l, e)
    m.contracts[FIND] = fl

    def nb(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'nb.err')
        path = 'node!%d' % len(st.ev)
        m.nonnil.add(path)
        b = m.force(st, Ghost(m.p.byname['*Broker'], path))
        W.ev(st, 'NewBroker', m.force(st, a[1]), b, e)
        return (b, e)
    m.contracts[BS + 'NewBroker'] = nb
    getbroker_contract(m)
    coord_contract(m)


def consumer(m, st, name='c', leader=True):
    W.conc(m)
    BR.errors_model(m)
    m.nonnil |= {name + '.brokers', name + '.leaderBroker'} if leader else {name + '.brokers'}
    return recv_of(m, st, 'SimpleConsumer', name)


def group(m, st, name='g'):
    W.conc(m)
    BR.errors_model(m)
    for n in ('Lock', 'Unlock'):
        m.contracts['(iface sync.Locker).' + n] = W.lock(n.lower())
    m.nonnil |= {name + '.brokers', name + '.coordinator'}
    g = recv_of(m, st, 'GroupConsumer', name)
    for k in ('mutex', 'restartLocker'):
        st.assume(not_(m.force(st, getf(m, st, g, k)).nil))
    return g


def same_fields(m, s, st, recv, tname, *except_):
    from machine import vsame
    for f in m.p.fields(m.p.byname[tname]):
        if f['n'] in except_:
            continue
        a, b = getf(m, st, recv, f['n']), getf(m, s, recv, f['n'])
        if a is b or vsame(a, b):
            continue
        a, b = m.force(s, a), m.force(s, b)
        if vsame(a, b):
            continue
        if isinstance(a, Lin) and isinstance(b, Lin) and prove(s.pc, eq(a, b)):
            continue
        if isinstance(a, Bl) and isinstance(b, Bl) and prove(s.pc, iff(a, b)):
            continue
        raise Mismatch('%s changes: %r instead of %r' % (f['n'], b, a), s.pc)


# ---------------------------------------------------------------- C14: leader and coordinator
GLB2 = SC + 'getLeaderBroker'


def leader_job(c):
    """ensures: nil: the connection is one to the leader that findLeader names for this partition; otherwise an error and the connection is as before"""
    m = c.m
    st = State()
    lookup_contracts(m)
    cn = consumer(m, st, leader=False)
    st0 = st.copy()
    n = 0
    for s1, (err,) in m.call_fn(GLB2, [cn], st, merge=False):
        n += 1

        def chk(s):
            fl, nb = W.evs(s, 'findLeader'), W.evs(s, 'NewBroker')
            e = m.force(s, err)
            if len(fl) != 1 or len(nb) > 1 or W.evs(s, 'GetBroker'):
                raise Mismatch('the leader is not looked up once', s.pc)
            seq_eq(fl[0][1], at(m, s, cn, ['topic']), s.pc)
            need(s.pc, eq(fl[0][2], at(m, s, cn, ['partitionID'])), 'the leader of another partition')
            if not nb:
                need(s.pc, not_(e.nil), 'no error although there is no leader')
            else:
                need(s.pc, and_(fl[0][3].nil, eq(nb[0][1], fl[0][4])), 'the broker is not the leader')
                need(s.pc, iff(e.nil, nb[0][3].nil), 'an unreachable leader is not reported')
            if isnil(m, s, e):
                if not same_ptr(at(m, s, cn, ['leaderBroker']), nb[0][2]):
                    raise Mismatch('another connection is used', s.pc)
                same_fields(m, s, st0, cn, 'SimpleConsumer', 'leaderBroker')
            else:
                same_fields(m, s, st0, cn, 'SimpleConsumer')
        c.post('ensures: the leader of the partition, or an error', s1, chk, GLB2)
    return n


def coordinator_job(fn, tname):
    """ensures: nil: the coordinator is the broker FindCoordinator names for this group; otherwise an error and nothing changes"""
    def body(c):
        m = c.m
        st = State()
        lookup_contracts(m)
        cn = consumer(m, st) if tname == 'SimpleConsumer' else group(m, st, 'c')
        st0 = st.copy()
        n = 0
        for s1, (err,) in m.call_fn(fn, [cn], st, merge=False):
            n += 1

            def chk(s):
                fc, gb = W.evs(s, 'coord'), W.evs(s, 'GetBroker')
                e = m.force(s, err)
                if len(fc) != 1 or len(gb) > 1:
                    raise Mismatch('the coordinator is not looked up once', s.pc)
                seq_eq(fc[0][1], at(m, s, cn, ['config', 'GroupID']), s.pc)
                if not gb:
                    need(s.pc, and_(not_(e.nil), not_(fc[0][2].nil)), 'the coordinator is not used')
                else:
                    need(s.pc, and_(fc[0][2].nil, eq(gb[0][1], at(m, s, fc[0][3], ['Coordinator', 'NodeID']))), 'the broker is not the coordinator')
                    need(s.pc, iff(e.nil, gb[0][3].nil), 'an unreachable coordinator is not reported')
                if isnil(m, s, e):
                    if not same_ptr(at(m, s, cn, ['coordinator']), gb[0][2]):
                        raise Mismatch('another connection is used', s.pc)
                    same_fields(m, s, st0, cn, tname, 'coordinator')
                else:
                    same_fields(m, s, st0, cn, tname)
            c.post('ensures: the coordinator of the group, or an error', s1, chk, fn)
        return n
    return body


CRL = '(*SimpleProducer).createLeader'


def create_leader_job(c):
    """ensures: nil error: a connection to the leader findLeader names for the partition; otherwise an error"""
    m = c.m
    st = State()
    W.conc(m)
    lookup_contracts(m)
    BR.errors_model(m)
    p = recv_of(m, st, 'SimpleProducer', 'p')
    m.contracts['getBrokerConfigFromProducerConfig'] = lambda m, fr, st, a, ins: (m.force(st, Ghost(m.p.byname['*BrokerConfig'], 'bcfg')),)
    m.nonnil.add('newbrokers')

    def nbc(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'nbc.err')
        b = m.force(st, Ghost(m.p.byname['*Brokers'], 'newbrokers'))
        W.ev(st, 'brokers', m.force(st, a[0]), e, b)
        return (b, e)
    m.contracts[NBC] = nbc
    n = 0
    for s1, (res, err) in m.call_fn(CRL, [p], st, merge=False):
        n += 1

        def chk(s):
            fl, nb, bs = W.evs(s, 'findLeader'), W.evs(s, 'NewBroker'), W.evs(s, 'brokers')
            e = m.force(s, err)
            if bs:
                seq_eq(bs[0][1], at(m, s, p, ['config', 'BootstrapServers']), s.pc)
            if not fl:
                if len(bs) != 1:
                    raise Mismatch('the leader is not looked up', s.pc)
                need(s.pc, and_(not_(e.nil), not_(bs[0][2].nil)), 'the leader is not looked up')
                return
            if len(fl) != 1 or len(nb) > 1:
                raise Mismatch('the leader is not looked up once', s.pc)
            seq_eq(fl[0][1], at(m, s, p, ['topic']), s.pc)
            need(s.pc, eq(fl[0][2], at(m, s, p, ['partition'])), 'the leader of another partition')
            if not nb:
                need(s.pc, not_(e.nil), 'no error although there is no leader')
                return
            need(s.pc, and_(fl[0][3].nil, eq(nb[0][1], fl[0][4])), 'the broker is not the leader')
            need(s.pc, iff(e.nil, nb[0][3].nil), 'an unreachable leader is not reported')
            if isnil(m, s, e) and not same_ptr(m.force(s, res), nb[0][2]):
                raise Mismatch('another connection is used', s.pc)
        c.post('ensures: the leader of the partition, or an error', s1, chk, CRL)
    return n


RFP = SC + 'refreshPartiton'


def refresh_partition_job(c):
    """ensures: nil: the partition is the one the metadata give for this topic and partition; otherwise it is as before"""
    m = c.m
    st = State()
    metadata_contract(m)
    cn = consumer(m, st)
    m.nonnil |= {'meta.TopicMetadatas[].PartitionMetadatas[]'}
    st0 = st.copy()
    E = Each(m, RFP, loose=True, want=lambda m, fr, st0, header, body: True)
    E2 = Each(m, RFP, loose=True)
    n = 0
    for s1, (err,) in m.call_fn(RFP, [cn], st, merge=False):
        n += 1

        def chk(s):
            md = W.evs(s, 'metadata')
            if len(md) != 1 or not prove(s.pc, eq(md[0][2].len, I(1))):
                raise Mismatch('not one metadata request for one topic', s.pc)
            seq_eq(m.force(s, elem_(m, s, md[0][2], I(0))), at(m, s, cn, ['topic']), s.pc)
            same_fields(m, s, st0, cn, 'SimpleConsumer', 'partition')
            if not isnil(m, s, m.force(s, err)):
                same_fields(m, s, st0, cn, 'SimpleConsumer')
                return
            p = at(m, s, cn, ['partition'])
            need(s.pc, eq(at(m, s, p, ['PartitionID']), at(m, s, cn, ['partitionID'])), 'another partition')
            ts = at(m, s, m.force(s, Ghost(m.p.funcs[BS + 'RequestMetaData']['results'][0]['t'], 'meta')), ['TopicMetadatas'])
            from settings import ground_indices
            from seqops import seq_bool
            ix = list(ground_indices(m, s, ()))
            for i in ix:
                if not prove(s.pc, and_(le(I(0), i), lt(i, ts.len))) or not prove(s.pc, seq_bool(at(m, s, elem(m, s, ts, i), ['TopicName']), at(m, s, cn, ['topic']))):
                    continue
                ps = at(m, s, elem(m, s, ts, i), ['PartitionMetadatas'])
                for j in ix:
                    if prove(s.pc, and_(le(I(0), j), lt(j, ps.len))):
                        q = elem(m, s, ps, j)
                        if all(prove(s.pc, eq(at(m, s, q, [k]), at(m, s, p, [k]))) for k in ('PartitionID', 'Leader', 'LeaderEpoch')):
                            return
            raise Mismatch('the partition is not the one of the metadata', s.pc)
        c.post('ensures: the partition of the metadata, or an error', s1, chk, RFP)
    return n


# ---------------------------------------------------------------- errors
def code_is(e, n):
    """errors.Is(e, KafkaError(n)) for an error from outside"""
    return and_(not_(e.nil), bapp('kafka$' + e.v.path, e.v.args), eq(app('code$' + e.v.path, e.v.args, -32768, 32767), I(n)))


def kafka_errors(m):
    """errors.Is on errors from outside: each may be any error of the broker, or any of the well-known ones; os.IsTimeout: may be a timeout"""
    def is_(m, fr, st, a, ins):
        e = m.force(st, a[0])
        if e.nil is TRUE:
            return (FALSE,)
        t = m.force(st, a[1])
        if not isinstance(e.v, Ghost):
            return NotImplemented
        if isinstance(t, IfaceV) and isinstance(t.t, int) and m.p.name(t.t) == 'KafkaError' and m.force(st, t.v).const() is not None:
            return (code_is(e, m.force(st, t.v).const()),)
        name = t['name'] if isinstance(t, OpaqueV) else W.key(t)
        return (and_(not_(e.nil), bapp('is$%s$%s' % (name, e.v.path), e.v.args)),)
    m.contracts['errors.Is'] = is_

    def tm(m, fr, st, a, ins):
        e = m.force(st, a[0])
        if not isinstance(e.v, Ghost):
            return NotImplemented
        return (and_(not_(e.nil), bapp('tm$' + e.v.path, e.v.args)),)
    m.contracts['os.IsTimeout'] = tm


def code_contract(m, fn, name):
    """Error() of an answer (C06): some error or none"""
    def h(m, fr, st, a, ins):
        e = W.ghost_err(m, st, name)
        W.ev(st, 'Error', m.force(st, a[0]), e)
        return (e,)
    m.contracts[fn] = h


# ---------------------------------------------------------------- C09: commits
CMT, GCMT, CMTO = SC + 'commitOffset', GC + 'commitOffset', SC + 'CommitOffset'


def relook_contract(m, cn):
    """contract of SimpleConsumer.getCoordinator (coordinator_job)"""
    def h(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'relook.err')
        W.ev(st, 'relook', W.key(m.force(st, a[0])), e)
        path = 'coordinator!%d' % len(st.ev)
        m.nonnil.add(path)
        st2 = st.copy()
        st.assume(e.nil)
        setf(m, st, cn, 'coordinator', m.force(st, Ghost(m.p.byname['*Broker'], path)))
        st2.assume(not_(e.nil))
        return [(s, (e,)) for s in (st, st2) if solver.sat(s.pc)]
    m.contracts[SC + 'getCoordinator'] = h


def relooked(m, s, evs, cn, e):
    """a coordinator that moved or is not available is looked up again"""
    n = [x for x in evs if x[0] == 'relook']
    if not n:
        need(s.pc, not_(or_(code_is(e, 15), code_is(e, 16))), 'a coordinator that moved is not looked up again')
    for x in n:
        if x[1] != W.key(cn):
            raise Mismatch('the coordinator of another consumer', s.pc)


def commit_job(fn, tname):
    """ensures: a commit goes to the coordinator with the group, member, generation, topic, partition and offset of this consumer; true exactly when the broker accepted it;
    an offset that cannot be committed (negative, or no member id yet) is not sent and not reported as committed"""
    def body(c):
        m = c.m
        st = State()
        exchange_contract(m)
        grp = tname == 'GroupConsumer'
        cn = group(m, st, 'c') if grp else consumer(m, st)
        m.nonnil.add('c.coordinator')
        code_contract(m, '(OffsetCommitResponse).Error', 'commit.code')
        kafka_errors(m)
        if not grp:
            relook_contract(m, cn)
        off = app('offset', (), -2**63, 2**63 - 1)
        topic, pid = (satom('topic', (), 32767), app('pid', (), -2**31, 2**31 - 1)) if grp else (at(m, st, cn, ['topic']), at(m, st, cn, ['partitionID']))
        st0 = st.copy()
        n = 0
        for s1, (ok,) in m.call_fn(fn, [cn] + ([topic, pid, off] if grp else [off]), st, merge=False):
            n += 1

            def chk(s):
                from seqops import seq_bool
                rq, er = W.evs(s, 'request'), W.evs(s, 'Error')
                r = m.force(s, ok)
                same_fields(m, s, st0, cn, tname, 'coordinator')
                if not W.evs(s, 'relook'):
                    same_fields(m, s, st0, cn, tname)
                can = le(I(0), off)
                if grp:
                    can = and_(can, not_(seq_bool(at(m, s, cn, ['memberID']), sq())))
                if not rq:
                    need(s.pc, not_(r), 'committed without a request')
                    need(s.pc, not_(can), 'a commit is left out')
                    return
                need(s.pc, can, 'an offset that cannot be committed is sent')
                if len(rq) != 1 or rq[0][1] != W.key(at(m, st0, cn, ['coordinator'])):
                    raise Mismatch('the commit does not go to the coordinator', s.pc)
                if req_kind(m, s, rq[0][2]).lstrip('*') != 'OffsetCommitRequest':
                    raise Mismatch('another request', s.pc)
                q = m.force(s, rq[0][2].v)
                seq_eq(at(m, s, q, ['GroupID']), at(m, s, cn, ['config', 'GroupID']), s.pc)
                need(s.pc, eq(at(m, s, q, ['RequestHeader', 'APIKey']), I(8)), 'another api')
                seq_eq(at(m, s, q, ['MemberID']), at(m, s, cn, ['memberID']) if grp else sq(), s.pc)
                need(s.pc, eq(at(m, s, q, ['GenerationID']), at(m, s, cn, ['generationID']) if grp else I(-1)), 'another generation')
                need(s.pc, and_(eq(at(m, s, q, ['Topics']).len, I(1)), eq(at(m, s, q, ['Topics', 0, 'Partitions']).len, I(1))), 'not one partition')
                seq_eq(at(m, s, q, ['Topics', 0, 'Topic']), topic, s.pc)
                p = at(m, s, q, ['Topics', 0, 'Partitions', 0])
                need(s.pc, eq(at(m, s, p, ['PartitionID']), pid), 'another partition')
                need(s.pc, eq(at(m, s, p, ['Offset']), off), 'another offset')
                acc = rq[0][3].nil
                for e in er:
                    acc = and_(acc, e[2].nil)
                need(s.pc, iff(r, acc), 'the result is not whether the broker accepted the commit')
                if not grp:
                    relooked(m, s, s.ev, cn, rq[0][3])
            c.post('ensures: the offset is committed for this partition and member, true iff accepted', s1, chk, fn)
        return n
    return body


def commit_offset_job(c):
    """ensures: the position of this moment is committed through the group, or else the own coordinator, unless it is already committed;
    it is recorded as committed exactly when that was accepted"""
    m = c.m
    st = State()
    cn = consumer(m, st)
    for fn, nm in ((CMT, 'own'), (GCMT, 'group')):
        def h(m, fr, st, a, ins, nm=nm):
            r = bapp('accepted!%d' % len(st.ev), ())
            W.ev(st, nm, W.key(m.force(st, a[0])), [m.force(st, x) for x in a[1:]], r)
            return (r,)
        m.contracts[fn] = h
    pos, com = at(m, st, cn, ['offset']), at(m, st, cn, ['offsetCommited'])
    st0 = st.copy()
    n = 0
    for s1, _ in m.call_fn(CMTO, [cn], st, merge=False):
        n += 1

        def chk(s):
            from seqops import seq_bool
            ow, gr = W.evs(s, 'own'), W.evs(s, 'group')
            same_fields(m, s, st0, cn, 'SimpleConsumer', 'offsetCommited')
            ingroup = not_(at(m, s, cn, ['belongTO']).nil)
            hasgroup = not_(seq_bool(at(m, s, cn, ['config', 'GroupID']), sq()))
            new = at(m, s, cn, ['offsetCommited'])
            if len(ow) + len(gr) > 1:
                raise Mismatch('more than one commit', s.pc)
            if not ow and not gr:
                need(s.pc, or_(eq(pos, com), and_(not_(ingroup), not_(hasgroup))), 'a commit is left out')
                need(s.pc, eq(new, com), 'recorded as committed without a commit')
                return
            if gr:
                need(s.pc, ingroup, 'no group')
                if gr[0][1] != W.key(at(m, s, cn, ['belongTO'])):
                    raise Mismatch('another group', s.pc)
                seq_eq(gr[0][2][0], at(m, s, cn, ['topic']), s.pc)
                need(s.pc, and_(eq(gr[0][2][1], at(m, s, cn, ['partitionID'])), eq(gr[0][2][2], pos)), 'another position')
                ok = gr[0][3]
            else:
                need(s.pc, and_(not_(ingroup), hasgroup), 'not committed through the group')
                need(s.pc, eq(ow[0][2][0], pos), 'another position')
                ok = ow[0][3]
            need(s.pc, implies(ok, eq(new, pos)), 'an accepted commit is not recorded')
            need(s.pc, implies(not_(ok), eq(new, com)), 'recorded although it was not accepted')
        c.post('ensures: the position is committed unless it already is', s1, chk, CMTO)
    return n


GCO = GC + 'CommitOffset'


def group_commit_job(c):
    """ensures: every consumer of the group commits once"""
    m = c.m
    st = State()
    g = group(m, st)
    m.nonnil.add('g.simpleConsumers[]')
    m.contracts[CMTO] = W.record('commit')
    l = at(m, st, g, ['simpleConsumers'])

    def each(s, x, evs):
        if len(evs) != 1 or evs[0][0] != 'commit' or W.key(evs[0][1]) != W.key(m.force(s, elem_(m, s, l, x))):
            raise Mismatch('an iteration does not commit its consumer', s.pc)
    E = Each(m, GCO, check=each)
    n = 0
    for s1, _ in m.call_fn(GCO, [g], st, merge=False):
        n += 1

        def chk(s):
            if not E.done or s.ev[-1][0] != 'loop':
                raise Mismatch('not every consumer commits', s.pc)
            need(s.pc, le(l.len, s.ev[-1][1]), 'not every consumer commits')
        c.post('ensures: every consumer of the group commits', s1, chk, GCO)
    return n


# ---------------------------------------------------------------- C09: where to start
GOF, INI, GCOF = SC + 'getOffset', SC + 'initOffset', SC + 'getCommitedOffet'


def get_offset_job(c):
    """ensures: nil error: the offset the leader reports for this partition as its earliest or latest; otherwise an error"""
    m = c.m
    st = State()
    cn = consumer(m, st)
    ask_offsets(m)
    kafka_errors(m)
    code_contract(m, '(OffsetsResponse).Error', 'offsets.code')
    fb = bapp('fromBeginning', ())
    st0 = st.copy()
    tp = lambda s: m.force(s, Ghost(m.p.funcs[RO]['results'][0]['t'], 'offsets!0'))
    m.nonnil |= {'offsets!0.TopicPartitionOffsets', 'offsets!0.TopicPartitionOffsets{}[]'}

    def go(m, fr, st, a, ins):
        """contract of GetOffset: the offset of this entry; requires at most one offset in an entry (one was asked for)"""
        p = m.force(st, a[0])
        W.ev(st, 'GetOffset', p)
        return (app('entry.offset!%d' % len(st.ev), (), -2**63, 2**63 - 1),)
    m.contracts['(*PartitionOffset).GetOffset'] = go
    E = Each(m, GOF, loose=True)
    n = 0
    for s1, (res, err) in m.call_fn(GOF, [cn, fb], st, merge=False):
        n += 1

        def chk(s):
            of, er, go_ = W.evs(s, 'offsets'), W.evs(s, 'Error'), W.evs(s, 'GetOffset')
            same_fields(m, s, st0, cn, 'SimpleConsumer')
            if len(of) != 1 or of[0][1] != W.key(at(m, s, cn, ['leaderBroker'])):
                raise Mismatch('the leader is not asked once', s.pc)
            a = of[0][2]
            seq_eq(a[1], at(m, s, cn, ['topic']), s.pc)
            need(s.pc, and_(eq(a[2].len, I(1)), eq(m.force(s, elem_(m, s, a[2], I(0))), at(m, s, cn, ['partitionID'])), eq(a[4], I(1))), 'another partition')
            need(s.pc, eq(a[3], ite(fb, I(-2), I(-1))), 'another end of the log')
            e = m.force(s, err)
            if not isnil(m, s, e):
                return
            need(s.pc, of[0][3].nil, 'an error is ignored')
            for x in er:
                need(s.pc, x[2].nil, 'an error code is ignored')
            if not er or len(go_) != 1:
                raise Mismatch('the answer is not checked', s.pc)
            need(s.pc, eq(at(m, s, go_[0][1], ['Partition']), at(m, s, cn, ['partitionID'])), 'the offset of another partition')
            need(s.pc, eq(m.force(s, res), app('entry.offset!%d' % (s.ev.index(go_[0]) + 1), (), -2**63, 2**63 - 1)), 'another offset')
        c.post('ensures: the offset of this partition, or an error', s1, chk, GOF)
    return n


def offset_of_entry_job(c):
    """ensures: the one offset of an old-style entry, else the offset field"""
    m = c.m
    st = State()
    fn = '(*PartitionOffset).GetOffset'
    p = recv_of(m, st, 'PartitionOffset', 'p')
    l = at(m, st, p, ['OldStyleOffsets'])
    st.assume(le(l.len, I(1)))
    n = 0
    for s1, (res,) in m.call_fn(fn, [p], st, merge=False):
        n += 1

        def chk(s):
            if holds(s, eq(l.len, I(0))):
                need(s.pc, eq(m.force(s, res), at(m, s, p, ['Offset'])), 'another offset')
            else:
                need(s.pc, eq(m.force(s, res), m.force(s, elem_(m, s, l, I(0)))), 'another offset')
        c.post('ensures: the offset of the entry', s1, chk, fn)
    return n


def offset_contract(m):
    """contract of getOffset (get_offset_job)"""
    def h(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'getoffset.err')
        v = ite(e.nil, app('reported!%d' % len(st.ev), (), -2**63, 2**63 - 1), I(-1))
        W.ev(st, 'getOffset', W.key(m.force(st, a[0])), m.force(st, a[1]), e, v)
        return (v, e)
    m.contracts[GOF] = h


def init_offset_job(c):
    """ensures: a position that is set stays; otherwise it becomes the offset the leader reports for the end that -1 (latest) or -2 (earliest) name, unless the consumer is stopped"""
    m = c.m
    st = State()
    cn = consumer(m, st)
    offset_contract(m)
    off0, fb0 = at(m, st, cn, ['offset']), at(m, st, cn, ['fromBeginning'])
    want = ite(eq(off0, I(-1)), I(0), ite(eq(off0, I(-2)), I(1), ite(fb0, I(1), I(0))))
    st0 = st.copy()

    def hv(m, st):
        setf(m, st, cn, 'offset', app('cur.offset', (), -2**63, 2**63 - 1))
        setf(m, st, cn, 'stop', bapp('cur.stop', ()))

    def judge(s, evs, last):
        g = [e for e in evs if e[0] == 'getOffset']
        if len(g) > 1 or (not last and not g):
            raise Mismatch('not one question in an iteration', s.pc)
        if g:
            need(s.pc, iff(g[0][2], eq(want, I(1))), 'the other end of the log')
            if last:
                need(s.pc, and_(g[0][3].nil, eq(at(m, s, cn, ['offset']), g[0][4])), 'the position is %r' % (at(m, s, cn, ['offset']),))
            else:
                need(s.pc, not_(g[0][3].nil), 'an answer is thrown away')
    E = Each(m, INI, allowed=[hv], check=lambda s, x, evs: judge(s, evs, False), loose=True)
    n = 0
    for s1, _ in m.call_fn(INI, [cn], st, merge=False):
        n += 1

        def chk(s):
            same_fields(m, s, st0, cn, 'SimpleConsumer', 'offset', 'fromBeginning', 'stop')
            i = last_loop(s)
            if i < 0:
                need(s.pc, eq(at(m, s, cn, ['offset']), off0), 'the position changes')
                if W.evs(s, 'getOffset') or not holds(s, le(I(0), off0)):
                    raise Unsupported('initOffset without a loop')
                return
            need(s.pc, lt(off0, I(0)), 'a position that is set is looked up')
            evs = s.ev[i + 1:]
            if [e for e in evs if e[0] == 'getOffset']:
                judge(s, evs, True)
            else:
                need(s.pc, at(m, s, cn, ['stop']), 'no position although the consumer is not stopped')
        c.post('ensures: the starting position', s1, chk, INI)
    return n


def committed_job(c):
    """ensures: the group's coordinator is asked for this partition; the position becomes its answer for this partition when that is a position, else it stays"""
    m = c.m
    st = State()
    cn = consumer(m, st)
    m.nonnil |= {'c.coordinator', 'c.belongTO.coordinator'}
    exchange_contract(m)
    kafka_errors(m)
    relook_contract(m, cn)
    off0 = at(m, st, cn, ['offset'])
    st0 = st.copy()

    def is_retry(m, fr, st0, header, body):
        return calls(m, fr, body, BK + 'RequestAndGet')

    def judge(s, evs, last):
        rq = [e for e in evs if e[0] == 'request']
        if len(rq) != 1:
            raise Mismatch('not one request in an iteration', s.pc)
        own = holds(s, at(m, s, cn, ['belongTO']).nil)
        if rq[0][1] != (W.key(cur_co(s)) if own else W.key(at(m, s, cn, ['belongTO', 'coordinator']))):
            raise Mismatch('the request does not go to the coordinator', s.pc)
        if req_kind(m, s, rq[0][2]).lstrip('*') != 'OffsetFetchRequest':
            raise Mismatch('another request', s.pc)
        q = m.force(s, rq[0][2].v)
        seq_eq(at(m, s, q, ['GroupID']), at(m, s, cn, ['config', 'GroupID']), s.pc)
        need(s.pc, and_(eq(at(m, s, q, ['Topics']).len, I(1)), eq(at(m, s, q, ['Topics', 0, 'Partitions']).len, I(1))), 'not one partition')
        seq_eq(at(m, s, q, ['Topics', 0, 'Topic']), at(m, s, cn, ['topic']), s.pc)
        need(s.pc, eq(m.force(s, elem_(m, s, at(m, s, q, ['Topics', 0, 'Partitions']), I(0))), at(m, s, cn, ['partitionID'])), 'another partition')
        if not last:
            need(s.pc, not_(rq[0][3].nil), 'an answer is thrown away')
            if own:
                relooked(m, s, evs, cn, rq[0][3])
        return rq[0]
    m.nonnil.add('cur.coordinator')
    cur_co = lambda s: m.force(s, Ghost(m.p.byname['*Broker'], 'cur.coordinator'))
    co_ = lambda m, st: setf(m, st, cn, 'coordinator', cur_co(st))
    A = Each(m, GCOF, allowed=[co_], check=lambda s, x, evs: c.cases(s, lambda s2: judge(s2, evs, False)), want=is_retry, loose=True)
    best = {}

    def found(m, st):
        """at the start of any iteration of the search: the position is unchanged, or one committed for this partition"""
        setf(m, st, cn, 'offset', app('cur.offset', (), -2**63, 2**63 - 1))

    def entry(s, cur):
        """the position after an iteration or at the end: as before it, or an offset >= 0 of an entry of this partition"""
        o = at(m, s, cn, ['offset'])
        from settings import ground_indices
        from seqops import seq_bool
        rq = W.evs(s, 'request')[-1]
        ts = at(m, s, rq[4].v, ['Topics'])
        ix = list(ground_indices(m, s, ()))
        ok = prove(s.pc, eq(o, cur))
        for i in ix:
            if prove(s.pc, and_(le(I(0), i), lt(i, ts.len))) and prove(s.pc, seq_bool(at(m, s, elem(m, s, ts, i), ['Topic']), at(m, s, cn, ['topic']))):
                ps = at(m, s, elem(m, s, ts, i), ['Partitions'])
                for j in ix:
                    if prove(s.pc, and_(le(I(0), j), lt(j, ps.len))):
                        p = elem(m, s, ps, j)
                        if prove(s.pc, eq(at(m, s, p, ['PartitionID']), at(m, s, cn, ['partitionID']))):
                            need(s.pc, implies(le(I(0), at(m, s, p, ['Offset'])), eq(at(m, s, p, ['Offset']), o)), 'the committed position is not used')
                            ok = ok or prove(s.pc, and_(le(I(0), o), eq(at(m, s, p, ['Offset']), o)))
        if not ok:
            raise Mismatch('the position %r is not the committed one of this partition' % (o,), s.pc)
    cur = app('cur.offset', (), -2**63, 2**63 - 1)
    B = Each(m, GCOF, allowed=[found], check=lambda s, x, evs: entry(s, cur), want=lambda m, fr, st0, header, body: not is_retry(m, fr, st0, header, body), loose=True)
    B2 = Each(m, GCOF, allowed=[found], check=lambda s, x, evs: entry(s, cur), want=lambda m, fr, st0, header, body: not is_retry(m, fr, st0, header, body), loose=True)
    n = 0
    for s1, (err,) in m.call_fn(GCOF, [cn], st, merge=False):
        n += 1

        def chk(s):
            same_fields(m, s, st0, cn, 'SimpleConsumer', 'offset', 'coordinator')
            if not isnil(m, s, m.force(s, err)):
                same_fields(m, s, st0, cn, 'SimpleConsumer')
                return
            if not W.evs(s, 'request'):
                raise Mismatch('nobody is asked', s.pc)
            if not B.done:
                raise Unsupported('the answer is searched in another way')
            judge(s, [e for e in s.ev if e[0] == 'request'][-1:], True)
            entry(s, cur)
        c.post('ensures: the committed position of this partition, or the one before', s1, chk, GCOF)
    return n


# ---------------------------------------------------------------- C09: the position while consuming
CM, CLP, CONS = SC + 'consumeMessages', SC + 'consumeLoop', SC + 'Consume'


def leader_contract(m, cn):
    """contract of getLeaderBroker (leader_job)"""
    def h(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'leader.err')
        W.ev(st, 'getLeaderBroker', e)
        path = 'leader!%d' % len(st.ev)
        m.nonnil.add(path)
        st2 = st.copy()
        st.assume(e.nil)
        setf(m, st, cn, 'leaderBroker', m.force(st, Ghost(m.p.byname['*Broker'], path)))
        st2.assume(not_(e.nil))
        setf(m, st2, cn, 'stop', or_(at(m, st2, cn, ['stop']), bapp('stopped!%d' % len(st2.ev), ())))
        return [(s, (e,)) for s in (st, st2) if solver.sat(s.pc)]
    m.contracts[GLB2] = h


def chan(m, st, name, et='*FullMessage'):
    return OpaqueV('chan', nil=FALSE, path=name)


def message_paths(m):
    for k in range(40):
        m.nonnil |= {'recv!%d' % k, 'recv!%d.Message' % k}


def messages_job(c):
    """loop invariant: every message received was handed over, in order, and the position is just after it;
    ensures: the position changes only so, except that after an offset-out-of-range error it becomes the offset the leader reports for the configured end (or stays when that fails)"""
    m = c.m
    st = State()
    cn = consumer(m, st)
    kafka_errors(m)
    offset_contract(m)
    leader_contract(m, cn)
    message_paths(m)
    m.contracts['(*Broker).Close'] = W.record('broker.Close')
    m.contracts[RFP] = W.record('refreshPartition', lambda m, st, a: W.ghost_err(m, st, 'rp.err'))
    ctx = at(m, st, cn, ['ctx'])
    st.assume(not_(ctx.nil))
    done = m.chan_key(st, m.contracts['(iface context.Context).Done'](m, None, st.copy(), [ctx], None)[0])
    cur = app('cur.offset', (), 0, 2**63 - 2)
    off0 = at(m, st, cn, ['offset'])
    fb = at(m, st, cn, ['fromBeginning'])
    st0 = st.copy()

    def hv(m, st):
        setf(m, st, cn, 'offset', cur)

    def wait(m, st):
        setf(m, st, cn, 'stop', bapp('cur.stop', ()))

    def judge(s, evs, back):
        o = [e for e in evs if e[0] in ('recv', 'send', 'getOffset', 'getLeaderBroker')]
        pos = at(m, s, cn, ['offset'])
        rc, sn, go_ = [[e for e in o if e[0] == k] for k in ('recv', 'send', 'getOffset')]
        if not o or o[0][0] != 'recv':
            raise Mismatch('nothing is received first', s.pc)
        msgs = [e for e in rc if e[1] == 'inner']
        if len(msgs) > 1 or len(sn) > 1:
            raise Mismatch('more than one message', s.pc)
        for e in rc:
            if e[1] not in ('inner', done):
                raise Mismatch('another channel %s' % e[1], s.pc)
        v = m.force(s, msgs[0][2]) if msgs and msgs[0][3] is TRUE else None
        if sn:
            if v is None or sn[0][1] != 'out' or not same_ptr(m.force(s, sn[0][2]), v):
                raise Mismatch('something else is handed over', s.pc)
            need(s.pc, at(m, s, v, ['Error']).nil, 'a failed message is handed over')
            need(s.pc, eq(pos, at(m, s, v, ['Message', 'Offset']) + 1), 'the position is %r after a message' % (pos,))
            if o.index(sn[0]) < o.index(msgs[0]):
                raise Mismatch('handed over before it is received', s.pc)
            if not back:
                raise Mismatch('the loop ends after a message although there may be more', s.pc)
            return
        if back:
            raise Mismatch('a message is dropped', s.pc)
        if v is not None and holds(s, not_(at(m, s, v, ['Error']).nil)):
            e = at(m, s, v, ['Error'])
            if holds(s, code_is(e, 1)):
                if len(go_) != 1:
                    raise Mismatch('the position is not looked up after an offset out of range', s.pc)
                need(s.pc, iff(go_[0][2], fb), 'the other end of the log')
                need(s.pc, eq(pos, ite(go_[0][3].nil, go_[0][4], cur)), 'the position is %r after an offset out of range' % (pos,))
                return
        elif v is not None and not [e for e in rc if e[1] == done]:
            raise Mismatch('a message is dropped', s.pc)
        if go_:
            raise Mismatch('the position is looked up', s.pc)
        need(s.pc, eq(pos, cur), 'the position is %r without a message' % (pos,))
        lb = at(m, s, cn, ['leaderBroker'])
        gl = [e for e in evs if e[0] == 'getLeaderBroker']
        need(s.pc, or_(not_(lb.nil), at(m, s, cn, ['stop'])), 'no leader although the consumer is not stopped')
    inner = lambda m, fr, st0, header, body: calls(m, fr, body, GLB2) and not any(i['op'] == 'Select' for bl in body for i in m.p.funcs[fr.fn]['blocks'][bl]['instrs'])
    R = Each(m, None, allowed=[wait], want=inner, loose=True)
    E = Each(m, CM, allowed=[hv], check=lambda s, x, evs: c.cases(s, lambda s2: judge(s2, evs, True)), want=lambda *a: not inner(*a), loose=True)
    n = 0
    for s1, (err,) in m.call_fn(CM, [cn, chan(m, st, 'inner'), chan(m, st, 'out')], st, merge=False):
        n += 1

        def chk(s):
            same_fields(m, s, st0, cn, 'SimpleConsumer', 'offset', 'leaderBroker', 'stop', 'config', 'partition')
            i = max([j for j, e in enumerate(s.ev) if e == ('loop', E.x)] or [-1]) if E.done else -1
            if i < 0:
                raise Unsupported('messages are not consumed in a loop')
            judge(s, s.ev[i + 1:], False)
        c.post('ensures: the position is just after the last message handed over', s1, chk, CM)
    return n


def loop_job(c):
    """each iteration: one fetch request for this partition at the position goes to the leader; after an error nothing is decoded; otherwise the answer is decoded from that position into
    a channel that is closed at its end, its messages are consumed, and the next iteration waits until the answer is read to its end (or the consumer stopped)"""
    m = c.m
    st = State()
    cn = consumer(m, st)
    kafka_errors(m)
    message_paths(m)
    ctx = at(m, st, cn, ['ctx'])
    st.assume(not_(ctx.nil))
    done = m.chan_key(st, m.contracts['(iface context.Context).Done'](m, None, st.copy(), [ctx], None)[0])
    rt = m.p.funcs[BK + 'requestFetchStreamingly']['results']

    def fetch(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'fetch.err')
        r = m.force(st, Ghost(rt[0]['t'], 'reader!%d' % len(st.ev)))
        n = app('length!%d' % len(st.ev), (), 0, 2**32 - 1)
        W.ev(st, 'fetch', W.key(m.force(st, a[0])), m.force(st, a[1]), e, r, n)
        return (r, n, e)
    m.contracts[BK + 'requestFetchStreamingly'] = fetch
    ver = app('fetch.version', (), 0, 65535)

    def hv_(m, fr, st, a, ins):
        if m.force(st, a[1]).const() != 1:
            raise Mismatch('the version of another api', st.pc)
        return (ver,)
    m.contracts[BK + 'getHighestAvailableAPIVersion'] = hv_

    def dec(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'decode.err')
        d = m.force(st, a[0])
        W.ev(st, 'decode', {k: at(m, st, d, [k]) for k in ('buffers', 'messages', 'totalLength', 'version')}, m.force(st, a[2]))
        return (e,)
    m.contracts['(*fetchResponseStreamDecoder).streamDecode'] = dec
    m.contracts[CM] = W.record('consume', lambda m, st, a: W.ghost_err(m, st, 'consume.err'))
    cur = app('cur.offset', (), -2**63, 2**63 - 1)
    st0 = st.copy()

    def hv(m, st):
        """other goroutines of this consumer: position, leader, partition, size and stop may differ in every iteration"""
        setf(m, st, cn, 'offset', cur)
        setf(m, st, cn, 'stop', bapp('cur.stop', ()))

    def judge(s, evs, back):
        f = [e for e in evs if e[0] == 'fetch']
        go = [e for e in evs if e[0] == 'go']
        need(s.pc, eq(at(m, s, cn, ['offset']), cur), 'the loop itself changes the position')
        if len(f) > 1 or (back and not f):
            raise Mismatch('%d fetch requests in an iteration' % len(f), s.pc)
        if not f:
            if go:
                raise Mismatch('something runs without a fetch', s.pc)
            need(s.pc, at(m, s, cn, ['stop']), 'the loop ends although the consumer is not stopped')
            return
        if f[0][1] != W.key(at(m, s, cn, ['leaderBroker'])):
            raise Mismatch('the fetch does not go to the leader', s.pc)
        q = f[0][2]
        tp = s.heap[at(m, s, q, ['Topics']).obj]
        if tp.base is not None or len(tp.upd) != 1:
            raise Mismatch('%d topics are fetched' % len(tp.upd), s.pc)
        seq_eq(m.force(s, tp.upd[0][0]), at(m, s, cn, ['topic']), s.pc)
        l = m.force(s, tp.upd[0][1])
        need(s.pc, eq(l.len, I(1)), 'not one partition')
        p = elem(m, s, l, I(0))
        need(s.pc, eq(at(m, s, p, ['Partition']), at(m, s, cn, ['partitionID'])), 'another partition')
        need(s.pc, eq(at(m, s, p, ['FetchOffset']), cur), 'the fetch is for offset %r' % (at(m, s, p, ['FetchOffset']),))
        need(s.pc, eq(at(m, s, p, ['CurrentLeaderEpoch']), at(m, s, cn, ['partition', 'LeaderEpoch'])), 'another leader epoch')
        need(s.pc, and_(eq(at(m, s, q, ['MaxWaitTime']), at(m, s, cn, ['config', 'FetchMaxWaitMS'])), eq(at(m, s, q, ['MinBytes']), at(m, s, cn, ['config', 'FetchMinBytes']))), 'other limits')
        e = f[0][3]
        if not isnil(m, s, e):
            if go:
                raise Mismatch('an answer is decoded although the fetch failed', s.pc)
            return
        if not back:
            raise Mismatch('the loop ends after a fetch', s.pc)
        if len(go) != 2:
            raise Unsupported('the answer is handled by %d goroutines' % len(go))
        gi = [evs.index(x) for x in go]
        ws = [j for j, x in enumerate(evs) if x[0] == 'wg.Wait']
        ad = [j for j, x in enumerate(evs) if x[0] == 'wg.Add']
        if len(ws) != 1 or len(ad) != 1 or ws[0] < max(gi) or ad[0] > min(max(gi), ws[0]):
            raise Mismatch('the next fetch does not wait', s.pc)
        inner = {}
        kinds = []
        for g in go:
            s2 = s.copy()
            s2.ev = []
            D = Each(m, g[1], check=lambda s, x, evs2: drain(s, evs2, True, inner), loose=True)
            for s3, _ in m.call_fn(g[1], g[2], s2, binds=g[3], merge=False):
                k = 'decode' if W.evs(s3, 'decode') else 'consume'
                kinds.append((k, g))
                if k == 'decode':
                    d = W.evs(s3, 'decode')
                    if len(d) != 1:
                        raise Mismatch('the answer is decoded %d times' % len(d), s3.pc)
                    x = d[0][1]
                    inner.setdefault('k', m.chan_key(s3, x['messages']))
                    if W.key(x['buffers']) != W.key(f[0][4]):
                        raise Mismatch('something else is decoded', s3.pc)
                    need(s3.pc, and_(eq(x['totalLength'], f[0][5]), eq(x['version'], ver)), 'another length or version')
                    need(s3.pc, eq(d[0][2], cur), 'decoded from offset %r' % (d[0][2],))
                    cl = [j for j, e in enumerate(s3.ev) if e[0] == 'closechan']
                    if len(cl) != 1 or s3.ev[cl[0]][1] != m.chan_key(s3, x['messages']) or cl[0] < s3.ev.index(d[0]):
                        raise Mismatch('the channel is not closed at the end of the answer', s3.pc)
                else:
                    cm = [e for e in s3.ev if e[0] == 'consume']
                    if len(cm) != 1 or W.key(cm[0][1]) != W.key(cn) or m.chan_key(s3, m.force(s3, cm[0][3])) != 'out':
                        raise Mismatch('the messages are not consumed', s3.pc)
                    inner.setdefault('c', m.chan_key(s3, m.force(s3, cm[0][2])))
                    dn = [j for j, e in enumerate(s3.ev) if e[0] == 'wg.Done']
                    if len(dn) != 1 or dn[0] < s3.ev.index(cm[0]):
                        raise Mismatch('the end of the answer is not signalled', s3.pc)
                    drain(s3, s3.ev, False, inner)
            m.loop_rules.remove(D.rule)
        if sorted(set(k for k, _ in kinds)) != ['consume', 'decode'] or inner.get('k') != inner.get('c') or inner.get('k') == 'out':
            raise Mismatch('the messages of the answer are not the ones consumed', s.pc)

    def drain(s, evs, back, inner):
        """the rest of the answer is read: until its channel is closed, or the consumer is stopped"""
        r = [e for e in evs if e[0] == 'recv']
        if back:
            if len(r) != 1 or r[0][1] == done:
                raise Mismatch('a stopped consumer goes on', s.pc)
            need(s.pc, r[0][3] if not isinstance(r[0][3], bool) else TRUE, 'reading goes on after the end')
            return
        if not r:
            raise Mismatch('the end of the answer is not awaited', s.pc)
        if r[-1][1] == done:
            return
        need(s.pc, not_(r[-1][3]), 'the answer is not read to its end')
    outer = lambda m, fr, st0, header, body: calls(m, fr, body, BK + 'requestFetchStreamingly')
    E = Each(m, CLP, allowed=[hv], check=lambda s, x, evs: c.cases(s, lambda s2: judge(s2, evs, True)), want=outer, loose=True)
    n = 0
    for s1, _ in m.call_fn(CLP, [cn, chan(m, st, 'out')], st, merge=False):
        n += 1

        def chk(s):
            same_fields(m, s, st0, cn, 'SimpleConsumer', 'offset', 'stop', 'consumeLoopWg')
            i = last_loop(s)
            if i < 0 or not E.done:
                raise Unsupported('no loop')
            judge(s, s.ev[i + 1:], False)
        c.post('ensures: the loop ends when the consumer is stopped', s1, chk, CLP)
    return n


def consume_job(c):
    """ensures: the loop starts at the given offset; -1 and -2 stand for the group's committed position, else for the end of the log they name;
    positions are committed on a timer and at the end exactly when auto commit is on and there is a group; a stopped consumer starts nothing"""
    m = c.m
    st = State()
    cn = consumer(m, st, leader=False)
    leader_contract(m, cn)
    ctx = at(m, st, cn, ['ctx'])
    st.assume(not_(ctx.nil))
    done = m.chan_key(st, m.contracts['(iface context.Context).Done'](m, None, st.copy(), [ctx], None)[0])

    def committed(m, fr, st, a, ins):
        """contract of getCommitedOffet (committed_job)"""
        v = app('committed!%d' % len(st.ev), (), -2**63, 2**63 - 1)
        o = at(m, st, cn, ['offset'])
        W.ev(st, 'committed', W.key(m.force(st, a[0])), o)
        setf(m, st, cn, 'offset', ite(le(I(0), v), v, o))
        return (W.ghost_err(m, st, 'committed.err'),)
    m.contracts[GCOF] = committed

    def init(m, fr, st, a, ins):
        """contract of initOffset (init_offset_job)"""
        o = at(m, st, cn, ['offset'])
        W.ev(st, 'init', W.key(m.force(st, a[0])), o)
        setf(m, st, cn, 'offset', ite(le(I(0), o), o, app('initial!%d' % len(st.ev), (), -2**63, 2**63 - 1)))
        fb = at(m, st, cn, ['fromBeginning'])
        setf(m, st, cn, 'fromBeginning', or_(eq(o, I(-2)), and_(not_(eq(o, I(-1))), fb)))
        return ()
    m.contracts[INI] = init
    m.contracts[CMTO] = W.record('CommitOffset')
    off = app('offset', (), -2**63, 2**63 - 1)
    st0 = st.copy()

    def wait(m, st):
        setf(m, st, cn, 'stop', bapp('cur.stop', ()))
    E = Each(m, CONS, allowed=[wait], check=lambda s, x, evs: None, loose=True)

    def ticks(s, go):
        s = s.copy()
        s.ev = []

        def judge(s, evs, back):
            o = [e for e in evs if e[0] in ('recv', 'CommitOffset')]
            if len(o) != 2 or o[0][0] != 'recv' or o[1][0] != 'CommitOffset' or W.key(o[1][1]) != W.key(cn):
                raise Mismatch('no commit at a tick or at the end: %r' % ([e[:2] for e in o],), s.pc)
            if back != (o[0][1] != done):
                raise Mismatch('commits end although the consumer goes on' if not back else 'a stopped consumer goes on', s.pc)
            if back and not o[0][1].startswith('ticker!'):
                raise Mismatch('another channel', s.pc)
        T = Each(m, go[1], check=lambda s, x, evs: judge(s, evs, True))
        for s1, _ in m.call_fn(go[1], go[2], s, binds=go[3], merge=False):
            i = last_loop(s1)
            judge(s1, s1.ev[i + 1:], False)
        m.loop_rules.remove(T.rule)
        if not T.done:
            raise Mismatch('positions are not committed repeatedly', s.pc)
    n = 0
    mc = OpaqueV('chan', nil=bapp('nochan', ()), path='out')
    for s1, (res, err) in m.call_fn(CONS, [cn, off, mc], st, merge=False):
        n += 1

        def chk(s):
            from seqops import seq_bool
            same_fields(m, s, st0, cn, 'SimpleConsumer', 'offset', 'fromBeginning', 'leaderBroker', 'stop', 'messages')
            need(s.pc, m.force(s, err).nil, 'an error')
            go = W.evs(s, 'go')
            main = [g for g in go if g[1] == CLP]
            rest = [g for g in go if g[1] != CLP]
            out = m.chan_key(s, m.force(s, res))
            if holds(s, mc['nil']):
                if out == 'out':
                    raise Mismatch('no channel', s.pc)
            elif out != 'out':
                raise Mismatch('another channel is returned', s.pc)
            if not main:
                if rest:
                    raise Mismatch('something runs although the consumer is stopped', s.pc)
                need(s.pc, at(m, s, cn, ['stop']), 'the loop does not run')
                return
            if len(main) != 1 or W.key(m.force(s, main[0][2][0])) != W.key(cn) or m.chan_key(s, m.force(s, main[0][2][1])) != out:
                raise Mismatch('not one loop for this channel', s.pc)
            need(s.pc, not_(at(m, s, cn, ['leaderBroker']).nil), 'no leader')
            co, it, gl = W.evs(s, 'committed'), W.evs(s, 'init'), W.evs(s, 'getLeaderBroker')
            if not gl or not holds(s, gl[-1][1].nil):
                raise Mismatch('the leader is not looked up', s.pc)
            sym = or_(eq(off, I(-1)), eq(off, I(-2)))
            hasgroup = not_(seq_bool(at(m, s, cn, ['config', 'GroupID']), sq()))
            need(s.pc, iff(at(m, s, cn, ['fromBeginning']), or_(eq(off, I(-2)), and_(not_(sym), at(m, s, cn, ['config', 'FromBeginning'])))), 'another end of the log after an offset out of range')
            if len(co) > 1 or len(it) > 1:
                raise Mismatch('asked twice', s.pc)
            need(s.pc, iff(TRUE if co else FALSE, and_(hasgroup, sym)), 'the committed position is not asked exactly when a group starts at -1 or -2')
            want = off
            if co:
                need(s.pc, eq(co[0][2], off), 'asked with another position')
                v = app('committed!%d' % s.ev.index(co[0]), (), -2**63, 2**63 - 1)
                want = ite(le(I(0), v), v, off)
            if holds(s, and_(sym, lt(want, I(0)))):
                if not it:
                    raise Mismatch('no end of the log is looked up', s.pc)
                need(s.pc, eq(it[0][2], off), 'another end of the log')
                want = app('initial!%d' % (s.ev.index(it[0]) + 1), (), -2**63, 2**63 - 1)
            need(s.pc, eq(at(m, s, cn, ['offset']), want), 'the loop starts at %r' % (at(m, s, cn, ['offset']),))
            ac = and_(at(m, s, cn, ['config', 'AutoCommit']), hasgroup)
            need(s.pc, at(m, s, cn, ['config', 'AutoCommit']) if rest else not_(ac), 'positions are committed exactly when auto commit is on and there is a group')
            if len(rest) > 1:
                raise Unsupported('%d goroutines' % len(rest))
            for g in rest:
                ticks(s, g)
        c.post('ensures: consuming starts at the right position', s1, chk, CONS)
    return n


# ---------------------------------------------------------------- scenarios
def raw(api, do, body, **kw):
    r = {'api': api, 'broker': -1, 'do': do, 'body': body}
    r.update(kw)
    return r


def parse_commit(version, p):
    import struct
    o = [0]

    def n(k):
        v = int.from_bytes(p[o[0]:o[0] + k], 'big', signed=True)
        o[0] += k
        return v

    def st_():
        k = n(2)
        v = p[o[0]:o[0] + k].decode()
        o[0] += max(k, 0)
        return v
    st_()
    d = {'group': st_(), 'gen': None, 'member': None}
    if version >= 1:
        d['gen'], d['member'] = n(4), st_()
    if version >= 2:
        n(8)
    d['l'] = []
    for _ in range(n(4)):
        t = st_()
        for _ in range(n(4)):
            d['l'].append((t, n(4), n(8)))
            st_()
    if o[0] != len(p):
        raise ValueError('malformed commit request')
    return d


def fetch_offset(version, p):
    """(topic, partition, offset) of a fetch request"""
    k = 2 + max(int.from_bytes(p[:2], 'big', signed=True), 0) + 12 + (13 if version >= 7 else 0) + 4
    n = int.from_bytes(p[k:k + 2], 'big')
    t = p[k + 2:k + 2 + n].decode()
    k += 2 + n + 4
    pid = int.from_bytes(p[k:k + 4], 'big', signed=True)
    k += 4 + (4 if version >= 9 else 0)
    return t, pid, int.from_bytes(p[k:k + 8], 'big', signed=True)


def consumer_cases(rng, n):
    """one SimpleConsumer against a scripted log: what is handed over neither skips nor repeats, commits carry the position"""
    import scenario as S
    from producer_ import metadata
    for _ in range(n):
        ver = rng.choice([0, 7, 10])
        apis = dict(S.APIS)
        apis[1], apis[3], apis[2] = ver, 1, rng.choice([0, 1])
        topic, part = rng.choice(['t', 'topic-1']), rng.choice([0, 1, 7])
        first = rng.choice([0, 0, 3, 17])
        log = {'topic': topic, 'p': part, 'first': first, 'end': first + rng.choice([1, 4, 9, 30]), 'gap': rng.choice([0, 0, 0, 3, 4]),
               'batch': rng.choice([1, 1, 4, 6]), 'per': rng.choice([1, 3, 10]), 'wait': 4, 'size': rng.choice([0, 0, 50])}
        # the last offset of a batch always exists, so that an answer reaches past what was asked (progress over batches that end in a gap is not claimed)
        if log['gap']:
            log['batch'] = log['gap'] * rng.choice([1, 2])
        have = [o for o in range(first, log['end']) if not (log['gap'] and o % log['gap'] == 1)]
        if not have or have[-1] != log['end'] - 1:
            log['gap'] = 0
            have = list(range(first, log['end']))
        group = rng.choice(['', 'grp'])
        storage = rng.choice([0, 1])
        auto = rng.random() < 0.3
        begin = rng.random() < 0.5
        offset = rng.choice([-1, -2, -2, have[0], rng.choice(have), rng.choice(have), log['end'], log['end'] + 5])
        com = rng.choice([-1, 0, have[0], rng.choice(have), rng.choice(have)])
        if com < first:
            com = -1
        sym = offset in (-1, -2)
        pos = offset
        if sym:
            pos = com if group and com >= 0 else (first if offset == -2 else log['end'])
        start = pos
        if pos > log['end']:
            pos = first if begin else log['end']
        want = [o for o in have if o >= pos]
        leader = rng.randrange(2)
        meta = lambda ld, **kw: metadata([0, 1], [(topic, 0, [(0, x, ld if x == part else 1 - ld) for x in sorted({0, 1, part})])], **kw)
        rules = [api_versions(apis)]
        trouble = rng.choice(['', '', 'moved', 'moved', 74, 'close', 'truncate', 5, 'offsets'])
        k = rng.choice([0, 0, 1, 2])
        served = leader
        if trouble == 'moved':
            rules += [raw(1, 'fetcherror', 6, broker=leader, skip=k, set='moved'), meta(1 - leader, when='moved')]
            served = 1 - leader
        elif trouble in (74, 5):
            rules.append(raw(1, 'fetcherror', trouble, skip=k, times=1))
        elif trouble == 'close':
            rules.append(rule(1, do='close', skip=k, times=1))
        elif trouble == 'truncate':
            rules.append(rule(1, b'\0' * 60, do='truncate', chunks=[rng.choice([3, 6, 9])], skip=k, times=1))
        elif trouble == 'offsets':
            rules.append(raw(2, 'offsets', {'logs': [log], 'code': rng.choice([5, 6])}, times=1))
        rules += [meta(leader), raw(1, 'log', [log]), raw(2, 'offsets', {'logs': [log], 'code': 0}),
                  rule(10, i16(0) + i32(1) + s16('127.0.0.1'), {'port': 1})]
        bad = rng.choice([None, None, 0, 1])
        comoved = bad is not None and rng.random() < 0.5
        if comoved:
            # from this commit on the coordinator is another broker, the old one refuses
            rules.insert(0, rule(8, arr([s16(topic) + arr([i32(part) + i16(16)])]), broker=1, skip=bad, set='comoved'))
            rules.insert(0, rule(10, i16(0) + i32(0) + s16('127.0.0.1'), {'port': 0}, when='comoved'))
        elif bad is not None:
            rules.append(rule(8, arr([s16(topic) + arr([i32(part) + i16(rng.choice([22, 25, 15]))])]), skip=bad, times=1))
        rules += [rule(8, arr([s16(topic) + arr([i32(part) + i16(0)])])),
                  rule(9, arr([s16('other') + arr([i32(part) + i64(99) + s16('') + i16(0)]),
                               s16(topic) + arr([i32(part + 1) + i64(77) + s16('') + i16(0), i32(part) + i64(com) + s16('') + i16(0), i32(part + 2) + i64(78) + s16('') + i16(0)])]))]
        cfg = {'client.id': 'cid', 'group.id': group, 'retry.backoff.ms': 2, 'auto.commit': auto, 'auto.commit.interval.ms': 25, 'offsets.storage': storage,
               'from.beginning': begin, 'fetch.max.wait.ms': 50, 'net': {'timeout.ms': 3000, 'connect.timeout.ms': 2000}}
        ch = rng.choice([0, 0, 0, 3, -1]) if not group else 0
        ops = [('consumer', {'topic': topic, 'p': part, 'offset': offset, 'chan': ch, 'config': cfg}, 8000)]
        rec, plan, at_ = [], [], 0
        for _ in range(rng.randint(1, 4)):
            q = rng.choice([0, 1, 2, 5])
            q = min(q, len(want) - at_)
            if q:
                ops.append(('recv', {'N': q, 'Ms': 3000}, 8000))
                rec.append((len(ops) - 1, want[at_:at_ + q]))
                at_ += q
            if rng.random() < 0.6:
                ops += [('sleep', 25), ('commit', None)]
                plan.append((len(ops) - 1, want[at_ - 1] + 1 if at_ else None))
        if rng.random() < 0.4:
            ops.append(('recv', {'N': len(want) - at_ + 1, 'Ms': 120}, 12000))
            rec.append((len(ops) - 1, want[at_:]))
            at_ = len(want)
        if auto:
            ops += [('sleep', 25)]
        ops += [('cstop', None), ('sleep', 40 if auto else 10)]
        final = want[at_ - 1] + 1 if at_ else None

        def check(A, want=want, rec=rec, plan=plan, start=start, topic=topic, part=part, group=group, storage=storage, auto=auto, served=served, leader=leader, bad=bad, pos=pos, trouble=trouble, comoved=comoved,
                  final=final, ch=ch, last=len(ops) - 1):
            if A.res[0]['err'] or not A.res[0]['same']:
                return 'Consume: %r' % (A.res[0],)
            for i, w in rec:
                l = A.res[i]['l']
                for x in l:
                    if x['err'] is not None or (x['topic'], x['p']) != (topic, part):
                        return 'handed over: %r' % (x,)
                    if x['v'] != 'm%d' % x['o']:
                        return 'message %d carries the content %r' % (x['o'], x['v'])
                g = [x['o'] for x in l]
                if g != w:
                    return 'operation %d hands over %r instead of %r' % (i, g, w)
            ok = {start, pos} | {o + 1 for o in want}
            lastf = None
            for r in A.reqs:
                if r['api'] == 1:
                    t, p, o = fetch_offset(r['version'], r['p'])
                    if (t, p) != (topic, part) or o not in ok:
                        return 'a fetch for %s-%d at offset %d' % (t, p, o)
                    if lastf is not None and o < lastf and not (lastf == start != pos):
                        return 'a fetch at offset %d after one at %d' % (o, lastf)
                    lastf = o
                    if r['b'] not in (leader, served):
                        return 'a fetch goes to broker %d' % r['b']
                if r['api'] == 9 and r['b'] != 1:
                    return 'the committed offset is asked at broker %d' % r['b']
            cs, done, prev = [], None, None
            op = -1
            for e in A.log:
                if e['ev'] == 'op':
                    op = e['i']
                if e['ev'] == 'req' and e['api'] == 8:
                    import base64
                    try:
                        d = parse_commit(e['version'], base64.b64decode(e['p']))
                    except Exception as x:
                        return 'malformed commit: %s' % x
                    if e['b'] != (0 if comoved and len(cs) > bad else 1) and not (auto and comoved) or d['group'] != group or not group:
                        return 'a commit of group %r to broker %d' % (d['group'], e['b'])
                    if e['version'] >= 1 and (d['gen'], d['member']) != (-1, ''):
                        return 'a commit at version %d, generation %r, member %r' % (e['version'], d['gen'], d['member'])
                    if len(d['l']) != 1 or d['l'][0][:2] != (topic, part):
                        return 'a commit of %r' % (d['l'],)
                    cs.append((op, d['l'][0][2]))
            if not group:
                return
            for op, o in cs:
                if o not in ok or (prev is not None and o < prev):
                    return 'position %d is committed' % o
                prev = o
            if not auto:
                acc = None
                nth = 0
                for i, w in plan:
                    mine = [o for op, o in cs if op == i]
                    if len(mine) > 1:
                        return 'operation %d commits %d times' % (i, len(mine))
                    if w is None:
                        if mine and nth != bad:
                            acc = mine[0]
                        nth += len(mine)
                        continue
                    if mine and mine[0] != w:
                        return 'operation %d commits position %d instead of %d' % (i, mine[0], w)
                    if not mine and acc != w:
                        return 'operation %d commits nothing instead of position %d' % (i, w)
                    if mine:
                        if nth != bad:
                            acc = w
                        nth += 1
            elif final is not None and trouble == '' and bad is None and ch == 0 and (not cs or cs[-1][1] != final):
                return 'the last commit is %r instead of position %d' % (cs[-1:], final)
        yield scenario(2, rules, ops, check)


def topics_cases(rng, n):
    """a Consumer of several topics: exactly the partitions subscribed to or assigned, each from the configured end"""
    import scenario as S
    for _ in range(n):
        apis = dict(S.APIS)
        apis[1], apis[3], apis[2] = rng.choice([0, 7, 10]), 1, rng.choice([0, 1])
        names = ['a', 'b', 'topic-c'][:rng.choice([1, 2, 3])]
        logs = [{'topic': t, 'p': p, 'first': f, 'end': f + rng.choice([1, 2, 5]), 'gap': 0, 'batch': 1, 'per': 10, 'wait': 4, 'size': 0}
                for t in names for p in rng.choice([[0], [0, 1], [0, 1, 2], [3, 1]]) for f in [rng.choice([0, 0, 4])]]
        begin, how = rng.random() < 0.7, rng.choice(['new', 'subscribe', 'assign', 'assign'])
        chosen = rng.sample(names, rng.randint(1, len(names)))
        arg = {'topics': chosen if how == 'new' else rng.choice([[], names]), 'chan': rng.choice([-1, 0, 3])}
        parts = {(l['topic'], l['p']) for l in logs if l['topic'] in chosen}
        if how == 'subscribe':
            arg['subscribe'] = chosen
        elif how == 'assign':
            arg['assign'] = {}
            for t in chosen:
                ps = [l['p'] for l in logs if l['topic'] == t]
                arg['assign'][t] = rng.choice([None, [], ps, ps[:1], ps[-1:]])
            parts = {(l['topic'], l['p']) for l in logs if l['topic'] in chosen and (not arg['assign'][l['topic']] or l['p'] in arg['assign'][l['topic']])}
        arg['config'] = {'client.id': 'cid', 'group.id': '', 'retry.backoff.ms': 2, 'auto.commit': False, 'from.beginning': begin, 'fetch.max.wait.ms': 50,
                         'net': {'timeout.ms': 3000, 'connect.timeout.ms': 2000}}
        want = {k: [o for l in logs if (l['topic'], l['p']) == k for o in range(l['first'], l['end'])] if begin else [] for k in parts}
        total = sum(len(v) for v in want.values())
        rules = [S.api_versions(apis)]
        if rng.random() < 0.3:
            rules.append(S.rule(3, do='close', skip=1, times=1))
        rules += [raw(3, 'logmeta', {'logs': logs, 'brokers': 2}), raw(1, 'log', logs), raw(2, 'offsets', {'logs': logs, 'code': 0}),
                  S.rule(10, S.i16(0) + S.i32(1) + S.s16('127.0.0.1'), {'port': 1})]
        ops = [('topics', arg, 9000), ('recv', {'N': total, 'Ms': 3000}, 9000), ('recv', {'N': 1, 'Ms': 80}, 9000), ('tstop', None, 9000)]

        def check(A, arg=arg, parts=parts, want=want, logs=logs, begin=begin):
            what = 'a consumer of %r' % {k: v for k, v in arg.items() if k in ('topics', 'subscribe', 'assign')}
            if A.res[0]['err'] or not A.res[0]['same']:
                return '%s: Consume: %r' % (what, A.res[0])
            got = {}
            for x in A.res[1]['l'] + A.res[2]['l']:
                if x['err'] is not None:
                    return '%s: handed over: %r' % (what, x)
                got.setdefault((x['topic'], x['p']), []).append(x['o'])
            for k in sorted(set(got) | set(want)):
                if got.get(k, []) != want.get(k, []):
                    return '%s hands over %r of %s-%d instead of %r' % (what, got.get(k, []), k[0], k[1], want.get(k, []))
            asked = set()
            for r in A.reqs:
                if r['api'] == 1:
                    t, p, o = fetch_offset(r['version'], r['p'])
                    asked.add((t, p))
                    if r['b'] != p % 2:
                        return '%s: a fetch of %s-%d goes to broker %d' % (what, t, p, r['b'])
                    if not begin and o < [l['end'] for l in logs if (l['topic'], l['p']) == (t, p)][0]:
                        return '%s: a fetch of %s-%d from %d' % (what, t, p, o)
            if asked != parts:
                return '%s fetches %r instead of %r' % (what, sorted(asked), sorted(parts))
        yield S.scenario(2, rules, ops, check)


CSCN = dict(extra=['cluster', 'consumer'], xfns=['vScenario'])


def c09(P):
    from runner import Job
    S = dict(cases=consumer_cases, limit=60, **CSCN)
    J = [('commit of a consumer', commit_job(CMT, 'SimpleConsumer'), [CMT]), ('commit of a group', commit_job(GCMT, 'GroupConsumer'), [GCMT]),
         ('CommitOffset', commit_offset_job, [CMTO]), ('CommitOffset of a group', group_commit_job, [GCO]), ('end of the log', get_offset_job, [GOF]),
         ('offset of an entry', offset_of_entry_job, ['(*PartitionOffset).GetOffset']), ('initial position', init_offset_job, [INI]),
         ('committed position', committed_job, [GCOF]), ('messages of an answer', messages_job, [CM]), ('fetch loop', loop_job, [CLP]), ('Consume', consume_job, [CONS])]
    out = [Job(n, b, require=f, **S) for n, b, f in J]
    import topics_
    return out + topics_.jobs(P)
