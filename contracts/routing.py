"""C14: requests reach the broker responsible for them."""
from producer_ import *
import producer_ as PD
from havoc import Each
from machine import DELETED

BS = '(*Brokers).'
CT = '(*Client).'
# the type Parse yields for each request kind (C04, C05)
ANSWER = {'*CreateTopicsRequest': 'CreateTopicsResponse', '*DeleteTopicsRequest': 'DeleteTopicsResponse', '*CreatePartitionsRequest': 'CreatePartitionsResponse',
          '*DescribeAclsRequest': 'DescribeAclsResponse', '*CreateAclsRequest': '*CreateAclsResponse', '*DeleteAclsRequest': '*DeleteAclsResponse',
          '*DescribeConfigsRequest': 'DescribeConfigsResponse', '*ListPartitionReassignmentsRequest': '*ListPartitionReassignmentsResponse',
          '*AlterPartitionReassignmentsRequest': '*AlterPartitionReassignmentsResponse', '*ElectLeadersRequest': '*ElectLeadersResponse', '*DeleteGroupsRequest': 'DeleteGroupsResponse',
          '*ListGroupsRequest': '*ListGroupsResponse', '*DescribeLogDirsRequest': 'DescribeLogDirsResponse', '*OffsetFetchRequest': 'OffsetFetchResponse', '*OffsetCommitRequest': 'OffsetCommitResponse',
          '*FindCoordinatorRequest': 'FindCoordinatorResponse', '*JoinGroupRequest': 'JoinGroupResponse', '*SyncGroupRequest': 'SyncGroupResponse',
          '*HeartbeatRequest': 'HeartbeatResponse', '*LeaveGroupRequest': 'LeaveGroupResponse', '*MetadataRequest': 'MetadataResponse', '*OffsetsRequest': 'OffsetsResponse', '*OffsetsRequestV0': 'OffsetsResponse'}


def req_kind(m, s, req):
    r = m.force(s, req)
    if not isinstance(r, IfaceV) or not isinstance(r.t, int):
        return None
    return m.p.name(r.t)


def exchange_contract(m):
    """contract of Broker.RequestAndGet (C11, C13): an error, or the answer to this request"""
    def h(m, fr, st, a, ins):
        k = req_kind(m, st, a[1])
        e = W.ghost_err(m, st, 'request.err')
        path = 'resp!%d' % len(st.ev)
        t = ANSWER.get('*' + k.lstrip('*')) if k else None
        if t is None:
            r = m.force(st, Ghost(m.p.byname['Response'], path))
            st.assume(implies(e.nil, not_(r.nil)))
        else:
            if t.startswith('*'):
                m.nonnil.add(path)
            nl = bapp(path + '#none', ())
            st.assume(implies(e.nil, not_(nl)))         # with an error of the broker there is an answer too
            r = IfaceV(nl, m.p.byname[t], m.force(st, Ghost(m.p.byname[t], path)))
        W.ev(st, 'request', W.key(m.force(st, a[0])), m.force(st, a[1]), e, r)
        return (r, e)
    m.contracts['(*Broker).RequestAndGet'] = h


def getbroker_contract(m):
    """contract of Brokers.GetBroker, discharged by get_broker_job: a connection to this node, or an error"""
    def h(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'gb.err')
        path = 'gb!%d' % len(st.ev)
        m.nonnil.add(path)
        b = m.force(st, Ghost(m.p.byname['*Broker'], path))
        W.ev(st, 'GetBroker', m.force(st, a[1]), b, e)
        return (b, e)
    m.contracts[BS + 'GetBroker'] = h


def dial_contract(m):
    """contract of NewBroker (C11, C13): a connection to this address, or an error"""
    def h(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'dial.err')
        path = 'nb!%d' % len(st.ev)
        m.nonnil.add(path)
        b = m.force(st, Ghost(m.p.byname['*Broker'], path))
        W.ev(st, 'dial', m.force(st, a[0]), m.force(st, a[1]), m.force(st, a[2]), b, e)
        return (b, e)
    m.contracts['NewBroker'] = h
    m.contracts['(*Broker).Close'] = W.record('broker.Close')


def cluster(m, st, name='b'):
    W.conc(m)
    for n in ('Lock', 'Unlock'):
        m.contracts['(iface sync.Locker).' + n] = W.lock(n.lower())
    m.nonnil |= {name + '.config', name + '.brokers', name + '.brokersInfo', name + '.brokers{}', name + '.brokersInfo{}', name + '.brokersInfo{v}', name + '.brokers{v}'}
    b = recv_of(m, st, 'Brokers', name)
    st.assume(not_(m.force(st, getf(m, st, b, 'mutex')).nil))
    return b


def refresh_contract(m, b):
    """contract of refreshMetadata, discharged by refresh_job: the list of brokers and the controller are those of some metadata answer, or unchanged"""
    def h(m, fr, st, a, ins):
        W.ev(st, 'refresh')
        t = m.p.fields(m.p.byname['Brokers'])[m.p.field_index(m.p.byname['Brokers'], 'brokersInfo')]['t']
        m.nonnil |= {'new.info', 'new.info{}', 'new.info{v}'}
        setf(m, st, b, 'brokersInfo', m.force(st, Ghost(t, 'new.info')))
        setf(m, st, b, 'controllerID', app('new.controller', (), -2**31, 2**31 - 1))
        return (bapp('refreshed', ()),)
    m.contracts[BS + 'refreshMetadata'] = h


def info_of(m, s, path, nid):
    """(known, entry) for a node id in a list of brokers; requires: entries are kept under their own id"""
    has = bapp(path + '#has', (nid,))
    i = m.force(s, Ghost(m.p.byname['*BrokerInfo'], path + '{}', (nid,)))
    s.assume(eq(m.force(s, getf(m, s, i, 'NodeID')), nid))
    return has, i


def address(m, s, info):
    rs = m.call_fn('(*BrokerInfo).NetAddress', [info], s.copy())
    return rs[0][1][0]


def node_job(fn, cached):
    """ensures: the broker is the cached connection of this node, unless the node moved, or a new connection to the address the metadata give for this node;
    when the metadata do not know the node they are asked for once more; when they still do not know it or it cannot be reached, an error"""
    def body(c):
        m = c.m
        st = State()
        b = cluster(m, st)
        dial_contract(m)
        refresh_contract(m, b)
        nid = app('nid', (), -2**31, 2**31 - 1)
        has0, i0 = info_of(m, st, 'b.brokersInfo', nid)
        has1, i1 = info_of(m, st, 'new.info', nid)
        m.nonnil |= {'new.info', 'new.info{}'}
        _, i1 = info_of(m, st, 'new.info', nid)
        inc = bapp('b.brokers#has', (nid,))
        cb = m.force(st, Ghost(m.p.byname['*Broker'], 'b.brokers{}', (nid,)))
        mp = m.force(st, getf(m, st, b, 'brokers'))
        n = 0
        for s1, (res, err) in m.call_fn(fn, [b, nid], st, merge=False):
            n += 1

            def chk(s):
                from seqops import seq_bool
                if cached:
                    locked(s)
                e, r = m.force(s, err), m.force(s, res)
                d, rf, cl = W.evs(s, 'dial'), W.evs(s, 'refresh'), W.evs(s, 'broker.Close')
                u = s.heap[mp.obj].upd if isinstance(s.heap[mp.obj], MapC) else ()
                known = holds(s, has0)
                if cached and holds(s, inc):
                    same = not known or holds(s, seq_bool(address(m, s, i0), m.force(s, getf(m, s, cb, 'address'))))
                    if same:
                        need(s.pc, e.nil, 'an error although the connection is cached')
                        if d or rf or cl or u or not same_ptr(r, cb):
                            raise Mismatch('the cached connection is not used', s.pc)
                        return
                    if [1 for x in cl if not same_ptr(m.force(s, x[1]), cb)] or len(cl) != 1:
                        raise Mismatch('the connection to the old address is not closed', s.pc)
                elif cl:
                    raise Mismatch('a connection is closed', s.pc)
                if known and rf:
                    known = known
                if not known and not rf:
                    raise Mismatch('the metadata are not refreshed for an unknown node', s.pc)
                path, info, has = ('new.info', i1, has1) if rf else ('b.brokersInfo', i0, has0)
                if not holds(s, has):
                    need(s.pc, not_(e.nil), 'no error for an unknown node')
                    if d:
                        raise Mismatch('a connection for an unknown node', s.pc)
                    return
                if len(d) != 1:
                    raise Mismatch('%d connections are made' % len(d), s.pc)
                seq_eq(d[0][1], address(m, s, info), s.pc)
                need(s.pc, eq(d[0][2], nid), 'the connection has another node id')
                if W.key(d[0][3]) != W.key(m.force(s, getf(m, s, b, 'config'))):
                    raise Mismatch('another configuration', s.pc)
                need(s.pc, iff(e.nil, d[0][5].nil), 'a failed connection is not reported')
                live = [x for x in u if x[1] is not DELETED]
                if isnil(m, s, e):
                    if not same_ptr(r, d[0][4]):
                        raise Mismatch('another connection is returned', s.pc)
                    if cached and (len(live) != 1 or not prove(s.pc, eq(m.force(s, live[0][0]), nid)) or not same_ptr(m.force(s, live[0][1]), r)):
                        raise Mismatch('the connection is not kept for its node', s.pc)
                elif live:
                    raise Mismatch('a failed connection is kept', s.pc)
            c.post('ensures: the connection is one to the address of the node', s1, chk, fn)
        return n
    return body


FIND = BS + 'findLeader'


def find_job(c):
    """ensures: nil error: the leader that the metadata of the topic name for this partition; otherwise an error"""
    m = c.m
    st = State()
    b = cluster(m, st)
    metadata_contract(m)
    import broker_ as BR
    BR.errors_model(m)
    topic, pid = satom('topic', (), 32767), app('pid', (), -2**31, 2**31 - 1)
    n = 0
    for s1, (lead, err) in m.call_fn(FIND, [b, satom('client', (), 32767), topic, pid], st, merge=False):
        n += 1

        def chk(s):
            md = W.evs(s, 'metadata')
            if len(md) != 1 or not prove(s.pc, eq(md[0][2].len, I(1))):
                raise Mismatch('not one metadata request for one topic', s.pc)
            seq_eq(m.force(s, elem_(m, s, md[0][2], I(0))), topic, s.pc)
            if not isnil(m, s, err):
                return
            ps = m.force(s, getf(m, s, elem(m, s, m.force(s, getf(m, s, m.force(s, Ghost(m.p.funcs[BS + 'RequestMetaData']['results'][0]['t'], 'meta')), 'TopicMetadatas')), I(0)), 'PartitionMetadatas'))
            f = lambda s, j, k: m.force(s, getf(m, s, elem(m, s, ps, j), k))
            from settings import ground_indices
            for j in ground_indices(m, s, ()):
                if prove(s.pc, and_(le(I(0), j), lt(j, ps.len))) and prove(s.pc, and_(eq(f(s, j, 'PartitionID'), pid), eq(m.force(s, lead), f(s, j, 'Leader')))):
                    return
            raise Mismatch('the leader %r is not the one of the partition' % (lead,), s.pc)
        c.post('ensures: the leader is the one the metadata give for the partition', s1, chk, FIND)
    return n


def agree(m, s, got, arg, what):
    got, arg = m.force(s, got), m.force(s, arg)
    if isinstance(arg, Lin):
        need(s.pc, eq(got, arg), '%s is %r' % (what, got))
    elif isinstance(arg, Sq):
        seq_eq(got, arg, s.pc)
    elif isinstance(arg, Bl):
        need(s.pc, iff(got, arg), what)
    elif isinstance(arg, SliceV):
        if not same_slice(m, s, got, arg):
            raise Mismatch('%s is not the given list' % what, s.pc)
    elif isinstance(arg, PtrV):
        if not same_ptr(got, arg):
            raise Mismatch(what, s.pc)
    elif isinstance(arg, StructV):
        for f, a in zip(m.p.fields(arg.t), arg.f):
            agree(m, s, getf(m, s, got, f['n']), a, what + '.' + f['n'])
    else:
        from machine import vsame
        if not vsame(got, arg):
            raise Mismatch('%s is %r' % (what, got), s.pc)


def at(m, s, v, path):
    for x in path:
        v = m.force(s, v)
        v = m.force(s, getf(m, s, v, x)) if isinstance(x, str) else elem(m, s, v, I(x))
    return m.force(s, v)


def client(m, st, name='c'):
    W.conc(m)
    m.nonnil |= {name + '.brokers'}
    c = recv_of(m, st, 'Client', name)
    return c, m.force(st, getf(m, st, c, 'brokers'))


def responded(m, s, rq, res, err):
    """the result is the answer of the request, an error exactly when the request failed"""
    e = m.force(s, err)
    need(s.pc, iff(e.nil, rq[3].nil), 'a failed request is not reported')
    if isnil(m, s, e):
        r, w = m.force(s, res), m.force(s, rq[4].v)
        if isinstance(w, PtrV):
            if not same_ptr(r, w):
                raise Mismatch('another response is returned', s.pc)
        else:
            agree(m, s, r, w, 'response')


def admin_job(fn, kind, api, contents, target=None, prepare=None, extra=None):
    """ensures: one request of this kind with these contents goes to the controller (or `target`), nothing anywhere else; its answer or error is returned;
    an error when the controller is not known or not reachable"""
    def body(c):
        m = c.m
        st = State()
        getbroker_contract(m)
        exchange_contract(m)
        if fn.startswith(CT):
            cl, b = client(m, st)
            cid = m.force(st, getf(m, st, cl, 'clientID'))
            recv = cl
        else:
            b = cluster(m, st)
            recv, cid = b, None
        ctl = m.force(st, getf(m, st, b, 'controllerID'))
        args = {}
        ps = m.p.funcs[fn]['params'][1:]
        al = []
        for i, p in enumerate(ps):
            if m.p.name(p['t']).startswith('*'):
                m.nonnil.add('a%d' % i)
            args[i] = m.force(st, Ghost(p['t'], 'a%d' % i))
            al.append(args[i])
        if prepare:
            prepare(m, args)
        n = 0
        for s1, (res, err) in m.call_fn(fn, [recv] + al, st, merge=False):
            n += 1

            def chk(s):
                gb, rq = W.evs(s, 'GetBroker'), W.evs(s, 'request')
                if W.evs(s, 'dial'):
                    raise Mismatch('another connection', s.pc)
                e = m.force(s, err)
                tgt = target(m, s, args) if target else None
                if tgt == 'error':
                    need(s.pc, not_(e.nil), 'no error')
                    if rq:
                        raise Mismatch('a request although there is no target', s.pc)
                    return
                if len(gb) != 1:
                    if not rq and not isnil(m, s, e):
                        return          # refused before anything is sent
                    raise Mismatch('%d brokers are asked for' % len(gb), s.pc)
                need(s.pc, eq(gb[0][1], tgt if tgt is not None else ctl), 'the broker is %r' % (gb[0][1],))
                if not isnil(m, s, gb[0][3]):
                    need(s.pc, not_(e.nil), 'no error although the broker is not reachable')
                    if rq:
                        raise Mismatch('the request goes elsewhere', s.pc)
                    return
                if len(rq) != 1 or rq[0][1] != W.key(gb[0][2]):
                    raise Mismatch('the request does not go to the broker responsible (%d requests)' % len(rq), s.pc)
                k = req_kind(m, s, rq[0][2])
                if k.lstrip('*') != kind:
                    raise Mismatch('a request of kind %s' % k, s.pc)
                r = m.force(s, rq[0][2].v)
                if contents == 'arg':
                    if not same_ptr(r, args[0]):
                        raise Mismatch('another request is sent', s.pc)
                else:
                    h = at(m, s, r, ['RequestHeader'])
                    need(s.pc, eq(at(m, s, h, ['APIKey']), I(api)), 'the api key')
                    p = at(m, s, h, ['ClientID'])
                    need(s.pc, not_(p.nil), 'no client id')
                    seq_eq(m.force(s, m.load(s, p.tgt)), cid, s.pc)
                    for path, w in contents:
                        if path[-1] == '#':
                            need(s.pc, eq(at(m, s, r, path[:-1]).len, I(w)), '%s has %r elements' % (path[:-1], at(m, s, r, path[:-1]).len))
                        else:
                            agree(m, s, at(m, s, r, path), args[w] if isinstance(w, int) else w(m, s, args), '.'.join(map(str, path)))
                if extra:
                    extra(m, s, args, r)
                responded(m, s, rq[0], res, err)
            c.post('ensures: the request goes to the controller or broker responsible, nowhere else', s1, chk, fn)
        return n
    return body


def wrap32(w):
    return lambda m, s, a: ite(lt(a[w], I(2**31)), a[w], a[w] - 2**32)


ADMIN = [
    (CT + 'CreateTopic', 'CreateTopicsRequest', 19, [(['CreateTopicRequests', '#'], 1), (['CreateTopicRequests', 0, 'Topic'], 0), (['CreateTopicRequests', 0, 'NumPartitions'], 1),
                                                    (['CreateTopicRequests', 0, 'ReplicationFactor'], 2), (['Timeout'], 3)]),
    (CT + 'DeleteTopics', 'DeleteTopicsRequest', 20, [(['TopicsNames'], 0), (['TimeoutMS'], 1)]),
    (CT + 'CreatePartitions', 'CreatePartitionsRequest', 37, [(['Topics', '#'], 1), (['Topics', 0, 'Name'], 0), (['Topics', 0, 'Count'], 1), (['TimeoutMS'], wrap32(2)), (['ValidateOnly'], 3),
                                                             (['Topics', 0, 'Assignments', '#'], 0)]),
    (CT + 'DescribeAcls', 'DescribeAclsRequest', 29, [(['DescribeAclsRequestBody'], 0)]),
    (CT + 'CreateAcls', 'CreateAclsRequest', 30, [(['Creations'], 0)]),
    (CT + 'DeleteAcls', 'DeleteAclsRequest', 31, [(['Filters'], 0)]),
    (CT + 'ListPartitionReassignments', 'ListPartitionReassignmentsRequest', 46, 'arg'),
    (BS + 'AlterPartitionReassignments', 'AlterPartitionReassignmentsRequest', 45, 'arg'),
    (BS + 'ElectLeaders', 'ElectLeadersRequest', 43, 'arg'),
]


def number(name):
    """strconv.Atoi / ParseInt: some number or an error, the same for the same text"""
    def h(m, fr, st, a, ins):
        v = m.force(st, a[0])
        bits = 64
        if name == 'ParseInt':
            bits = m.force(st, a[2]).const()
            if m.force(st, a[1]).const() != 10 or bits not in (32, 64):
                raise Unsupported('ParseInt')
        n = app('number', (v,), -2**63, 2**63 - 1)
        ok = bapp('isnumber', (v,))
        if bits == 32:
            ok = and_(ok, le(I(-2**31), n), lt(n, I(2**31)))
        e = IfaceV(ok, 'err:new', m.force(st, Ghost(W.errt(m), 'number.err')).v)
        return (n if bits == 64 else ite(ok, n, I(0)), e)
    return h


def describe_configs_job(c):
    def target(m, s, args):
        from seqops import seq_bool
        b = or_(*[seq_bool(args[0], sq(lit(x))) for x in (b'broker', b'broker_logger')])
        if not holds(s, b):
            return None
        n = app('number', (args[1],), -2**63, 2**63 - 1)
        if not holds(s, and_(bapp('isnumber', (args[1],)), le(I(-2**31), n), lt(n, I(2**31)))):
            return 'error'
        return n
    m = c.m
    m.contracts['strconv.Atoi'] = number('Atoi')
    m.contracts['strconv.ParseInt'] = number('ParseInt')

    def rtype(m, s, a):
        from seqops import seq_bool
        is_ = lambda x: seq_bool(a[0], sq(lit(x)))
        return ite(is_(b'topic'), I(2), ite(is_(b'broker'), I(4), ite(is_(b'broker_logger'), I(8), I(0))))
    return admin_job(CT + 'DescribeConfigs', 'DescribeConfigsRequest', 32, [(['Resources', '#'], 1), (['Resources', 0, 'ResourceType'], rtype), (['Resources', 0, 'ResourceName'], 1), (['Resources', 0, 'ConfigNames'], 2)], target)(c)



def create_topics_job(c):
    """loop invariant: the first x topics were added to the request, with these settings"""
    m = c.m
    ADD1 = '(*CreateTopicsRequest).AddTopic'
    fn = CT + 'CreateTopics'
    box = {}

    def h(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'add.err')
        W.ev(st, 'add', m.force(st, a[0]), m.force(st, a[1]), m.force(st, a[2]), m.force(st, a[3]), e)
        return (e,)

    def prepare(m, args):
        m.contracts[ADD1] = h

        def each(s, x, evs):
            ad = [e for e in evs if e[0] == 'add']
            if len(ad) != 1 or len(evs) != 1:
                raise Mismatch('%d topics are added in an iteration' % len(ad), s.pc)
            seq_eq(ad[0][2], m.force(s, elem_(m, s, args[0], x)), s.pc)
            need(s.pc, and_(eq(ad[0][3], args[1]), eq(ad[0][4], args[2])), 'other settings')
            need(s.pc, ad[0][5].nil, 'an error is ignored')
            box['req'] = ad[0][1]
        box['E'] = Each(m, fn, check=each, loose=True)

    def extra(m, s, args, r):
        if not box['E'].done:
            raise Mismatch('no topic is added', s.pc)
        need(s.pc, le(args[0].len, s.ev[[j for j, e in enumerate(s.ev) if e[0] == 'loop'][-1]][1]), 'not all topics are added')
        if 'req' in box and not same_ptr(r, box['req']):
            raise Mismatch('the topics are added to another request', s.pc)
    return admin_job(fn, 'CreateTopicsRequest', 19, [(['Timeout'], 3)], None, prepare, extra)(c)


def create_partitions_job(c):
    ADD1 = '(*CreatePartitionsRequest).AddTopic'

    def h(m, fr, st, a, ins):
        W.ev(st, 'add', *[m.force(st, x) for x in a])
        return ()

    def prepare(m, args):
        m.contracts[ADD1] = h

    def extra(m, s, args, r):
        ad = W.evs(s, 'add')
        if len(ad) != 1 or not same_ptr(r, ad[0][1]):
            raise Mismatch('not one topic is added to the request', s.pc)
        for g, w in zip(ad[0][2:], (args[0], args[1], args[2])):
            agree(m, s, g, w, 'argument')
    return admin_job(CT + 'CreatePartitionsWithAssignments', 'CreatePartitionsRequest', 37, [(['TimeoutMS'], wrap32(3)), (['ValidateOnly'], 4)], None, prepare, extra)(c)


# ---------------------------------------------------------------- questions any broker can answer
def any_broker_job(fn, call, argn, result='value'):
    """ensures: the brokers of the metadata are asked one after another; the first answer without an error is returned; an error when none answers"""
    def body(c):
        m = c.m
        st = State()
        b = cluster(m, st)
        getbroker_contract(m)
        exchange_contract(m)
        import broker_ as BR
        BR.errors_model(m)
        ps = m.p.funcs[fn]['params'][1:]
        args = [m.force(st, Ghost(p['t'], 'a%d' % i)) for i, p in enumerate(ps)]
        for a in args:
            if isinstance(a, IfaceV):
                st.assume(not_(a.nil))
        m.contracts['(iface Request).API'] = lambda m, fr, st, a, ins: (app('api', (), 0, 65535),)
        if call:
            rt = m.p.funcs[call]['results'][0]['t']

            def h(m, fr, st, a, ins):
                e = W.ghost_err(m, st, 'ask.err')
                r = m.force(st, Ghost(rt, 'answer!%d' % len(st.ev)))
                W.ev(st, 'ask', W.key(m.force(st, a[0])), [m.force(st, x) for x in a[1:]], e, r)
                return (r, e)
            m.contracts[call] = h
        name = 'ask' if call else 'request'

        def judge(s, x, evs, ret):
            gb, ak = [e for e in evs if e[0] == 'GetBroker'], [e for e in evs if e[0] == name]
            if len(gb) != 1 or len(ak) > 1:
                raise Mismatch('not one question in an iteration', s.pc)
            inf = m.force(s, Ghost(m.p.byname['*BrokerInfo'], 'b.brokersInfo{v}', (x,)))
            need(s.pc, eq(gb[0][1], m.force(s, getf(m, s, inf, 'NodeID'))), 'the broker asked is not one of the metadata')
            if not ak:
                need(s.pc, not_(gb[0][3].nil), 'a reachable broker is not asked')
                if ret:
                    raise Mismatch('the search ends at a broker that is not reachable', s.pc)
                return
            need(s.pc, gb[0][3].nil, 'a broker that is not reachable is asked')
            if ak[0][1] != W.key(gb[0][2]):
                raise Mismatch('another broker is asked', s.pc)
            got = ak[0][2] if call else [ak[0][2]]
            for g, w in zip(got, args):
                if isinstance(w, IfaceV):
                    if W.key(g) != W.key(w):
                        raise Mismatch('another request is sent', s.pc)
                else:
                    agree(m, s, g, w, 'argument')
            if not ret:
                need(s.pc, not_(ak[0][3].nil), 'an answer is thrown away')
                return
            res, err = ret
            e = m.force(s, err)
            if isnil(m, s, e):
                need(s.pc, ak[0][3].nil, 'a failed question counts as answered')
                r, w = m.force(s, res), ak[0][4]
                if isinstance(r, IfaceV):
                    if W.key(r) != W.key(w):
                        raise Mismatch('another answer', s.pc)
                else:
                    agree(m, s, r, w, 'answer')
            else:
                need(s.pc, not_(ak[0][3].nil), 'an answer is reported as an error')
        E = Each(m, fn, check=lambda s, x, evs: judge(s, x, evs, None), loose=True)
        n = 0
        for s1, (res, err) in m.call_fn(fn, [b] + args, st, merge=False):
            n += 1

            def chk(s):
                i = max([j for j, e in enumerate(s.ev) if e[0] == 'loop'] or [-1])
                if i < 0:
                    raise Mismatch('no broker is asked', s.pc)
                evs = s.ev[i + 1:]
                if [e for e in evs if e[0] in ('GetBroker', name)]:
                    judge(s, s.ev[i][1], evs, (res, err))
                    return
                need(s.pc, not_(m.force(s, err).nil), 'no error although no broker answered')
                need(s.pc, le(m.map_len(s, m.force(s, getf(m, s, b, 'brokersInfo'))), s.ev[i][1]), 'not all brokers are asked')
            c.post('ensures: the first broker that answers gives the result', s1, chk, fn)
        return n
    return body


OFFS = BS + 'RequestOffsets'
RO = '(*Broker).requestOffsets'


def ask_offsets(m):
    rt = m.p.funcs[RO]['results'][0]['t']

    def h(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'offsets.err')
        r = m.force(st, Ghost(rt, 'offsets!%d' % len(st.ev)))
        l = m.force(st, a[3])
        W.ev(st, 'offsets', W.key(m.force(st, a[0])), [m.force(st, x) for x in a[1:]], e, r)
        return (r, e)
    m.contracts[RO] = h


def topic_parts(m, s):
    return m.force(s, getf(m, s, elem(m, s, m.force(s, getf(m, s, m.force(s, Ghost(m.p.funcs[BS + 'RequestMetaData']['results'][0]['t'], 'meta')), 'TopicMetadatas')), I(0)), 'PartitionMetadatas'))


def offsets_one_job(c):
    """requires partitionID >= 0; ensures: the leader of the partition is asked for this partition; an error when it is not known, not reachable or fails"""
    m = c.m
    st = State()
    b = cluster(m, st)
    metadata_contract(m)
    getbroker_contract(m)
    ask_offsets(m)
    client_, topic, pid = satom('client', (), 32767), satom('topic', (), 32767), app('pid', (), 0, 2**31 - 1)
    tv, no = app('time', (), -2**63, 2**63 - 1), app('no', (), 0, 2**32 - 1)
    n = 0
    for s1, (res, err) in m.call_fn(OFFS, [b, client_, topic, pid, tv, no], st, merge=False):
        n += 1

        def chk(s):
            e = m.force(s, err)
            md, gb, of = W.evs(s, 'metadata'), W.evs(s, 'GetBroker'), W.evs(s, 'offsets')
            if len(md) != 1 or not prove(s.pc, eq(md[0][2].len, I(1))):
                raise Mismatch('not one metadata request for one topic', s.pc)
            seq_eq(m.force(s, elem_(m, s, md[0][2], I(0))), topic, s.pc)
            if len(of) > 1:
                raise Mismatch('more than one broker is asked', s.pc)
            if of:
                ps = topic_parts(m, s)
                f = lambda s, j, k: m.force(s, getf(m, s, elem(m, s, ps, j), k))
                from settings import ground_indices
                if len(gb) != 1 or gb[0][2] is None or of[0][1] != W.key(gb[0][2]) or not prove(s.pc, gb[0][3].nil):
                    raise Mismatch('another broker is asked', s.pc)
                if not any(prove(s.pc, and_(le(I(0), j), lt(j, ps.len))) and prove(s.pc, and_(eq(f(s, j, 'PartitionID'), pid), eq(gb[0][1], f(s, j, 'Leader')))) for j in ground_indices(m, s, ())):
                    raise Mismatch('the broker asked is not the leader of the partition', s.pc)
                a = of[0][2]
                seq_eq(a[1], topic, s.pc)
                need(s.pc, and_(eq(a[2].len, I(1)), eq(m.force(s, elem_(m, s, a[2], I(0))), pid), eq(a[3], tv), eq(a[4], no)), 'another question')
                need(s.pc, iff(e.nil, of[0][3].nil), 'the error is not reported')
                if isnil(m, s, e):
                    r = m.force(s, res)
                    need(s.pc, eq(r.len, I(1)), 'not one answer')
                    agree(m, s, elem(m, s, r, I(0)), of[0][4], 'answer')
            else:
                need(s.pc, not_(e.nil), 'no error although nobody was asked')
        c.post('ensures: the leader of the partition is asked, or an error', s1, chk, OFFS)
    return n


def offsets_all_job(c):
    """requires partitionID < 0; ensures: every partition is asked for once, at its leader: the map of the first loop holds, after x partitions, for every leader its partitions among them;
    the second loop asks every leader of the map for exactly its list"""
    m = c.m
    st = State()
    b = cluster(m, st)
    metadata_contract(m)
    getbroker_contract(m)
    ask_offsets(m)
    client_, topic, pid = satom('client', (), 32767), satom('topic', (), 32767), app('pid', (), -2**31, -1)
    tv, no = app('time', (), -2**63, 2**63 - 1), app('no', (), 0, 2**32 - 1)
    box = {}

    def is_build(m, fr, st0, header, body):
        blks = m.p.funcs[fr.fn]['blocks']
        return any(i['op'] == 'MapUpdate' for bl in body for i in blks[bl]['instrs'])

    def reset(m, st):
        for o, v in list(st.heap.items()):
            if isinstance(v, MapC) and v.base is None or isinstance(v, MapC) and v.base and v.base[0] == 'byleader':
                box['o'] = o
                m.nonnil.discard('byleader')
                st.heap[o] = MapC(v.kt, v.et, (), ('byleader', ()))

    def built(s, x, evs):
        u = s.heap[box['o']].upd
        if len(u) != 1:
            raise Mismatch('%d leaders get a partition' % len(u), s.pc)
        ps = topic_parts(m, s)
        p = elem(m, s, ps, x)
        L, P = [m.force(s, getf(m, s, p, k)) for k in ('Leader', 'PartitionID')]
        k, v = m.force(s, u[0][0]), m.force(s, u[0][1])
        need(s.pc, eq(k, L), 'a partition is filed under %r' % (k,))
        it = m.p.byname['[]int32']
        has = holds(s, bapp('byleader#has', (L,)))
        ln = m.force(s, Ghost(it, 'byleader{}', (L,))).len if has else I(0)
        need(s.pc, eq(v.len, ln + 1), 'the list of the leader grows by %r' % (v.len - ln,))
        need(s.pc, eq(m.force(s, elem_(m, s, v, ln)), P), 'another partition is filed')
        if has:
            s2 = s.copy()
            j = fresh('j', 0)
            s2.assume(lt(j, ln))
            if solver.sat(s2.pc):
                need(s2.pc, eq(m.force(s2, elem_(m, s2, v, j)), m.force(s2, elem_(m, s2, m.force(s2, Ghost(it, 'byleader{}', (L,))), j))), 'a filed partition is replaced')
    splitter = {'n': 0}

    def built_(s, x, evs):
        c.cases(s, lambda s2: built(s2, x, evs))
    A = Each(m, OFFS, allowed=[reset], check=built_, want=is_build, inv=None)

    def asked(s, x, evs, ret=None):
        gb, of = [e for e in evs if e[0] == 'GetBroker'], [e for e in evs if e[0] == 'offsets']
        if len(gb) != 1 or len(of) > 1:
            raise Mismatch('not one broker is asked in an iteration', s.pc)
        need(s.pc, eq(gb[0][1], app('byleader#key', (x,), -2**31, 2**31 - 1)), 'another broker')
        if of:
            need(s.pc, gb[0][3].nil, 'a broker that is not reachable is asked')
            if of[0][1] != W.key(gb[0][2]):
                raise Mismatch('another broker is asked', s.pc)
            a = of[0][2]
            seq_eq(a[1], topic, s.pc)
            need(s.pc, and_(eq(a[3], tv), eq(a[4], no)), 'another question')
            if not same_slice(m, s, a[2], m.force(s, Ghost(m.p.byname['[]int32'], 'byleader{v}', (x,)))):
                raise Mismatch('the leader is asked for other partitions', s.pc)
        if ret is None:
            if not of:
                raise Mismatch('a leader is not asked', s.pc)
            need(s.pc, of[0][3].nil, 'an error is ignored')
        else:
            need(s.pc, not_(m.force(s, ret).nil), 'the loop ends before all leaders are asked')
    B = Each(m, OFFS, check=asked, loose=True, want=lambda m, fr, st0, header, body: not is_build(m, fr, st0, header, body) and A.done)
    n = 0
    for s1, (res, err) in m.call_fn(OFFS, [b, client_, topic, pid, tv, no], st, merge=False):
        n += 1

        def chk(s):
            e = m.force(s, err)
            lp = [j for j, x in enumerate(s.ev) if x[0] == 'loop']
            if isnil(m, s, e):
                if len(lp) < 2 or not A.done or not B.done:
                    raise Mismatch('not all leaders are asked', s.pc)
                need(s.pc, le(topic_parts(m, s).len, A.x), 'not all partitions are filed')
                need(s.pc, le(app('byleader#n', (), 0), s.ev[lp[-1]][1]), 'not all leaders are asked')
            elif len(lp) == 2:
                evs = s.ev[lp[-1] + 1:]
                if evs:
                    asked(s, s.ev[lp[-1]][1], evs, err)
        c.post('ensures: every leader is asked for its partitions', s1, chk, OFFS)
    return n


# ---------------------------------------------------------------- requests to several brokers
def last_loop(s):
    return max([j for j, e in enumerate(s.ev) if e[0] == 'loop'] or [-1])


def each_job(fn, names, judge, prepare, bound):
    """a loop of one function that asks brokers: judge(m, s, x, events of iteration x, error that leaves the loop or None) per iteration;
    ensures: a nil error only after all bound(m, s) iterations"""
    def body(c):
        m = c.m
        st = State()
        recv, args, env = prepare(m, st)
        E = Each(m, fn, check=lambda s, x, evs: judge(m, s, x, evs, None, env), loose=True, allowed=env.get('allowed', ()))
        n = 0
        for s1, (res, err) in m.call_fn(fn, [recv] + args, st, merge=False):
            n += 1

            def chk(s):
                i = last_loop(s)
                if i < 0:
                    raise Mismatch('nobody is asked', s.pc)
                evs = [e for e in s.ev[i + 1:] if e[0] in names]
                if evs:
                    judge(m, s, s.ev[i][1], evs, m.force(s, err), env)
                    need(s.pc, not_(m.force(s, err).nil), 'the loop ends early without an error')
                elif isnil(m, s, m.force(s, err)):
                    need(s.pc, le(bound(m, s, env), s.ev[i][1]), 'not all are asked')
            c.post('ensures: every one is asked at the broker responsible', s1, chk, fn)
        return n
    return body


def coord_contract(m, name=BS + 'FindCoordinator'):
    """contract of Brokers.FindCoordinator, discharged by any_broker_job: the coordinator some broker names, or an error"""
    rt = m.p.funcs[name]['results'][0]['t']

    def h(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'coord.err')
        r = m.force(st, Ghost(rt, 'coord!%d' % len(st.ev)))
        W.ev(st, 'coord', m.force(st, a[2]), e, r)
        return (r, e)
    m.contracts[name] = h


DG = CT + 'DeleteGroups'


def delete_groups_prepare(m, st):
    getbroker_contract(m)
    exchange_contract(m)
    coord_contract(m)
    cl, b = client(m, st)
    g = m.force(st, Ghost(m.p.byname['[]string'], 'groups'))
    return cl, [g], {'groups': g, 'cid': m.force(st, getf(m, st, cl, 'clientID'))}


def delete_groups_judge(m, s, x, evs, err, env):
    co, gb, rq = [[e for e in evs if e[0] == k] for k in ('coord', 'GetBroker', 'request')]
    group = m.force(s, elem_(m, s, env['groups'], x))
    if len(co) != 1:
        raise Mismatch('the coordinator is asked for %d times' % len(co), s.pc)
    seq_eq(co[0][1], group, s.pc)
    if not gb:
        need(s.pc, not_(co[0][2].nil), 'the coordinator is not used')
    if gb:
        need(s.pc, co[0][2].nil, 'a coordinator that was not found is used')
        need(s.pc, eq(gb[0][1], at(m, s, co[0][3], ['Coordinator', 'NodeID'])), 'another broker')
    if rq:
        if len(gb) != 1 or len(rq) != 1 or rq[0][1] != W.key(gb[0][2]):
            raise Mismatch('the request goes to another broker', s.pc)
        need(s.pc, gb[0][3].nil, 'a broker that is not reachable is used')
        if req_kind(m, s, rq[0][2]).lstrip('*') != 'DeleteGroupsRequest':
            raise Mismatch('a request of kind %s' % req_kind(m, s, rq[0][2]), s.pc)
        r = m.force(s, rq[0][2].v)
        gs = at(m, s, r, ['GroupsNames'])
        need(s.pc, eq(gs.len, I(1)), 'not one group')
        seq_eq(m.force(s, elem_(m, s, gs, I(0))), group, s.pc)
    if err is None:
        if not rq:
            raise Mismatch('a group is not deleted', s.pc)
        need(s.pc, rq[0][3].nil, 'an error is ignored')


delete_groups_job = each_job(DG, ('coord', 'GetBroker', 'request'), delete_groups_judge, delete_groups_prepare, lambda m, s, env: env['groups'].len)

LG = CT + 'ListGroups'


def list_groups_prepare(m, st):
    getbroker_contract(m)
    name = '(*Broker).RequestListGroups'
    rt = m.p.funcs[name]['results'][0]['t']

    def h(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'lg.err')
        path = 'groups!%d' % len(st.ev)
        m.nonnil.add(path)
        r = m.force(st, Ghost(rt, path))
        W.ev(st, 'ask', W.key(m.force(st, a[0])), e, r)
        return (r, e)
    m.contracts[name] = h
    cl, b = client(m, st)
    m.nonnil |= {'c.brokers.brokersInfo', 'c.brokers.brokersInfo{v}'}
    box = {}

    def reset(m, st):
        for o, v in list(st.heap.items()):
            if isinstance(v, MapC) and (v.base is None or v.base[0] == 'bynode'):
                box['o'] = o
                st.heap[o] = MapC(v.kt, v.et, (), ('bynode', ()))
    return cl, [], {'b': b, 'allowed': [reset], 'box': box}


def list_groups_judge(m, s, x, evs, err, env):
    gb, ak = [[e for e in evs if e[0] == k] for k in ('GetBroker', 'ask')]
    inf = m.force(s, Ghost(m.p.byname['*BrokerInfo'], 'c.brokers.brokersInfo{v}', (x,)))
    nid = m.force(s, getf(m, s, inf, 'NodeID'))
    if len(gb) != 1:
        raise Mismatch('%d brokers are asked for' % len(gb), s.pc)
    need(s.pc, eq(gb[0][1], nid), 'another broker')
    if ak:
        need(s.pc, gb[0][3].nil, 'a broker that is not reachable is used')
        if len(ak) != 1 or ak[0][1] != W.key(gb[0][2]):
            raise Mismatch('another broker is asked', s.pc)
    if err is not None:
        return
    if not ak:
        raise Mismatch('a broker is not asked', s.pc)
    need(s.pc, ak[0][2].nil, 'an error is ignored')
    u = s.heap[env['box']['o']].upd
    gs = at(m, s, ak[0][3], ['Groups'])
    if len(u) > 1:
        raise Mismatch('%d entries' % len(u), s.pc)
    if not u:
        need(s.pc, le(gs.len, I(0)), 'the groups of a broker are lost')
        return
    need(s.pc, eq(m.force(s, u[0][0]), nid), 'the groups are listed under %r' % (u[0][0],))
    if not same_slice(m, s, m.force(s, u[0][1]), gs):
        raise Mismatch('other groups are listed', s.pc)


list_groups_job = each_job(LG, ('GetBroker', 'ask'), list_groups_judge, list_groups_prepare, lambda m, s, env: m.map_len(s, m.force(s, getf(m, s, env['b'], 'brokersInfo'))))


# ---------------------------------------------------------------- requests of one broker
BK = '(*Broker).'
ASK = [
    (BK + 'RequestListGroups', 'ListGroupsRequest', 16, []),
    (BK + 'requestMetaData', 'MetadataRequest', 3, [(['Topics'], 1)]),
    (BK + 'findCoordinator', 'FindCoordinatorRequest', 10, [(['GroupID'], 1)]),
    (BK + 'requestJoinGroup', 'JoinGroupRequest', 11, [(['GroupID'], 1), (['SessionTimeout'], 2), (['MemberID'], 3), (['ProtocolType'], 4), (['GroupProtocols'], 5)]),
    (BK + 'requestSyncGroup', 'SyncGroupRequest', 14, [(['GroupID'], 1), (['GenerationID'], 2), (['MemberID'], 3), (['GroupAssignment'], 4)]),
    (BK + 'requestHeartbeat', 'HeartbeatRequest', 12, [(['GroupID'], 1), (['GenerationID'], 2), (['MemberID'], 3)]),
    (BK + 'requestLeaveGroup', 'LeaveGroupRequest', 13, [(['GroupID'], 1), (['MemberID'], 2)]),
    (BK + 'requestOffsets', 'OffsetsRequest', 2, 'built'),
]


def ask_job(fn, kind, api, contents):
    """ensures: one request of this kind with the arguments as its contents goes to this broker; its error is returned, and its answer whenever there is one"""
    def body(c):
        m = c.m
        st = State()
        W.conc(m)
        exchange_contract(m)
        b = recv_of(m, st, 'Broker', 'b')
        args = [m.force(st, Ghost(p['t'], 'a%d' % i)) for i, p in enumerate(m.p.funcs[fn]['params'][1:])]
        if contents == 'built':
            rt = m.p.funcs['NewOffsetsRequest']['results'][0]['t']
            m.nonnil.add('built')

            def h(m, fr, st, a, ins):
                r = m.force(st, Ghost(rt, 'built'))
                W.ev(st, 'build', [m.force(st, x) for x in a], r)
                return (r,)
            m.contracts['NewOffsetsRequest'] = h
        n = 0
        for s1, (res, err) in m.call_fn(fn, [b] + args, st, merge=False):
            n += 1

            def chk(s):
                rq = W.evs(s, 'request')
                if len(rq) != 1 or rq[0][1] != W.key(b):
                    raise Mismatch('not one request to this broker', s.pc)
                k = req_kind(m, s, rq[0][2])
                if k.lstrip('*') != kind:
                    raise Mismatch('a request of kind %s' % k, s.pc)
                r = m.force(s, rq[0][2].v)
                if contents == 'built':
                    bd = W.evs(s, 'build')
                    if len(bd) != 1 or not same_ptr(r, bd[0][2]):
                        raise Mismatch('another request', s.pc)
                    for g, w in zip(bd[0][1], [args[1], args[2], args[3], args[4], args[0]]):
                        agree(m, s, g, w, 'argument')
                else:
                    h = at(m, s, r, ['RequestHeader'])
                    need(s.pc, eq(at(m, s, h, ['APIKey']), I(api)), 'the api key')
                    p = at(m, s, h, ['ClientID'])
                    need(s.pc, not_(p.nil), 'no client id')
                    seq_eq(m.force(s, m.load(s, p.tgt)), args[0], s.pc)
                    for path, w in contents:
                        agree(m, s, at(m, s, r, path), args[w], '.'.join(map(str, path)))
                e = m.force(s, err)
                need(s.pc, iff(e.nil, rq[0][3].nil), 'a failed request is not reported')
                if holds(s, not_(rq[0][4].nil)):
                    g, w = m.force(s, res), m.force(s, rq[0][4].v)
                    if isinstance(w, PtrV):
                        if not same_ptr(g, w):
                            raise Mismatch('another response is returned', s.pc)
                    else:
                        agree(m, s, g, w, 'response')
            c.post('ensures: this broker is asked, its answer is the result', s1, chk, fn)
        return n
    return body


NO = 'NewOffsetsRequest'


def new_offsets_job(c):
    """ensures: the request asks for exactly the given partitions of the topic, each with this time and number: after x of them the map has an entry for each, built in iteration x for partition x"""
    m = c.m
    st = State()
    topic, tv, no, cid = satom('topic', (), 32767), app('time', (), -2**63, 2**63 - 1), app('no', (), 0, 2**32 - 1), satom('cid', (), 32767)
    ps = m.force(st, Ghost(m.p.byname['[]int32'], 'parts'))
    box = {}

    def reset(m, st):
        for o, v in list(st.heap.items()):
            if isinstance(v, MapC) and m.p.name(v.kt) == 'int32' and (v.base is None or v.base[0] == 'infos'):
                box['o'] = o
                st.heap[o] = MapC(v.kt, v.et, (), ('infos', ()))

    def filed(s, x, evs):
        u = s.heap[box['o']].upd
        if len(u) != 1:
            raise Mismatch('%d entries for a partition' % len(u), s.pc)
        need(s.pc, eq(m.force(s, u[0][0]), m.force(s, elem_(m, s, ps, x))), 'the entry is for %r' % (u[0][0],))
        i = m.force(s, u[0][1])
        need(s.pc, and_(eq(m.force(s, getf(m, s, i, 'Time')), tv), eq(m.force(s, getf(m, s, i, 'MaxNumberOfOffsets')), no)), 'other contents')
    E = Each(m, NO, allowed=[reset], check=filed)
    n = 0
    for s1, (res,) in m.call_fn(NO, [topic, ps, tv, no, cid], st, merge=False):
        n += 1

        def chk(s):
            if not E.done:
                raise Mismatch('no loop over the partitions', s.pc)
            need(s.pc, le(ps.len, E.x), 'not all partitions')
            r = m.force(s, res)
            need(s.pc, and_(eq(at(m, s, r, ['RequestHeader', 'APIKey']), I(2)), eq(at(m, s, r, ['ReplicaId']), I(-1))), 'the header')
            seq_eq(m.force(s, m.load(s, at(m, s, r, ['RequestHeader', 'ClientID']).tgt)), cid, s.pc)
            o = s.heap[at(m, s, r, ['RequestInfo']).obj]
            if o.base is not None or len(o.upd) != 1:
                raise Mismatch('%d topics' % len(o.upd), s.pc)
            seq_eq(m.force(s, o.upd[0][0]), topic, s.pc)
            if m.force(s, o.upd[0][1]).obj != box['o']:
                raise Mismatch('other partitions', s.pc)
        c.post('ensures: the request is for the given partitions', s1, chk, NO)
    return n


# ---------------------------------------------------------------- what the client knows of the cluster
REF, FROM1, NBC = BS + 'refreshMetadata', 'newBrokersFromOne', 'NewBrokersWithConfig'


def static_calls(blk):
    return [i['call']['static'] for i in blk['instrs'] if 'call' in i and i['call'].get('static')]


def reaches(m, name, todo):
    """some of the functions in todo call `name`, directly or not"""
    seen = set()
    todo = list(todo)
    while todo:
        f = todo.pop()
        if f == name:
            return True
        if f in seen or f not in m.p.funcs:
            continue
        seen.add(f)
        for bl in m.p.funcs[f].get('blocks') or ():
            todo += static_calls(bl)
    return False


def calls(m, fr, body, name):
    blks = m.p.funcs[fr.fn]['blocks']
    return reaches(m, name, [f for bl in body for f in static_calls(blks[bl])])


def updates(m, fr, body):
    blks = m.p.funcs[fr.fn]['blocks']
    return any(i['op'] == 'MapUpdate' for bl in body for i in blks[bl]['instrs'])


def ask_metadata(m):
    """contract of Broker.requestMetaData, discharged by ask_job: the answer of this broker; with an error there may be none"""
    name = BK + 'requestMetaData'
    rt = m.p.funcs[name]['results'][0]['t']

    def h(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'md.err')
        path = 'md!%d' % len(st.ev)
        m.nonnil.add(path + '.Brokers[]')
        r = m.force(st, Ghost(rt, path))
        W.ev(st, 'ask', W.key(m.force(st, a[0])), [m.force(st, x) for x in a[1:]], e, r)
        return (r, e)
    m.contracts[name] = h


def split_contract(m, servers):
    def h(m, fr, st, a, ins):
        seq_eq(m.force(st, a[0]), m.force(st, servers(st)), st.pc)
        if m.force(st, a[1]) != sq(lit(b',')):
            raise Unsupported('strings.Split with another separator')
        return (m.force(st, Ghost(m.p.byname['[]string'], 'boot')),)
    m.contracts['strings.Split'] = h


class Filing:
    """the loop that files the brokers of an answer under their ids; also the connection under the id whose address it has, when `conn` is given"""
    def __init__(self, c, fn, conn=None):
        m = self.m = c.m
        self.box, self.conn, self.c = {}, conn, c
        self.E = Each(m, None, allowed=[self.reset], check=lambda s, x, evs: c.cases(s, lambda s2: self.filed(s2, x)), want=lambda m, fr, st0, header, body: updates(m, fr, body) and not calls(m, fr, body, 'NewBroker'))

    def reset(self, m, st):
        for o, v in list(st.heap.items()):
            if isinstance(v, MapC) and (v.base is None or v.base[0] in ('filed', 'conns')) and m.p.name(v.kt) == 'int32':
                k = 'filed' if m.p.name(v.et) == '*BrokerInfo' else 'conns'
                self.box[k] = o
                st.heap[o] = MapC(v.kt, v.et, (), (k, ()))

    def brokers(self, s):
        return at(self.m, s, W.evs(s, 'ask')[-1][4], ['Brokers'])

    def filed(self, s, x):
        m = self.m
        u = s.heap[self.box['filed']].upd
        i = m.force(s, elem_(m, s, self.brokers(s), x))
        nid = m.force(s, getf(m, s, i, 'NodeID'))
        if len(u) != 1 or not same_ptr(m.force(s, u[0][1]), i):
            raise Mismatch('a broker of the answer is not filed', s.pc)
        need(s.pc, eq(m.force(s, u[0][0]), nid), 'a broker is filed under %r' % (u[0][0],))
        if self.conn is None:
            return
        from seqops import seq_bool
        u = s.heap[self.box['conns']].upd
        if len(u) > 1:
            raise Mismatch('%d connections are kept' % len(u), s.pc)
        if u:
            need(s.pc, eq(m.force(s, u[0][0]), nid), 'the connection is kept for another node')
            if not same_ptr(m.force(s, u[0][1]), self.conn):
                raise Mismatch('another connection is kept', s.pc)
            if not holds(s, seq_bool(address(m, s, i), m.force(s, getf(m, s, self.conn, 'address')))):
                raise Mismatch('a connection is kept for a node at another address', s.pc)


def from_one_job(c):
    """ensures: a nil error: the list of brokers, and the controller, are those of the answer of this broker; the connection is kept at most for the node with its address"""
    m = c.m
    st = State()
    W.conc(m)
    m.nonnil |= {'conn', 'config'}
    for n in ('Lock', 'Unlock'):
        m.contracts['(iface sync.Locker).' + n] = W.lock(n.lower())
    ask_metadata(m)
    ps = m.p.funcs[FROM1]['params']
    conn, cfg = [m.force(st, Ghost(ps[i]['t'], n)) for i, n in ((0, 'conn'), (2, 'config'))]
    m.contracts['(*Broker).Close'] = W.record('broker.Close')
    ends = []
    F = Filing(c, FROM1, conn)
    n = 0
    for s1, (res, err) in m.call_fn(FROM1, [conn, satom('client', (), 32767), cfg], st, merge=False):
        n += 1

        def chk(s):
            ak = W.evs(s, 'ask')
            if len(ak) != 1 or ak[0][1] != W.key(conn):
                raise Mismatch('not one question to this broker', s.pc)
            need(s.pc, eq(ak[0][2][1].len, I(0)), 'the question is for some topics')
            if not isnil(m, s, m.force(s, err)):
                return
            need(s.pc, ak[0][3].nil, 'an error is ignored')
            r = m.force(s, res)
            if not F.E.done:
                raise Mismatch('no broker is filed', s.pc)
            need(s.pc, le(F.brokers(s).len, F.E.x), 'not all brokers are filed')
            need(s.pc, eq(at(m, s, r, ['controllerID']), at(m, s, ak[0][4], ['ControllerID'])), 'another controller')
            if at(m, s, r, ['brokersInfo']).obj != F.box['filed'] or at(m, s, r, ['brokers']).obj != F.box['conns']:
                raise Mismatch('another list of brokers', s.pc)
            if not same_ptr(at(m, s, r, ['config']), cfg):
                raise Mismatch('another configuration', s.pc)
            # the connection is kept for some node or closed
            cl = [e for e in W.evs(s, 'broker.Close') if W.key(e[1]) == W.key(conn)]
            kept = m.map_len(s, at(m, s, r, ['brokers']))
            ends.append((bool(cl), prove(s.pc, le(kept, I(0)) if cl else lt(I(0), kept)), s.pc))
        c.post('ensures: the brokers known are those of the answer', s1, chk, FROM1)
    if ends and not all(x[1] for x in ends):
        if len(set(x[0] for x in ends)) > 1:
            raise Unsupported('whether the connection is kept is found out in another way')
        s1.pc = [x for x in ends if not x[1]][0][2]

        def chk2(s):
            raise Mismatch('the connection is closed although it is kept' if ends[0][0] else 'a connection that is not kept is left open', s.pc)
        c.post('ensures: the connection is kept or closed', s1, chk2, FROM1)
    return n


def released(m, s, fn, evs, d):
    """a connection opened only to ask for metadata is closed"""
    if not prove(s.pc, d[5].nil):
        return
    if not any(e[0] == 'broker.Close' and W.key(e[1]) == W.key(d[4]) for e in evs):
        if any(i['op'] == 'Defer' for bl in m.p.funcs[fn]['blocks'] for i in bl['instrs']):
            raise Unsupported('connections are closed in another way')
        raise Mismatch('a connection opened to ask for metadata is left open', s.pc)


def refresh_job(c):
    """loop invariants: the list of brokers and the controller are those of one answer, or unchanged; ensures the same; true: some broker of the list answered"""
    m = c.m
    st = State()
    b = cluster(m, st)
    dial_contract(m)
    ask_metadata(m)
    split_contract(m, lambda s: getf(m, s, b, 'bootstrapServers'))
    F = Filing(c, REF)
    it = m.p.fields(m.p.byname['Brokers'])[m.p.field_index(m.p.byname['Brokers'], 'brokersInfo')]['t']
    m.nonnil |= {'cur.info', 'cur.info{}', 'cur.info{v}'}
    cur = m.force(st, Ghost(it, 'cur.info'))
    ctl = app('cur.ctl', (), -2**31, 2**31 - 1)

    def known(m, st):
        setf(m, st, b, 'brokersInfo', cur)
        setf(m, st, b, 'controllerID', ctl)
    known(m, st)

    def judge(s, evs, addr):
        """the state after an iteration (or at the end): as before, or of the answer of the broker asked in it"""
        d, ak = [e for e in evs if e[0] == 'dial'], [e for e in evs if e[0] == 'ask']
        if addr is not None:
            if len(d) != 1:
                raise Mismatch('%d connections' % len(d), s.pc)
            seq_eq(d[0][1], addr, s.pc)
        for x in d:
            released(m, s, REF, evs, x)
        i, k = at(m, s, b, ['brokersInfo']), at(m, s, b, ['controllerID'])
        if i.obj == cur.obj:
            need(s.pc, eq(k, ctl), 'the controller changes without the brokers')
            if s.heap[cur.obj].upd:
                raise Mismatch('the list of brokers is changed', s.pc)
            return False
        if not ak or ak[-1][1] != W.key(d[-1][4]) or not prove(s.pc, d[-1][5].nil):
            raise Mismatch('the list of brokers does not come from an answer', s.pc)
        need(s.pc, eq(k, at(m, s, ak[-1][4], ['ControllerID'])), 'another controller')
        need(s.pc, lt(I(0), F.brokers(s).len), 'an empty answer replaces the list')
        if i.obj != F.box.get('filed'):
            raise Mismatch('another list of brokers', s.pc)
        need(s.pc, le(F.brokers(s).len, F.E.x), 'not all brokers are filed')
        return True
    n1 = {'n': 0}

    def boot(s, x, evs):
        n1['n'] += 1
        judge(s, evs, m.force(s, elem_(m, s, m.force(s, Ghost(m.p.byname['[]string'], 'boot')), x)))

    def node(s, x, evs):
        n1['n'] += 1
        judge(s, evs, address(m, s, m.force(s, Ghost(m.p.byname['*BrokerInfo'], 'cur.info{v}', (x,)))))
    outer = lambda first: (lambda m, fr, st0, header, body: calls(m, fr, body, 'NewBroker') and any(i['op'] == 'Next' for bl in body for i in m.p.funcs[fr.fn]['blocks'][bl]['instrs'] if bl == header) != first)
    A = Each(m, REF, allowed=[known], check=boot, want=outer(True), loose=True)
    B = Each(m, REF, allowed=[known], check=node, want=outer(False), loose=True)
    n = 0
    for s1, (res,) in m.call_fn(REF, [b], st, merge=False):
        n += 1

        def chk(s):
            i = last_loop(s)
            if i < 0 or not A.done or not B.done:
                raise Unsupported('the metadata are refreshed in another way')
            j = max(j for j, e in enumerate(s.ev) if e == ('loop', B.x))
            evs = s.ev[j + 1:]
            new = judge(s, evs, None)
            if holds(s, m.force(s, res)) and not new:
                raise Mismatch('success is reported although no broker answered', s.pc)
        c.post('ensures: the brokers known and the controller are those of one answer', s1, chk, REF)
    return n


def new_brokers_job(c):
    """ensures: a nil error: the brokers are those a bootstrap server named; an error only after all bootstrap servers were asked"""
    m = c.m
    st = State()
    W.conc(m)
    dial_contract(m)
    servers = satom('servers', (), 2**31)
    split_contract(m, lambda s: servers)
    m.nonnil |= {'config'}
    cfg = m.force(st, Ghost(m.p.funcs[NBC]['params'][1]['t'], 'config'))
    rt = m.p.funcs[FROM1]['results'][0]['t']

    def h(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'from1.err')
        path = 'from1!%d' % len(st.ev)
        m.nonnil.add(path)
        r = m.force(st, Ghost(rt, path))
        W.ev(st, 'from1', W.key(m.force(st, a[0])), W.key(m.force(st, a[2])), e, r)
        return (r, e)
    m.contracts[FROM1] = h

    def judge(s, x, evs, ret):
        d, f = [e for e in evs if e[0] == 'dial'], [e for e in evs if e[0] == 'from1']
        if len(d) != 1 or len(f) > 1:
            raise Mismatch('%d connections for a bootstrap server' % len(d), s.pc)
        seq_eq(d[0][1], m.force(s, elem_(m, s, m.force(s, Ghost(m.p.byname['[]string'], 'boot')), x)), s.pc)
        if d[0][3] is None or W.key(d[0][3]) != W.key(cfg):
            raise Mismatch('another configuration', s.pc)
        if not f:
            need(s.pc, not_(d[0][5].nil), 'a server that is reachable is not asked')
        else:
            need(s.pc, d[0][5].nil, 'a server that is not reachable is asked')
            if f[0][1] != W.key(d[0][4]) or f[0][2] != W.key(cfg):
                raise Mismatch('another server is asked', s.pc)
        if ret is None:
            if f:
                need(s.pc, not_(f[0][3].nil), 'an answer is thrown away')
            released(m, s, NBC, evs, d[0])
            return
        res, err = ret
        need(s.pc, m.force(s, err).nil, 'an error before all servers are asked')
        if not f or not same_ptr(m.force(s, res), f[0][4]):
            raise Mismatch('other brokers are returned', s.pc)
        need(s.pc, f[0][3].nil, 'a failure counts as an answer')
        seq_eq(m.force(s, getf(m, s, m.force(s, res), 'bootstrapServers')), servers, s.pc)
    E = Each(m, NBC, check=lambda s, x, evs: judge(s, x, evs, None), loose=True)
    n = 0
    for s1, (res, err) in m.call_fn(NBC, [servers, cfg], st, merge=False):
        n += 1

        def chk(s):
            i = last_loop(s)
            if i < 0:
                raise Mismatch('nobody is asked', s.pc)
            evs = [e for e in s.ev[i + 1:] if e[0] in ('dial', 'from1')]
            if evs:
                judge(s, s.ev[i][1], evs, (res, err))
            else:
                need(s.pc, not_(m.force(s, err).nil), 'no error although nobody answered')
                need(s.pc, le(m.force(s, Ghost(m.p.byname['[]string'], 'boot')).len, s.ev[i][1]), 'not all servers are asked')
        c.post('ensures: the brokers are those a bootstrap server named', s1, chk, NBC)
    return n


# ---------------------------------------------------------------- concrete scenarios: the real Client and Brokers against a scripted cluster
ADMIN_APIS = {19: 0, 20: 0, 29: 0, 30: 0, 31: 0, 32: 0, 35: 0, 37: 0, 42: 0, 43: 0, 45: 0, 46: 0, 16: 0, 2: 0, 3: 1, 10: 0}
NOERR = {19: arr([]), 20: arr([]), 37: i32(0) + arr([]), 29: i32(0) + i16(0) + i16(-1) + arr([]), 30: i32(0) + arr([]), 31: i32(0) + arr([]), 32: i32(0) + arr([]),
         46: b'\0' + i32(0) + i16(0) + b'\0' + b'\1' + b'\0', 45: b'\0' + i32(0) + i16(0) + b'\0' + b'\1' + b'\0', 43: i32(0) + arr([])}
CALLS = {'CreateTopic': 19, 'CreateTopics': 19, 'DeleteTopics': 20, 'CreatePartitions': 37, 'CreatePartitionsWithAssignments': 37, 'DescribeAcls': 29, 'CreateAcls': 30, 'DeleteAcls': 31,
         'ListPartitionReassignments': 46, 'AlterPartitionReassignments': 45, 'ElectLeaders': 43}
ON_BROKERS = ('AlterPartitionReassignments', 'ElectLeaders', 'RequestOffsets', 'FindCoordinator', 'GetBroker', 'NewBroker')


def metadata_of(nodes, topics, controller, **kw):
    """metadata v1; nodes: {id: listener or None (nobody listens)}; topics: [(name, error, [(error, id, leader, replicas)])]"""
    ps = [i32(len(nodes))]
    for i, l in nodes.items():
        ps += [i32(i) + s16('127.0.0.1'), {'port': l} if l is not None else i32(1), s16(None)]
    ps.append(i32(controller) + arr([i16(e) + s16(n) + i8(0) + arr([i16(pe) + i32(pid) + i32(ld) + arr([i32(x) for x in rs]) + arr([i32(x) for x in rs]) for pe, pid, ld, rs in parts])
                                     for n, e, parts in topics]))
    return rule(3, *merge(ps), **kw)


class Known:
    """what the client knows of the cluster, and what it learns when it asks again"""
    def __init__(self, nodes, ctl, later):
        self.nodes, self.ctl, self.later = dict(nodes), ctl, later

    def reach(self, nid):
        """the listener of a node, or None: an error"""
        if nid not in self.nodes:
            self.nodes, self.ctl = dict(self.later[0]), self.later[1]
        return self.nodes.get(nid)


def logdirs_parts(p):
    """the partitions of a DescribeLogDirs request (version 0), sorted"""
    import base64
    p = base64.b64decode(p)
    o = [2 + max(int.from_bytes(p[:2], 'big', signed=True), 0)]

    def n(k):
        v = int.from_bytes(p[o[0]:o[0] + k], 'big', signed=True)
        o[0] += k
        return v
    out = []
    for _ in range(n(4)):
        k = n(2)
        t = p[o[0]:o[0] + k].decode()
        o[0] += k
        out += [(t, n(4)) for _ in range(n(4))]
    return sorted(out)


def helper_cases(rng, n):
    """the groups of every broker of the cluster, or none if a broker cannot be asked"""
    for _ in range(n):
        nb = rng.choice([1, 2, 3])
        ids = rng.sample(range(20), nb)
        nodes = {i: l for l, i in enumerate(ids)}
        bad = rng.choice([None, None, rng.randrange(nb)])
        lists = [['g%d-%d' % (l, k) for k in range(rng.choice([0, 1, 2, 5]))] for l in range(nb)]
        rules = [api_versions(ADMIN_APIS), metadata_of(nodes, [], ids[0])]
        for l in range(nb):
            code = 15 if l == bad else 0
            rules.append(rule(16, i16(code) + arr([s16(g) + s16('consumer') for g in lists[l]]), broker=l))
        ops = [('newclient', [0]), ('client', {'call': 'GetGroups'})]

        def check(A, lists=lists, bad=bad):
            if A.res[0].get('err'):
                return 'no client: %r' % (A.res[0]['err'],)
            got, want = A.res[1]['out'], sorted(g for l in lists for g in l)
            if bad is not None:
                return None if not got else 'GetGroups: %r although a broker does not answer' % (got,)
            if sorted(got or []) != want:
                return 'GetGroups: %r instead of %r' % (got, want)
        yield scenario(nb, rules, ops, check)


def close_cases(rng, n):
    """a client that talked to some brokers, and asked some for metadata, is closed: all connections end"""
    for _ in range(n):
        nb = rng.choice([1, 2, 3, 3])
        ids = rng.sample(range(20), nb)
        rules = [api_versions(ADMIN_APIS), metadata_of({i: l for l, i in enumerate(ids)}, [], rng.choice(ids)), rule(16, i16(0) + i32(0))]
        if nb > 1 and rng.random() < 0.4:        # later on a broker is gone from the cluster
            rules[1] = dict(rules[1], times=2)
            rules.insert(2, metadata_of({i: l for l, i in enumerate(ids[:-1])}, [], ids[0]))
        calls_ = [('client', {'call': 'ListGroups'})] * rng.choice([0, 1, 1, 2]) + [('client', {'call': 'GetBroker', 'n': i}) for i in rng.sample(ids, rng.randint(0, nb))]
        calls_ += [('client', {'call': 'GetBroker', 'n': 50})] * rng.choice([0, 0, 1])       # not known: the client asks for the brokers again
        rng.shuffle(calls_)
        boot = rng.choice([[0], [0], [100], [-1, nb - 1], [100 + nb - 1]])
        if rng.random() < 0.3:       # the first bootstrap server knows no brokers
            boot = [0, nb - 1]
            rules.insert(0, metadata_of({}, [], -1, broker=0, times=1))
        ops = [('newclient', boot)] + calls_
        ops.append(('client', {'call': 'Close'}))

        def check(A):
            if A.res[0].get('err'):
                return 'no client: %r' % (A.res[0]['err'],)
            if A.res[-1]['out']:
                return '%d connections stay open after Close' % A.res[-1]['out']
        yield scenario(nb, rules, ops, check)


def logdirs_cases(rng, n):
    """DescribeLogDirs: every broker is asked for exactly the replicas it holds"""
    for _ in range(n):
        nb = rng.choice([1, 2, 3])
        ids = rng.sample(range(20), nb)
        nodes = {i: l for l, i in enumerate(ids)}
        names = rng.choice([['t'], ['t', 'u'], ['u', 'abc', 't']])
        tops = [(t, 0, [(0, p, rng.choice(ids), rng.sample(ids, rng.randint(1, nb))) for p in rng.sample(range(6), rng.randint(0, 5))]) for t in names]
        rules = [api_versions(ADMIN_APIS), metadata_of(nodes, tops, ids[0]), rule(35, i32(0) + arr([]))]
        want = {}
        for t, _, ps in tops:
            for _, p, _, rs in ps:
                for r in rs:
                    want.setdefault(nodes[r], []).append((t, p))
        ops = [('newclient', [0]), ('client', {'call': 'DescribeLogDirs', 'topics': names})]

        def check(A, want=want, ids=ids):
            if A.res[0].get('err') or A.res[1].get('err'):
                return 'DescribeLogDirs: %r' % (A.res,)
            got = {}
            for x in A.log:
                if x['ev'] == 'req' and x['api'] == 35:
                    got.setdefault(x['b'], []).extend(logdirs_parts(x['p']))
            for b in sorted(set(got) | set(want)):
                if got.get(b) != sorted(want.get(b, [])):
                    return 'DescribeLogDirs: broker %d is asked for %r instead of %r' % (b, got.get(b), want.get(b))
            if A.res[1]['out'] != sorted(ids[b] for b in want):
                return 'DescribeLogDirs: answers of %r instead of %r' % (A.res[1]['out'], want)
        yield scenario(nb, rules, ops, check)


def client_cases(rng, n):
    """calls of Client and Brokers: the broker that sees each request is the one responsible for it"""
    for _ in range(n):
        nb = 3
        ids = rng.sample([0, 1, 2, 3, 7, 101, 2**31 - 1], 4)
        nodes = {ids[0]: 0, ids[1]: 1}
        ctl0 = rng.choice([ids[0], ids[1], ids[1], ids[2], -1])
        later = dict(nodes)
        how = rng.choice(['same', 'new', 'moved', 'dead', 'swapped', 'gone'])
        if how in ('new', 'dead', 'swapped', 'moved'):
            later[ids[2]] = 2
        if how == 'moved':
            later[ids[2]], later[ids[1]] = 1, 2
        if how == 'swapped':
            later[ids[0]], later[ids[1]] = 1, 0
        if how == 'dead':
            later[ids[1]] = None
        if how == 'gone':        # another node instead of one, and the bootstrap server no longer knows the cluster
            del later[ids[1]]
            later[ids[2]] = 2
        ctl1 = rng.choice([x for x in later if later[x] is not None])
        names = rng.choice([['t'], ['t', 'u']])
        live = [x for x in later] + [ids[3], -1]
        tops = []
        for t in names:
            tops.append((t, 0, [(0, p, rng.choice(live[:-2] * 3 + live), rng.sample(list(later), rng.randint(1, len(later)))) for p in rng.sample(range(6), rng.randint(1, 4))]))
        group = {g: rng.choice(list(later) * 2 + [ids[3]]) for g in ('g', 'h')}
        boot = [0] if rng.random() < 0.7 or how == 'gone' else [-1, 1]
        rules = [api_versions(ADMIN_APIS), metadata_of(nodes, [tops[0]], ctl0, times=2), metadata_of(later, [tops[0]], ctl1)]
        if how == 'gone' and rng.random() < 0.7:
            rules.insert(0, metadata_of({}, [], -1, broker=0, skip=2))
        for a, b in NOERR.items():
            rules.append(rule(a, b))
        gname = rng.choice('gh')
        lof = lambda nid: later.get(nid)
        rules.append(rule(10, i16(0) + i32(group[gname]) + s16('nowhere'), i32(1)))
        for l in range(nb):
            rules.append(rule(16, i16(0) + arr([s16('on%d' % l) + s16('consumer')]), broker=l))
            rules.append(rule(42, i32(0) + arr([s16('on%d' % l) + i16(0)]), broker=l))
            mine = [p for _, p, ld, _ in tops[0][2] if later.get(ld) == l]
            rules.append(rule(2, arr([s16(tops[0][0]) + arr([i32(p) + i16(0) + arr([i64(5)]) for p in mine])]), broker=l))
            rules.append(rule(35, i32(0) + arr([i16(0) + s16('/d') + arr([s16(tops[0][0]) + arr([i32(0) + i64(1) + i64(1) + i8(0)])])]), broker=l))
        K = {'client': Known(nodes, ctl0, (later, ctl1)), 'brokers': Known(nodes, ctl0, (later, ctl1))}
        ops, want = [('newclient', boot)], [None]
        for _ in range(rng.randint(2, 5)):
            call = rng.choice(list(CALLS) + ['DescribeConfigs'] * 2 + ['DeleteGroups', 'ListGroups', 'RequestOffsets', 'RequestOffsets', 'DescribeLogDirs', 'FindCoordinator', 'GetBroker', 'GetBroker', 'NewBroker'])
            if how == 'gone':
                call = rng.choice(list(CALLS) + ['GetBroker'] * 6 + ['NewBroker'] * 3)
            k = K['brokers' if call in ON_BROKERS else 'client']
            a = {'call': call, 'topic': tops[0][0], 'topics': [tops[0][0]], 'n': 3, 't': 1234, 'p': 0, 'l': [[1, 2]]}
            api, exp, out = CALLS.get(call), None, None
            if call in CALLS:
                exp = [k.reach(k.ctl)]
            elif call == 'DescribeConfigs':
                api = 32
                a['type'] = rng.choice(['topic', 'broker', 'broker', 'broker_logger'])
                if a['type'] == 'topic':
                    exp = [k.reach(k.ctl)]
                else:
                    a['topic'] = str(rng.choice(list(later) + [ids[3], 'x', 2**32 + ids[0]]))
                    exp = [k.reach(int(a['topic']))] if a['topic'].isdigit() and int(a['topic']) < 2**31 else [None]
            elif call == 'DeleteGroups':
                api = 42
                a['topics'] = [gname] * rng.randint(1, 2)
                l = [k.reach(group[gname]) for _ in a['topics']]
                exp = l if None not in l else [None]
                out = [['on%d' % x, 0] for x in exp] if None not in exp else None
            elif call == 'ListGroups':
                api = 16
                exp = [x for x in k.nodes.values()]
                if None in exp:
                    exp = 'any'
                else:
                    out = {str(i): ['on%d' % l] for i, l in k.nodes.items()}
            elif call == 'RequestOffsets':
                api = 2
                pids = [p for _, p, _, _ in tops[0][2]]
                a['p'] = rng.choice(pids + [-1, -1, 9])
                lead = {p: ld for _, p, ld, _ in tops[0][2]}
                if a['p'] >= 0:
                    exp = [k.reach(lead[a['p']])] if a['p'] in lead else [None]
                else:
                    ls = sorted(set(lead.values()))
                    if any(x not in k.nodes and x not in later for x in ls):
                        k.reach(-7)
                        exp = 'any'
                    elif any(x not in k.nodes for x in ls):
                        k.reach([x for x in ls if x not in k.nodes][0])
                        exp = 'loose'        # a refresh in the middle of the loop
                        if all(k.nodes.get(x) is not None for x in ls) and how in ('new', 'same'):
                            exp = [k.nodes[x] for x in ls]
                    else:
                        exp = [k.reach(x) for x in ls]
                        if None in exp:
                            exp = 'any'
                    if isinstance(exp, list) and how in ('new', 'same'):
                        out = sorted(pids)
            elif call == 'DescribeLogDirs':
                api = 35
                reps = sorted({r for _, _, _, rs in tops[0][2] for r in rs})
                if any(x not in k.nodes for x in reps):
                    k.reach([x for x in reps if x not in k.nodes][0])
                    exp = 'loose'
                    if how in ('new', 'same'):
                        exp = [k.nodes[x] for x in reps]
                else:
                    exp = [k.reach(x) for x in reps]
                    if None in exp:
                        exp = 'any'
                if isinstance(exp, list):
                    out = reps
                    a['want'] = {str(l): sorted(p for _, p, _, rs in tops[0][2] if x in rs) for x, l in zip(reps, exp)}
            elif call == 'FindCoordinator':
                api, exp, out = 10, 'one', group[gname]
            else:
                api = 16
                a['n'] = rng.choice(list(later) * (3 if how == 'gone' else 1) + [ids[3], -1])
                exp = [k.reach(a['n'])]
                out = None
            ops.append(('client', a))
            want.append((call, api, exp, out, a))

        def check(A, want=want):
            if A.res[0].get('err'):
                return 'no client: %r' % (A.res[0]['err'],)
            prev = 0
            for i, w in enumerate(want):
                seen = A.upto(i)
                new = seen[prev:]
                prev = len(seen)
                if w is None:
                    continue
                call, api, exp, out, a = w
                r = A.res[i]
                at_ = [x['b'] for x in new if x['api'] == api]
                if exp == 'loose':
                    continue
                if exp == 'any':
                    if not r['err']:
                        return '%s: no error although a broker is not reachable' % call
                    continue
                if exp == 'one':
                    if r['err'] or len(at_) != 1:
                        return '%s: %r, asked %r' % (call, r['err'], at_)
                elif exp == [None]:
                    if not r['err']:
                        return '%s: no error although no responsible broker is known' % call
                    if at_:
                        return '%s: sent to broker %r although no responsible broker is known' % (call, at_)
                    continue
                else:
                    if r['err']:
                        return '%s: error %r' % (call, r['err'])
                    if (at_ if call == 'DeleteGroups' else sorted(at_)) != (exp if call == 'DeleteGroups' else sorted(exp)):
                        return '%s(%r): sent to brokers %r instead of %r' % (call, a, at_, exp)
                if call == 'DescribeLogDirs':
                    for x in new:
                        if x['api'] == 35 and logdirs_parts(x['p']) != [(a['topic'], q) for q in a['want'][str(x['b'])]]:
                            return 'DescribeLogDirs: broker %d is asked for %r instead of partitions %r' % (x['b'], logdirs_parts(x['p']), a['want'][str(x['b'])])
                if out is not None and r['out'] != out:
                    return '%s: result %r instead of %r' % (call, r['out'], out)
        yield scenario(nb, rules, ops, check)


def c14(P):
    from runner import Job
    X = dict(SCN)
    X['extra'] = ['cluster', 'client']
    S = dict(cases=client_cases, limit=120, **X)
    J = [('connection of a node (GetBroker)', node_job(BS + 'GetBroker', True), [BS + 'GetBroker']), ('connection of a node (NewBroker)', node_job(BS + 'NewBroker', False), [BS + 'NewBroker']),
         ('leader of a partition', find_job, [FIND])]
    for a in ADMIN:
        J.append((a[0].split('.')[-1], admin_job(*a), [a[0]]))
    J += [('DescribeConfigs', describe_configs_job, [CT + 'DescribeConfigs']),
          ('FindCoordinator', any_broker_job(BS + 'FindCoordinator', '(*Broker).findCoordinator', 2), [BS + 'FindCoordinator']),
          ('RequestMetaData', any_broker_job(BS + 'RequestMetaData', '(*Broker).requestMetaData', 2), [BS + 'RequestMetaData']),
          ('Brokers.Request', any_broker_job(BS + 'Request', None, 1), [BS + 'Request']),
          ('offsets of one partition', offsets_one_job, [OFFS]), ('offsets of all partitions', offsets_all_job, [OFFS]),
          ('CreateTopics', create_topics_job, [CT + 'CreateTopics']), ('CreatePartitionsWithAssignments', create_partitions_job, [CT + 'CreatePartitionsWithAssignments']),
          ('DeleteGroups', delete_groups_job, [DG]), ('ListGroups', list_groups_job, [LG]), ('partitions of an offsets request', new_offsets_job, [NO]),
          ('brokers of an answer (newBrokersFromOne)', from_one_job, [FROM1]), ('refreshMetadata', refresh_job, [REF]), ('bootstrap servers', new_brokers_job, [NBC])]
    for a in ASK:
        J.append((a[0].split('.')[-1], ask_job(*a), [a[0]]))
    import consumer_ as C
    J += [('leader of a consumer', C.leader_job, [C.GLB2]), ('coordinator of a consumer', C.coordinator_job(C.SC + 'getCoordinator', 'SimpleConsumer'), [C.SC + 'getCoordinator']),
          ('coordinator of a group', C.coordinator_job(C.GC + 'getCoordinator', 'GroupConsumer'), [C.GC + 'getCoordinator']), ('leader of a producer', C.create_leader_job, [C.CRL]),
          ('partition of a consumer', C.refresh_partition_job, [C.RFP])]
    import logdirs_ as L
    out = [Job(n, b, require=f, **S) for n, b, f in J]
    out.append(Job('log directories of replicas', L.logdirs_job, require=[L.DLD], **dict(S, cases=logdirs_cases, limit=30)))
    out.append(Job('groups of all brokers (Helper)', L.groups_job, require=[L.HGG], **dict(S, cases=helper_cases, limit=20)))
    out.append(Job('Brokers.Close', L.close_job(L.CLOSE, ''), require=[L.CLOSE], **dict(S, cases=close_cases, limit=40)))
    out.append(Job('Client.Close', L.close_job(CT + 'Close', 'c'), require=[CT + 'Close', L.CLOSE], **dict(S, cases=close_cases, limit=20)))
    out += [Job(n, b, require=[n], **dict(S, cases=helper_cases, limit=10)) for n, b in L.MADE]
    # the data path: fetches and commits of a consumer, the requests of a group member, batches of a producer
    import group_ as G
    import producer_ as PD
    K = dict(cases=C.consumer_cases, limit=60, **C.CSCN)
    M = dict(cases=G.group_cases, limit=40, **G.GSCN)
    Q = dict(cases=PD.producer_cases, limit=60, **dict(SCN, extra=['cluster', 'producer']))
    for n, b, f, k in [('commit of a consumer', C.commit_job(C.CMT, 'SimpleConsumer'), [C.CMT], K), ('committed position', C.committed_job, [C.GCOF], K), ('end of the log', C.get_offset_job, [C.GOF], K),
                       ('fetch loop', C.loop_job, [C.CLP], K), ('Consume', C.consume_job, [C.CONS], K),
                       ('commit of a group', C.commit_job(C.GCMT, 'GroupConsumer'), [C.GCMT], M), ('join', G.join_job, [G.JOIN], M), ('sync', G.sync_job, [G.SYNC], M), ('join and sync', G.join_and_sync_job, [G.JAS], M),
                       ('heartbeat', G.heartbeat_job, [G.HB], M), ('leave', G.leave_job, [G.LEAVE], M),
                       ('leader of a partition of a producer', PD.leader_id_job, [PD.GLI], Q), ('connection of a leader', PD.leader_broker_job, [PD.GLB], Q), ('flush', PD.flush_job, [PD.FLUSH], Q),
                       ('current producer', PD.update_job, [PD.UPD], Q), ('leaders of keyed producers', PD.follow_job, [PD.FOL], Q)]:
        out.append(Job(n, b, require=f, **k))
    return out
