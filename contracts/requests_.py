"""Contracts of the request encoders: Encode(version) == length ++ header ++ body."""
from wire import *
import prims
from prims import HDR1, HDR2
from terms import *
from values import *
from machine import State
from seqops import seq_eq, split_at

REQ = {}


class Req:
    def __init__(self, name, api, versions, body, prop, setup=None, encode=None):
        self.name, self.api, self.versions, self.body, self.prop, self.setup = name, api, versions, body, prop, setup
        self.fix = None
        REQ[name] = self


def request(name, api, versions, prop, setup=None):
    def deco(f):
        Req(name, api, versions, f, prop, setup)
        return f
    return deco


def S(*f):
    return Struct(*f)


@request('HeartbeatRequest', 12, [0], 'C02')
def _(v):
    return S(('GroupID', STR), ('GenerationID', I32), ('MemberID', STR))


@request('LeaveGroupRequest', 13, [0], 'C02')
def _(v):
    return S(('GroupID', STR), ('MemberID', STR))


@request('FindCoordinatorRequest', 10, [0], 'C02')
def _(v):
    return S(('GroupID', STR))


@request('DescribeGroupsRequest', 15, [0], 'C02')
def _(v):
    return S(('Groups', ARR(STR)))


@request('ListGroupsRequest', 16, [0, 1, 2, 3, 4, 5], 'C02')
def _(v):
    f = []
    if v >= 4:
        f.append(('StatesFilter', CARR(CSTR, null='yes')))
    if v >= 5:
        f.append(('TypesFilter', CARR(CSTR, null='yes')))
    if v >= 3:
        f.append(('TaggedFields', TAGS))
    return S(*f)


@request('SaslHandShakeRequest', 17, [0, 1], 'C02')
def _(v):
    return S(('Mechanism', STR))


@request('SaslAuthenticateRequest', 36, [0], 'C02')
def _(v):
    return S(('SaslAuthBytes', BYTES))


@request('APIVersionsRequest', 18, [0], 'C02')
def _(v):
    return S()


@request('JoinGroupRequest', 11, [0], 'C02')
def _(v):
    f = [('GroupID', STR), ('SessionTimeout', I32)]
    if v >= 1:
        f.append(('RebalanceTimeout', I32))
    return S(*f, ('MemberID', STR), ('ProtocolType', STR), ('GroupProtocols', ARR(('ProtocolName', STR), ('ProtocolMetadata', BYTES))))


@request('SyncGroupRequest', 14, [0], 'C02')
def _(v):
    return S(('GroupID', STR), ('GenerationID', I32), ('MemberID', STR),
             ('GroupAssignment', ARR(('MemberID', STR), ('MemberAssignment', BYTES))))


@request('MetadataRequest', 3, [1, 4, 7], 'C02')
def _(v):
    f = [('Topics', ARR(STR, null='yes'))]
    if v >= 4:
        f.append(('AllowAutoTopicCreation', BOOL))
    return S(*f)


@request('OffsetCommitRequest', 8, [0, 2], 'C02')
def _(v):
    top = ('Topics', ARR(('Topic', STR), ('Partitions', ARR(('PartitionID', I32), ('Offset', I64), ('Metadata', STR)))))
    if v == 0:
        return S(('GroupID', STR), top)
    return S(('GroupID', STR), ('GenerationID', I32), ('MemberID', STR), ('RetentionTime', I64), top)


@request('OffsetFetchRequest', 9, [0, 1], 'C02')
def _(v):
    return S(('GroupID', STR), ('Topics', ARR(('Topic', STR), ('Partitions', ARR(I32)))))


def _batches(c, path, v):
    import batch
    batch.batch_contract(c.m)


@request('ProduceRequest', 0, [0, 9], 'C02', setup=_batches)
def _(v):
    import batch
    if v >= 9:
        part = S(('Partition', I32), ('RecordBatches', Sized('uv', batch.Batches())), ('TaggedFields', TAGS))
        return S(('transactionalID', CNSTR), ('RequiredAcks', I16), ('Timeout', I32), ('TopicBlocks', CARR(('TopicName', CSTR), ('PartitonBlocks', CARR(part)), ('TaggedFields', TAGS))), ('TaggedFields', TAGS))
    return S(('RequiredAcks', I16), ('Timeout', I32), ('TopicBlocks', ARR(('TopicName', STR), ('PartitonBlocks', ARR(('Partition', I32), ('RecordBatches', Sized('i32', batch.Batches())))))))


def _clientid(c, path, v):
    # established by NewOffsetsRequest, checked by the constructor's contract
    c.m.nonnil.add(path + '.RequestHeader.ClientID')


@request('OffsetsRequest', 2, [0, 1], 'C02', setup=_clientid)
def _(v):
    p = [('Time', I64)]
    if v == 0:
        p.append(('MaxNumberOfOffsets', U32))
    return S(('ReplicaId', I32), ('RequestInfo', MapArr('i32', STR, MapArr('i32', I32, Struct(*p)))))


@request('FetchRequest', 1, [0, 7, 10], 'C02')
def _(v):
    f = [('ReplicaID', I32), ('MaxWaitTime', I32), ('MinBytes', I32)]
    if v >= 3:
        f.append(('MaxBytes', I32))
    if v >= 4:
        f.append(('ISOLationLevel', I8))
    if v >= 7:
        f += [('SessionID', I32), ('SessionEpoch', I32)]
    p = [('Partition', I32)]
    if v >= 9:
        p.append(('CurrentLeaderEpoch', I32))
    p.append(('FetchOffset', I64))
    if v >= 5:
        p.append(('LogStartOffset', I64))
    p.append(('MaxBytes', I32))
    f.append(('Topics', MapArr('i32', STR, ARR(*p))))
    if v >= 7:
        f.append(('ForgottenTopicsDatas', MapArr('i32', STR, ARR(I32))))
    return S(*f)


# ---------------------------------------------------------------- administration
@request('CreateTopicsRequest', 19, [0], 'C03')
def _(v):
    return S(('CreateTopicRequests', ARR(
        ('Topic', STR), ('NumPartitions', I32), ('ReplicationFactor', I16),
        ('ReplicaAssignments', ARR(('Partition', I32), ('Replicas', ARR(I32)))),
        ('ConfigEntries', ARR(('ConfigName', STR), ('ConfigValue', STR))))), ('Timeout', U32))


@request('DeleteTopicsRequest', 20, [0], 'C03')
def _(v):
    return S(('TopicsNames', ARR(STR)), ('TimeoutMS', I32))


@request('DeleteGroupsRequest', 42, [0], 'C03')
def _(v):
    return S(('GroupsNames', ARR(STR)))


@request('DescribeConfigsRequest', 32, [0], 'C03')
def _(v):
    return S(('Resources', ARR(('ResourceType', U8), ('ResourceName', STR), ('ConfigNames', ARR(STR, null='yes')))))


@request('AlterConfigsRequest', 33, [0], 'C03')
def _(v):
    return S(('Resources', ARR(('ResourceType', U8), ('ResourceName', STR),
                               ('ConfigEntries', ARR(('ConfigName', STR), ('ConfigValue', STR))))), ('validateOnly', BOOL))


@request('IncrementalAlterConfigsRequest', 44, [0], 'C03')
def _(v):
    return S(('Resources', ARR(('ResourceType', U8), ('ResourceName', STR),
                               ('Entries', ARR(('Name', STR), ('Operation', I8), ('Value', STR))))), ('ValidateOnly', BOOL))


@request('DescribeLogDirsRequest', 35, [0], 'C03')
def _(v):
    return S(('Topics', ARR(('TopicName', STR), ('Partitions', ARR(I32)))))


@request('ElectLeadersRequest', 43, [0], 'C03')
def _(v):
    return S(('Topics', ARR(('Topic', STR), ('Partitions', ARR(I32)))), ('TimeoutMS', I32))


@request('CreatePartitionsRequest', 37, [0, 2], 'C03')
def _(v):
    if v < 2:
        return S(('Topics', ARR(('Name', STR), ('Count', I32), ('Assignments', ARR(('BrokerIDs', ARR(I32)), null='yes')))),
                 ('TimeoutMS', I32), ('ValidateOnly', BOOL))
    return S(('Topics', CARR(('Name', CSTR), ('Count', I32), ('Assignments', CARR(('BrokerIDs', CARR(I32)), ('TaggedFields', TAGS), null='yes')), ('TaggedFields', TAGS))),
             ('TimeoutMS', I32), ('ValidateOnly', BOOL), ('TaggedFields', TAGS))


@request('AlterPartitionReassignmentsRequest', 45, [0], 'C03')
def _(v):
    return S(('TimeoutMs', I32), ('Topics', CARR(('TopicName', CSTR), ('Partitions', CARR(
        ('PartitionID', I32), ('Replicas', CARR(I32)), ('TaggedFields', TAGS))), ('TaggedFields', TAGS))), ('TaggedFields', TAGS))


@request('ListPartitionReassignmentsRequest', 46, [0], 'C03')
def _(v):
    return S(('TimeoutMS', I32), ('Topics', CARR(('Name', CSTR), ('Partitions', CARR(I32)), ('TaggedFields', TAGS), null='yes')), ('TaggedFields', TAGS))


def _filter(v):
    s, n = (STR, NSTR) if v < 2 else (CSTR, CNSTR)
    f = [('ResourceType', I8), ('ResourceName', n)]
    if v >= 1:
        f.append(('PatternType', I8))
    f += [('Principal', n), ('Host', n), ('Operation', I8), ('PermissionType', I8)]
    if v >= 2:
        f.append(('TaggedFields', TAGS))
    return f


@request('DescribeAclsRequest', 29, [0, 1, 2], 'C03')
def _(v):
    return S(*[('DescribeAclsRequestBody.' + n, k) for n, k in _filter(v)])


@request('CreateAclsRequest', 30, [0, 1, 2, 3], 'C03')
def _(v):
    s = STR if v < 2 else CSTR
    f = [('ResourceType', I8), ('ResourceName', s)]
    if v >= 1:
        f.append(('PatternType', I8))
    f += [('Principal', s), ('Host', s), ('Operation', I8), ('PermissionType', I8)]
    if v >= 2:
        return S(('Creations', CARR(*f, ('TaggedFields', TAGS))), ('TaggedFields', TAGS))
    return S(('Creations', ARR(*f)))


@request('DeleteAclsRequest', 31, [0, 1, 2, 3], 'C03')
def _(v):
    if v >= 2:
        return S(('Filters', CARR(*_filter(v))), ('TaggedFields', TAGS))
    return S(('Filters', ARR(*_filter(v))))


def start(c, r, v):
    """arbitrary request object of kind r, set to version v"""
    m = c.m
    prims.install(m, prims.VERIFIED)
    st = State()
    path = '%s.v%d' % (r.name, v)
    t = m.p.byname['*' + r.name]
    h = path + '.RequestHeader'
    m.over[h + '.APIKey'] = lambda m, st, g: I(r.api)
    m.over[h + '.APIVersion'] = lambda m, st, g: I(v)
    # invariant of RequestHeader: the cached header version is absent or the right one (kept by SetVersion, see header_jobs)
    hv = 2 if is_flex(r.api, v) else 1
    hvo = []

    def over_hv(m, st, g):
        if not hvo:
            hvo.append(m.alloc(st, I(hv)))
        st.heap.setdefault(hvo[0], I(hv))
        return PtrV(bapp(g.path + '#nil', ()), (hvo[0], ()))
    m.over[h + '.hv'] = over_hv
    m.nonnil.add(path)
    if r.setup:
        r.setup(c, path, v)
    recv = m.force(st, Ghost(t, path))
    return st, recv


def encode_job(r, v, parts):
    def body(c):
        m = c.m
        st, recv = start(c, r, v)
        st0 = st.copy()
        header = (HDR2 if is_flex(r.api, v) else HDR1).sym(m, st0, getf(m, st0, recv, 'RequestHeader'))
        spec = r.body(v)
        spec = spec.sym(m, st0, recv) if isinstance(spec, K) else spec(m, st0, recv)
        for o, x in st0.heap.items():
            st.heap.setdefault(o, x)
        n = 0
        rets = m.call_fn('(*%s).Encode' % r.name, [recv, I(v)], st)
        for s, (res,) in rets:
            n += 1
            res = m.force(s, res)

            def chk(s):
                got = m.content(s, res)
                if 'frame' in parts:
                    pre, rest = split_at(got, I(4), s.pc)
                    seq_eq(pre, be(4, got.len - 4), s.pc)
                    # header: compare the whole when the body is right, else the prefix
                    try:
                        seq_eq(rest, sq(header, spec), s.pc)
                    except Mismatch:
                        h, _ = split_at(rest, header.len, s.pc)
                        seq_eq(h, header, s.pc)
                if 'body' in parts:
                    seq_eq(got, sq(be(4, header.len + spec.len), header, spec), s.pc)
            c.post('ensures: Encode(%s v%d) is the documented layout' % (r.name, v), s, chk, '(*%s).Encode' % r.name)
        return n
    return body


# ---------------------------------------------------------------- concrete inputs
def req_cases(r, v, parts):
    from runner import Case
    from replay import unb64
    spec = r.body(v)
    hk = HDR2 if is_flex(r.api, v) else HDR1
    pre = 'RequestHeader.'

    def cases(rng, n):
        for _ in range(n):
            val = spec.gen(rng, 0)
            if r.fix:
                r.fix(val, rng)
            hdr = {'APIKey': r.api, 'APIVersion': v, 'CorrelationID': rng.choice([0, 1, 2**31, 2**32 - 1, rng.randint(0, 2**32 - 1)]),
                   'ClientID': rng.choice([b'', b'healer', b'x' * rng.randint(1, 300)] + ([None] if not r.setup else [])),
                   'TaggedFields': TAGS.gen(rng, 0) if hk is HDR2 else None}
            arg = dict(val)
            for k, x in hdr.items():
                arg[pre + k] = x
            yield Case([{'fn': '(*%s).Encode' % r.name, 'args': [arg, v]}], oracle(r, v, spec, hk, hdr, val, parts))
    return cases


def oracle(r, v, spec, hk, hdr, val, parts):
    from replay import unb64

    def check(a):
        if 'panic' in a:
            return '%s.Encode(%d) panics: %s' % (r.name, v, a['panic'])
        b = unb64(a['res'][0]['r'][0])
        try:
            if 'frame' in parts:
                I32.eat(len(b) - 4, b, 0, 'frame length')
            i = hk.eat(hdr, b, 4, 'header')
            if 'body' in parts:
                i = spec.eat(val, b, i, r.name)
                if i != len(b):
                    return '%s v%d: %d bytes after the documented body' % (r.name, v, len(b) - i)
        except Bad as e:
            return '%s v%d: %s' % (r.name, v, e)
    return check


def jobs_for(props, parts, P):
    from runner import Job
    out = []
    for r in REQ.values():
        if r.prop in props:
            for v in r.versions:
                fn = '(*%s).Encode' % r.name
                out.append(Job('%s.Encode v%d' % (r.name, v), encode_job(r, v, parts), cases=req_cases(r, v, parts), fns=[fn]))
    return out
