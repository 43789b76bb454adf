"""Contracts of the response decoders: for every well-formed response of api/version, Parse yields the fields the broker sent."""
from wire import *
import prims
from terms import *
from values import *
from machine import State, vsame
import solver
from solver import prove
from loops import conjuncts

RESP = {}
PARSE = '(defaultReadParser).Parse'


class Resp:
    def __init__(self, name, api, versions, body, prop, corr):
        self.name, self.api, self.versions, self.body, self.prop, self.corr = name, api, versions, body, prop, corr
        RESP[name] = self


def response(name, api, versions, prop, corr='CorrelationID'):
    def deco(f):
        Resp(name, api, versions, f, prop, corr)
        return f
    return deco


def S(*f):
    return Struct(*f)


class Code(Int):
    """an error code"""
    def gen(self, r, d):
        return r.choice([0, 0, 0, 0, 1, 3, 16, 25, 27, -1, 118, 119, r.randint(-32768, 32767)])


EC = Code(2)
EU = Code(2, False)
EU.gen = lambda r, d: r.choice([0, 0, 0, 0, 1, 15, 25, 118, 65535])


class Perm(Array):
    """an array whose elements the decoder returns sorted by key"""
    def __init__(self, lk, elem, key):
        Array.__init__(self, lk, elem)
        self.key = key

    def genwire(self, r, d):
        v = Array.genwire(self, r, d)
        seen, out = set(), []
        for x in v:
            if x[self.key] not in seen:
                seen.add(x[self.key])
                out.append(x)
        return out

    def wire(self, c, path, args):
        s, e = Array.wire(self, c, path, args)
        e.perm = True
        return s, e

    def agree(self, v, got, where='result'):
        Array.agree(self, sorted(v or [], key=lambda x: x[self.key]), got, where)


class Map(K):
    """an array of (key, value) with distinct keys, decoded to a map"""
    def __init__(self, lk, key, val):
        self.lk, self.key, self.val = lk, key, val

    def wire(self, c, path, args):
        n = app(path + '#n', args, 0, 2**31 - 2)
        k = fresh('e', 0)
        (ka, _), = k.m
        s1, e1 = self.key.wire(c, path + '.key', args + (k,))
        s2, e2 = self.val.wire(c, path + '.val', args + (k,))
        return sq(lenbytes(self.lk, n), rep(sq(s1, s2), ka, I(0), n)), EMap(n, k, e1, e2)

    def py(self, v):
        return pylen(self.lk, len(v)) + b''.join(self.key.py(k) + self.val.py(x) for k, x in v)

    def genwire(self, r, d):
        out = {}
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            out[self.key.genwire(r, d)] = self.val.genwire(r, d + 1)
        return list(out.items())

    def agree(self, v, got, where='result'):
        from replay import unb64
        g = {unb64(k): x for k, x in got or []}
        if set(g) != {k for k, _ in v}:
            raise Bad('%s: keys %r instead of %r' % (where, sorted(g), sorted(k for k, _ in v)))
        for k, x in v:
            self.val.agree(x, g[k], '%s[%r]' % (where, k))


class Sized(K):
    """a structure inside a byte array; the array may be empty (decoded to nil)"""
    def __init__(self, kind):
        self.kind = kind

    def wire(self, c, path, args):
        s, e = self.kind.wire(c, path, args)
        e.raw = s
        return sq(be(4, s.len), s), e

    def py(self, v):
        b = b'' if v is None else self.kind.py(v)
        return len(b).to_bytes(4, 'big') + b

    def genwire(self, r, d):
        return None if r.random() < 0.3 else self.kind.genwire(r, d)

    def agree(self, v, got, where='result'):
        if (v is None) != (got is None):
            raise Bad('%s: %s' % (where, 'nil' if got is None else 'a value for an empty array'))
        if v is not None:
            self.kind.agree(v, got, where)


ASSIGNMENT = Struct(('Version', I16), ('PartitionAssignments', ARR(('Topic', STR), ('Partitions', ARR(I32)))), ('UserData', ZBYTES))


# ---------------------------------------------------------------- data path, groups
@response('APIVersionsResponse', 18, [0], 'C04')
def _(v):
    return S(('ErrorCode', EC), ('APIVersions', ARR(('apiKey', U16), ('minVersion', U16), ('maxVersion', U16))))


@response('HeartbeatResponse', 12, [0], 'C04')
def _(v):
    return S(('ErrorCode', EC))


@response('LeaveGroupResponse', 13, [0], 'C04')
def _(v):
    return S(('ErrorCode', EC))


@response('FindCoordinatorResponse', 10, [0], 'C04')
def _(v):
    return S(('ErrorCode', EC), ('Coordinator.NodeID', I32), ('Coordinator.Host', STR), ('Coordinator.Port', I32))


@response('JoinGroupResponse', 11, [0], 'C04')
def _(v):
    return S(('ErrorCode', EC), ('GenerationID', I32), ('GroupProtocol', STR), ('LeaderID', STR), ('MemberID', STR),
             ('Members', ARR(('MemberID', STR), ('MemberMetadata', BYTES))))


@response('SyncGroupResponse', 14, [0], 'C04')
def _(v):
    return S(('ErrorCode', EC), ('MemberAssignment', BYTES))


@response('OffsetCommitResponse', 8, [0, 2], 'C04')
def _(v):
    return S(('Topics', ARR(('Topic', STR), ('Partitions', ARR(('PartitionID', U32), ('ErrorCode', EC))))))


@response('OffsetFetchResponse', 9, [0, 1], 'C04')
def _(v):
    return S(('Topics', ARR(('Topic', STR), ('Partitions', ARR(('PartitionID', I32), ('Offset', I64), ('Metadata', ZSTR), ('ErrorCode', EC))))))


@response('OffsetsResponse', 2, [0, 1], 'C04')
def _(v):
    p = [('Partition', I32), ('ErrorCode', EC)]
    p += [('OldStyleOffsets', ARR(I64))] if v == 0 else [('Timestamp', I64), ('Offset', I64)]
    return S(('TopicPartitionOffsets', Map('i32', STR, ARR(*p))))


@response('MetadataResponse', 3, [1, 4, 7], 'C04')
def _(v):
    f = []
    if v >= 3:
        f.append(('ThrottleTimeMs', I32))
    f.append(('Brokers', ARR(('NodeID', I32), ('Host', STR), ('Port', I32), ('Rack', ZSTR))))
    if v >= 2:
        f.append(('ClusterID', ZSTR))
    f.append(('ControllerID', I32))
    p = [('PartitionErrorCode', EC), ('PartitionID', I32), ('Leader', I32)]
    if v >= 7:
        p.append(('LeaderEpoch', I32))
    p += [('Replicas', ARR(I32)), ('Isr', ARR(I32))]
    if v >= 5:
        p.append(('OfflineReplicas', ARR(I32)))
    f.append(('TopicMetadatas', Perm('i32', S(('TopicErrorCode', EC), ('TopicName', STR), ('IsInternal', BOOL),
                                              ('PartitionMetadatas', Perm('i32', S(*p), 'PartitionID'))), 'TopicName')))
    return S(*f)


@response('ListGroupsResponse', 16, [0, 1, 2, 3, 4, 5], 'C04', 'ResponseHeader.CorrelationID')
def _(v):
    s, a = (STR, ARR) if v < 3 else (CSTR, CARR)
    g = [('GroupID', s), ('ProtocolType', s)]
    if v >= 4:
        g.append(('GroupState', s))
    if v >= 5:
        g.append(('GroupType', s))
    if v >= 3:
        g.append(('?tags', TAGS))
    f = [('ThrottleTimeMS', I32)] if v >= 1 else []
    f += [('ErrorCode', EU), ('Groups', a(*g))]
    if v >= 3:
        f.append(('?tags', TAGS))
    return S(*f)


@response('DescribeGroupsResponse', 15, [0], 'C04')
def _(v):
    return S(('Groups', ARR(('ErrorCode', EC), ('GroupID', STR), ('State', STR), ('ProtocolType', STR), ('Protocol', STR),
                            ('Members', ARR(('MemberID', STR), ('ClientID', STR), ('ClientHost', STR), ('MemberMetadata', BYTES),
                                            ('MemberAssignment', Sized(ASSIGNMENT)))))))


@response('SaslHandshakeResponse', 17, [0, 1], 'C04')
def _(v):
    return S(('ErrorCode', EC), ('EnabledMechanisms', ARR(STR)))


@response('SaslAuthenticateResponse', 36, [0], 'C04')
def _(v):
    return S(('ErrorCode', EC), ('ErrorMessage', ZSTR), ('SaslAuthBytes', BYTES))


@response('ProduceResponse', 0, [0, 9], 'C04', 'ResponseHeader.CorrelationID')
def _(v):
    if v < 9:
        return S(('ProduceResponses', ARR(('Topic', STR), ('Partitions', ARR(('PartitionID', I32), ('ErrorCode', EC), ('BaseOffset', I64))))))
    p = [('PartitionID', I32), ('ErrorCode', EC), ('BaseOffset', I64), ('LogAppendTimeMs', I64), ('LogStartOffset', I64),
         ('RecordErrors', CARR(('BatchIndex', I32), ('BatchIndexErrorMessage', CNSTR), ('TaggedField', TAGS))), ('ErrorMessage', CNSTR), ('TaggedField', TAGS)]
    return S(('ProduceResponses', CARR(('Topic', CSTR), ('Partitions', CARR(*p)), ('TaggedField', TAGS))), ('ThrottleTimeMs', I32), ('TaggedField', TAGS))


# ---------------------------------------------------------------- administration
@response('CreateTopicsResponse', 19, [0], 'C05')
def _(v):
    return S(('TopicErrors', ARR(('Topic', STR), ('ErrorCode', EC))))


@response('DeleteTopicsResponse', 20, [0], 'C05')
def _(v):
    return S(('Results', ARR(('TopicName', STR), ('ErrorCode', EC))))


@response('DeleteGroupsResponse', 42, [0], 'C05')
def _(v):
    return S(('ThrottleTimeMs', I32), ('Results', ARR(('GroupID', STR), ('ErrorCode', EC))))


@response('DescribeConfigsResponse', 32, [0], 'C05')
def _(v):
    return S(('ThrottleTimeMS', U32), ('Resources', ARR(('ErrorCode', EC), ('ErrorMessage', ZSTR), ('ResourceType', U8), ('ResourceName', STR),
             ('ConfigEntries', ARR(('ConfigName', STR), ('ConfigValue', ZSTR), ('ReadOnly', BOOL), ('IsDefault', BOOL), ('IsSensitive', BOOL))))))


@response('AlterConfigsResponse', 33, [0], 'C05')
def _(v):
    return S(('ThrottleTimeMS', U32), ('Resources', ARR(('ErrorCode', EC), ('ErrorMessage', ZSTR), ('ResourceType', U8), ('ResourceName', STR))))


@response('IncrementalAlterConfigsResponse', 44, [0], 'C05')
def _(v):
    return S(('ThrottleTimeMs', U32), ('Resources', ARR(('ErrorCode', EC), ('ErrorMessage', ZSTR), ('ResourceType', U8), ('ResourceName', STR))))


@response('ElectLeadersResponse', 43, [0], 'C05')
def _(v):
    return S(('ThrottleTimeMS', I32), ('ReplicaElectionResults', ARR(('Topic', STR), ('PartitionResults', ARR(
        ('PartitionID', I32), ('ErrorCode', EC), ('ErrorMessage', ZSTR))))))


@response('DescribeLogDirsResponse', 35, [0], 'C05', 'CoordinatorID')
def _(v):
    return S(('ThrottleTimeMS', I32), ('Results', ARR(('ErrorCode', EC), ('LogDir', STR), ('Topics', ARR(('TopicName', STR), ('Partitions', ARR(
        ('PartitionID', I32), ('Size', I64), ('OffsetLag', I64), ('IsFutureKey', BOOL))))))))


@response('CreatePartitionsResponse', 37, [0, 2], 'C05')
def _(v):
    if v < 2:
        return S(('ThrottleTimeMS', I32), ('Results', ARR(('TopicName', STR), ('ErrorCode', EC), ('ErrorMessage', NSTR))))
    return S(('ThrottleTimeMS', I32), ('Results', CARR(('TopicName', CSTR), ('ErrorCode', EC), ('ErrorMessage', CNSTR), ('?tags', TAGS))), ('?tags', TAGS))


@response('AlterPartitionReassignmentsResponse', 45, [0], 'C05', 'ResponseHeader.CorrelationID')
def _(v):
    return S(('ThrottleTimeMs', I32), ('ErrorCode', EC), ('ErrorMsg', CNSTR), ('Responses', CARR(('Name', CSTR), ('Partitions', CARR(
        ('PartitionID', I32), ('ErrorCode', EC), ('ErrorMsg', CNSTR), ('TaggedFields', TAGS))), ('TaggedFields', TAGS))), ('TaggedFields', TAGS))


@response('ListPartitionReassignmentsResponse', 46, [0], 'C05')
def _(v):
    return S(('ThrottleTimeMS', I32), ('ErrorCode', EC), ('ErrorMessage', CNSTR), ('Topics', CARR(('Name', CSTR), ('Partitions', CARR(
        ('Pid', I32), ('Replicas', CARR(I32)), ('AddingReplicas', CARR(I32)), ('RemovingReplicas', CARR(I32)), ('?tags', TAGS))), ('?tags', TAGS))), ('?tags', TAGS))


@response('DescribeAclsResponse', 29, [0, 1, 2], 'C05')
def _(v):
    s, ns, a = (STR, NSTR, ARR) if v < 2 else (CSTR, CNSTR, CARR)
    t = [('TaggedFields', TAGS)] if v >= 2 else []
    acl = [('Principal', s), ('Host', s), ('Operation', I8), ('PermissionType', I8)] + t
    r = [('ResourceType', I8), ('ResourceName', s)] + ([('PatternType', I8)] if v >= 1 else []) + [('Acls', a(*acl))] + t
    return S(('ThrottleTimeMs', I32), ('ErrorCode', EC), ('ErrorMessage', ns), ('Resources', a(*r)), *t)


@response('CreateAclsResponse', 30, [0, 1, 2, 3], 'C05', 'ResponseHeader.CorrelationID')
def _(v):
    ns, a = (NSTR, ARR) if v < 2 else (CNSTR, CARR)
    t = [('TaggedFields', TAGS)] if v >= 2 else []
    return S(('ThrottleTimeMs', I32), ('Results', a(('ErrorCode', EU), ('ErrorMessage', ns), *t)), *t)


@response('DeleteAclsResponse', 31, [0, 1, 2, 3], 'C05', 'ResponseHeader.CorrelationID')
def _(v):
    s, ns, a = (STR, NSTR, ARR) if v < 2 else (CSTR, CNSTR, CARR)
    t = [('TaggedFields', TAGS)] if v >= 2 else []
    acl = [('ErrorCode', EC), ('ErrorMessage', ns), ('ResourceType', I8), ('ResourceName', s)] + ([('PatternType', I8)] if v >= 1 else []) + \
        [('Principal', s), ('Host', s), ('Operation', I8), ('PermissionType', I8)] + t
    return S(('ThrottleTimeMs', I32), ('FilterResults', a(('ErrorCode', EC), ('ErrorMessage', ns), ('MatchingAcls', a(*acl)), *t)), *t)


# ---------------------------------------------------------------- the contract
def resp_flex(api, v):
    return api != 18 and is_flex(api, v)      # an ApiVersions response always has a v0 header


def layout(r, v):
    f = [(r.corr, U32)]
    if resp_flex(r.api, v):
        f.append(('?htags', TAGS))
    return Struct(*f, *r.body(v).fields)


class Sorting:
    """sort.Slice (assumed: the list holds the same elements, ordered by less).  A list is kept in the order of the wire; what is checked is that the whole list
    is sorted, by its key, and the lists of its elements too"""
    def __init__(self, c):
        from havoc import Each
        m = self.m = c.m
        self.c = c
        m.contracts['sort.Slice'] = m.contracts['sort.SliceStable'] = self.sort
        self.E = Each(m, None, loose=True, check=lambda s, x, evs: c.cases(s, lambda s2: self.inner(s2, x, evs)),
                      want=lambda m, fr, st0, h, b: any(i.get('call', {}).get('static') in ('sort.Slice', 'sort.SliceStable') for bl in b for i in m.p.funcs[fr.fn]['blocks'][bl]['instrs']))
        self.inners = {}

    def sort(self, m, fr, st, a, ins):
        v, f = m.force(st, a[0]), m.force(st, a[1])
        l = m.force(st, v.v)
        i, j = app('any:i', (), 0, 2**31), app('any:j', (), 0, 2**31)
        s2 = st.copy()
        s2.assume(and_(lt(i, l.len), lt(j, l.len)))
        res = m.call_named(fr, s2, f.fn, [i, j], f.binds, ins) if solver.sat(s2.pc) else []
        if len(res) > 1:
            raise Unsupported('a comparison with branches')
        st.ev.append(('sorted', l, m.content(st, l), m.force(res[0][0], res[0][1][0]) if res else None))
        return ()

    def by_key(self, s, ev, key):
        _, l, cont, less = ev
        if less is None:
            return
        m = self.m
        i, j = app('any:i', (), 0, 2**31), app('any:j', (), 0, 2**31)
        s = s.copy()
        s.assume(and_(lt(i, l.len), lt(j, l.len)))
        x, y = (m.force(s, getf(m, s, arr_get(cont, k, s.pc, m.zero), key)) for k in (i, j))
        w, u = (lt(x, y), lt(y, x)) if isinstance(x, Lin) else (bapp('strlt', (x, y)), bapp('strlt', (y, x)))
        hyp = list(s.pc) + [or_(w, u), or_(not_(w), not_(u))]      # keys are distinct
        need(hyp, and_(or_(not_(w), less), or_(not_(less), w)), 'the list is not sorted by %s' % key)

    def inner(self, s, x, evs):
        out = [e for e in s.ev[:len(s.ev) - len(evs)] if e[0] == 'sorted']
        if len(out) != 1:
            raise Unsupported('lists are sorted in another order')
        el = arr_get(out[0][2], x, s.pc, self.m.zero)
        sorts = [e for e in evs if e[0] == 'sorted']
        hit = {}
        el = self.m.force(s, el)
        for f in self.m.p.fields(el.t):
            v = self.m.force(s, getf(self.m, s, el, f['n']))
            if isinstance(v, SliceV):
                mine = [e for e in sorts if vsame(e[2], self.m.content(s, v))]
                if len(mine) == 1:
                    hit[f['n']] = mine[0]
        for n, k in self.keys.items():
            if n not in hit:
                raise Mismatch('the %s of an element are not sorted' % n, s.pc)
            self.by_key(s, hit[n], k)
        self.inners[repr(out[0][2])] = x

    def check(self, s, kind, got, name):
        m = self.m
        for n, k in kind.fields:
            if not isinstance(k, Perm):
                continue
            l = m.force(s, getf(m, s, got, n))
            evs = [e for e in s.ev if e[0] == 'sorted' and vsame(e[2], m.content(s, l))]
            if len(evs) != 1:
                raise Mismatch('%s is not sorted' % n, s.pc)
            self.by_key(s, evs[0], k.key)
            if self.keys:
                xs = [e[1] for e in s.ev if e[0] == 'loop']
                if len(xs) != 1 or repr(evs[0][2]) not in self.inners and not prove(s.pc, eq(l.len, I(0))):
                    raise Mismatch('the lists of the elements of %s are not sorted' % n, s.pc)
                need(s.pc, le(l.len, xs[0]), 'not all the lists of the elements of %s are sorted' % n)


def perms(k):
    return {n: x for n, x in k.fields if isinstance(x, Perm)} if isinstance(k, Struct) else {}


NMA = 'NewMemberAssignment'


def nma_contract(m):
    """NewMemberAssignment on the bytes of an assignment: its value, no error (the contract `NewMemberAssignment` is discharged in the same run)"""
    if NMA not in prims.VERIFIED:
        return
    t, et = (x['t'] for x in m.p.funcs[NMA]['results'])

    def h(m, fr, st, a, ins):
        cont = m.content(st, m.force(st, a[0]))
        return (PtrV(FALSE, (Box(Ghost(m.p.u(t)['e'], 'decoded by ' + NMA, (cont,))), ())), IfaceV(TRUE, None, None))
    m.contracts[NMA] = h


def parse_job(r, v):
    """requires payload == be4(|rest|) ++ layout(value); ensures Parse(payload) == value, and a non-nil error only together with an error code"""
    def body(c):
        m = c.m
        prims.install(m, prims.VERIFIED)
        st = State()
        lay = layout(r, v)
        s, e = lay.wire(c, '%s.v%d' % (r.name, v), ())
        pl = m.new_bytes(st, sq(be(4, s.len), s))
        st.assume(le(s.len, I(2**31 - 5)))
        nma_contract(m)
        so = None
        for q in perms(r.body(v)).values():
            so = Sorting(c)
            so.keys = {n: x.key for n, x in perms(q.elem).items()}
        t = m.p.byname['defaultReadParser']
        p = m.zero(t)
        f = list(p.f)
        f[m.p.field_index(t, 'api')], f[m.p.field_index(t, 'version')] = I(r.api), I(v)
        p = StructV(t, f)
        n = 0
        for s1, (res, err) in m.call_fn(PARSE, [p, pl], st):
            n += 1

            def chk(s2):
                got = m.force(s2, res)
                if isinstance(got, IfaceV):
                    need(s2.pc, not_(got.nil), 'no value is returned')
                    got = got.v
                match(m, s2, e, got, r.name)
                if so:
                    so.check(s2, r.body(v), got, r.name)
                er = m.force(s2, err)
                if isinstance(er, IfaceV) and er.nil is not TRUE:
                    z = no_code(lay, e)
                    for g in conjuncts(er.nil):
                        need(list(s2.pc) + [z], g, 'an error is returned for a well-formed response without error codes')
            c.post('ensures: %s v%d is decoded to what the broker sent' % (r.name, v), s1, chk, PARSE)
        return n
    return body


def no_code(k, e):
    """all the error codes of a value are 0"""
    if isinstance(k, Code):
        return eq(e.v, I(0)) if isinstance(e, EInt) else TRUE
    if isinstance(k, Struct):
        return and_(*[no_code(x, e.f[n.lstrip('?')]) for n, x in k.fields if n and n.lstrip('?') in e.f])
    if isinstance(k, (Array, Map)) and has_codes(k):
        (a, _), = e.var.m
        return all_(no_code(k.elem if isinstance(k, Array) else k.val, e.elem if isinstance(k, Array) else e.val), a, I(0), e.n)
    return TRUE


def has_codes(k):
    if isinstance(k, Code):
        return True
    if isinstance(k, Struct):
        return any(has_codes(x) for _, x in k.fields)
    if isinstance(k, Array):
        return has_codes(k.elem)
    if isinstance(k, Map):
        return has_codes(k.val)
    return False


def codes_of(k, v):
    """error codes in a concrete value"""
    if isinstance(k, Code):
        return [v]
    if isinstance(k, Struct):
        return [c for i, (n, x) in enumerate(k.fields) for c in codes_of(x, v.get((n or '_%d' % i).lstrip('?')))]
    if isinstance(k, Array):
        return [c for x in v or [] for c in codes_of(k.elem, x)]
    if isinstance(k, Map):
        return [c for _, x in v for c in codes_of(k.val, x)]
    return []


def i16(c):
    return c - 65536 if c > 32767 else c


def frame(b):
    return len(b).to_bytes(4, 'big') + b


def parse_cases(r, v):
    from runner import Case
    k = layout(r, v)

    def cases(rng, n):
        for _ in range(n):
            val = k.genwire(rng, 0)

            def check(a, val=val):
                if 'panic' in a:
                    return 'Parse(%s v%d) panics: %s' % (r.name, v, a['panic'])
                got, err = a['res'][0]['r']
                cs = [i16(c) for c in codes_of(k, val) if c]
                if err is not None and (not cs or err.get('kafka', cs[0]) not in cs):
                    return '%s v%d: error %r with error codes %r' % (r.name, v, err, cs)
                if got is None:
                    return '%s v%d: no value' % (r.name, v)
                try:
                    k.agree(val, got['value'], r.name)
                except Bad as e:
                    return '%s v%d: %s' % (r.name, v, e)
            yield Case([{'fn': PARSE, 'args': [{'api': r.api, 'version': v}, frame(k.py(val))]}], check)
    return cases


def jobs_for(prop):
    from runner import Job
    out = []
    if prop == 'C04':
        import assign_
        out += assign_.decoders()
    for r in RESP.values():
        if r.prop == prop:
            for v in r.versions:
                out.append(Job('Parse %s v%d' % (r.name, v), parse_job(r, v), cases=parse_cases(r, v), fns=[PARSE]))
    return out
