"""Contracts of the constructors and builders of requests (C02, C03): what the caller supplied is what the request holds,
every entry in order, nothing lost, added or moved."""
import json
import base64
import requests_ as R
from wire import Bad, I32
from requests_ import HDR1, HDR2, is_flex


# ---------------------------------------------------------------- concrete inputs: built by the real code, encoded, compared with a model
def text(rng, few=False):
    return rng.choice(['', 'a', 'ab', 't1', 't2', 'topic-%d' % rng.randint(0, 3)]) if few or rng.random() < 0.8 else 'x' * rng.randint(1, 400)


def num(rng, bits=31):
    return rng.choice([0, 1, 2, 3, 2**bits - 1, rng.randint(0, 2**bits - 1)])


def ids(rng):
    return [num(rng) for _ in range(rng.choice([0, 1, 2, 3, 5]))]


def find(l, k, key):
    for x in l:
        if x[k] == key:
            return x


def by(s):
    return s.encode()


def configs(name, ents, keys):
    def gen(rng, n):
        a = {'s': [text(rng)], 'b': rng.random() < 0.5}
        val = {'validateOnly' if name == 'AlterConfigsRequest' else 'ValidateOnly': a['b'], 'Resources': []}
        ops, errs = [], []
        for _ in range(n):
            t, rn, cn, cv = rng.choice([2, 4, 255]), rng.choice(['', 'a', 'b']), rng.choice(['', 'k1', 'k2', 'k3']), rng.choice(['', 'v1', 'v2'])
            ops.append({'n': [t], 's': [rn, cn, cv]})
            r = next((x for x in val['Resources'] if (x['ResourceType'], x['ResourceName']) == (t, by(rn))), None)
            if r is None:
                r = {'ResourceType': t, 'ResourceName': by(rn), ents: []}
                val['Resources'].append(r)
            e = find(r[ents], keys[0], by(cn))
            errs.append(e is not None and e[keys[-1]] != by(cv))
            if e is None:
                r[ents].append(dict(zip(keys, [by(cn), by(cv)] if len(keys) == 2 else [by(cn), 0, by(cv)])))
        return a, ops, val, errs
    return gen


def reassign(rng, n):
    a = {'n': [num(rng)], 's': []}
    ts, ops = [], []
    for _ in range(n):
        t, p, l = text(rng, True), num(rng), ids(rng)
        ops.append({'s': [t], 'n': [p], 'l': l})
        e = find(ts, 'TopicName', by(t))
        if e is None:
            e = {'TopicName': by(t), 'Partitions': [], 'TaggedFields': []}
            ts.append(e)
        e['Partitions'].append({'PartitionID': p, 'Replicas': l, 'TaggedFields': []})
    return a, ops, {'TimeoutMs': a['n'][0], 'Topics': ts, 'TaggedFields': []}, None


def create_topics(rng, n):
    a = {'s': [text(rng)], 'n': [num(rng, 32)]}
    ts, ops, errs = [], [], []
    for _ in range(n):
        t = text(rng, True)
        e = find(ts, 'Topic', by(t))
        if rng.random() < 0.5:
            p, f = num(rng), num(rng, 15)
            ops.append({'s': [t], 'n': [p, f]})
            errs.append(e is not None)
            if e is None:
                ts.append({'Topic': by(t), 'NumPartitions': p, 'ReplicationFactor': f, 'ReplicaAssignments': [], 'ConfigEntries': []})
        else:
            p, l = rng.choice([0, 1, 2, 2**31 - 1]), ids(rng)
            ops.append({'s': [t], 'n': [p], 'l': l})
            errs.append(e is None)
            if e is not None:
                o = find(e['ReplicaAssignments'], 'Partition', p)
                if o is None:
                    e['ReplicaAssignments'].append({'Partition': p, 'Replicas': l})
                else:
                    o['Replicas'] = l
    return a, ops, {'CreateTopicRequests': ts, 'Timeout': a['n'][0]}, errs


def create_partitions(rng, n):
    a = {'s': [text(rng)], 'n': [num(rng)], 'b': rng.random() < 0.5}
    ts, ops = [], []
    for _ in range(n):
        t, c = text(rng, True), num(rng)
        m = rng.choice([None, [], [ids(rng) for _ in range(rng.choice([1, 2, 3]))]])
        ops.append({'s': [t], 'n': [c], 'm': m})
        ts.append({'Name': by(t), 'Count': c, 'Assignments': None if m is None else [{'BrokerIDs': l, 'TaggedFields': []} for l in m], 'TaggedFields': []})
    return a, ops, {'Topics': ts, 'TimeoutMS': a['n'][0], 'ValidateOnly': a['b'], 'TaggedFields': []}, None


def per_topic(key, dedupe, start=False, cid=True, timeout=True, null=False):
    def gen(rng, n):
        a = {'s': [text(rng)] if cid else [], 'n': [num(rng)] if timeout else []}
        ts, ops = [], []
        if start:
            a['l'] = [t for t in ['', 'a', 't1', 'zz'] if rng.random() < 0.4]
            ts = [{key: by(t), 'Partitions': [], 'TaggedFields': []} for t in a['l']]
        for _ in range(n):
            t, p = text(rng, True), rng.choice([0, 1, 2, num(rng)])
            ops.append({'s': [t], 'n': [p]})
            e = find(ts, key, by(t))
            if e is None:
                e = {key: by(t), 'Partitions': [], 'TaggedFields': []}
                ts.append(e)
            if not (dedupe and p in e['Partitions']):
                e['Partitions'].append(p)
        v = {'Topics': ts if ts or not null else None, 'TaggedFields': []}
        if timeout:
            v['TimeoutMS'] = a['n'][0]
        return a, ops, v, None
    return gen


def names(field, null=False, timeout=False, **more):
    def gen(rng, n):
        l = [text(rng) for _ in range(n)]
        if null and rng.random() < 0.2:
            l = None
        a = {'s': [text(rng)], 'l': l, 'n': [num(rng)]}
        v = {field: None if l is None else [by(x) for x in l]}
        v.update(more)
        if timeout:
            v['TimeoutMS'] = a['n'][0]
        return a, [], v, None
    return gen


def filters(rng, n):
    l = rng.choice([None, [text(rng) for _ in range(n)]])
    f = [by(x) for x in l or []]
    return {'s': [text(rng)], 'l': l}, [], {'StatesFilter': f, 'TypesFilter': f, 'TaggedFields': []}, None


def fields(*fs):
    """plain constructors: ('s', i) or ('n', i) per field"""
    def gen(rng, n):
        a = {'s': [text(rng) for _ in range(4)], 'n': [num(rng) for _ in range(3)]}
        return a, [], {f: by(a[k][i]) if k == 's' else a[k][i] for f, k, i in fs}, None
    return gen


def plain(rng, n):
    a = {'s': [text(rng), text(rng), text(rng), rng.choice(['plain', 'PLAIN', 'Plain'])]}
    return a, [], {'SaslAuthBytes': b'\0' + by(a['s'][1]) + b'\0' + by(a['s'][2])}, None


def sync(rng, n):
    a = {'s': [text(rng) for _ in range(3)], 'n': [num(rng)]}
    ops = [{'s': [text(rng), text(rng)]} for _ in range(n)]
    return a, ops, {'GroupID': by(a['s'][1]), 'GenerationID': a['n'][0], 'MemberID': by(a['s'][2]), 'GroupAssignment': [{'MemberID': by(o['s'][0]), 'MemberAssignment': by(o['s'][1])} for o in ops]}, None


def commit(rng, n):
    a = {'s': [text(rng) for _ in range(2)]}
    ts, ops = [], []
    for _ in range(n):
        t, p, o, md = text(rng, True), rng.choice([0, 1, num(rng)]), num(rng, 63), text(rng)
        ops.append({'s': [t, md], 'n': [p, o]})
        e = find(ts, 'Topic', by(t))
        if e is None:
            e = {'Topic': by(t), 'Partitions': []}
            ts.append(e)
        q = find(e['Partitions'], 'PartitionID', p)
        if q is None:
            q = {'PartitionID': p}
            e['Partitions'].append(q)
        q.update(Offset=o, Metadata=by(md))
    return a, ops, {'GroupID': by(a['s'][1]), 'Topics': ts, 'GenerationID': 0, 'MemberID': b'', 'RetentionTime': 0}, None


def offset_fetch(rng, n):
    a, ops, v, _ = per_topic('Topic', True)(rng, n)
    a['s'].append(text(rng))
    return a, ops, {'GroupID': by(a['s'][1]), 'Topics': v['Topics']}, None


def join(rng, n):
    ops = [{'s': [text(rng), text(rng)]} for _ in range(n)]
    return {'s': [text(rng)]}, ops, {'GroupID': b'', 'SessionTimeout': 0, 'MemberID': b'', 'ProtocolType': b'', 'GroupProtocols': [{'ProtocolName': by(o['s'][0]), 'ProtocolMetadata': by(o['s'][1])} for o in ops]}, None


def fetch(rng, n):
    a = {'s': [text(rng)], 'n': [num(rng), num(rng)]}
    ts, ops, total = {}, [], 0
    for _ in range(n):
        t, p, o, mb, ep = text(rng, True), num(rng), num(rng, 63), rng.choice([1, 1000, 1 << 20]), num(rng)
        ops.append({'s': [t], 'n': [p, o, mb, ep]})
        ts.setdefault(by(t), []).append({'Partition': p, 'CurrentLeaderEpoch': ep, 'FetchOffset': o, 'LogStartOffset': 0, 'MaxBytes': mb})
        total += mb
    return a, ops, {'ReplicaID': -1, 'MaxWaitTime': a['n'][0], 'MinBytes': a['n'][1], 'MaxBytes': total, 'ISOLationLevel': 0, 'SessionID': 0, 'SessionEpoch': 0, 'Topics': list(ts.items()), 'ForgottenTopicsDatas': []}, None


def offsets(rng, n):
    a = {'s': [text(rng), text(rng)], 'n': [num(rng, 63), num(rng)]}
    ps = []
    for _ in range(n):
        p = num(rng)
        if p not in ps:
            ps.append(p)
    return a, [{'n': [p]} for p in ps], {'ReplicaId': -1, 'RequestInfo': [(by(a['s'][1]), [(p, {'Time': a['n'][0], 'MaxNumberOfOffsets': a['n'][1]}) for p in ps])]}, None


def describe_configs(rng, n):
    ops = [{'n': [num(rng, 8)], 's': [text(rng) for _ in range(rng.choice([2, 3, 5]))]} for _ in range(n)]
    return {'s': [text(rng)]}, ops, {'Resources': [{'ResourceType': o['n'][0], 'ResourceName': by(o['s'][0]), 'ConfigNames': [by(x) for x in o['s'][1:]]} for o in ops]}, None


def delete_acls(rng, n):
    ops = [{'n': [num(rng, 7) for _ in range(4)], 's': [text(rng) for _ in range(3)]} for _ in range(n)]
    return {'s': [text(rng)]}, ops, {'TaggedFields': [], 'Filters': [{'ResourceType': o['n'][0], 'ResourceName': by(o['s'][0]), 'PatternType': o['n'][1], 'Principal': by(o['s'][1]), 'Host': by(o['s'][2]), 'Operation': o['n'][2], 'PermissionType': o['n'][3], 'TaggedFields': []} for o in ops]}, None


BUILD = {
    'OffsetsRequest': offsets, 'APIVersionsRequest': fields(), 'DescribeConfigsRequest': describe_configs, 'DeleteAclsRequest': delete_acls,
    'AlterConfigsRequest': configs('AlterConfigsRequest', 'ConfigEntries', ['ConfigName', 'ConfigValue']),
    'IncrementalAlterConfigsRequest': configs('IncrementalAlterConfigsRequest', 'Entries', ['Name', 'Operation', 'Value']),
    'AlterPartitionReassignmentsRequest': reassign, 'CreateTopicsRequest': create_topics, 'CreatePartitionsRequest': create_partitions,
    'DescribeLogDirsRequest': per_topic('TopicName', True, start=True, timeout=False), 'ElectLeadersRequest': per_topic('Topic', False, cid=False),
    'ListPartitionReassignmentsRequest': per_topic('Name', True, null=True), 'DeleteTopicsRequest': names('TopicsNames', timeout=True), 'DeleteGroupsRequest': names('GroupsNames'),
    'DescribeGroupsRequest': names('Groups'), 'MetadataRequest': names('Topics', null=True, AllowAutoTopicCreation=True), 'ListGroupsRequest': filters,
    'FindCoordinatorRequest': fields(('GroupID', 's', 1)), 'SaslHandShakeRequest': fields(('Mechanism', 's', 1)), 'SaslAuthenticateRequest': plain,
    'HeartbeatRequest': fields(('GroupID', 's', 1), ('GenerationID', 'n', 0), ('MemberID', 's', 2)), 'LeaveGroupRequest': fields(('GroupID', 's', 1), ('MemberID', 's', 2)),
    'SyncGroupRequest': sync, 'OffsetCommitRequest': commit, 'OffsetFetchRequest': offset_fetch, 'JoinGroupRequest': join, 'FetchRequest': fetch,
}
NOCID = {'AlterPartitionReassignmentsRequest', 'ElectLeadersRequest'}


def build_cases(name):
    from runner import Case
    from replay import unb64
    r = R.REQ[name]

    def cases(rng, n):
        for _ in range(n):
            v = rng.choice(r.versions)
            a, ops, val, errs = BUILD[name](rng, rng.choice([0, 1, 1, 2, 3, 5, 8]))
            spec = r.body(v)
            hk = HDR2 if is_flex(r.api, v) else HDR1
            hdr = {'APIKey': r.api, 'APIVersion': v, 'CorrelationID': 7, 'ClientID': None if name in NOCID else by(a['s'][0]), 'TaggedFields': []}

            def check(x, v=v, spec=spec, hk=hk, hdr=hdr, val=val, errs=errs, ops=ops):
                if 'panic' in x:
                    return '%s panics: %s' % (name, x['panic'])
                d = json.loads(unb64(x['res'][0]['r'][0]))
                if errs is not None and [bool(e) for e in d['errs']] != errs:
                    return '%s: errors of the additions are %r' % (name, d['errs'])
                b = base64.b64decode(d['b'])
                try:
                    I32.eat(len(b) - 4, b, 0, 'frame length')
                    i = spec.eat(val, b, hk.eat(hdr, b, 4, 'header'), name)
                    if i != len(b):
                        return '%s v%d: %d bytes too many' % (name, v, len(b) - i)
                except Bad as e:
                    return '%s v%d built by %d additions: %s' % (name, v, len(ops), e)
            yield Case([{'fn': 'vBuild', 'args': [json.dumps(dict(a, kind=name, ver=v, ops=ops)).encode()]}], check)
    return cases


BSCN = dict(extra=['builders'], xfns=['vBuild'])


# ---------------------------------------------------------------- contracts
from routing import *   # noqa
from settings import deref, elem, holds, veq
from terms import fresh
from machine import Unsupported, vsame


def live(m, path):
    """elements of a list of pointers that the function may change: one object per index (assumed: the list holds each object once)"""
    seen = {}

    def h(m, st, g):
        k = repr(g.args)
        inner = Ghost(m.p.u(g.t)['e'], g.path + '*', g.args)
        if k not in seen:
            seen[k] = m.alloc(st, inner)
        st.heap.setdefault(seen[k], inner)
        return PtrV(FALSE, (seen[k], ()))
    m.over[path] = h


def same(m, s, a, b, what):
    """a (now) is b (before)"""
    a, b = m.force(s, a), m.force(s, b)
    if vsame(a, b):
        return
    if isinstance(b, Lin):
        need(s.pc, eq(a, b), what)
    elif isinstance(b, Sq):
        seq_eq(a, b, s.pc)
    elif isinstance(b, SliceV):
        need(s.pc, eq(a.len, b.len), what + ': another number of entries')
        if same_slice(m, s, a, b):
            return
        j = app('any:' + what, (), 0, 2**40)
        s2 = s.copy()
        s2.assume(lt(j, b.len))
        if solver.sat(s2.pc):
            same(m, s2, elem_(m, s2, a, j), elem_(m, s2, b, j), what + '[]')
    elif isinstance(b, StructV):
        for f, v in zip(m.p.fields(b.t), b.f):
            same(m, s, getf(m, s, a, f['n']), v, what + '.' + f['n'])
    elif isinstance(b, PtrV):
        if not same_ptr(a, b):
            raise Mismatch(what + ': another object', s.pc)
    else:
        raise Unsupported('comparison of %r' % (b,))


def appended(m, s, now, old, what):
    """now = old followed by one entry, which is returned"""
    need(s.pc, eq(now.len, old.len + 1), what + ': not one more entry')
    j = app('any:' + what, (), 0, 2**40)
    s2 = s.copy()
    s2.assume(lt(j, old.len))
    if solver.sat(s2.pc):
        same(m, s2, elem_(m, s2, now, j), elem_(m, s2, old, j), what)
    return deref(m, s, elem_(m, s, now, old.len))


def entry_is(m, s, e, want, what):
    for f, w in want.items():
        g = m.force(s, e if f == '' else getf(m, s, e, f))
        if isinstance(w, int):
            need(s.pc, eq(g, I(w)), '%s.%s is %r' % (what, f, g))
        else:
            agree(m, s, g, w, '%s.%s' % (what, f))


class Builder:
    """Add(args): the entry goes to the list `sub` of the first element of `lst` whose key fields are the arguments; a new element is appended when there is none.
    subkey: field of an entry ('' = the entry) that identifies it; an entry that is already there is left (keep), overwritten (set) or refused if different (refuse)"""
    def __init__(self, fn, tname, lst, key, sub=None, entry=None, subkey=None, there=None, new=None, dup=None, missing=None, inner=False):
        self.__dict__.update(locals())

    def job(self, c):
        m = c.m
        B = self
        st = State()
        W.conc(m)
        import broker_ as BR
        BR.errors_model(m)
        r = recv_of(m, st, B.tname, 'r')
        ps = m.p.funcs[B.fn]['params'][1:]
        args = [m.force(st, Ghost(p['t'], 'a%d' % i)) for i, p in enumerate(ps)]
        A = lambda w: args[w[1]] if isinstance(w, tuple) else w
        ft = lambda t, n: next(f['t'] for f in m.p.fields(t) if f['n'] == n)
        et = m.p.u(ft(m.p.byname[B.tname], B.lst))['e']
        ptr = m.p.u(et)['k'] == 'ptr'
        if ptr:
            live(m, 'r.%s[]' % B.lst)
        if B.sub:
            st_ = m.p.u(ft(m.p.u(et)['e'] if ptr else et, B.sub))['e']
            if m.p.u(st_)['k'] == 'ptr':
                live(m, 'r.%s[]%s.%s[]' % (B.lst, '*' if ptr else '', B.sub))
        L0 = at(m, st, r, [B.lst])
        st0 = st.copy()

        def matches(s, e):
            t = TRUE
            for f, k in B.key.items():
                t = and_(t, veq(m, s, getf(m, s, e, f), args[k]))
            return t

        def other(s, x, evs):
            if not prove(s.pc, not_(matches(s, deref(m, s, elem_(m, s, L0, x))))):
                raise Unsupported('a search that goes on after a match')
        hdr = []

        def first(m, fr, st0, h, b):
            if not hdr:
                hdr.append((fr.fn, h))
            return hdr[0] == (fr.fn, h)

        def search(s, k):
            xs = [e[1] for e in s.ev if e[0] == 'loop']
            if len(xs) <= k:
                raise Unsupported('no search')
            return xs[k]
        E1 = Each(m, None, check=other, loose=True, want=first)

        def skipped(s, x, evs):
            if not prove(s.pc, lt(search(s, 0), L0.len)):
                return
            if not prove(s.pc, not_(veq(m, s, part(s, x), args[B.entry[B.subkey][1]]))):
                raise Unsupported('a search that goes on after a match')

        def part(s, x):
            e = elem_(m, s, at(m, s, deref(m, s, elem_(m, s, L0, search(s, 0))), [B.sub]), x)
            return e if B.subkey == '' else getf(m, s, deref(m, s, e), B.subkey)
        if B.subkey is not None:
            E2 = Each(m, None, check=skipped, loose=True, want=lambda m, fr, st0, h, b: (E1.done or E1.active) and hdr[0] != (fr.fn, h))
        n = 0
        for s1, res in m.call_fn(B.fn, [r] + args, st, merge=False):
            n += 1

            def chk(s, res=res):
                err = m.force(s, res[0]) if res else None
                L1 = at(m, s, r, [B.lst])
                for f in m.p.fields(m.p.byname[B.tname]):
                    if f['n'] != B.lst:
                        same(m, s, getf(m, s, r, f['n']), getf(m, st0, r, f['n']), f['n'])
                x = search(s, 0)
                found = prove(s.pc, lt(x, L0.len))
                if not found and not prove(s.pc, le(L0.len, x)):
                    raise Unsupported('end of the search')
                then = st0.copy()
                then.pc = s.pc
                if not found:
                    if B.missing:
                        need(s.pc, not_(err.nil), 'no error')
                        same(m, s, L1, L0, B.lst)
                        return
                    if err is not None:
                        need(s.pc, err.nil, 'an error for a new entry')
                    e = appended(m, s, L1, L0, B.lst)
                    entry_is(m, s, e, {f: args[k] for f, k in B.key.items()}, B.lst)
                    entry_is(m, s, e, {f: A(w) for f, w in (B.new or {}).items()}, B.lst)
                    if B.sub:
                        l = at(m, s, e, [B.sub])
                        need(s.pc, eq(l.len, I(1)), 'not one entry')
                        entry_is(m, s, deref(m, s, elem_(m, s, l, I(0))), {f: A(w) for f, w in B.entry.items()}, B.sub)
                    return
                # the element with this key
                if B.dup:
                    need(s.pc, not_(err.nil), 'no error')
                    same(m, s, L1, L0, B.lst)
                    return
                need(s.pc, eq(L1.len, L0.len), 'another number of elements')
                k = app('any:k', (), 0, 2**40)
                s2 = s.copy()
                s2.assume(and_(lt(k, L0.len), not_(eq(k, x))))
                if solver.sat(s2.pc):
                    same(m, s2, elem_(m, s2, L1, k), elem_(m, s2, L0, k), B.lst)
                e, o = deref(m, s, elem_(m, s, L1, x)), m.force(then, deref(m, then, elem_(m, then, L0, x)))
                for f in m.p.fields(o.t):
                    if f['n'] != B.sub:
                        same(m, s, getf(m, s, e, f['n']), getf(m, then, o, f['n']), f['n'])
                need(s.pc, matches(s, e), 'another element')
                l1, l0 = at(m, s, e, [B.sub]), m.force(then, getf(m, then, o, B.sub))
                if B.subkey is not None:
                    y = search(s, 1)
                    there = prove(s.pc, lt(y, l0.len))
                    if not there and not prove(s.pc, le(l0.len, y)):
                        raise Unsupported('end of the search')
                    if there:
                        need(s.pc, eq(l1.len, l0.len), 'another number of entries')
                        z = app('any:z', (), 0, 2**40)
                        s2 = s.copy()
                        s2.assume(and_(lt(z, l0.len), not_(eq(z, y))))
                        if solver.sat(s2.pc):
                            same(m, s2, elem_(m, s2, l1, z), elem_(m, s2, l0, z), B.sub)
                        g = deref(m, s, elem_(m, s, l1, y))
                        if B.there == 'set':
                            entry_is(m, s, g, {f: A(w) for f, w in B.entry.items()}, B.sub)
                        else:
                            same(m, s, l1, l0, B.sub)
                            if B.there == 'refuse':
                                ok = TRUE
                                for f, w in B.entry.items():
                                    if isinstance(w, tuple):
                                        ok = and_(ok, veq(m, s, getf(m, s, g, f), A(w)))
                                need(s.pc, iff(err.nil, ok), 'a different value is not refused, or the same one is')
                        if err is not None and B.there != 'refuse':
                            need(s.pc, err.nil, 'an error')
                        return
                if err is not None:
                    need(s.pc, err.nil, 'an error for a new entry')
                entry_is(m, s, appended(m, s, l1, l0, B.sub), {f: A(w) for f, w in B.entry.items()}, B.sub)
            c.post('ensures: the entry is added to its element, or a new one', s1, chk, B.fn)
        return n


a_ = lambda i: ('a', i)
BUILDERS = {
    'AlterConfigsRequest': [Builder('(*AlterConfigsRequest).AddConfig', 'AlterConfigsRequest', 'Resources', {'ResourceType': 0, 'ResourceName': 1}, 'ConfigEntries', {'ConfigName': a_(2), 'ConfigValue': a_(3)}, 'ConfigName', 'refuse')],
    'IncrementalAlterConfigsRequest': [Builder('(*IncrementalAlterConfigsRequest).AddConfig', 'IncrementalAlterConfigsRequest', 'Resources', {'ResourceType': 0, 'ResourceName': 1}, 'Entries', {'Name': a_(2), 'Operation': 0, 'Value': a_(3)}, 'Name', 'refuse')],
    'AlterPartitionReassignmentsRequest': [Builder('(*AlterPartitionReassignmentsRequest).AddAssignment', 'AlterPartitionReassignmentsRequest', 'Topics', {'TopicName': 0}, 'Partitions', {'PartitionID': a_(1), 'Replicas': a_(2)})],
    'CreateTopicsRequest': [Builder('(*CreateTopicsRequest).AddTopic', 'CreateTopicsRequest', 'CreateTopicRequests', {'Topic': 0}, new={'NumPartitions': a_(1), 'ReplicationFactor': a_(2)}, dup=True),
                            Builder('(*CreateTopicsRequest).AddReplicaAssignment', 'CreateTopicsRequest', 'CreateTopicRequests', {'Topic': 0}, 'ReplicaAssignments', {'Partition': a_(1), 'Replicas': a_(2)}, 'Partition', 'set', missing=True)],
    'DescribeLogDirsRequest': [Builder('(*DescribeLogDirsRequest).AddTopicPartition', 'DescribeLogDirsRequest', 'Topics', {'TopicName': 0}, 'Partitions', {'': a_(1)}, '', 'keep')],
    'ElectLeadersRequest': [Builder('(*ElectLeadersRequest).Add', 'ElectLeadersRequest', 'Topics', {'Topic': 0}, 'Partitions', {'': a_(1)})],
    'ListPartitionReassignmentsRequest': [Builder('(*ListPartitionReassignmentsRequest).AddTP', 'ListPartitionReassignmentsRequest', 'Topics', {'Name': 0}, 'Partitions', {'': a_(1)}, '', 'keep')],
    'OffsetCommitRequest': [Builder('(*OffsetCommitRequest).AddPartiton', 'OffsetCommitRequest', 'Topics', {'Topic': 0}, 'Partitions', {'PartitionID': a_(1), 'Offset': a_(2), 'Metadata': a_(3)}, 'PartitionID', 'set')],
    'OffsetFetchRequest': [Builder('(*OffsetFetchRequest).AddPartiton', 'OffsetFetchRequest', 'Topics', {'Topic': 0}, 'Partitions', {'': a_(1)}, '', 'keep')],
}


# ---------------------------------------------------------------- constructors
class Ctor:
    """New(args): every field holds what was given (('a', i)), a constant, or nothing; the header has this API's key and the caller's client id"""
    def __init__(self, fn, tname, api, want=None, cid=None, nullable=(), judge=None):
        self.fn, self.tname, self.api, self.want, self.cid, self.nullable, self.judge = fn, tname, api, want or {}, cid, nullable, judge

    def job(self, c):
        m, B = c.m, self
        st = State()
        W.conc(m)
        import broker_ as BR
        BR.errors_model(m)
        m.contracts['strings.ToLower'] = lambda m, fr, st, a, ins: (satom('lower', (a[0],), 2**31 - 2),)
        args = [m.force(st, Ghost(p['t'], 'a%d' % i)) for i, p in enumerate(m.p.funcs[B.fn]['params'])]
        st0 = st.copy()
        n = 0
        for s1, res in m.call_fn(B.fn, args, st, merge=False):
            n += 1

            def chk(s, res=res):
                r = m.force(s, res[0])
                if isinstance(r, IfaceV):
                    r = m.force(s, r.v)
                if isinstance(r, PtrV):
                    need(s.pc, not_(r.nil), 'nil request')
                if B.judge:
                    if B.judge(m, s, r, args):
                        return
                for f in m.p.fields(m.p.byname[B.tname]):
                    fn, v = f['n'], getf(m, s, r, f['n'])
                    if fn == 'RequestHeader':
                        header_is(m, s, v, B.api, None if B.cid is None else args[B.cid])
                        continue
                    given(m, s, v, B.want.get(fn), args, fn, fn in B.nullable)
            c.post('ensures: the request holds what was given', s1, chk, B.fn)
        return n


def header_is(m, s, h, api, cid):
    h = m.force(s, h)
    if isinstance(h, PtrV):
        need(s.pc, not_(h.nil), 'no header')
        h = deref(m, s, h)
    need(s.pc, eq(at(m, s, h, ['APIKey']), I(api)), 'APIKey')
    if not prove(s.pc, at(m, s, h, ['hv']).nil):
        raise Unsupported('header version set by the constructor')
    p = at(m, s, h, ['ClientID'])
    if cid is None:
        need(s.pc, p.nil, 'a client id')
    else:
        need(s.pc, not_(p.nil), 'no client id')
        seq_eq(m.force(s, deref(m, s, p)), cid, s.pc)
    need(s.pc, eq(at(m, s, h, ['TaggedFields']).len, I(0)), 'tagged fields')


def given(m, s, v, w, args, what, nullable=False):
    v = m.force(s, v)
    if isinstance(w, tuple) and w[0] == 'a':
        a = args[w[1]]
        if isinstance(a, SliceV) and nullable:
            need(s.pc, iff(v.nil, a.nil), what + ': nil and empty lists are different requests')
        if isinstance(a, SliceV) or isinstance(a, PtrV):
            same(m, s, v, a, what)
        else:
            agree(m, s, v, a, what)
    elif callable(w):
        w(m, s, v, args)
    elif isinstance(v, Lin):
        need(s.pc, eq(v, I(w or 0)), '%s is %r' % (what, v))
    elif isinstance(v, Bl):
        need(s.pc, v if w else not_(v), what)
    elif isinstance(v, (Sq, SliceV)):
        need(s.pc, eq(v.len, I(0)), what + ' is not empty')
    elif isinstance(v, MapV):
        o = s.heap.get(v.obj) if isinstance(v.obj, int) else None
        if v.nil is not TRUE and (o is None or o.base is not None or o.upd):
            raise Mismatch(what + ' is not empty', s.pc)
    elif isinstance(v, PtrV):
        need(s.pc, v.nil, what)
    else:
        raise Unsupported('field %s: %r' % (what, v))


CTORS = {
    'AlterConfigsRequest': Ctor('NewAlterConfigsRequest', 'AlterConfigsRequest', 33, cid=0),
    'AlterPartitionReassignmentsRequest': Ctor('NewAlterPartitionReassignmentsRequest', 'AlterPartitionReassignmentsRequest', 45, {'TimeoutMs': a_(0)}),
    'APIVersionsRequest': Ctor('NewApiVersionsRequest', 'APIVersionsRequest', 18, cid=0),
    'CreatePartitionsRequest': Ctor('NewCreatePartitionsRequest', 'CreatePartitionsRequest', 37, {'TimeoutMS': lambda m, s, v, a: need(s.pc, or_(eq(v, a[1]), lt(I(2**31 - 1), a[1])), 'TimeoutMS'), 'ValidateOnly': a_(2)}, cid=0),
    'CreateTopicsRequest': Ctor('NewCreateTopicsRequest', 'CreateTopicsRequest', 19, {'Timeout': a_(1)}, cid=0),
    'DeleteAclsRequest': Ctor('NewDeleteAclsRequest', 'DeleteAclsRequest', 31, {'Filters': a_(1)}, cid=0),
    'DeleteGroupsRequest': Ctor('NewDeleteGroupsRequest', 'DeleteGroupsRequest', 42, {'GroupsNames': a_(1)}, cid=0),
    'DeleteTopicsRequest': Ctor('NewDeleteTopicsRequest', 'DeleteTopicsRequest', 20, {'TopicsNames': a_(1), 'TimeoutMS': a_(2)}, cid=0),
    'DescribeConfigsRequest': Ctor('NewDescribeConfigsRequest', 'DescribeConfigsRequest', 32, {'Resources': a_(1)}, cid=0),
    'DescribeGroupsRequest': Ctor('NewDescribeGroupsRequest', 'DescribeGroupsRequest', 15, {'Groups': a_(1)}, cid=0),
    'ElectLeadersRequest': Ctor('NewElectLeadersRequest', 'ElectLeadersRequest', 43, {'TimeoutMS': a_(0)}),
    'FetchRequest': Ctor('NewFetchRequest', 'FetchRequest', 1, {'ReplicaID': -1, 'MaxWaitTime': a_(1), 'MinBytes': a_(2)}, cid=0),
    'FindCoordinatorRequest': Ctor('NewFindCoordinatorRequest', 'FindCoordinatorRequest', 10, {'GroupID': a_(1)}, cid=0),
    'HeartbeatRequest': Ctor('NewHeartbeatRequest', 'HeartbeatRequest', 12, {'GroupID': a_(1), 'GenerationID': a_(2), 'MemberID': a_(3)}, cid=0),
    'IncrementalAlterConfigsRequest': Ctor('NewIncrementalAlterConfigsRequest', 'IncrementalAlterConfigsRequest', 44, cid=0),
    'JoinGroupRequest': Ctor('NewJoinGroupRequest', 'JoinGroupRequest', 11, cid=1),
    'LeaveGroupRequest': Ctor('NewLeaveGroupRequest', 'LeaveGroupRequest', 13, {'GroupID': a_(1), 'MemberID': a_(2)}, cid=0),
    'ListGroupsRequest': Ctor('NewListGroupsRequest', 'ListGroupsRequest', 16, cid=0),
    'ListPartitionReassignmentsRequest': Ctor('NewListPartitionReassignmentsRequest', 'ListPartitionReassignmentsRequest', 46, {'TimeoutMS': a_(1)}, cid=0),
    'MetadataRequest': Ctor('NewMetadataRequest', 'MetadataRequest', 3, {'Topics': a_(1), 'AllowAutoTopicCreation': True}, cid=0, nullable=('Topics',)),
    'OffsetCommitRequest': Ctor('NewOffsetCommitRequest', 'OffsetCommitRequest', 8, {'GroupID': a_(2)}, cid=1),
    'OffsetFetchRequest': Ctor('NewOffsetFetchRequest', 'OffsetFetchRequest', 9, {'GroupID': a_(2)}, cid=1),
    'SaslHandShakeRequest': Ctor('NewSaslHandShakeRequest', 'SaslHandShakeRequest', 17, {'Mechanism': a_(1)}, cid=0),
    'SyncGroupRequest': Ctor('NewSyncGroupRequest', 'SyncGroupRequest', 14, {'GroupID': a_(1), 'GenerationID': a_(2), 'MemberID': a_(3), 'GroupAssignment': a_(4)}, cid=0),
}


def plain_judge(m, s, r, args):
    """PLAIN (in any case): \\0 user \\0 password; other mechanisms are not supported and give no request"""
    low = satom('lower', (args[3],), 2**31 - 2)
    if not holds(s, veq(m, s, low, lit(b'plain'))):
        if prove(s.pc, not_(veq(m, s, low, lit(b'plain')))):
            return True
        raise Unsupported('the choice of the mechanism')
    b = m.force(s, getf(m, s, r, 'SaslAuthBytes'))
    seq_eq(m.content(s, b), sq(lit(b'\0'), args[1], lit(b'\0'), args[2]), s.pc)


CTORS['SaslAuthenticateRequest'] = Ctor('NewSaslAuthenticateRequest', 'SaslAuthenticateRequest', 36, {'SaslAuthBytes': lambda m, s, v, a: None}, cid=0, judge=plain_judge)


def logdirs_topics(m, s, v, args):
    need(s.pc, eq(v.len, args[1].len), 'another number of topics')
    j = app('any:j', (), 0, 2**40)
    s2 = s.copy()
    s2.assume(lt(j, v.len))
    if solver.sat(s2.pc):
        e = elem_(m, s2, v, j)
        agree(m, s2, getf(m, s2, e, 'TopicName'), m.force(s2, elem_(m, s2, args[1], j)), 'TopicName')
        need(s2.pc, eq(at(m, s2, e, ['Partitions']).len, I(0)), 'partitions of a topic')


CTORS['DescribeLogDirsRequest'] = Ctor('NewDescribeLogDirsRequest', 'DescribeLogDirsRequest', 35, {'Topics': logdirs_topics}, cid=0)


class Setter:
    """method(args): the fields in want hold what was given, the others what they held; lst: one entry is appended to this list"""
    def __init__(self, fn, tname, want=None, lst=None, entry=None):
        self.fn, self.tname, self.want, self.lst, self.entry = fn, tname, want or {}, lst, entry

    def job(self, c):
        m, B = c.m, self
        st = State()
        W.conc(m)
        r = recv_of(m, st, B.tname, 'r')
        args = [m.force(st, Ghost(p['t'], 'a%d' % i)) for i, p in enumerate(m.p.funcs[B.fn]['params'][1:])]
        for a in args:
            if isinstance(a, PtrV):
                st.assume(not_(a.nil))
        st0 = st.copy()
        n = 0
        for s1, res in m.call_fn(B.fn, [r] + args, st, merge=False):
            n += 1

            def chk(s, res=res):
                then = st0.copy()
                then.pc = s.pc
                for f in m.p.fields(m.p.byname[B.tname]):
                    fn, v, o = f['n'], m.force(s, getf(m, s, r, f['n'])), m.force(then, getf(m, then, r, f['n']))
                    if fn == B.lst:
                        need(s.pc, eq(v.len, o.len + 1), 'not one more entry')
                        j = app('any:' + fn, (), 0, 2**40)
                        s2 = s.copy()
                        s2.assume(lt(j, o.len))
                        if solver.sat(s2.pc):
                            same(m, s2, elem_(m, s2, v, j), elem_(m, s2, o, j), fn)
                        B.entry(m, s, elem_(m, s, v, o.len), args)
                    elif fn in B.want:
                        given(m, s, v, B.want[fn], args, fn)
                    else:
                        same(m, s, v, o, fn)
                if res:
                    if not same_ptr(m.force(s, res[0]), r):
                        raise Mismatch('another request is returned', s.pc)
            c.post('ensures: set, nothing else changed', s1, chk, B.fn)
        return n


def partitions_entry(m, s, e, args):
    agree(m, s, getf(m, s, e, 'Name'), args[0], 'Name')
    agree(m, s, getf(m, s, e, 'Count'), args[1], 'Count')
    l = at(m, s, e, ['Assignments'])
    need(s.pc, iff(l.nil, args[2].nil), 'nil and empty assignments are different requests')
    need(s.pc, eq(l.len, args[2].len), 'another number of assignments')
    j = app('any:j', (), 0, 2**40)
    s2 = s.copy()
    s2.assume(lt(j, l.len))
    if solver.sat(s2.pc):
        b = elem_(m, s2, l, j)
        same(m, s2, getf(m, s2, b, 'BrokerIDs'), elem_(m, s2, args[2], j), 'BrokerIDs')


def protocol_entry(m, s, e, args):
    if not same_ptr(m.force(s, e), args[0]):
        d, w = deref(m, s, e), deref(m, s, args[0])
        for f in ('ProtocolName', 'ProtocolMetadata'):
            same(m, s, getf(m, s, d, f), getf(m, s, w, f), f)


SETTERS = {
    'CreatePartitionsRequest': [Setter('(*CreatePartitionsRequest).AddTopic', 'CreatePartitionsRequest', lst='Topics', entry=partitions_entry)],
    'JoinGroupRequest': [Setter('(*JoinGroupRequest).AddGroupProtocal', 'JoinGroupRequest', lst='GroupProtocols', entry=protocol_entry)],
    'AlterConfigsRequest': [Setter('(*AlterConfigsRequest).SetValidateOnly', 'AlterConfigsRequest', {'validateOnly': a_(0)})],
    'IncrementalAlterConfigsRequest': [Setter('(*IncrementalAlterConfigsRequest).SetValidateOnly', 'IncrementalAlterConfigsRequest', {'ValidateOnly': a_(0)})],
    'ListGroupsRequest': [Setter('(*ListGroupsRequest).SetStatesFilter', 'ListGroupsRequest', {'StatesFilter': a_(0)}), Setter('(*ListGroupsRequest).SetTypesFilter', 'ListGroupsRequest', {'TypesFilter': a_(0)})],
}
FAP = '(*FetchRequest).addPartition'


def fetch_add_job(c):
    """ensures: the partition is appended to the list of its topic, other topics keep theirs, and the size limit of the request grows by the partition's"""
    m = c.m
    st = State()
    W.conc(m)
    r = recv_of(m, st, 'FetchRequest', 'r')
    mp = m.force(st, getf(m, st, r, 'Topics'))
    args = [m.force(st, Ghost(p['t'], 'a%d' % i)) for i, p in enumerate(m.p.funcs[FAP]['params'][1:])]
    b0 = m.force(st, getf(m, st, r, 'MaxBytes'))
    st.assume(and_(not_(mp.nil), le(I(0), b0), le(I(0), args[3])))   # the map is made by NewFetchRequest; limits are not negative
    st0 = st.copy()
    n = 0
    for s1, _ in m.call_fn(FAP, [r] + args, st, merge=False):
        n += 1

        def chk(s):
            then = st0.copy()
            then.pc = s.pc
            for f in m.p.fields(m.p.byname['FetchRequest']):
                v, o = m.force(s, getf(m, s, r, f['n'])), m.force(then, getf(m, then, r, f['n']))
                if f['n'] == 'MaxBytes':
                    need(s.pc, or_(eq(v, o + args[3]), lt(I(2**31 - 1), o + args[3])), 'the size limit')
                elif f['n'] == 'Topics':
                    if v.obj != o.obj:
                        raise Unsupported('another map')
                    M1, M0 = s.heap[v.obj], then.heap[o.obj]
                    if M1.base != M0.base or len(M1.upd) != len(M0.upd) + 1:
                        raise Mismatch('%d topics are changed' % len(M1.upd), s.pc)
                    seq_eq(m.force(s, M1.upd[0][0]), args[0], s.pc)
                    l1 = m.force(s, M1.upd[0][1])
                    u = m.p.u(f['t'])
                    l0 = m.map_get(then, o, args[0], u)
                    l0, ok = l0
                    l0 = m.force(then, l0)
                    n0 = l0.len if prove(s.pc, ok) else I(0) if prove(s.pc, not_(ok)) else None
                    if n0 is None:
                        raise Unsupported('presence of the topic')
                    need(s.pc, eq(l1.len, n0 + 1), 'not one more partition')
                    j = app('any:j', (), 0, 2**40)
                    s2 = s.copy()
                    s2.assume(lt(j, n0))
                    if solver.sat(s2.pc):
                        same(m, s2, elem_(m, s2, l1, j), elem_(m, s2, l0, j), 'partitions')
                    e = deref(m, s, elem_(m, s, l1, n0))
                    for k, w in (('Partition', args[1]), ('FetchOffset', args[2]), ('MaxBytes', args[3]), ('CurrentLeaderEpoch', args[4]), ('LogStartOffset', I(0))):
                        agree(m, s, getf(m, s, e, k), w, k)
                elif f['n'] == 'ForgottenTopicsDatas':
                    if v.obj != o.obj or s.heap.get(v.obj) is not then.heap.get(o.obj) and not vsame(s.heap[v.obj], then.heap[o.obj]):
                        raise Mismatch('ForgottenTopicsDatas', s.pc)
                else:
                    same(m, s, v, o, f['n'])
        c.post('ensures: appended to the list of its topic', s1, chk, FAP)
    return n


def jobs_for(prop):
    from runner import Job
    out = []
    for name in BUILD:
        if R.REQ[name].prop != prop:
            continue
        cs = dict(cases=build_cases(name), limit=60, **BSCN)
        if name in CTORS:
            out.append(Job(CTORS[name].fn, CTORS[name].job, require=[CTORS[name].fn], **cs))
        for b in BUILDERS.get(name, []) + SETTERS.get(name, []):
            out.append(Job(b.fn, b.job, require=[b.fn], **cs))
        if name == 'OffsetsRequest':
            out.append(Job(NO, new_offsets_job, require=[NO], **cs))
        if name == 'FetchRequest':
            out.append(Job(FAP, fetch_add_job, require=[FAP], **cs))
    return out
