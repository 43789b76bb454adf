"""C17 (textual settings), C18 (metadata comparison): contracts of the pure functions behind them."""
from wire import *
from terms import *
from values import *
from machine import State
from seqops import seq_eq
from solver import prove
import solver

ACL = {
    'AclsResourceType': (['UNKNOWN', 'ANY', 'TOPIC', 'GROUP', 'CLUSTER', 'TRANSACTIONAL_ID', 'DELEGATION_TOKEN', 'USER'], {'BROKER': 4}, {4}),
    'AclsPatternType': (['UNKNOWN', 'ANY', 'MATCH', 'LITERAL', 'PREFIXED'], {}, set()),
    'AclsOperation': (['UNKNOWN', 'ANY', 'ALL', 'READ', 'WRITE', 'CREATE', 'DELETE', 'ALTER', 'DESCRIBE', 'CLUSTER_ACTION', 'DESCRIBE_CONFIGS',
                       'ALTER_CONFIGS', 'IDEMPOTENT_WRITE'], {}, set()),
    'AclsPermissionType': (['UNKNOWN', 'ANY', 'DENY', 'ALLOW'], {}, set()),
}
CODECS = ['none', 'gzip', 'snappy', 'lz4']


def names_of(t):
    names, extra, amb = ACL[t]
    d = {n: i for i, n in enumerate(names)}
    d.update(extra)
    return d


def isnil(m, s, e):
    """decide nil-ness of an error on a path (Split when open)"""
    e = m.force(s, e)
    if not isinstance(e, IfaceV):
        raise Unsupported('error value %r' % (e,))
    if prove(s.pc, e.nil):
        return True
    if prove(s.pc, not_(e.nil)):
        return False
    raise Split(e.nil)


def holds(s, e):
    """truth of e on this path (Split when open)"""
    if prove(s.pc, e):
        return True
    if prove(s.pc, not_(e)):
        return False
    raise Split(e)


def string_job(t, fn):
    """ensures: every listed code prints as a name of that code"""
    def body(c):
        m = c.m
        n = 0
        tab = names_of(t)
        for code in sorted(set(tab.values())):
            st = State()
            for s, res in m.call_fn(fn, [I(code)], st):
                n += 1
                r = res[0]

                def chk(s):
                    v = m.force(s, r)
                    v = lit_value(v if isinstance(v, Sq) else m.content(s, v))
                    if v is None:
                        raise Unsupported('printed text is not constant')
                    if tab.get(v.decode('latin1')) != code:
                        raise Mismatch('code %d of %s prints as %r' % (code, t, v), s.pc)
                    if len(res) > 1 and not isnil(m, s, res[1]):
                        raise Mismatch('printing code %d fails' % code, s.pc)
                c.post('ensures: %s prints code %d by its name' % (fn, code), s, chk, fn)
        return n
    return body


def unmarshal_job(t):
    """ensures: err == nil iff upper(text) is a listed name or number, and then *t is its code"""
    fn = '(*%s).UnmarshalText' % t

    def body(c):
        m = c.m
        st = State()
        o = m.alloc(st, app('before', (), -128, 127))
        text = m.force(st, Ghost(m.p.funcs[fn]['params'][1]['t'], 'text'))
        up = satom('upper', (m.content(st, text),))
        tab = names_of(t)
        amb = ACL[t][2]
        want = {n: v for n, v in tab.items()}
        for v in set(tab.values()):
            want[str(v)] = v
        n = 0
        for s1, (err,) in m.call_fn(fn, [PtrV(FALSE, (o, ())), text], st):
            n += 1

            def chk(s):
                if isnil(m, s, err):
                    got = m.force(s, m.load(s, (o, ())))
                    for nm, v in want.items():
                        if holds(s, seq_bool(up, lit(nm.encode()))):
                            need(s.pc, eq(got, I(v)), '%r becomes %r instead of %d' % (nm, got, v))
                            return
                    if solver.sat(s.pc):
                        raise Mismatch('a text that is not listed is accepted', s.pc)
                    return
                for nm, v in want.items():
                    if nm.isdigit() and v in amb:
                        continue
                    if not prove(s.pc, not_(seq_bool(up, lit(nm.encode())))):
                        raise Mismatch('%r may be rejected' % nm, s.pc)
            c.post('ensures: %s accepts exactly the listed names and numbers, each for its code' % fn, s1, chk, fn)
        return n
    return body


def acl_cases(t):
    from runner import Case
    from replay import unb64
    tab = names_of(t)
    amb = ACL[t][2]
    st, mt, ut = '(%s).String' % t, '(%s).MarshalText' % t, '(*%s).UnmarshalText' % t

    def cases(rng, n):
        for code in sorted(set(tab.values())):
            def check(a, code=code):
                if 'panic' in a:
                    return a['panic']
                s = unb64(a['res'][0]['r'][0]).decode('latin1')
                if tab.get(s) != code:
                    return 'code %d of %s prints as %r' % (code, t, s)
                s = unb64(a['res'][1]['r'][0]).decode('latin1')
                if tab.get(s) != code or a['res'][1]['r'][1] is not None:
                    return 'code %d of %s is marshalled as %r' % (code, t, s)
            yield Case([{'fn': st, 'args': [code]}, {'fn': mt, 'args': [code]}], check)
        texts = []
        for nm in list(tab) + [str(v) for v in set(tab.values())]:
            texts += [nm, nm.lower(), nm.capitalize(), nm.title()]
        for nm in list(tab):
            texts += [nm + ' ', ' ' + nm, nm + 'S', nm[:-1], nm.replace('_', ''), nm.replace('_', '-')]
        hi = max(tab.values())
        texts += ['', str(hi + 1), '-1', '00', '01', '1.0', 'ERROR', 'NULL', '+1', '99', '256', '0x1', 'error', 'ALLOWED']
        texts += [''.join(rng.choice('ABCDEFUNKW_0123456789 ') for _ in range(rng.randint(1, 9))) for _ in range(n)]
        for x in texts:
            u = x.upper()

            def check(a, x=x, u=u):
                if 'panic' in a:
                    return a['panic']
                e, got = a['res'][0]['r'][0], a['res'][0]['a'][0]
                w = tab.get(u)
                if w is None and u in {str(v) for v in tab.values()}:
                    w = int(u)
                    if w in amb and e is not None:
                        return
                if w is None:
                    if e is None:
                        return '%r is accepted as %s %r' % (x, t, got)
                elif e is not None or got != w:
                    return '%r becomes %s %r (error %r) instead of %d' % (x, t, got, e, w)
            yield Case([{'fn': ut, 'args': [77, x.encode()]}], check)
    return cases


# ---------------------------------------------------------------- compression names
def parse_compress_job(c):
    m = c.m
    st = State()
    s0 = m.force(st, Ghost(m.p.funcs['ParseCompressType']['params'][0]['t'], 'name'))
    low = satom('lower', (s0,))
    n = 0
    for s1, (v, err) in m.call_fn('ParseCompressType', [s0], st):
        n += 1

        def chk(s):
            if isnil(m, s, err):
                for i, nm in enumerate(CODECS):
                    if holds(s, seq_bool(low, lit(nm.encode()))):
                        need(s.pc, eq(m.force(s, v), I(i)), '%s becomes codec %r' % (nm, v))
                        return
                raise Mismatch('an unknown compression name is accepted', s.pc)
            for nm in CODECS:
                if not prove(s.pc, not_(seq_bool(low, lit(nm.encode())))):
                    raise Mismatch('%r may be rejected' % nm, s.pc)
        c.post('ensures: ParseCompressType accepts exactly the codec names, each for its code', s1, chk, 'ParseCompressType')
    return n


def compress_string_job(c):
    m = c.m
    n = 0
    for i, nm in enumerate(CODECS):
        st = State()
        for s1, (r,) in m.call_fn('(CompressType).String', [I(i)], st):
            n += 1
            c.post('ensures: codec %d prints as %s' % (i, nm), s1, lambda s: seq_eq(m.force(s, r), lit(nm.encode()), s.pc), '(CompressType).String')
    return n


COMPRESSOR = {'none': '*NoneCompressor', 'gzip': '*GzipCompressor', 'snappy': '*SnappyCompressor', 'lz4': '*LZ4Compressor'}


def new_compressor_job(c):
    """ensures: NewCompressor(name) is the compressor of that name; nil for any other name"""
    m = c.m
    st = State()
    s0 = m.force(st, Ghost(m.p.funcs['NewCompressor']['params'][0]['t'], 'name'))
    n = 0
    for s1, (r,) in m.call_fn('NewCompressor', [s0], st):
        n += 1

        def chk(s):
            if isnil(m, s, r):
                for nm in CODECS:
                    if not prove(s.pc, not_(seq_bool(s0, lit(nm.encode())))):
                        raise Mismatch('no compressor for %s' % nm, s.pc)
                return
            v = m.force(s, r)
            for nm in CODECS:
                if holds(s, seq_bool(s0, lit(nm.encode()))):
                    if v.t != m.p.byname.get(COMPRESSOR[nm]):
                        raise Mismatch('%s selects %s' % (nm, m.p.name(v.t)), s.pc)
                    return
            raise Mismatch('a compressor for an unknown name', s.pc)
        c.post('ensures: NewCompressor selects the codec of the name given', s1, chk, 'NewCompressor')
    return n


def compress_cases(rng, n):
    from runner import Case
    from replay import unb64
    import zlib
    data = b'healer healer healer' * 5
    names = CODECS + ['GZIP', 'Snappy', 'zstd', '', 'gzip ', 'none0', 'lz4x', 'unknown']
    for nm in names:
        def check(a, nm=nm):
            if 'panic' in a:
                return a['panic']
            v, e = a['res'][0]['r']
            if nm.lower() in CODECS:
                if e is not None or v != CODECS.index(nm.lower()):
                    return 'ParseCompressType(%r) is %r, %r' % (nm, v, e)
            elif e is None:
                return 'ParseCompressType(%r) is accepted as %r' % (nm, v)
            r = a['res'][1]['r'][0]
            if nm in CODECS:
                if r is None or r['type'].split('.')[-1] != COMPRESSOR[nm][1:]:
                    return 'NewCompressor(%r) is %r' % (nm, r)
            elif r is not None:
                return 'NewCompressor(%r) is %r' % (nm, r)
        yield Case([{'fn': 'ParseCompressType', 'args': [nm.encode()]}, {'fn': 'NewCompressor', 'args': [nm.encode()]}], check)
    for i, nm in enumerate(CODECS):
        def check(a, i=i, nm=nm):
            if 'panic' in a:
                return a['panic']
            if unb64(a['res'][0]['r'][0]) != nm.encode():
                return 'codec %d prints as %r' % (i, unb64(a['res'][0]['r'][0]))
        yield Case([{'fn': '(CompressType).String', 'args': [i]}], check)


# ---------------------------------------------------------------- configurations
def producer_bad(m, s, cfg):
    """list of conditions, one of which makes the configuration invalid"""
    ct = getf(m, s, cfg, 'CompressionType')
    return [seq_bool(getf(m, s, cfg, 'BootstrapServers'), EMPTYSEQ), le(getf(m, s, cfg, 'MessageMaxCount'), I(0)), le(getf(m, s, cfg, 'FlushIntervalMS'), I(0)),
            and_(*[not_(seq_bool(ct, lit(n.encode()))) for n in CODECS])]


def consumer_bad(m, s, cfg):
    o = getf(m, s, cfg, 'OffsetsStorage')
    return [seq_bool(getf(m, s, cfg, 'BootstrapServers'), EMPTYSEQ), seq_bool(getf(m, s, cfg, 'GroupID'), EMPTYSEQ), and_(not_(eq(o, I(0))), not_(eq(o, I(1))))]


def checkvalid_job(t, bad):
    fn = '(*%s).checkValid' % t

    def body(c):
        m = c.m
        st = State()
        m.nonnil.add('cfg')
        cfg = m.force(st, Ghost(m.p.byname['*' + t], 'cfg'))
        n = 0
        for s1, (err,) in m.call_fn(fn, [cfg], st):
            n += 1

            def chk(s):
                b = or_(*bad(m, s, cfg))
                if isnil(m, s, err):
                    if not prove(s.pc, not_(b)):
                        raise Mismatch('an invalid configuration is accepted', s.pc)
                elif not prove(s.pc, b):
                    raise Mismatch('a valid configuration is rejected', s.pc)
            c.post('ensures: %s is nil iff the configuration is valid' % fn, s1, chk, fn)
        return n
    return body


def weak_decode(m, fr, st, args, ins):
    """assumed contract of mapstructure.WeakDecode: it may write anything into the target and may fail"""
    p = m.force(st, args[1])
    p = m.force(st, p.v)
    t = m.p.u(m.force(st, args[1]).t)['e']
    m.store(st, p.tgt, Ghost(t, 'decoded'))
    return (m.force(st, Ghost(m.p.funcs['(*ProducerConfig).checkValid']['results'][0]['t'], 'decode.err')),)


def create_producer_job(kind):
    fn = 'createProducerConfig'

    def body(c):
        m = c.m
        m.intr['github.com/mitchellh/mapstructure.WeakDecode'] = weak_decode
        st = State()
        pt = m.p.byname['ProducerConfig']
        if kind == 'struct':
            arg = IfaceV(FALSE, pt, m.force(st, Ghost(pt, 'cfg')))
        elif kind == 'nil':
            arg = IfaceV(TRUE, None, None)
        elif kind == 'map':
            arg = None
            for i, ty in enumerate(m.p.types):
                if ty['k'] == 'map' and m.p.name(i) == 'map[string]interface{}' or m.p.name(i) == 'map[string]any':
                    arg = IfaceV(FALSE, i, m.force(st, Ghost(i, 'cfgmap')))
            if arg is None:
                raise Unsupported('no map type')
        n = 0
        for s1, (cfg, err) in m.call_fn(fn, [arg], st):
            n += 1

            def chk(s):
                if not isnil(m, s, err):
                    return
                g = m.force(s, cfg)
                for b, w in zip(producer_bad(m, s, g), ('bootstrap.servers', 'message.max.count', 'flush.interval.ms', 'compress.type')):
                    if not prove(s.pc, not_(b)):
                        raise Mismatch('a configuration with invalid %s is accepted' % w, s.pc)
            c.post('ensures: createProducerConfig returns an error or a valid configuration', s1, chk, fn)
        return n
    return body


def cfg_cases(rng, n):
    from runner import Case
    for _ in range(n * 3):
        bs, mm, fi, ct = rng.choice([b'', b'a:1', b'h:9092,b:9092']), rng.choice([-1, 0, 1, 1024]), rng.choice([-5, 0, 1, 200]), rng.choice(CODECS + ['', 'zstd', 'GZIP', 'gzip,', 'lz'])
        ok = bs != b'' and mm > 0 and fi > 0 and ct in CODECS
        cfg = {'BootstrapServers': bs, 'MessageMaxCount': mm, 'FlushIntervalMS': fi, 'CompressionType': ct.encode()}

        def check(a, ok=ok, cfg=cfg):
            if 'panic' in a:
                return a['panic']
            for i, nm in enumerate(('checkValid', 'createProducerConfig')):
                e = a['res'][i]['r'][-1]
                if (e is None) != ok:
                    return '%s: producer configuration %r gives %r' % (nm, cfg, e)
        yield Case([{'fn': '(*ProducerConfig).checkValid', 'args': [cfg]}, {'fn': 'createProducerConfig', 'args': [{'type': 'ProducerConfig', 'value': cfg}]}], check)
        g, os_ = rng.choice([b'', b'g']), rng.choice([-1, 0, 1, 2])
        ok2 = bs != b'' and g != b'' and os_ in (0, 1)
        cc = {'BootstrapServers': bs, 'GroupID': g, 'OffsetsStorage': os_}

        def check2(a, ok=ok2, cfg=cc):
            if 'panic' in a:
                return a['panic']
            if (a['res'][0]['r'][0] is None) != ok:
                return 'consumer configuration %r gives %r' % (cfg, a['res'][0]['r'][0])
        yield Case([{'fn': '(*ConsumerConfig).checkValid', 'args': [cc]}], check2)
    yield Case([{'fn': 'createProducerConfig', 'args': [None]}],
               lambda a: a.get('panic') or ('a missing producer configuration is accepted without bootstrap servers' if a['res'][0]['r'][1] is None else None))


def c17(P):
    from runner import Job
    out = []
    for t in ACL:
        st, mt, ut = '(%s).String' % t, '(%s).MarshalText' % t, '(*%s).UnmarshalText' % t
        cs = acl_cases(t)
        out.append(Job(st, string_job(t, st), cases=cs, fns=[st, mt, ut]))
        out.append(Job(mt, string_job(t, mt), cases=cs, fns=[st, mt, ut]))
        out.append(Job(ut, unmarshal_job(t), cases=cs, fns=[st, mt, ut]))
    cf = ['ParseCompressType', 'NewCompressor', '(CompressType).String']
    for f, j in zip(cf, (parse_compress_job, new_compressor_job, compress_string_job)):
        out.append(Job(f, j, cases=compress_cases, fns=cf))
    gf = ['(*ProducerConfig).checkValid', '(*ConsumerConfig).checkValid', 'createProducerConfig']
    gt = ['ProducerConfig']
    out.append(Job(gf[0], checkvalid_job('ProducerConfig', producer_bad), cases=cfg_cases, fns=gf, types=gt))
    out.append(Job(gf[1], checkvalid_job('ConsumerConfig', consumer_bad), cases=cfg_cases, fns=gf, types=gt))
    for k in ('struct', 'nil', 'map'):
        out.append(Job('createProducerConfig (%s)' % k, create_producer_job(k), cases=cfg_cases, fns=gf, types=gt))
    import config_
    return out + config_.jobs(P)


# ---------------------------------------------------------------- C18
def same_conditions(m, s, a, b, i, j, j_in):
    """equality of the entries i (and partitions j) of two snapshots, as list of (condition, what)"""


def elem(m, st, v, i):
    c = m.content(st, v)
    return deref(m, st, arr_get(c, i, st.pc, m.zero) if isinstance(c, Arr) else m.step(st, c, ('i', i)))


def ground_indices(m, s, names):
    """index terms that occur in the path condition under one of the ghost names"""
    out = []
    for p in s.pc:
        for x in atoms_of(p):
            if isinstance(x, At) and x.k == 'var' and lin(x) not in out:
                out.append(lin(x))
            if x.k in ('app', 'atom') and len(x.a) > 1 and isinstance(x.a[1], tuple) and not solver.has_bv(x):
                out += [a for a in x.a[1] if isinstance(a, Lin) and a not in out]
    return out


TOPICF = ('TopicName', 'TopicErrorCode')
PARTF = ('PartitionID', 'PartitionErrorCode', 'Leader')


def veq(m, s, x, y):
    return m.equal(s, m.force(s, x), m.force(s, y))


def same_job(c):
    fn = 'ifTopicMetadatasSame'
    m = c.m
    st = State()
    t = m.p.funcs[fn]['params'][0]['t']
    a, b = m.force(st, Ghost(t, 'a')), m.force(st, Ghost(t, 'b'))
    n = 0
    for s1, (r,) in m.call_fn(fn, [a, b], st, merge=False):
        n += 1

        def chk(s):
            v = m.force(s, r)
            if prove(s.pc, v):
                need(s.pc, eq(a.len, b.len), 'snapshots with a different number of topics are the same')
                i = fresh('i', 0)
                s.assume(lt(i, a.len))
                x, y = elem(m, s, a, i), elem(m, s, b, i)
                for f in TOPICF:
                    if not prove(s.pc, veq(m, s, getf(m, s, x, f), getf(m, s, y, f))):
                        raise Mismatch('%s may differ' % f, s.pc)
                p, q = m.force(s, getf(m, s, x, 'PartitionMetadatas')), m.force(s, getf(m, s, y, 'PartitionMetadatas'))
                need(s.pc, eq(p.len, q.len), 'the number of partitions may differ')
                j = fresh('j', 0)
                s.assume(lt(j, p.len))
                x, y = elem(m, s, p, j), elem(m, s, q, j)
                for f in PARTF:
                    if not prove(s.pc, veq(m, s, getf(m, s, x, f), getf(m, s, y, f))):
                        raise Mismatch('%s may differ' % f, s.pc)
                return
            if not prove(s.pc, not_(v)):
                raise Split(v)
            # different: some witness
            if prove(s.pc, not_(eq(a.len, b.len))):
                return
            if prove(s.pc, or_(and_(a.nil, not_(b.nil)), and_(b.nil, not_(a.nil)))):
                return
            idx = ground_indices(m, s, ())
            for i in idx:
                if not prove(s.pc, and_(le(I(0), i), lt(i, a.len), lt(i, b.len))):
                    continue
                x, y = elem(m, s, a, i), elem(m, s, b, i)
                alts = [not_(veq(m, s, getf(m, s, x, f), getf(m, s, y, f))) for f in TOPICF]
                p, q = m.force(s, getf(m, s, x, 'PartitionMetadatas')), m.force(s, getf(m, s, y, 'PartitionMetadatas'))
                alts.append(not_(eq(p.len, q.len)))
                for al in alts:
                    if holds(s, al):
                        return
                for j in idx:
                    if not prove(s.pc, and_(le(I(0), j), lt(j, p.len), lt(j, q.len))):
                        continue
                    u, w = elem(m, s, p, j), elem(m, s, q, j)
                    for f in PARTF:
                        if holds(s, not_(veq(m, s, getf(m, s, u, f), getf(m, s, w, f)))):
                            return
            raise Mismatch('snapshots are reported different without a difference', s.pc)
        c.post('ensures: the result is true iff topics, errors, partitions, leaders and partition errors are the same', s1, chk, fn)
    return n


def same_cases(rng, n):
    import copy
    from runner import Case

    def part(k):
        return {'PartitionID': k, 'PartitionErrorCode': rng.choice([0, 0, 5, 9]), 'Leader': rng.choice([-1, 0, 1, 2]), 'Replicas': [1, 2], 'Isr': [1]}

    def topic(k):
        return {'TopicName': b'topic%d' % k, 'TopicErrorCode': rng.choice([0, 0, 3, 5]), 'IsInternal': False, 'PartitionMetadatas': [part(j) for j in range(rng.choice([0, 1, 2, 4]))]}

    def key(ts):
        return [(t['TopicName'], t['TopicErrorCode'], [(p['PartitionID'], p['PartitionErrorCode'], p['Leader']) for p in t['PartitionMetadatas']]) for t in ts]
    for _ in range(n * 4):
        a = [topic(k) for k in range(rng.choice([0, 1, 1, 2, 3, 4]))]
        b = copy.deepcopy(a)
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            w = rng.randint(0, 9)
            if w == 0:
                b.append(topic(7))
            elif w == 1 and b:
                b.pop(rng.randrange(len(b)))
            elif w == 2 and len(b) > 1:
                b[0], b[-1] = b[-1], b[0]
            elif b:
                t = rng.choice(b)
                ps = t['PartitionMetadatas']
                if w == 3:
                    t['TopicName'] = rng.choice([b'', b'topic', t['TopicName'] + b'x', t['TopicName'].upper()])
                elif w == 4:
                    t['TopicErrorCode'] = rng.choice([0, 3, 5, -1])
                elif w == 5:
                    ps.append(part(len(ps)))
                elif ps:
                    p = rng.choice([ps[-1], rng.choice(ps)])
                    if w == 6:
                        ps.remove(p)
                    else:
                        f = rng.choice(['PartitionID', 'PartitionErrorCode', 'Leader', 'Leader', 'Replicas'])
                        p[f] = [rng.randint(0, 5)] if f == 'Replicas' else p[f] + rng.choice([1, -1, 256])

        def check(r, a=a, b=b):
            if 'panic' in r:
                return r['panic']
            if r['res'][0]['r'][0] != (key(a) == key(b)):
                return 'ifTopicMetadatasSame is %r for %r and %r' % (r['res'][0]['r'][0], key(a), key(b))
        yield Case([{'fn': 'ifTopicMetadatasSame', 'args': [a, b]}], check)


def c18(P):
    from runner import Job
    import group_ as G
    return [Job('ifTopicMetadatasSame', same_job, cases=same_cases, fns=['ifTopicMetadatasSame']),
            Job('metadata changes', G.refresh_meta_job, cases=G.rebalance_cases, limit=30, require=[G.RFM], **G.GSCN),
            Job('topics of the group', G.info_job, cases=G.rebalance_cases, limit=30, require=[G.TPI], **G.GSCN)]
