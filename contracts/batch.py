"""C07: record batches (version-2 layout), compression, the records part of a produce request."""
from wire import *
from terms import *
import terms as T
from values import *
from machine import State
from seqops import seq_eq, split_at, slice_seq
from solver import prove
import prims
import world as W
from settings import isnil

HEADERS = Array('vi', Struct(('Key', VSTR), ('Value', NVBYTES)))
RECORD = Sized('vi', Struct(('attributes', I8), ('timestampDelta', VI64), ('offsetDelta', VI32), ('key', NVBYTES), ('value', NVBYTES), ('Headers', HEADERS)))
HEAD = Struct(('Attributes', I16), ('LastOffsetDelta', I32), ('BaseTimestamp', I64), ('MaxTimestamp', I64), ('ProducerID', I64), ('ProducerEpoch', I16), ('BaseSequence', I32))
REC = '(*Record).Encode'
BATCH = '(*RecordBatch).Encode'
CODECS = {0: None, 1: 'Gzip', 2: 'Snappy', 3: 'LZ4'}


def record_job(c):
    m = c.m
    prims.install(m, prims.VERIFIED)
    st = State()
    m.nonnil.add('r')
    x = m.force(st, Ghost(m.p.byname['*Record'], 'r'))
    st0 = st.copy()
    spec = RECORD.sym(m, st0, x)
    for o, v in st0.heap.items():
        st.heap.setdefault(o, v)
    n = 0
    for s, (res, err) in m.call_fn(REC, [x, app('version', (), 0, 65535)], st):
        n += 1

        def chk(s):
            need(s.pc, m.force(s, err).nil, 'an error is returned')
            seq_eq(m.content(s, m.force(s, res)), spec, s.pc)
        c.post('ensures: a record is encoded as the version-2 layout', s, chk, REC)
    return n


def record_contract(m):
    """contract of Record.Encode, discharged by record_job"""
    def h(m, fr, st, a, ins):
        if REC not in prims.VERIFIED:
            return NotImplemented
        r = m.force(st, a[0])
        return (m.new_bytes(st, RECORD.sym(m, st, r)), IfaceV(TRUE, None, None))
    m.contracts[REC] = h


def crc_contract(m):
    def h(name):
        def f(m, fr, st, a, ins):
            d = m.content(st, m.force(st, a[0]))
            v = app('crc!%d' % next(T._vc), (), 0, 2**32 - 1)
            W.ev(st, 'crc', name, d, v, m.force(st, a[1]) if len(a) > 1 else None)
            return (v,)
        return f
    m.contracts['hash/crc32.Checksum'] = h('table')
    m.contracts['hash/crc32.ChecksumIEEE'] = h('ieee')
    m.contracts['hash/crc32.MakeTable'] = lambda m, fr, st, a, ins: (PtrV(FALSE, (m.alloc(st, OpaqueV('crctable', poly=m.force(st, a[0]))), ())),)


def compress_contract(m):
    for t in ('Gzip', 'Snappy', 'LZ4', 'None'):
        def h(m, fr, st, a, ins, t=t):
            d = m.content(st, m.force(st, a[1]))
            out = satom('compressed!%d' % next(T._vc), (), 2**31 - 200)
            e = W.anyerr(m, st, 'compress.err')
            W.ev(st, 'compress', t, d, out, e)
            return (m.new_bytes(st, out), e)
        m.contracts['(*%sCompressor).Compress' % t] = h


def batch_job(codec):
    def body(c):
        m = c.m
        prims.install(m, prims.VERIFIED)
        record_contract(m)
        crc_contract(m)
        compress_contract(m)
        m.run_init()
        st = State()
        m.nonnil |= {'b', 'b.Records[]'}
        x = m.force(st, Ghost(m.p.byname['*RecordBatch'], 'b'))
        st0 = st.copy()
        att = m.force(st0, getf(m, st0, x, 'Attributes'))
        head = HEAD.sym(m, st0, x)
        recs = m.force(st0, getf(m, st0, x, 'Records'))
        st0.assume(le(recs.len, I(2**31 - 2)))
        body_ = Array('i32', RECORD).sym(m, st0, recs)
        pre = [be(8, m.force(st0, getf(m, st0, x, 'BaseOffset'))), None, be(4, m.force(st0, getf(m, st0, x, 'PartitionLeaderEpoch'))), be(1, m.force(st0, getf(m, st0, x, 'Magic')))]
        for o, v in st0.heap.items():
            st.heap.setdefault(o, v)
        st.assume(le(recs.len, I(2**31 - 2)))
        if codec <= 3:
            st.assume(eq(mod(att, 8), I(codec)))
        else:
            st.assume(le(I(4), mod(att, 8)))
        n = 0
        for s1, (res, err) in m.call_fn(BATCH, [x, app('version', (), 0, 65535)], st, merge=False):
            n += 1

            def chk(s):
                cs = W.evs(s, 'compress')
                if codec > 3:
                    if isnil(m, s, err):
                        raise Mismatch('a batch is encoded although the codec in its attributes is not known', s.pc)
                    return
                if codec and len(cs) != 1:
                    raise Mismatch('the records are compressed %d times' % len(cs), s.pc)
                if codec == 0 and any(e[1] != 'None' for e in cs):
                    raise Mismatch('the records are compressed', s.pc)
                cnt, rest = split_at(body_, I(4), s.pc)
                if codec:
                    if cs[0][1] != CODECS[codec]:
                        raise Mismatch('the records are compressed with %s' % cs[0][1], s.pc)
                    seq_eq(cs[0][2], rest, s.pc)
                    if not isnil(m, s, cs[0][4]):
                        if isnil(m, s, err):
                            raise Mismatch('a failed compression is ignored', s.pc)
                        return
                    rest = cs[0][3]
                if not isnil(m, s, err):
                    raise Mismatch('an error is returned for a valid batch', s.pc)
                tail = sq(head, cnt, rest)
                crc = W.evs(s, 'crc')
                got = m.content(s, m.force(s, res))
                if len(crc) != 1:
                    raise Mismatch('%d checksums are computed' % len(crc), s.pc)
                if crc[0][1] != 'table' or W.key(crc[0][4]) == 'nil' or not castagnoli(m, s, crc[0][4]):
                    raise Mismatch('the checksum is not CRC-32C', s.pc)
                seq_eq(crc[0][2], tail, s.pc)
                seq_eq(got, sq(pre[0], be(4, tail.len + 9), pre[2], pre[3], be(4, crc[0][3]), tail), s.pc)
            c.post('ensures: a batch (codec %s) is the version-2 layout with exact length, count and checksum' % (CODECS.get(codec) or codec), s1, chk, BATCH)
        return n
    return body


# ---------------------------------------------------------------- compressors
def writer_contract(m, codec, ctor, typ):
    """assumed contract of a compressing writer: Close appends codec(everything written) to the writer below"""
    from intrinsics import buf_write

    def new(m, fr, st, a, ins):
        return (PtrV(FALSE, (m.alloc(st, OpaqueV('zwriter', w=m.force(st, a[0]))), ())),)

    def write(m, fr, st, a, ins):
        e = W.anyerr(m, st, 'zw.err')
        d = m.content(st, m.force(st, a[1]))
        W.ev(st, 'zwrite', repr(m.force(st, a[0]).tgt), d, e)
        return (d.len, e)

    def close(m, fr, st, a, ins):
        z = m.force(st, a[0])
        o = m.load(st, z.tgt)
        e = W.anyerr(m, st, 'zc.err')
        data = sq(*[x[2] for x in W.evs(st, 'zwrite') if x[1] == repr(z.tgt)])
        out = satom('coded!%d' % next(T._vc), (), 2**31 - 200)
        buf_write(m, fr, st, o['w'].v, out, ins)
        W.ev(st, 'coded', codec, data, out, e)
        return (e,)
    m.contracts[ctor] = new
    m.contracts['(*%s).Write' % typ] = write
    m.contracts['(*%s).Close' % typ] = close


def compressor_job(t):
    def body(c):
        m = c.m
        writer_contract(m, 'Gzip', 'compress/gzip.NewWriter', 'compress/gzip.Writer')
        writer_contract(m, 'LZ4', 'github.com/pierrec/lz4/v4.NewWriter', 'github.com/pierrec/lz4/v4.Writer')

        def senc(m, fr, st, a, ins):
            d = m.content(st, m.force(st, a[0]))
            out = satom('coded!%d' % next(T._vc), (), 2**31 - 200)
            W.ev(st, 'coded', 'Snappy', d, out, None)
            return (m.new_bytes(st, out),)
        m.contracts['github.com/eapache/go-xerial-snappy.Encode'] = senc
        m.nonnil.add('c')
        st = State()
        x = m.force(st, Ghost(m.p.byname['*%sCompressor' % t], 'c'))
        val = satom('value', (), 2**31 - 200)
        fn = '(*%sCompressor).Compress' % t
        n = 0
        for s1, (res, err) in m.call_fn(fn, [x, m.new_bytes(st, val)], st, merge=False):
            n += 1

            def chk(s):
                got = m.content(s, m.force(s, res))
                cs = W.evs(s, 'coded')
                bad = [e for e in s.ev if e[0] in ('zwrite', 'coded') and e[-1] is not None and not isnil(m, s, e[-1])]
                if not isnil(m, s, err):
                    if not bad:
                        raise Mismatch('an error is returned although compressing succeeded', s.pc)
                    return
                if bad:
                    raise Mismatch('a failed compression is reported as success', s.pc)
                if t == 'None':
                    return seq_eq(got, val, s.pc)
                if len(cs) != 1 or cs[0][1] != t:
                    raise Mismatch('the value is compressed by %s' % [e[1] for e in cs], s.pc)
                seq_eq(cs[0][2], val, s.pc)
                seq_eq(got, cs[0][3], s.pc)
            c.post('ensures: %s.Compress applies its codec to exactly the value' % t, s1, chk, fn)
        return n
    return body


def compressor_cases(t):
    from runner import Case
    from replay import unb64
    cd = {v: k for k, v in CODECS.items()}.get(t, 0)

    def cases(rng, n):
        for _ in range(n):
            d = bytes(rng.randint(0, 255) for _ in range(rng.choice([0, 1, 2, 50, 300]))) * rng.choice([1, 1, 3, 40] + ([700] if rng.random() < .1 else []))
            steps = [{'fn': '(*%sCompressor).Compress' % t, 'args': [{}, d]}]
            if cd:
                steps.append({'fn': 'vDecompress', 'args': [cd, {'$': [0, 0]}, 0]})

            def check(a, d=d):
                if 'panic' in a:
                    return 'Compress panics: ' + a['panic']
                for r in a['res']:
                    if r['r'][1] is not None:
                        return 'error %r' % (r['r'][1],)
                if (unb64(a['res'][-1]['r'][0]) or b'') != d:
                    return '%d bytes do not come back as compressed by %s' % (len(d), t)
            yield Case(steps, check)
    return cases


# ---------------------------------------------------------------- produce request
class Batches(K):
    """the record batches of one partition, one after the other"""
    def sym(self, m, st, v):
        out = []
        for x in m.content(st, v).p:
            if x[0] == 'el':
                out += [benc(m, st, e) for e in x[1]]
            else:
                k = fresh('e', 0)
                (ka, _), = k.m
                out.append(rep(benc(m, st, pelem(x, k, m.zero)), ka, I(0), plen(x)))
        return sq(*out)

    def py(self, v):
        return b''.join(pybatch(b) for b in v or [])

    def gen(self, r, d):
        out = []
        for _ in range(r.choice([0, 1, 1, 1, 2])):
            b = HEAD.gen(r, d)
            b['Attributes'] = r.choice([0, 8, 16])
            b.update(BaseOffset=r.choice([0, 5]), BatchLength=0, PartitionLeaderEpoch=-1, Magic=2, CRC=0, Records=[RECORD.gen(r, 1) for _ in range(r.choice([0, 1, 2, 3]))])
            out.append(b)
        return out


def pybatch(b):
    tail = HEAD.py(b) + Array('i32', RECORD).py(b['Records'])
    head = (b['PartitionLeaderEpoch'] % 2**32).to_bytes(4, 'big') + bytes([b['Magic'] % 256]) + crc32c(tail).to_bytes(4, 'big')
    return (b['BaseOffset'] % 2**64).to_bytes(8, 'big') + (len(head) + len(tail)).to_bytes(4, 'big') + head + tail


def benc(m, st, b):
    """the encoding of a batch, as an opaque function of the batch (its own layout is the contract of RecordBatch.Encode)"""
    b = deref(m, st, b)
    t = m.force(st, getf(m, st, b, 'BaseOffset'))
    (a, _), = t.m
    nm = a.a[0]
    if not nm.endswith('.BaseOffset'):
        raise Unsupported('a batch that is not one of the request')
    return satom('enc:' + nm[:-len('.BaseOffset')], tuple(a.a[1]) if a.k == 'app' else (), 2**31 - 200)


def batch_contract(m):
    def h(m, fr, st, a, ins):
        try:
            s = benc(m, st, m.force(st, a[0]))
        except ValueError:
            raise Unsupported('a batch that is not one of the request')
        return (m.new_bytes(st, s), IfaceV(TRUE, None, None))
    m.contracts[BATCH] = h


def castagnoli(m, s, p):
    v = m.force(s, m.load(s, p.tgt)) if isinstance(p, PtrV) and p.tgt is not None else None
    return isinstance(v, OpaqueV) and v.kind == 'crctable' and v['poly'].const() == 0x82f63b78


# ---------------------------------------------------------------- concrete inputs
_t = []
for _i in range(256):
    _c = _i
    for _ in range(8):
        _c = (_c >> 1) ^ (0x82f63b78 if _c & 1 else 0)
    _t.append(_c)


def crc32c(b):
    c = 0xffffffff
    for x in b:
        c = _t[(c ^ x) & 255] ^ (c >> 8)
    return c ^ 0xffffffff


def record_cases(rng, n):
    from runner import Case
    from replay import unb64
    for _ in range(n):
        val = RECORD.gen(rng, 0)

        def check(a, val=val):
            if 'panic' in a:
                return 'Record.Encode panics: ' + a['panic']
            r = a['res'][0]['r']
            if r[1] is not None:
                return 'Record.Encode: error %r' % (r[1],)
            b = unb64(r[0])
            try:
                if RECORD.eat(val, b, 0, 'record') != len(b):
                    return 'bytes after the record'
            except Bad as e:
                return str(e)
        yield Case([{'fn': REC, 'args': [val, rng.choice([0, 9])]}], check)


def batch_cases(codec):
    from runner import Case
    from replay import unb64

    def cases(rng, n):
        for _ in range(n):
            val = HEAD.gen(rng, 0)
            cd = codec if codec <= 3 else rng.choice([4, 5, 6, 7])
            val['Attributes'] = cd | rng.choice([0, 0, 8, 16, 32])
            val.update(BaseOffset=rng.choice([0, 5, -1, 2**40]), BatchLength=rng.choice([0, 0, 77]), PartitionLeaderEpoch=rng.choice([-1, 0, 9]), Magic=2, CRC=rng.choice([0, 0, 12345]))
            recs = [RECORD.gen(rng, 1) for _ in range(rng.choice([0, 1, 2, 3, 10]))]
            big = rng.random() < 0.05
            if big:
                recs = [RECORD.gen(rng, 1) for _ in range(130)]
            val['Records'] = recs
            steps = [{'fn': BATCH, 'args': [val, 9]}]
            if cd in (1, 2, 3):
                steps.append({'fn': 'vDecompress', 'args': [cd, {'$': [0, 0]}, 61]})

            def check(a, val=val, recs=recs, cd=cd):
                if 'panic' in a:
                    return 'RecordBatch.Encode panics: ' + a['panic']
                r = a['res'][0]['r']
                if cd > 3:
                    return None if r[1] is not None else 'a batch is encoded although codec %d is not known' % cd
                if r[1] is not None:
                    return 'error %r' % (r[1],)
                b = unb64(r[0])
                if len(b) < 61:
                    return 'a batch of %d bytes' % len(b)
                if b[:8] != (val['BaseOffset'] % 2**64).to_bytes(8, 'big') or b[12:16] != (val['PartitionLeaderEpoch'] % 2**32).to_bytes(4, 'big') or b[16] != 2:
                    return 'base offset, leader epoch or magic'
                if int.from_bytes(b[8:12], 'big') != len(b) - 12:
                    return 'batch length %d of %d bytes' % (int.from_bytes(b[8:12], 'big'), len(b))
                if int.from_bytes(b[17:21], 'big') != crc32c(b[21:]):
                    return 'the checksum is wrong'
                try:
                    i = HEAD.eat(val, b, 21, 'batch')
                    if b[i:i + 4] != len(recs).to_bytes(4, 'big'):
                        return 'record count'
                    d = b[i + 4:]
                    if cd:
                        x = a['res'][1]['r']
                        if x[1] is not None:
                            return 'the records do not decompress with codec %d: %r' % (cd, x[1])
                        d = unb64(x[0]) or b''
                    i = 0
                    for j, y in enumerate(recs):
                        i = RECORD.eat(y, d, i, 'record %d' % j)
                    if i != len(d):
                        return 'bytes after the last record'
                except Bad as e:
                    return str(e)
            yield Case(steps, check)
    return cases


def c07(P):
    from runner import Job
    out = [Job('Record.Encode', record_job, phase=1, key=REC, cases=record_cases, fns=[REC])]
    for k in (0, 1, 2, 3, 4):
        out.append(Job('RecordBatch.Encode codec %s' % (CODECS.get(k, 'unknown') or 'none'), batch_job(k), cases=batch_cases(k), fns=[BATCH], extra=['codec'], xfns=['vDecompress']))
    for t in ('Gzip', 'Snappy', 'LZ4', 'None'):
        out.append(Job('%sCompressor.Compress' % t, compressor_job(t), cases=compressor_cases(t), fns=['(*%sCompressor).Compress' % t], extra=['codec'], xfns=['vDecompress']))
    return out
