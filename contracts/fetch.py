"""C08: fetch responses: every record from the start offset on, once, in order; the frame is consumed."""
import base64
import json
import struct
import zlib
from wire import *
from terms import *
import terms as T
from values import *
from machine import State
from seqops import seq_eq, split_at, slice_seq
from solver import prove
import prims
import world as W
from settings import isnil
from batch import RECORD, HEAD, crc32c


# ---------------------------------------------------------------- concrete responses
def xxh32(b, seed=0):
    P1, P2, P3, P4, P5 = 2654435761, 2246822519, 3266489917, 668265263, 374761393
    M = 0xffffffff
    rot = lambda x, r: ((x << r) | (x >> (32 - r))) & M
    assert len(b) < 16
    h = (seed + P5 + len(b)) & M
    i = 0
    while i + 4 <= len(b):
        h = (rot((h + int.from_bytes(b[i:i + 4], 'little') * P3) & M, 17) * P4) & M
        i += 4
    while i < len(b):
        h = (rot((h + b[i] * P5) & M, 11) * P1) & M
        i += 1
    h ^= h >> 15
    h = h * P2 & M
    h ^= h >> 13
    h = h * P3 & M
    return h ^ h >> 16


def uvar(n):
    out = b''
    while n > 127:
        out += bytes([n & 127 | 128])
        n >>= 7
    return out + bytes([n])


def snappy_raw(d):
    out = uvar(len(d))
    for i in range(0, len(d), 60):
        c = d[i:i + 60]
        out += bytes([(len(c) - 1) << 2]) + c
    return out


def compress(codec, d, r):
    if codec == 0:
        return d
    if codec == 1:
        c = zlib.compressobj(6, zlib.DEFLATED, 31)
        return c.compress(d) + c.flush()
    if codec == 2:
        if r.random() < 0.5:
            return snappy_raw(d)
        out = b'\x82SNAPPY\x00' + struct.pack('>ii', 1, 1)
        for i in range(0, max(len(d), 1), 32768):
            c = snappy_raw(d[i:i + 32768])
            out += struct.pack('>i', len(c)) + c
        return out
    fd = bytes([0x60, 0x40])
    out = struct.pack('<I', 0x184D2204) + fd + bytes([(xxh32(fd) >> 8) & 255])
    for i in range(0, len(d), 65536):
        c = d[i:i + 65536]
        out += struct.pack('<I', len(c) | 0x80000000) + c
    return out + struct.pack('<I', 0)


def batch2(base, recs, codec, attrs=0, maxts=0, basets=0, r=None):
    """a record batch of version 2"""
    tail = struct.pack('>hiqqqhi', attrs | codec, (max([x['offsetDelta'] for x in recs]) if recs else 0), basets, maxts, -1, -1, -1)
    tail += struct.pack('>i', len(recs)) + compress(codec, b''.join(RECORD.py(x) for x in recs), r)
    return struct.pack('>qiibI', base, len(tail) + 9, 0, 2, crc32c(tail)) + tail


def message(magic, off, ts, key, value, attrs=0):
    b = bytes([magic, attrs]) + (struct.pack('>q', ts) if magic else b'')
    for x in (key, value):
        b += struct.pack('>i', -1) if x is None else struct.pack('>i', len(x)) + x
    b = struct.pack('>I', zlib.crc32(b)) + b
    return struct.pack('>qi', off, len(b)) + b


def rbytes(r, null=0.2, big=0):
    x = r.random()
    if x < null:
        return None
    n = r.choice([0, 1, 3, 10, 60, 70, 130])
    if big and r.random() < big:
        n = r.choice([300, 5000, 70000])
    return bytes(r.randint(0, 255) for _ in range(min(n, 50))) + b'z' * (n - 50)


def gen_set(r, off, version):
    """message set bytes (a list of batches: bytes, records, compressed) starting at offset off"""
    out = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        magic = 2 if version and r.random() < 0.8 else r.choice([0, 1])
        if out and (out[0][3] < 2) != (magic < 2):
            magic = out[0][3]
        n = r.choice([1, 1, 2, 3, 8, 20])
        codec = r.choice([0, 0, 1, 2, 3])
        offs = []
        base = off
        for _ in range(n):
            offs.append(off)
            off += r.choice([1, 1, 1, 2, 7, 1, 1, 1, 2, 7, 70000, 2**25])
        if magic == 2:
            if r.random() < 0.1:
                base -= r.choice([1, 3])
            basets, maxts = r.choice([0, 1700000000000]), 1700000009999
            at = r.choice([0, 0, 0, 8, 16])
            recs, exp = [], []
            for o in offs:
                x = {'attributes': 0, 'timestampDelta': r.choice([0, 1, 5, 300, 3456000000, 2**45, -3 if basets else 0, -3456000000 if basets else 0]), 'offsetDelta': o - base, 'key': rbytes(r), 'value': rbytes(r, big=.1),
                     'Headers': [{'Key': bytes(r.randint(97, 122) for _ in range(r.choice([0, 1, 5]))), 'Value': rbytes(r)} for _ in range(r.choice([0, 0, 1, 3]))]}
                recs.append(x)
                exp.append((o, maxts if at & 8 else basets + x['timestampDelta'], x['key'], x['value'], [(h['Key'], h['Value']) for h in x['Headers']]))
            b = batch2(base, recs, codec, at, maxts, basets, r)
            ends = None
            if codec == 0:
                ends, i = [], len(b) - sum(len(RECORD.py(x)) for x in recs)
                for x in recs:
                    i += len(RECORD.py(x))
                    ends.append(i)
            out.append((b, exp, codec, 2, ends))
        else:
            exp = [(o, r.choice([1, 1700000000000]) if magic else 0, rbytes(r), rbytes(r, null=.1, big=.1), []) for o in offs]
            if codec == 0:
                for e in exp:
                    out.append((message(magic, *e[:4]), [e], 0, magic, None))
            else:
                rel = 0 if magic == 0 else offs[0]
                inner = b''.join(message(magic, e[0] - rel, *e[1:4]) for e in exp)
                if magic == 1 and r.random() < .5:     # relative offsets may start anywhere, the wrapper has the last absolute one
                    d = r.choice([0, 4])
                    inner = b''.join(message(magic, e[0] - rel + d, *e[1:4]) for e in exp)
                out.append((message(magic, offs[-1], 5, None, compress(codec, inner, r), codec), exp, codec, magic, None))
    return out, off


def gen_case(r, nocodec=False):
    version = r.choice([0, 7, 10, 10])
    start = r.choice([0, 0, 5, 100, 2**33])
    ntop = r.choice([1, 1, 1, 2])
    parts = [(t, p) for t in [('t%d' % t) * r.choice([1, 1, 9]) for t in range(ntop)] for p in range(r.choice([1, 1, 1, 2, 3]))]
    expect, opt, err = [], [], None
    enc = {}
    for i, (t, p) in enumerate(parts):
        last = i == len(parts) - 1
        kind = r.choice(['data', 'data', 'data', 'empty'] + (['error', 'short', 'short'] if last else []))
        code = 0
        data = b''
        if kind == 'error':
            code = r.choice([1, 3, 5, 6, 9, 74, 76])
            err = code
            if r.random() < .3:
                data = b''.join(b[0] for b in gen_set(r, start, version)[0])
        elif kind in ('data', 'short'):
            sets, end = gen_set(r, max(0, start - r.choice([0, 0, 0, 1, 3, 6])), version)
            exp = [e for b in sets for e in b[1]]
            if not any(e[0] >= start for e in exp):
                sets, end = gen_set(r, start, version)
            for b in sets:
                expect += [(t, p, e) for e in b[1] if e[0] >= start]
                data += b[0]
            if kind == 'short':
                more, _ = gen_set(r, end, version)
                if more[0][3] < 2 and sets[0][3] == 2 or more[0][3] == 2 and sets[0][3] < 2:
                    more = []
                if more:
                    b = more[0]
                    cut = r.choice([r.randint(1, len(b[0]) - 1), r.randint(1, min(70, len(b[0]) - 1)), len(b[0]) - 1])
                    data += b[0][:cut]
                    if b[4] is not None:
                        opt = [(t, p, e) for e, x in zip(b[1], b[4]) if x <= cut]
                    elif b[2]:
                        opt = [(t, p, e) for e in b[1]]      # a compressed batch whose missing bytes are only its trailer
        pb = struct.pack('>ihq', p, code, 10**6)
        if version >= 4:
            ab = r.choice([-1, 0, 0, 2])
            pb += struct.pack('>qq', 5, 0) + struct.pack('>i', ab) + struct.pack('>qq', 7, 8) * max(ab, 0)
        pb += struct.pack('>i', len(data)) + data
        enc.setdefault(t, []).append(pb)
    body = struct.pack('>i', 77) + (struct.pack('>ihi', 0, 0, 0) if version >= 7 else b'')
    if r.random() < 0.03:
        enc, expect, opt, err = {}, [], [], None
    body += struct.pack('>i', len(enc))
    for t, ps in enc.items():
        body += struct.pack('>h', len(t)) + t.encode() + struct.pack('>i', len(ps)) + b''.join(ps)
    return version, start, body, expect, opt, err


def unb(x):
    return None if x is None else base64.b64decode(x)


def judge(a, start, expect, opt, err, extra):
    if 'panic' in a:
        return 'streamDecode panics: ' + a['panic']
    d = json.loads(base64.b64decode(a['res'][0]['r'][0]))
    if d['Panic']:
        return 'streamDecode panics: ' + d['Err']
    got = []
    errs = []
    for m in d['M'] or []:
        if m['Message']:
            if errs:
                return 'a record is emitted after an error'
            got.append((m['T'], m['P'], (m['O'], m['Ts'], unb(m['K']), unb(m['V']), [(unb(h['K']) or b'', unb(h['V'])) for h in m['H'] or []])))
        else:
            errs.append((m['Err'], m['Code']))
    for i, g in enumerate(got):
        want = (expect + opt)[i] if i < len(expect) + len(opt) else None
        if want is None:
            return 'record %d (offset %d of %s-%d) is emitted but not in the response, or twice' % (i, g[2][0], g[0], g[1])
        if g != (want[0], want[1], want[2]):
            f = [n for n, x, y in zip(('topic', 'partition'), g, want) if x != y] + [n for n, x, y in zip(('offset', 'timestamp', 'key', 'value', 'headers'), g[2], want[2]) if x != y]
            return 'record %d (offset %d of %s-%d): wrong %s, got %s' % (i, want[2][0], want[0], want[1], ', '.join(f), repr(g)[:120])
    if len(got) < len(expect):
        return '%d of %d records are emitted%s' % (len(got), len(expect), ' (error %r)' % (errs[0][0],) if errs else '')
    if err is not None and [c for _, c in errs] != [err]:
        return 'partition error %d is emitted as %r' % (err, errs)
    if err is None and expect and errs:
        return 'error %r for a well-formed response' % (errs,)
    if err is None and not expect and not opt and any(c > 0 for _, c in errs):
        return 'error %r is invented' % (errs,)
    if d['Err']:
        return 'streamDecode fails: ' + d['Err']
    if d['Lim'] or d['Left'] != extra:
        return 'the frame is not consumed exactly: %d bytes of it left, %d of %d bytes after it left' % (d['Lim'], d['Left'], extra)


def fetch_cases(rng, n):
    from runner import Case
    for _ in range(n):
        version, start, body, expect, opt, err = gen_case(rng)
        chunks = rng.choice([[], [1], [2, 3], [7], [rng.randint(1, 40) for _ in range(9)], [1000], [4096]])
        tail = b'NEXTFRAME'
        yield Case([{'fn': 'vFetch', 'args': [version, body + tail, len(body), chunks, start]}],
                   lambda a, s=start, e=expect, o=opt, x=err: judge(a, s, e, o, x, 9))


def c08(P):
    from runner import Job
    import fetch2 as F
    X = dict(extra=['fetch'], xfns=['vFetch'])
    D = F.D
    out = []

    def job(name, body, *fns):
        out.append(Job(name, body, cases=fetch_cases, fns=[D + 'streamDecode'], require=list(fns), **X))
    job('putMessage', F.put_job, D + 'putMessage')
    job('filterAndPutMessage', F.filter_job, D + 'filterAndPutMessage')
    job('DecodeToRecord', F.drec_job, F.DREC)
    job('read', F.read_job, D + 'read')
    for v in (0, 7, 10):
        job('decodeHeader v%d' % v, F.dheader_job(v), D + 'decodeHeader', D + 'read')
        job('decodePartitionResponse v%d' % v, F.part_job(v), D + 'decodePartitionResponse', D + 'decodeMessageSet')
    job('decodeRecordsMagic2', F.magic2_job, F.MAGIC2, F.DREC, F.UNC, D + 'filterAndPutMessage', D + 'read')
    job('decodeMessageSetMagic0or1', F.magic01_job, F.MAGIC01, F.MSET, D + 'filterAndPutMessage', D + 'read')
    job('decodeMessageSet', F.set_job, D + 'decodeMessageSet', F.MAGIC2, F.MAGIC01, D + 'read', D + 'readAll')
    job('decodeResponses', F.topics_job, D + 'decodeResponses', D + 'decodePartitionResponse', D + 'read')
    job('streamDecode', F.stream_job, D + 'streamDecode', D + 'decodeHeader', D + 'decodeResponses', D + 'readAll')
    for codec in (0, 1, 2, 3, None):
        job('uncompress %s' % codec, F.unc_job(codec), F.UNC)
    for magic in (0, 1):
        job('DecodeToMessageSet magic %d' % magic, F.mset_job(magic), F.MSET)
        job('DecodeToMessageSet of a compressed message, magic %d' % magic, F.wrapped_job(magic), F.MSET, F.UNC)
    job('decodeRecordsMagic2, cut batch', F.magic2_cut_job, F.MAGIC2, F.DREC, F.UNC, D + 'filterAndPutMessage', D + 'read')
    job('DecodeToRecord, cut record', F.drec_cut_job, F.DREC)
    return out
