"""Assumed contracts (models) of the standard library and third-party functions the code calls.
Every model that is used in a run is listed in the evidence as trusted."""
import re
from terms import *
import terms as T
from values import *
import machine as M
import solver
from solver import prove

NILERR = IfaceV(TRUE, None, None)


def err(kind, fmt, args=(), wraps=(), id=None):
    return IfaceV(FALSE, kind, ErrInfo(id if id is not None else next(T._vc), fmt, args, wraps))


def content(m, st, v):
    v = m.force(st, v)
    return v if isinstance(v, Sq) else m.content(st, v)


def variadic(m, st, v):
    """elements of a ...any argument as list"""
    v = m.force(st, v)
    if v.base is None:
        return []
    c = m.content(st, v)
    out = []
    for x in c.p:
        if x[0] == 'el':
            out += list(x[1])
        else:
            return None
    return out


def to_seq(m, st, data):
    """bytes binary.Write produces for data"""
    data = m.force(st, data)
    v, t = m.force(st, data.v), data.t
    if isinstance(t, str):
        raise Unsupported('binary.Write of unknown type')
    u = m.p.u(t)
    if isinstance(v, PtrV):
        return ser(m, st, m.load(st, v.tgt), m.p.u(t)['e'])
    return ser(m, st, v, t)


SIZES = {'int8': 1, 'uint8': 1, 'byte': 1, 'int16': 2, 'uint16': 2, 'int32': 4, 'uint32': 4, 'int64': 8, 'uint64': 8, 'rune': 4}


def ser(m, st, v, t):
    u = m.p.u(t)
    v = m.force(st, v)
    if u['k'] == 'basic':
        if u['name'] == 'bool':
            return be(1, ite(v, I(1), I(0)))
        if u['name'] in SIZES:
            return be(SIZES[u['name']], v)
        return None
    if u['k'] == 'slice':
        if m.p.is_byte(u['e']):
            return m.content(st, v)
        k = fresh('w', 0)
        (ka, _), = k.m
        c = m.content(st, v)
        out = []
        for x in c.p:
            if x[0] == 'el':
                for e in x[1]:
                    r = ser(m, st, e, u['e'])
                    if r is None:
                        return None
                    out.append(r)
            else:
                e = pelem(x, k, m.zero)
                r = ser(m, st, e, u['e'])
                if r is None:
                    return None
                out.append(rep(r, ka, I(0), plen(x)))
        return sq(*out)
    if u['k'] == 'struct':
        out = []
        for f, x in zip(u['fields'], v.f):
            r = ser(m, st, x, f['t'])
            if r is None:
                return None
            out.append(r)
        return sq(*out)
    return None


def bufptr(m, fr, st, v, ins):
    tgt = m.ptr(fr, st, v, ins.get('line', 0))
    b = m.load(st, tgt)
    if not isinstance(b, BufV):
        raise Unsupported('buffer %r' % (b,))
    return tgt, b


def buf_write(m, fr, st, p, s, ins):
    tgt, b = bufptr(m, fr, st, p, ins)
    m.store(st, tgt, BufV(sq(b.s, s)))


def write_iface(m, fr, st, w, s, ins):
    w = m.force(st, w)
    if not isinstance(w, IfaceV):
        raise Unsupported('writer')
    if isinstance(w.t, int) and m.p.name(w.t) == '*bytes.Buffer':
        buf_write(m, fr, st, w.v, s, ins)
        return
    raise Unsupported('write to %s' % (m.p.name(w.t) if isinstance(w.t, int) else w.t))


def io_copy(m, fr, st, args, ins):
    """io.Copy between buffers"""
    dst, src = m.force(st, args[0]), m.force(st, args[1])
    if not isinstance(src, IfaceV) or not isinstance(src.t, int) or m.p.name(src.t) != '*bytes.Buffer':
        raise Unsupported('io.Copy from %r' % (src,))
    tgt, b = bufptr(m, fr, st, src.v, ins)
    m.store(st, tgt, BufV(EMPTYSEQ))
    write_iface(m, fr, st, dst, b.s, ins)
    return (b.s.len, NILERR)


def put(n):
    def h(m, fr, st, args, ins):
        b, v = args[-2], args[-1]
        b = m.force(st, b)
        m.oblige(fr, st, 'index', le(I(n), b.len), ins.get('line', 0), 'Put of %d bytes into a slice of %r' % (n, b.len))
        m.write_bytes(st, b, I(0), be(n, v))
        return ()
    return h


def get(n):
    def h(m, fr, st, args, ins):
        b = m.force(st, args[-1])
        m.oblige(fr, st, 'index', le(I(n), b.len), ins.get('line', 0), 'read of %d bytes from a slice of %r' % (n, b.len))
        sub = SliceV(b.base, b.off, I(n), I(n), b.nil, b.et)
        return m.be_read(st, sub, n)
    return h


def appendn(n):
    def h(m, fr, st, args, ins):
        b, v = m.force(st, args[-2]), args[-1]
        return m.append(st, b, be(n, v))
    return h


def put_uvarint(m, fr, st, args, ins):
    b, v = m.force(st, args[0]), args[1]
    s = uv(v)
    m.oblige(fr, st, 'index', le(s.len, b.len), ins.get('line', 0), 'varint of %r bytes into %r' % (s.len, b.len))
    m.write_bytes(st, b, I(0), s)
    return s.len


def put_varint(m, fr, st, args, ins):
    return put_uvarint(m, fr, st, [args[0], zz(args[1])], ins)


def uvarint(m, fr, st, args, ins):
    b = m.force(st, args[0])
    s = m.content(st, b)
    v, n = seqops_head(m, st, s)
    return (v, n)


def seqops_head(m, st, s):
    import seqops
    return seqops.head_uvarint(s, st.pc)


def varint(m, fr, st, args, ins):
    import seqops
    b = m.force(st, args[0])
    v, n = seqops_head(m, st, m.content(st, b))
    return (seqops.unzz(v), n)


def binary_write(m, fr, st, args, ins):
    s = to_seq(m, st, args[2])
    if s is None:
        return err('err:new', 'binary.Write: invalid type')
    write_iface(m, fr, st, args[0], s, ins)
    return NILERR


def noop(m, fr, st, args, ins):
    return ()


def errors_new(m, fr, st, args, ins):
    return err('err:new', lit_value(args[0]), (args[0],))


def errorf(m, fr, st, args, ins):
    f = lit_value(args[0])
    a = variadic(m, st, args[1])
    wraps = ()
    if f is not None and a is not None and b'%w' in f:
        verbs = re.findall(rb'%[-+# 0]*[0-9.]*([a-zA-Z%])', f)
        verbs = [v for v in verbs if v != b'%']
        wraps = [a[i] for i, v in enumerate(verbs) if v == b'w' and i < len(a)]
    return err('err:fmt', f, a or (), wraps)


def err_is(m, fr, st, args, ins):
    e, t = m.force(st, args[0]), m.force(st, args[1])
    return _is(m, st, e, t)


def _is(m, st, e, t, depth=0):
    if depth > 6:
        raise Unsupported('errors.Is depth')
    e = m.force(st, e)
    r = m.equal(st, e, t)
    if e.t is None:
        return r
    if isinstance(e.t, str) and e.t.startswith('?'):
        k = m.iface_eq(st, e, t)
        return or_(r, and_(not_(e.nil), bapp('is$' + (k.a[0] if k.k == 'bapp' else str(next(T._vc))))))
    if isinstance(e.v, ErrInfo):
        for w in e.v.wraps:
            w = m.force(st, w)
            if isinstance(w, IfaceV):
                r = or_(r, and_(not_(e.nil), _is(m, st, w, t, depth + 1)))
        return r
    return r


def err_as(m, fr, st, args, ins):
    """errors.As(err, target): first error in the chain of the target's type"""
    e, t = m.force(st, args[0]), m.force(st, args[1])
    p = m.force(st, t.v)
    want = m.p.u(t.t)['e']
    if e.nil is not TRUE and e.nil is not FALSE:
        if not prove(st.pc, e.nil) and not prove(st.pc, not_(e.nil)):
            raise Split(e.nil)
    if e.nil is TRUE or e.nil is not FALSE and prove(st.pc, e.nil):
        return FALSE

    def walk(x, d=0):
        x = m.force(st, x)
        if not isinstance(x, IfaceV) or x.t is None:
            return None
        if isinstance(x.t, int):
            if x.t == want:
                return x.v
            return None
        if x.t.startswith('?'):
            k = m.dyn_type_is(st, x, want)
            if prove(st.pc, k):
                return m.typed_ghost(st, x, want)
            if prove(st.pc, not_(k)):
                return None
            raise Split(k)
        if isinstance(x.v, ErrInfo):
            for w in x.v.wraps:
                r = walk(w, d + 1)
                if r is not None:
                    return r
        return None
    v = walk(e)
    if v is None:
        return FALSE
    m.store(st, p.tgt, v)
    return TRUE


def sprintf(m, fr, st, args, ins):
    f = lit_value(args[0])
    a = variadic(m, st, args[1])
    if f is not None and a is not None:
        out, i, pos = [], 0, 0
        ok = True
        for mt in re.finditer(rb'%([a-zA-Z%])', f):
            out.append(lit(f[pos:mt.start()]))
            pos = mt.end()
            v = mt.group(1)
            if v == b'%':
                out.append(lit(b'%'))
                continue
            if i >= len(a):
                ok = False
                break
            x = m.force(st, a[i])
            i += 1
            s = fmt_one(m, fr, st, v, x)
            if s is None:
                ok = False
                break
            out.append(s)
        if ok:
            out.append(lit(f[pos:]))
            return sq(*out)
    return satom('sprintf!%d' % next(T._vc))


def fmt_one(m, fr, st, verb, x):
    if not isinstance(x, IfaceV) or not isinstance(x.t, int):
        return None
    v = m.force(st, x.v)
    if verb in (b's', b'v') and isinstance(v, Sq) and 'Error' not in m.p.methods.get(str(x.t), {}) and 'String' not in m.p.methods.get(str(x.t), {}):
        return v
    if verb in (b'd', b'v') and isinstance(v, Lin) and not m.p.methods.get(str(x.t)):
        return itoa_seq(v)
    return None


def itoa_seq(v):
    c = v.const()
    if c is not None:
        return lit(str(c).encode())
    return satom('itoa', (v,), 20)


def itoa(m, fr, st, args, ins):
    return itoa_seq(args[0])


def atoi(m, fr, st, args, ins):
    s = args[0]
    b = lit_value(s)
    if b is not None:
        try:
            if not re.fullmatch(rb'[+-]?[0-9]+', b):
                raise ValueError
            return (I(int(b)), NILERR)
        except ValueError:
            return (I(0), err('err:new', b'strconv.Atoi'))
    ok = bapp('atoi_ok', (s,))
    e = err('err:new', b'strconv.Atoi')
    v = app('atoi', (s,), -2**63, 2**63 - 1)
    return (ite(ok, v, I(0)), IfaceV(ok, e.t, e.v))


def s_split(m, fr, st, args, ins):
    a, b = lit_value(args[0]), lit_value(args[1])
    st_t = m.p.byname['string']
    if a is None or b is None:
        ln = app('splitn', (args[0], args[1]), 1, 2**31)
        if b is not None and m.split_pieces is not None:
            r = m.split_pieces(m, st, args[0], b)
            if r is not None:
                return r
        path = 'split$%s' % (b.decode('latin1') if b is not None else '?')
        o = m.alloc(st, Arr([('gh', st_t, path, (args[0],), I(0), ln)]))
        return SliceV(o, I(0), ln, ln, FALSE, st_t)
    ps = a.split(b) if b else [bytes([c]) for c in a]
    o = m.alloc(st, Arr([('el', tuple(lit(x) for x in ps))]))
    return SliceV(o, I(0), I(len(ps)), I(len(ps)), FALSE, st_t)


def s_case(name, f):
    def h(m, fr, st, args, ins):
        b = lit_value(args[0])
        if b is not None:
            return lit(f(b))
        return satom(name, (args[0],))
    return h


def s_contains(m, fr, st, args, ins):
    a, b = lit_value(args[0]), lit_value(args[1])
    if a is not None and b is not None:
        return B(b in a)
    return bapp('contains', (args[0], args[1]))


def crc_ieee(m, fr, st, args, ins):
    return crc(sq(lit(b'IEEE'), content(m, st, args[0])))


def crc_c(m, fr, st, args, ins):
    t = m.force(st, args[1])
    poly = None
    if isinstance(t, PtrV) and t.tgt is not None:
        v = m.load(st, t.tgt)
        if isinstance(v, OpaqueV) and v.kind == 'crctab':
            poly = v['poly'].const()
    if poly is None:
        raise Unsupported('crc table')
    return crc(sq(lit(b'%08x' % poly), content(m, st, args[0])))


def mktable(m, fr, st, args, ins):
    return PtrV(FALSE, (m.alloc(st, OpaqueV('crctab', poly=args[0])), ()))


# reflect (only what healerTags needs)
def r_typeof(m, fr, st, args, ins):
    x = m.force(st, args[0])
    return IfaceV(FALSE, 'rtype', OpaqueV('rtype', t=x.t))


def r_valueof(m, fr, st, args, ins):
    x = m.force(st, args[0])
    return OpaqueV('rvalue', t=x.t)


def r_numfield(m, fr, st, args, ins):
    t = args[0]['t']
    u = m.p.u(t)
    if u['k'] != 'struct':
        m.oblige(fr, st, 'panic', FALSE, ins.get('line', 0), 'reflect: NumField of non-struct')
    return I(len(u['fields']))


def r_field(m, fr, st, args, ins):
    t = args[0].v['t']
    i = args[1].const()
    if i is None:
        raise Unsupported('reflect field index')
    f = m.p.fields(t)[i]
    sf = m.p.byname['reflect.StructField']
    fs = m.p.u(sf)['fields']
    vals = []
    for x in fs:
        if x['n'] == 'Name':
            vals.append(lit(f['n'].encode()))
        elif x['n'] == 'Tag':
            vals.append(lit((f.get('tag') or '').encode()))
        else:
            vals.append(Unk('reflect'))
    return StructV(sf, vals)


def r_tagget(m, fr, st, args, ins):
    tag, key = lit_value(args[0]), lit_value(args[1])
    if tag is None or key is None:
        raise Unsupported('tag')
    for k, v in re.findall(rb'([^ \x00-\x1f:"]+):"((?:[^"\\]|\\.)*)"', tag):
        if k == key:
            return lit(v.replace(b'\\"', b'"'))
    return lit(b'')


# atomic.Value
def av_load(m, fr, st, args, ins):
    v = m.load(st, m.ptr(fr, st, args[0], ins.get('line', 0)))
    if isinstance(v, OpaqueV) and v.kind == 'atomic.Value' and 'v' in v.d:
        return v['v']
    if isinstance(v, OpaqueV) and v.d.get('path', '').startswith('global.'):
        return IfaceV(TRUE, None, None)     # a package-level cache: cold (assumed; the warm value is what the code stored)
    raise Unsupported('atomic.Value.Load of symbolic value')


def av_store(m, fr, st, args, ins):
    tgt = m.ptr(fr, st, args[0], ins.get('line', 0))
    m.store(st, tgt, OpaqueV('atomic.Value', v=args[1]))
    return ()


# bytes.Buffer
def b_new(m, fr, st, args, ins):
    return PtrV(FALSE, (m.alloc(st, BufV(content(m, st, args[0]))), ()))


def b_bytes(m, fr, st, args, ins):
    tgt, b = bufptr(m, fr, st, args[0], ins)
    n = b.s.len
    nil = FALSE if n.lo is not None and n.lo > 0 else and_(eq(n, I(0)), bapp('bufnil!%d' % next(T._vc)))
    if not tgt[1] and isinstance(tgt[0], int):
        return SliceV(tgt[0], I(0), n, n, nil, m.byte_t)
    s = m.new_bytes(st, b.s)
    return SliceV(s.base, s.off, s.len, s.cap, nil, s.et)


def b_len(m, fr, st, args, ins):
    return bufptr(m, fr, st, args[0], ins)[1].s.len


def b_write(m, fr, st, args, ins):
    s = content(m, st, args[1])
    buf_write(m, fr, st, args[0], s, ins)
    return (s.len, NILERR)


def b_writebyte(m, fr, st, args, ins):
    buf_write(m, fr, st, args[0], be(1, args[1]), ins)
    return NILERR


def logger(m, fr, st, args, ins):
    return OpaqueV('logger')


def joinhostport(m, fr, st, args, ins):
    a, b = args
    return sq(sg('fn', 'joinhostport', (a, b)))


def murmur(m, fr, st, args, ins):
    return app('murmur', (content(m, st, args[0]), args[1]), 0, 2**32 - 1)


def rand31(m, fr, st, args, ins):
    m.oblige(fr, st, 'panic', lt(I(0), args[0]), ins.get('line', 0), 'Int31n of a non-positive number')
    r = fresh('rnd', 0)
    st.assume(lt(r, args[0]))
    return r


def now(m, fr, st, args, ins):
    return OpaqueV('ext:time.Time', id=next(T._vc))


def time_int(m, fr, st, args, ins):
    return fresh('time', -2**63, 2**63 - 1)


def ident(m, fr, st, args, ins):
    return args[0]


def opq(kind):
    def h(m, fr, st, args, ins):
        return OpaqueV(kind, id=next(T._vc))
    return h


def unk_str(m, fr, st, args, ins):
    return satom('str!%d' % next(T._vc))


def limit_reader(m, fr, st, args, ins):
    t = m.p.byname['io.LimitedReader']
    f = [None, None]
    f[m.p.field_index(t, 'R')], f[m.p.field_index(t, 'N')] = args[0], args[1]
    o = m.alloc(st, StructV(t, f))
    return (IfaceV(FALSE, m.p.byname['*io.LimitedReader'], PtrV(FALSE, (o, ()))),)


def install(m):
    m.split_pieces = None
    be_ = '(encoding/binary.bigEndian).'
    d = m.intr = {
        be_ + 'PutUint16': put(2), be_ + 'PutUint32': put(4), be_ + 'PutUint64': put(8),
        be_ + 'Uint16': get(2), be_ + 'Uint32': get(4), be_ + 'Uint64': get(8),
        be_ + 'AppendUint16': appendn(2), be_ + 'AppendUint32': appendn(4), be_ + 'AppendUint64': appendn(8),
        'encoding/binary.PutUvarint': put_uvarint, 'encoding/binary.PutVarint': put_varint,
        'encoding/binary.Uvarint': uvarint, 'encoding/binary.Varint': varint,
        'encoding/binary.Write': binary_write, 'io.Copy': io_copy,
        '(*bytes.Buffer).Bytes': b_bytes, '(*bytes.Buffer).Len': b_len, '(*bytes.Buffer).Write': b_write,
        '(*bytes.Buffer).WriteString': b_write, '(*bytes.Buffer).WriteByte': b_writebyte, 'bytes.NewBuffer': b_new,
        'errors.New': errors_new, 'errors.Is': err_is, 'errors.As': err_as, 'fmt.Errorf': errorf, 'fmt.Sprintf': sprintf,
        '(github.com/go-logr/logr.Logger).Info': noop, '(github.com/go-logr/logr.Logger).Error': noop,
        '(github.com/go-logr/logr.Logger).V': logger, '(github.com/go-logr/logr.Logger).WithName': logger,
        'k8s.io/klog/v2.NewKlogr': logger,
        'strings.Split': s_split, 'strings.ToUpper': s_case('upper', bytes.upper), 'strings.ToLower': s_case('lower', bytes.lower),
        'strings.Contains': s_contains, 'strconv.Itoa': itoa, 'strconv.Atoi': atoi,
        'hash/crc32.ChecksumIEEE': crc_ieee, 'hash/crc32.Checksum': crc_c, 'hash/crc32.MakeTable': mktable,
        'reflect.TypeOf': r_typeof, 'reflect.ValueOf': r_valueof, '(reflect.Value).NumField': r_numfield,
        '(rtype).Field': r_field, '(reflect.StructTag).Get': r_tagget,
        '(*sync/atomic.Value).Load': av_load, '(*sync/atomic.Value).Store': av_store,
        'net.JoinHostPort': joinhostport, 'github.com/aviddiviner/go-murmur.MurmurHash2': murmur,
        'math/rand.Int31n': rand31, 'time.Now': now, '(time.Time).UnixMilli': time_int, '(time.Time).UnixNano': time_int,
        '(time.Time).Add': now, 'time.Sleep': noop,
        '(*sync.Mutex).Lock': noop, '(*sync.Mutex).Unlock': noop,
        '(*sync.WaitGroup).Add': noop, '(*sync.WaitGroup).Done': noop, '(*sync.WaitGroup).Wait': noop,
        'context.Background': lambda m, fr, st, args, ins: IfaceV(FALSE, 'ctx', OpaqueV('ctx')),
    }
    m.intr['io.LimitReader'] = limit_reader
    m.intr_pre = []
    for k in ('sync', 'bytes', 'errors'):
        pass
    m.be_read = lambda st, sl, n: be_value_of(m, st, sl, n)


def be_value_of(m, st, sl, n):
    return be_value(m.content(st, sl), st.pc)
