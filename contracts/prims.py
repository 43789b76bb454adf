"""Contracts of the shared encoding helpers: verified once per run, then used at call sites."""
from wire import *
from terms import *
from values import *
from machine import State
from seqops import seq_eq

# name -> (kinds of the parameters that make up the value, wire kind)
ENC = {
    'encodeString': STR,
    'encodeCompactString': CSTR,
    'encodeNullableString': NSTR,
    'encodeCompactNullableString': CNSTR,
    'encodeCompactBytes': CBYTES,
    'encodeNullableBytes': NBYTES,
    'encodeCompactNullableBytes': CNBYTES,
    '(TaggedFields).Encode': TAGS,
}
WRITE = {
    'writeString': STR,
    'writeCompactString': CSTR,
    'writeNullableString': NSTR,
    'writeCompactNullableString': CNSTR,
}


def enc_job(name, kind):
    """ensures result == kind(value)"""
    def body(c):
        m = c.m
        f = m.p.funcs[name]
        st = State()
        v = m.force(st, Ghost(f['params'][0]['t'], name + '.v'))
        spec = kind.sym(m, st, v)
        n = 0
        for s, (res,) in m.call_fn(name, [v], st):
            n += 1
            res = m.force(s, res)
            c.post('ensures: %s returns the documented bytes' % name, s, lambda s: seq_eq(m.content(s, res), spec, s.pc), name)
        return n
    return body


def arrlen_job(name='encodeCompactArrayLength'):
    """requires l >= -1; ensures result == uvarint(l+1)"""
    def body(c):
        m = c.m
        st = State()
        l = app(name + '.l', (), -1, 2**31 - 2)
        n = 0
        for s, (res,) in m.call_fn(name, [l], st):
            n += 1
            res = m.force(s, res)
            c.post('ensures: %s returns uvarint(l+1)' % name, s, lambda s: seq_eq(m.content(s, res), uv(l + 1), s.pc), name)
        return n
    return body


def write_job(name, kind):
    """ensures the bytes written to w are kind(value), n their number, err nil (for a writer that accepts everything)"""
    def body(c):
        m = c.m
        f = m.p.funcs[name]
        st = State()
        v = m.force(st, Ghost(f['params'][1]['t'], name + '.v'))
        o = m.alloc(st, BufV(EMPTYSEQ))
        w = IfaceV(FALSE, m.p.byname['*bytes.Buffer'], PtrV(FALSE, (o, ())))
        spec = kind.sym(m, st, v)
        n = 0
        for s, (cnt, err) in m.call_fn(name, [w, v], st):
            n += 1

            def chk(s):
                e = m.force(s, err)
                need(s.pc, e.nil, 'an error is returned')
                seq_eq(s.heap[o].s, spec, s.pc)
                need(s.pc, eq(cnt, spec.len), 'count %r instead of %r' % (cnt, spec.len))
            c.post('ensures: %s writes the documented bytes' % name, s, chk, name)
        return n
    return body


def tags_encodeto_job(c):
    """requires len(payload) >= |TAGS(r)|; and payload zeroed; ensures payload == TAGS(r) ++ zeros, result n"""
    m = c.m
    st = State()
    f = m.p.funcs['(TaggedFields).EncodeTo']
    v = m.force(st, Ghost(f['params'][0]['t'], 'r'))
    spec = TAGS.sym(m, st, v)
    extra = app('extra', (), 0, 2**40)
    L = spec.len + extra
    o = m.alloc(st, zero(L))
    n = 0
    for s, (cnt,) in m.call_fn('(TaggedFields).EncodeTo', [v, SliceV(o, I(0), L, L, FALSE, m.byte_t)], st):
        n += 1

        def chk(s):
            seq_eq(s.heap[o], sq(spec, zero(extra)), s.pc)
            need(s.pc, eq(cnt, spec.len), 'count %r' % (cnt,))
        c.post('ensures: EncodeTo writes the documented bytes', s, chk, '(TaggedFields).EncodeTo')
    return n


JOBS = {n: enc_job(n, k) for n, k in ENC.items()}
JOBS.update({n: write_job(n, k) for n, k in WRITE.items()})
JOBS['encodeCompactArrayLength'] = arrlen_job()
JOBS['(TaggedFields).EncodeTo'] = tags_encodeto_job


# ------------------------------------------------------------------ use at call sites
def use_enc(kind):
    def h(m, fr, st, args, ins):
        v = m.force(st, args[0])
        try:
            s = kind.sym(m, st, v)
        except (AttributeError, TypeError):
            return NotImplemented
        return [(st, (m.new_bytes(st, s),))]
    return h


def use_arrlen(m, fr, st, args, ins):
    l = args[0]
    m.oblige(fr, st, 'requires', le(I(-1), l), ins.get('line', 0), 'encodeCompactArrayLength requires l >= -1')
    return [(st, (m.new_bytes(st, uv(l + 1)),))]


def use_tags_encodeto(m, fr, st, args, ins):
    v, b = m.force(st, args[0]), m.force(st, args[1])
    s = TAGS.sym(m, st, v)
    old = m.content(st, b)
    if not isinstance(old, Sq) or any(x.k != 'zero' for x in old.a):
        return NotImplemented
    m.oblige(fr, st, 'requires', le(s.len, b.len), ins.get('line', 0), 'EncodeTo requires room for the tagged fields: %r in %r' % (s.len, b.len))
    m.write_bytes(st, b, I(0), s)
    return [(st, (s.len,))]


def use_dec_tags(m, fr, st, args, ins):
    """payload == TAGS(v) ++ rest  ->  (v, |TAGS(v)|)"""
    c = m.content(st, m.force(st, args[0]))
    if not isinstance(c, Sq) or len(c.a) < 2 or c.a[0].k != 'uv' or c.a[1].k != 'rep':
        return NotImplemented
    lvl, body, lo, hi = c.a[1].a
    n = c.a[0].a[0]
    if lo.const() != 0 or hi is not n or len(body.a) != 3:
        return NotImplemented
    t, l, d = body.a
    if t.k != 'uv' or l.k != 'uv' or d.k != 'atom' or l.a[0] is not d.len:
        return NotImplemented
    tv = t.a[0]
    if tv.lo is None or tv.lo < 0 or tv.hi is None or tv.hi > 2**31 - 1 or d.len.hi is None or d.len.hi > 2**31 - 2 or n.hi is None or n.hi > 2**31 - 2:
        return NotImplemented
    k = fresh('tg', 0)
    (ka, _), = k.m
    et = m.p.u(m.p.funcs['DecodeTaggedFields']['results'][0]['t'])['e']
    fs = [None, None]
    dd = subst(sq(d), {BV(lvl): k})
    fs[m.p.field_index(et, 'Tag')] = subst(tv, {BV(lvl): k})
    fs[m.p.field_index(et, 'Data')] = SliceV(dd, I(0), dd.len, dd.len, FALSE, m.byte_t)
    o = m.alloc(st, Arr([('lam', ka, I(0), n, StructV(et, fs))]))
    used = c.a[0].len + c.a[1].len
    return [(st, (SliceV(o, I(0), n, n, FALSE, et), used))]


USE = {n: use_enc(k) for n, k in ENC.items()}
USE['DecodeTaggedFields'] = use_dec_tags
USE['encodeCompactArrayLength'] = use_arrlen
USE['(TaggedFields).EncodeTo'] = use_tags_encodeto


VERIFIED = set()     # names of helpers (or (name, api, version)) whose contract was discharged in this run


def install(m, verified):
    for n in verified:
        if n in USE and n in m.p.funcs:
            m.contracts[n] = USE[n]
    ok = {n[1:] for n in verified if isinstance(n, tuple) and n[0] == 'length'}
    if ok:
        m.contracts['(*RequestHeader).length'] = use_header_length(ok)
    ok = {n[1:] for n in verified if isinstance(n, tuple) and n[0] == 'EncodeTo'}
    if ok:
        m.contracts['(*RequestHeader).EncodeTo'] = use_header_encode(ok)


# ------------------------------------------------------------------ request header
def header_kind(api, v):
    return HDR2 if is_flex(api, v) else HDR1


HDR1 = Struct(('APIKey', U16), ('APIVersion', U16), ('CorrelationID', U32), ('ClientID', NSTR))
HDR2 = Struct(('APIKey', U16), ('APIVersion', U16), ('CorrelationID', U32), ('ClientID', NSTR), ('TaggedFields', TAGS))


def arb_header(m, st, api, v, path='h'):
    """arbitrary header of api/version v; hv absent or right"""
    hv = 2 if is_flex(api, v) else 1
    m.over[path + '.APIKey'] = lambda m, st, g: I(api)
    m.over[path + '.APIVersion'] = lambda m, st, g: I(v)
    o = m.alloc(st, I(hv))
    m.over[path + '.hv'] = lambda m, st, g: PtrV(bapp(g.path + '#nil', ()), (o, ()))
    m.nonnil.add(path)
    return m.force(st, Ghost(m.p.byname['*RequestHeader'], path))


def header_length_job(api, v):
    """ensures result >= |header|"""
    def body(c):
        m = c.m
        install(m, VERIFIED)
        st = State()
        h = arb_header(m, st, api, v)
        spec = header_kind(api, v).sym(m, st, h)
        n = 0
        for s, (res,) in m.call_fn('(*RequestHeader).length', [h], st):
            n += 1
            c.post('ensures: header length %d/%d covers the header' % (api, v), s,
                   lambda s: need(s.pc, le(spec.len, res), '%r is less than %r' % (res, spec.len)), '(*RequestHeader).length')
        return n
    return body


def header_encode_job(api, v):
    """requires room; ensures payload == header ++ rest, result == |header|, and afterwards hv absent or right"""
    def body(c):
        m = c.m
        install(m, VERIFIED)
        st = State()
        h = arb_header(m, st, api, v)
        spec = header_kind(api, v).sym(m, st, h)
        extra = app('extra', (), 0, 2**40)
        L = spec.len + extra
        o = m.alloc(st, zero(L))
        n = 0
        for s, (cnt,) in m.call_fn('(*RequestHeader).EncodeTo', [h, SliceV(o, I(0), L, L, FALSE, m.byte_t)], st):
            n += 1

            def chk(s):
                seq_eq(s.heap[o], sq(spec, zero(extra)), s.pc)
                need(s.pc, eq(cnt, spec.len), 'count %r' % (cnt,))
                check_hv(m, s, h, api, v)
            c.post('ensures: header %d/%d is encoded as documented' % (api, v), s, chk, '(*RequestHeader).EncodeTo')
        return n
    return body


def check_hv(m, s, h, api, v):
    p = getf(m, s, h, 'hv')
    if isinstance(p, PtrV) and p.tgt is not None and not prove(s.pc, p.nil):
        s2 = s.copy()
        s2.assume(not_(p.nil))
        x = m.force(s2, m.load(s2, p.tgt))
        need(s2.pc, eq(x, I(2 if is_flex(api, v) else 1)), 'cached header version %r' % (x,))


def setversion_job(api, v0, v1):
    """ensures APIVersion == v1 and the cached header version is absent or right for v1"""
    def body(c):
        m = c.m
        st = State()
        h = arb_header(m, st, api, v0)
        n = 0
        for s, _ in m.call_fn('(*RequestHeader).SetVersion', [h, I(v1)], st):
            n += 1

            def chk(s):
                need(s.pc, eq(getf(m, s, h, 'APIVersion'), I(v1)), 'version not set')
                need(s.pc, eq(getf(m, s, h, 'APIKey'), I(api)), 'api key changed')
                check_hv(m, s, h, api, v1)
            c.post('ensures: SetVersion(%d) of api %d at version %d' % (v1, api, v0), s, chk, '(*RequestHeader).SetVersion')
        return n
    return body


def use_header_length(ok):
    def h(m, fr, st, args, ins):
        g, api, v = header_of(m, st, args[0])
        if (api, v) not in ok or not is_flex(api, v):
            return NotImplemented
        spec = HDR2.sym(m, st, g)
        L = fresh('hlen', 0, 2**40)
        st.assume(le(spec.len, L))
        return [(st, (L,))]
    return h


def header_of(m, st, a):
    g = m.force(st, a)
    if not isinstance(g, PtrV):
        return None, None, None
    try:
        return g, getf(m, st, g, 'APIKey').const(), getf(m, st, g, 'APIVersion').const()
    except (AttributeError, TypeError):
        return None, None, None


def use_header_encode(ok):
    def h(m, fr, st, args, ins):
        g, api, v = header_of(m, st, args[0])
        if (api, v) not in ok:
            return NotImplemented
        b = m.force(st, args[1])
        s = header_kind(api, v).sym(m, st, g)
        old = m.content(st, b)
        if not isinstance(old, Sq) or any(x.k != 'zero' and not (x.k == 'lit' and not any(x.a[0])) for x in old.a):
            return NotImplemented
        m.oblige(fr, st, 'requires', le(s.len, b.len), ins.get('line', 0), 'RequestHeader.EncodeTo requires room for the header: %r in %r' % (s.len, b.len))
        m.write_bytes(st, b, I(0), s)
        return [(st, (s.len,))]
    return h


def setversion_cases(api, v0, v1):
    """send with v0 (which caches the header version), then with v1: the header is the one of v1"""
    from runner import Case
    from replay import unb64

    def cases(rng, n):
        for _ in range(min(n, 4)):
            hdr = {'APIKey': api, 'APIVersion': v0, 'CorrelationID': rng.randint(0, 2**32 - 1), 'ClientID': rng.choice([None, b'', b'healer']),
                   'TaggedFields': TAGS.gen(rng, 0)}
            want = header_kind(api, v1).py(dict(hdr, APIVersion=v1))

            def check(a, want=want):
                if 'panic' in a:
                    return 'SetVersion/EncodeTo panics: ' + a['panic']
                o = a['res'][2]
                k = o['r'][0]
                got = unb64(o['a'][1])[:k]
                if got != want:
                    return 'header of api %d sent with version %d, then %d: %s instead of %s' % (api, v0, v1, got.hex(), want.hex())
            yield Case([{'fn': '(*RequestHeader).EncodeTo', 'args': [hdr, b'\0' * 2000]},
                        {'fn': '(*RequestHeader).SetVersion', 'args': [{'$': [0, 1]}, v1]},
                        {'fn': '(*RequestHeader).EncodeTo', 'args': [{'$': [0, 1]}, b'\0' * 2000]}], check)
    return cases


# ------------------------------------------------------------------ decoders of primitives
DEC = {
    'nonnullableString': STR,
    'compactString': CSTR,
    'nullableString': NSTR,
    'compactNullableString': CNSTR,
    'compactBytes': CBYTES,
    'nullableBytes': NBYTES,
    'compactNullableBytes': CNBYTES,
    'DecodeTaggedFields': TAGS,
}


def dec_job(name, kind):
    """requires payload == kind(v) ++ rest; ensures result == v and count == |kind(v)|"""
    def body(c):
        m = c.m
        st = State()
        s, e = kind.wire(c, name + '.v', ())
        pl = m.new_bytes(st, sq(s, satom('rest', (), 2**40)))
        n = 0
        for s1, (res, cnt) in m.call_fn(name, [pl], st):
            n += 1

            def chk(s2):
                match(m, s2, e, res)
                need(s2.pc, eq(cnt, s.len), 'count %r instead of %r' % (cnt, s.len))
            c.post('ensures: %s reads back the value and its size' % name, s1, chk, name)
        return n
    return body


def arrlen_dec_job(name='compactArrayLength'):
    def body(c):
        m = c.m
        st = State()
        l = app(name + '.l', (), -1, 2**31 - 2)
        u = uv(l + 1)
        pl = m.new_bytes(st, sq(u, satom('rest', (), 2**40)))
        n = 0
        for s1, (res, cnt) in m.call_fn(name, [pl], st):
            n += 1

            def chk(s2):
                need(s2.pc, eq(res, l), 'value %r' % (res,))
                need(s2.pc, eq(cnt, u.len), 'count %r instead of %r' % (cnt, u.len))
            c.post('ensures: %s reads back the value and its size' % name, s1, chk, name)
        return n
    return body


DJOBS = {n: dec_job(n, k) for n, k in DEC.items()}
DJOBS['compactArrayLength'] = arrlen_dec_job()


# ------------------------------------------------------------------ concrete inputs
def lens(rng, null):
    n = rng.choice([0, 1, 2, 126, 127, 128, 129, 16382, 16383, 16384, 32767, rng.randint(0, 400)])
    if null and rng.random() < 0.25:
        return None
    return bytes(rng.getrandbits(8) for _ in range(n))


def genval(kind, rng):
    if isinstance(kind, Str):
        return lens(rng, kind.null == 'yes')
    if isinstance(kind, Tags):
        return [{'Tag': rng.choice([0, 1, 127, 128, 16383, 16384, 2**31 - 1]), 'Data': lens(rng, False)} for _ in range(rng.choice([0, 0, 1, 2, 130 if rng.random() < .1 else 3]))]
    return kind.gen(rng, 0)


def enc_cases(name, kind):
    from runner import Case
    from replay import unb64

    def cases(rng, n):
        for _ in range(n):
            v = genval(kind, rng)
            want = kind.py(v)

            def check(a, want=want):
                if 'panic' in a:
                    return name + ' panics: ' + a['panic']
                got = unb64(a['res'][0]['r'][0]) or b''
                if got != want:
                    return '%s: %s instead of %s' % (name, short(got), short(want))
            yield Case([{'fn': name, 'args': [v]}], check)
    return cases


def write_cases(name, kind):
    from runner import Case
    from replay import unb64

    def cases(rng, n):
        for _ in range(n):
            v = genval(kind, rng)
            want = kind.py(v)

            def check(a, want=want):
                if 'panic' in a:
                    return name + ' panics: ' + a['panic']
                o = a['res'][0]
                got = unb64(o['a'][0]['buffer'])
                if o['r'][1] is not None:
                    return '%s returns an error' % name
                if got != want or o['r'][0] != len(want):
                    return '%s: %s (%d) instead of %s' % (name, short(got), o['r'][0], short(want))
            yield Case([{'fn': name, 'args': [{'buffer': 1}, v]}], check)
    return cases


def encodeto_cases(name='(TaggedFields).EncodeTo'):
    from runner import Case
    from replay import unb64

    def cases(rng, n):
        for _ in range(n):
            v = genval(TAGS, rng)
            want = TAGS.py(v)
            extra = rng.choice([0, 0, 1, 7])

            def check(a, want=want, extra=extra):
                if 'panic' in a:
                    return name + ' panics: ' + a['panic']
                o = a['res'][0]
                got = unb64(o['a'][1])
                if o['r'][0] != len(want) or got != want + b'\0' * extra:
                    return '%s: %s (%d) instead of %s' % (name, short(got), o['r'][0], short(want))
            yield Case([{'fn': name, 'args': [v, b'\0' * (len(want) + extra)]}], check)
    return cases


def arrlen_cases(name='encodeCompactArrayLength'):
    from runner import Case
    from replay import unb64

    def cases(rng, n):
        for _ in range(n):
            l = rng.choice([-1, 0, 1, 126, 127, 128, 16382, 16383, 2**31 - 2, rng.randint(0, 2**31 - 2)])

            def check(a, l=l):
                if 'panic' in a:
                    return name + ' panics: ' + a['panic']
                if unb64(a['res'][0]['r'][0]) != pyuv(l + 1):
                    return '%s(%d) = %r' % (name, l, a['res'][0]['r'][0])
            yield Case([{'fn': name, 'args': [l]}], check)
    return cases


def dec_cases(name, kind):
    from runner import Case

    def cases(rng, n):
        for _ in range(n):
            v = genval(kind, rng)
            w = kind.py(v)
            rest = bytes(rng.choice([0, 1, 255, rng.getrandbits(8)]) for _ in range(rng.choice([0, 0, 1, 5, 40])))

            def check(a, v=v, w=w):
                if 'panic' in a:
                    return name + ' panics: ' + a['panic']
                o = a['res'][0]['r']
                try:
                    kind.agree(v, o[0])
                except Bad as e:
                    return '%s: %s' % (name, e)
                if o[1] != len(w):
                    return '%s reports %d bytes instead of %d' % (name, o[1], len(w))
            yield Case([{'fn': name, 'args': [w + rest]}], check)
    return cases


def arrlen_dec_cases(name='compactArrayLength'):
    from runner import Case

    def cases(rng, n):
        for _ in range(n):
            l = rng.choice([-1, 0, 1, 126, 127, 128, 16382, 16383, 2**31 - 2, rng.randint(0, 2**31 - 2)])
            w = pyuv(l + 1)

            def check(a, l=l, w=w):
                if 'panic' in a:
                    return name + ' panics: ' + a['panic']
                if a['res'][0]['r'] != [l, len(w)]:
                    return '%s: %r instead of %r' % (name, a['res'][0]['r'], [l, len(w)])
            yield Case([{'fn': name, 'args': [w + bytes([255, 0, 1])]}], check)
    return cases


CASES = {n: enc_cases(n, k) for n, k in ENC.items()}
CASES.update({n: write_cases(n, k) for n, k in WRITE.items()})
CASES.update({n: dec_cases(n, k) for n, k in DEC.items()})
CASES['encodeCompactArrayLength'] = arrlen_cases()
CASES['compactArrayLength'] = arrlen_dec_cases()
CASES['(TaggedFields).EncodeTo'] = encodeto_cases()
