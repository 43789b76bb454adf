"""C11 (version selection): contracts of Broker.getHighestAvailableAPIVersion, Broker.Request, requestFetchStreamingly."""
from wire import *
from terms import *
from values import *
from machine import State
from seqops import seq_eq, slice_seq, be_value
from solver import prove
from settings import isnil, holds, elem, ground_indices
import requests_ as R
from scenario import SCN
import solver
import terms as T

HIGH = '(*Broker).getHighestAvailableAPIVersion'
# the versions the client implements, per API (the contracts of C01 to C08 are discharged for exactly these)
VERSIONS = {0: [9, 0], 1: [10, 7, 0], 2: [1, 0], 3: [7, 4, 1], 8: [2, 0], 9: [1, 0], 16: [5, 4, 3, 2, 1, 0], 17: [1, 0],
            29: [2, 1, 0], 30: [3, 2, 1, 0], 31: [3, 2, 1, 0], 37: [2, 0]}


def high_job(api):
    """ensures: the result is the highest implemented version the broker advertises for this API, 0 when there is none"""
    def body(c):
        m = c.m
        st = State()
        m.nonnil.add('b')
        b = m.force(st, Ghost(m.p.byname['*Broker'], 'b'))
        if api is None:
            key = app('apiKey', (), 0, 65535)
            for k in VERSIONS:
                st.assume(not_(eq(key, I(k))))
        else:
            key = I(api)
        vs = VERSIONS.get(api, [])
        tab = m.force(st, getf(m, st, b, 'apiVersions'))
        n = 0

        def adv(s, j, v):
            e = elem(m, s, tab, j)
            k, lo, hi = [m.force(s, getf(m, s, e, f)) for f in ('apiKey', 'minVersion', 'maxVersion')]
            return and_(eq(k, key), le(lo, v), le(v, hi))
        for s1, (r,) in m.call_fn(HIGH, [b, key], st, merge=False):
            n += 1

            def chk(s):
                g = m.force(s, r)
                got = None
                for v in sorted(set(vs) | {0}):
                    if holds(s, eq(g, I(v))):
                        got = v
                        break
                if got is None:
                    raise Mismatch('version %r is not one the client implements' % (g,), s.pc)
                for v in vs:
                    if v > got:
                        s2 = s.copy()
                        j = fresh('j', 0)
                        s2.assume(lt(j, tab.len))
                        need(s2.pc, not_(adv(s2, j, I(v))), 'version %d is chosen although version %d may be supported by both sides' % (got, v))
                if got != 0:
                    for j in ground_indices(m, s, ()):
                        if prove(s.pc, and_(le(I(0), j), lt(j, tab.len))) and prove(s.pc, adv(s, j, I(got))):
                            return
                    raise Mismatch('version %d is chosen although the broker may not support it' % got, s.pc)
            c.post('ensures: the version chosen for api %s is the best both sides support' % api, s1, chk, HIGH)
        return n
    return body


def high_cases(api):
    from runner import Case

    def cases(rng, n):
        for _ in range(n):
            ent = []
            for k in rng.sample(sorted(set(list(VERSIONS) + [10, 11, 32, 200])), rng.randint(0, 8)) + ([api] if api is not None and rng.random() < 0.8 else []):
                lo = rng.choice([0, 0, 0, 1, 2, 3, 5])
                ent.append({'apiKey': k, 'minVersion': lo, 'maxVersion': rng.choice([lo, lo + 1, lo + 2, lo + 3, lo + 9, 12])})
            rng.shuffle(ent)
            key = api if api is not None else rng.choice([4, 5, 10, 11, 12, 18, 32, 45, 200, 65535])
            ok = [v for v in VERSIONS.get(key, []) if any(e['apiKey'] == key and e['minVersion'] <= v <= e['maxVersion'] for e in ent)]
            want = max(ok) if ok else 0

            def check(a, ent=ent, key=key, want=want):
                if 'panic' in a:
                    return a['panic']
                g = a['res'][0]['r'][0]
                if g != want:
                    return 'api %d: version %r is chosen instead of %d with %r' % (key, g, want, [e for e in ent if e['apiKey'] == key])
            yield Case([{'fn': HIGH, 'args': [{'apiVersions': ent}, key]}], check)
    return cases



def c11(P):
    from runner import Job
    out = []
    for api in list(VERSIONS) + [None]:
        out.append(Job('version of api %s' % ('not listed' if api is None else api), high_job(api), cases=high_cases(api), fns=[HIGH]))
    return out


# ---------------------------------------------------------------- the request path
import world as W


def any_frame():
    body = sq(be(2, app('f.api', (), 0, 65535)), be(2, app('f.version', (), 0, 65535)), be(4, app('f.corr', (), 0, 2**32 - 1)), satom('frame', (), 2**31 - 20))
    return sq(be(4, body.len), body)


def abstract_request(m, st):
    """the Request interface: its implementations are verified by C01 to C03"""
    api = app('r.api', (), 0, 67)
    frame = any_frame()
    c = m.contracts
    c['(iface Request).API'] = lambda m, fr, st, a, ins: (api,)
    c['(iface Request).SetCorrelationID'] = W.record('SetCorrelationID')
    c['(iface Request).SetVersion'] = W.record('SetVersion')
    c['(iface Request).Encode'] = W.record('Encode', lambda m, st, a: m.new_bytes(st, frame))
    rt = m.p.funcs['(*Broker).Request']['params'][1]['t']
    r = m.force(st, Ghost(rt, 'r'))
    st.assume(not_(r.nil))
    return r, api, frame


def abstract_high(m):
    """contract of getHighestAvailableAPIVersion (discharged by the jobs above): a function of the API"""
    m.contracts[HIGH] = lambda m, fr, st, a, ins: [(st, (best(m.force(st, a[1])),))]


def best(api):
    return app('best', (api,), 0, 65535)


REQ = '(*Broker).Request'


def request_job(what):
    def body(c):
        m = c.m
        st = State()
        m.nonnil |= {'b', 'b.config'}
        b = m.force(st, Ghost(m.p.byname['*Broker'], 'b'))
        W.net(m)
        abstract_high(m)
        r, api, frame = abstract_request(m, st)
        conn = m.force(st, getf(m, st, b, 'conn'))
        st.assume(not_(conn.nil))
        cid = m.force(st, getf(m, st, b, 'correlationID'))
        n = 0
        for s1, (rp, err) in m.call_fn(REQ, [b, r], st, merge=False):
            n += 1

            def chk(s):
                enc = W.evs(s, 'Encode')
                wr = W.evs(s, 'write')
                if len(enc) != 1 or len(wr) != 1:
                    raise Mismatch('the request is encoded %d times and written %d times' % (len(enc), len(wr)), s.pc)
                i = s.ev.index(enc[0])
                if what == 'version':
                    need(s.pc, eq(enc[0][2], best(api)), 'the body is encoded for version %r instead of the one chosen' % (enc[0][2],))
                    sv = [e for e in s.ev[:i] if e[0] == 'SetVersion']
                    if not sv:
                        raise Mismatch('the version is not put in the header before the request is encoded', s.pc)
                    need(s.pc, eq(sv[-1][2], best(api)), 'the header gets version %r instead of the one chosen' % (sv[-1][2],))
                else:
                    sc = [e for e in s.ev[:i] if e[0] == 'SetCorrelationID']
                    if not sc:
                        raise Mismatch('no correlation id is set before the request is encoded', s.pc)
                    need(s.pc, not_(eq(sc[-1][2], cid)), 'the correlation id is not a new one')
                    need(s.pc, eq(sc[-1][2], mod(cid + 1, 2**32)), 'the correlation id is not the next one')
                    need(s.pc, eq(m.force(s, getf(m, s, b, 'correlationID')), sc[-1][2]), 'the correlation id used is not remembered')
                    if s.ev.index(wr[0]) < i or W.key(wr[0][1]) != W.key(conn):
                        raise Mismatch('the request is not written to the connection of the broker', s.pc)
                    seq_eq(wr[0][2], frame, s.pc)
                    if not isnil(m, s, wr[0][3]) and isnil(m, s, err):
                        raise Mismatch('a failed write is not reported', s.pc)
                if isnil(m, s, err):
                    g = m.force(s, rp)
                    need(s.pc, not_(g.nil), 'no reader of the response')
                    v = deref(m, s, g.v)
                    if what == 'version':
                        need(s.pc, eq(m.force(s, getf(m, s, v, 'version')), best(api)), 'the response is decoded with another version')
                    need(s.pc, eq(m.force(s, getf(m, s, v, 'api')), api), 'the response is decoded as another API')
            c.post('ensures: Request uses %s' % ('the version chosen for header, body and response' if what == 'version' else 'a new correlation id and writes the whole frame'), s1, chk, REQ)
        return n
    return body


FETCH = '(*Broker).requestFetchStreamingly'


def fetch_stream_job(c):
    """ensures: the fetch request is encoded (header and body) for the version chosen for API 1"""
    m = c.m
    st = State()
    m.nonnil |= {'b', 'b.config', 'fr', 'fr.RequestHeader'}
    b = m.force(st, Ghost(m.p.byname['*Broker'], 'b'))
    fq = m.force(st, Ghost(m.p.byname['*FetchRequest'], 'fr'))
    W.net(m)
    abstract_high(m)
    frame = any_frame()
    st.assume(eq(m.force(st, getf(m, st, fq, 'RequestHeader.APIKey')), I(1)))
    m.contracts['(*FetchRequest).Encode'] = W.record('Encode', lambda m, st, a: m.new_bytes(st, frame))
    m.contracts['(*Broker).ensureOpen'] = W.record('ensureOpen', lambda m, st, a: W.anyerr(m, st, 'open.err'))
    m.contracts['(*Broker).requestStreamingly'] = W.record('stream', lambda m, st, a: (m.force(st, Ghost(m.p.funcs['(*Broker).requestStreamingly']['results'][0]['t'], 'reader')),
                                                           app('resplen', (), 0, 2**32 - 1), W.anyerr(m, st, 'stream.err')))
    n = 0
    for s1, res in m.call_fn(FETCH, [b, fq], st, merge=False):
        n += 1

        def chk(s):
            enc = W.evs(s, 'Encode')
            for e in enc:
                need(s.pc, eq(e[2], best(I(1))), 'the fetch request is encoded for version %r' % (e[2],))
            if not enc and isnil(m, s, res[2]):
                raise Mismatch('no fetch request is encoded', s.pc)
        c.post('ensures: a fetch request is encoded for the version chosen', s1, chk, FETCH)
    return n


_c11 = c11


def c11(P):
    from runner import Job
    out = _c11(P)
    out.append(Job('Broker.Request: version', request_job('version'), require=[REQ]))
    out.append(Job('requestFetchStreamingly: version', fetch_stream_job, require=[FETCH, '(*Broker).requestStreamingly', '(*Broker).ensureOpen']))
    return out


READ = '(defaultReadParser).Read'


def read_job(c):
    """requires: the connection delivers the bytes S, split anywhere; ensures: on success the result is S[0 : 4+n] with n = be32(S[0:4])
    and exactly these bytes were consumed; otherwise an error"""
    from stream import Stream
    m = c.m
    st = State()
    m.nonnil |= {'p.broker'}
    t = m.p.byname['defaultReadParser']
    p = m.force(st, Ghost(t, 'p'))
    W.net(m)
    S = Stream(m, st)
    m.contracts['(iface net.Conn).Read'] = S.read
    m.contracts['io.ReadFull'] = S.readfull
    conn = m.force(st, getf(m, st, getf(m, st, p, 'broker'), 'conn'))
    st.assume(not_(conn.nil))
    n = 0
    for s1, (res, err) in m.call_fn(READ, [p], st, merge=False):
        n += 1

        def chk(s):
            if not isnil(m, s, err):
                return
            need(s.pc, le(I(4), S.pos(s)), 'a response without a length')
            L = be_value(slice_seq(S.S, I(0), I(4), s.pc), s.pc)
            need(s.pc, eq(S.pos(s), L + 4), 'bytes consumed: %r instead of %r' % (S.pos(s), L + 4))
            seq_eq(m.content(s, m.force(s, res)), slice_seq(S.S, I(0), L + 4, s.pc), s.pc)
        c.post('ensures: Read returns exactly the frame announced by its length', s1, chk, READ)
    return n


def chain(m, st, e, out=None):
    """the ghost errors in the chain of e"""
    out = [] if out is None else out
    e = m.force(st, e)
    if isinstance(e, IfaceV) and e.nil is not TRUE:
        if isinstance(e.v, Ghost):
            out.append((e.v.path, e.nil))
        elif isinstance(e.v, ErrInfo):
            for w in e.v.wraps:
                chain(m, st, w, out)
    return out


KINDS = {'io.EOF': 'eof', 'EPIPE': 'epipe'}


def kind_of(m, st, t):
    t = m.force(st, t)
    if isinstance(t, OpaqueV) and t.d.get('name') == 'io.EOF':
        return 'eof'
    if isinstance(t, IfaceV) and isinstance(t.v, OpaqueV) and t.v.d.get('name') == 'io.EOF':
        return 'eof'
    if isinstance(t, IfaceV) and isinstance(t.v, Lin) and t.v.const() == 32:
        return 'epipe'
    return None


def errors_model(m):
    """errors.Is / errors.As / os.IsTimeout on the errors of a connection: each may be a timeout, the end of the stream or a broken pipe"""
    def is_(m, fr, st, a, ins):
        k = kind_of(m, st, a[1])
        if k is None:
            return NotImplemented
        r = FALSE
        for p, nil in chain(m, st, a[0]):
            r = or_(r, and_(not_(nil), bapp(k + '$' + p)))
        return (r,)

    def as_(m, fr, st, a, ins):
        t = m.force(st, a[1])
        want = m.p.u(t.t)['e']
        if m.p.u(want)['k'] != 'iface' or 'Timeout' not in m.p.u(want)['methods']:
            return NotImplemented
        for p, nil in chain(m, st, a[0]):
            k = and_(not_(nil), bapp('net$' + p))
            if not prove(st.pc, k):
                if not prove(st.pc, not_(k)):
                    raise Split(k)
                continue
            m.store(st, m.force(st, t.v).tgt, IfaceV(FALSE, '?' + p, Ghost(want, p)))
            return (TRUE,)
        return (FALSE,)

    def timeout(m, fr, st, a, ins):
        e = m.force(st, a[0])
        return (bapp('tm$' + e.v.path),) if isinstance(e.v, Ghost) else NotImplemented
    c = m.contracts
    c['errors.Is'], c['errors.As'] = is_, as_
    for n in ('net.Error', 'error'):
        c['(iface %s).Timeout' % n] = timeout

    def istm(m, fr, st, a, ins):
        """os.IsTimeout does not unwrap errors made by fmt.Errorf"""
        e = m.force(st, a[0])
        if isinstance(e.v, Ghost):
            return (and_(not_(e.nil), bapp('net$' + e.v.path), bapp('tm$' + e.v.path)),)
        if e.nil is TRUE or isinstance(e.v, ErrInfo):
            return (FALSE,)
        return NotImplemented
    c['os.IsTimeout'] = istm


def broken(p):
    return or_(and_(bapp('net$' + p), bapp('tm$' + p)), bapp('eof$' + p), bapp('epipe$' + p))


GET = '(*Broker).RequestAndGet'


def exchange(m, st, whole=True):
    """contracts of what RequestAndGet calls: the connection, reading one frame, parsing it"""
    W.net(m)
    abstract_high(m)
    errors_model(m)
    c = m.contracts
    for f in m.p.funcs:
        if f.endswith('Request).Encode'):
            t = f[1:].split(')')[0].lstrip('*').lower()
            c[f] = W.record('Encode ' + t, lambda m, st, a: m.new_bytes(st, any_frame()))
            c[f.replace('(', '(*')] = c[f]

    if not whole:
        def req(m, fr, st, a, ins):
            '''contract of Request (discharged by the jobs "Broker.Request" and "RequestAndGet: open"): the whole frame of r, encoded for the version
            chosen, is written to the connection of the broker, or an error is returned'''
            b, r = m.force(st, a[0]), m.force(st, a[1])
            conn = m.force(st, getf(m, st, b, 'conn'))
            e = W.anyerr(m, st, 'write.err')
            if isinstance(r.v, Ghost):
                api, name, fr_ = app('r.api', (), 0, 67), 'Encode', any_frame()
            else:
                n = m.p.name(r.t).lstrip('*').lower()
                api, name, fr_ = I({'apiversionsrequest': 18, 'saslhandshakerequest': 17, 'saslauthenticaterequest': 36}[n]), 'Encode ' + n, None
            W.ev(st, name)
            W.ev(st, 'write', conn, fr_, e)
            t = m.p.byname['defaultReadParser']
            o = list(m.force(st, m.zero(t)).f)
            for f, v in (('broker', b), ('api', api), ('version', best(api))):
                o[m.p.field_index(t, f)] = v
            return (IfaceV(FALSE, t, StructV(t, o)), e)
        c[REQ] = req

    def read(m, fr, st, a, ins):
        p = m.force(st, a[0])
        conn = m.force(st, getf(m, st, getf(m, st, p, 'broker'), 'conn'))
        e = W.anyerr(m, st, 'recv.err')
        d = m.force(st, Ghost(m.p.funcs[READ]['results'][0]['t'], 'data!%d' % next(T._vc)))
        W.ev(st, 'recv', conn, d, e)
        return (d, e)
    c[READ] = read

    def parse(m, fr, st, a, ins):
        p = m.force(st, a[0])
        api, ver = m.force(st, getf(m, st, p, 'api')), m.force(st, getf(m, st, p, 'version'))
        e = W.anyerr(m, st, 'parse.err')
        rt = m.p.funcs['(defaultReadParser).Parse']['results'][0]['t']
        g = 'resp!%d' % next(T._vc)
        if api.const() == 18:
            at = m.p.byname['APIVersionsResponse']
            r = IfaceV(FALSE, at, m.force(st, Ghost(at, g)))
        else:
            r = m.force(st, Ghost(rt, g))
            st.assume(or_(not_(r.nil), not_(e.nil)))
        W.ev(st, 'parse', api, ver, m.force(st, a[1]), e, r)
        return (r, e)
    c['(defaultReadParser).Parse'] = parse
    c['(iface Response).Error'] = W.record('resp.Error', lambda m, st, a: W.anyerr(m, st, 'resp.err'))
    c['(APIVersionsResponse).Error'] = W.record('resp.Error', lambda m, st, a: W.anyerr(m, st, 'resp.err'))

    def dial(m, fr, st, a, ins):
        e = W.anyerr(m, st, 'dial.err')
        g = m.force(st, Ghost(m.p.funcs['newConn']['results'][0]['t'], 'dial!%d' % next(T._vc)))
        st.assume(or_(not_(e.nil), not_(g.nil)))
        W.ev(st, 'dial', m.force(st, a[0]), g, e)
        return (g, e)
    c['newConn'] = dial


def get_job(part):
    def body(c):
        m = c.m
        st = State()
        m.nonnil |= {'b', 'b.config'}
        b = m.force(st, Ghost(m.p.byname['*Broker'], 'b'))
        r, api, frame = abstract_request(m, st)
        exchange(m, st, part == 'open')
        conn0 = m.force(st, getf(m, st, b, 'conn'))
        mech = m.force(st, getf(m, st, b, 'config.Sasl.Mechanism'))
        if part == 'open':
            st.assume(not_(conn0.nil))
        else:
            st.assume(conn0.nil)
            n = m.force(st, getf(m, st, b, 'config.Sasl.Mechanism')).len
            st.assume(eq(n, I(0)) if part == 'reopen' else lt(I(0), n))
        n = 0
        for s1, (resp, err) in m.call_fn(GET, [b, r], st, merge=False):
            n += 1

            def chk(s):
                evs = s.ev
                names = [e[0] for e in evs]
                # the lock of the broker is held from the first to the last effect
                eff = [i for i, e in enumerate(evs) if e[0] in ('write', 'recv', 'dial', 'close', 'SetCorrelationID')]
                by = {}
                for i, e in enumerate(evs):
                    if e[0] in ('lock', 'unlock'):
                        by.setdefault(W.key(e[1]), []).append((e[0], i))
                if not any([x for x, _ in l] == ['lock', 'unlock'] and (not eff or l[0][1] < eff[0] and l[1][1] > eff[-1]) for l in by.values()):
                    raise Mismatch('the connection is used without the lock: %r' % (names,), s.pc)
                # setting up
                cur = conn0
                enc = [i for i, e in enumerate(evs) if e[0] == 'Encode']
                if len(enc) > 1:
                    raise Mismatch('the request is sent %d times' % len(enc), s.pc)
                fin = m.force(s, getf(m, s, b, 'conn'))
                dials = [e for e in evs if e[0] == 'dial']
                if part == 'open':
                    if dials:
                        raise Mismatch('an open connection is replaced', s.pc)
                    setup = []
                else:
                    if len(dials) != 1:
                        raise Mismatch('%d connections are opened' % len(dials), s.pc)
                    cur = dials[0][2]
                    pre = [e for e in evs[:enc[0]] if e[0].startswith('Encode ')] if enc else []
                    setup = ['Encode apiversionsrequest'] + (['Encode saslhandshakerequest', 'Encode saslauthenticaterequest'] if part == 'sasl' else [])
                    if enc and [e[0] for e in pre] != setup:
                        raise Mismatch('before the request %r is done instead of %r' % ([e[0] for e in pre], setup), s.pc)
                if enc:
                    # every step of the setup succeeded
                    i0 = enc[0]
                    for e in evs[:i0]:
                        er = e[3] if e[0] in ('dial', 'write', 'recv') else e[4] if e[0] == 'parse' else None
                        if er is not None and not isnil(m, s, er):
                            raise Mismatch('the request is sent although %s failed' % e[0], s.pc)
                    wr = [i for i in range(i0, len(evs)) if evs[i][0] == 'write']
                    rc = [i for i in range(i0, len(evs)) if evs[i][0] == 'recv']
                    pa = [i for i in range(i0, len(evs)) if evs[i][0] == 'parse']
                    if len(wr) != 1:
                        raise Mismatch('the request is written %d times' % len(wr), s.pc)
                    seq_eq(evs[wr[0]][2], frame, s.pc)
                    if W.key(evs[wr[0]][1]) != W.key(cur):
                        raise Mismatch('the request is written to another connection', s.pc)
                    werr = evs[wr[0]][3]
                    if not isnil(m, s, werr):
                        if rc or isnil(m, s, err):
                            raise Mismatch('the failed write is ignored', s.pc)
                        last = werr
                    else:
                        if len(rc) != 1 or rc[0] < wr[0] or W.key(evs[rc[0]][1]) != W.key(cur):
                            raise Mismatch('%d responses are read' % len(rc), s.pc)
                        last = evs[rc[0]][3]
                        if not isnil(m, s, last):
                            if isnil(m, s, err):
                                raise Mismatch('the failed read is ignored', s.pc)
                        else:
                            if len(pa) != 1:
                                raise Mismatch('the response is parsed %d times' % len(pa), s.pc)
                            _, a, v, d, pe, pr = evs[pa[0]]
                            need(s.pc, and_(eq(a, api), eq(v, best(api))), 'the response is decoded as api %r version %r' % (a, v))
                            seq_eq(m.content(s, d), m.content(s, evs[rc[0]][2]), s.pc)
                            if not isnil(m, s, pe):
                                if isnil(m, s, err):
                                    raise Mismatch('a response that cannot be parsed is reported as success', s.pc)
                            else:
                                g = m.force(s, resp)
                                if W.key(g) != W.key(pr):
                                    raise Mismatch('another response is returned', s.pc)
                    # a broken connection is not kept
                    p = last.v.path
                    if not isnil(m, s, last):
                        if not isnil(m, s, fin):
                            need(s.pc, not_(broken(p)), 'a connection that timed out, ended or broke is kept')
                        elif not any(e[0] == 'close' and W.key(e[1]) == W.key(cur) for e in evs):
                            raise Mismatch('the connection is dropped without being closed', s.pc)
                else:
                    if part == 'open':
                        raise Mismatch('the request is not sent', s.pc)
                    if isnil(m, s, err):
                        raise Mismatch('success without sending the request', s.pc)
                    if not isnil(m, s, fin):
                        raise Mismatch('a connection that could not be set up is kept', s.pc)
                    if isnil(m, s, dials[0][3]) and not any(e[0] == 'close' and W.key(e[1]) == W.key(cur) for e in evs):
                        raise Mismatch('a connection that could not be set up is not closed', s.pc)
                # requests on the connection carry different correlation ids: each one is the previous plus one (contract of Request)
                if not isnil(m, s, err):
                    return
                if not enc:
                    raise Mismatch('success without sending the request', s.pc)
            c.post('ensures: %s' % {'open': 'one exchange on the open connection', 'reopen': 'a closed connection is opened again before the request is sent',
                                    'sasl': 'a closed connection is opened and authenticated again before the request is sent'}[part], s1, chk, GET)
        return n
    return body


NEW = 'NewBroker'


def new_broker_job(c):
    """ensures: the address given is dialled once; the broker is asked for its api versions and, if a mechanism is set, authenticated with the mechanism,
    user and password of the configuration, on the new connection, before the broker is handed out with its address, node, configuration and
    versions; if a step fails there is an error and the connection is closed"""
    m = c.m
    st = State()
    m.nonnil |= {'cfg'}
    t = m.p.funcs[NEW]['params'][2]['t']
    cfg = m.force(st, Ghost(t, 'cfg'))
    addr, node = satom('address', (), 32767), app('node', (), -2**31, 2**31 - 1)
    exchange(m, st, False)
    sasl = {f: m.force(st, getf(m, st, cfg, 'Sasl.' + f)) for f in ('Mechanism', 'User', 'Password')}
    req0 = m.contracts[REQ]

    def req(m, fr, st, a, ins):
        """requires: the request has a header"""
        r = m.force(st, a[1])
        v = m.force(st, r.v)
        n = m.p.name(r.t).lstrip('*').lower()
        h = m.force(st, getf(m, st, v, 'RequestHeader'))
        if not prove(st.pc, not_(h.nil)):
            W.ev(st, 'headless', n)
        if n.startswith('sasl'):
            W.ev(st, n, m.force(st, getf(m, st, v, 'Mechanism')) if 'hand' in n else m.content(st, m.force(st, getf(m, st, v, 'SaslAuthBytes'))))
        return req0(m, fr, st, a, ins)
    m.contracts[REQ] = req

    def rerr(m, fr, st, a, ins):
        e = W.anyerr(m, st, 'resp.err')
        W.ev(st, 'resp.Error', e)
        return (e,)
    for k in list(m.contracts):
        if k.endswith('Response).Error'):
            m.contracts[k] = rerr
    n = 0
    for s1, (b, err) in m.call_fn(NEW, [addr, node, cfg], st, merge=False):
        n += 1

        def chk(s):
            evs = s.ev
            if any(e[0] == 'headless' for e in evs):
                raise Mismatch('a request without a header is sent', s.pc)
            dials = [e for e in evs if e[0] == 'dial']
            if len(dials) != 1:
                raise Mismatch('%d connections are opened' % len(dials), s.pc)
            seq_eq(dials[0][1], addr, s.pc)
            conn = dials[0][2]
            for e in evs:
                if e[0] in ('write', 'recv') and W.key(e[1]) != W.key(conn):
                    raise Mismatch('another connection is used', s.pc)
                if e[0] == 'saslhandshakerequest':
                    seq_eq(e[1], sasl['Mechanism'], s.pc)
                if e[0] == 'saslauthenticaterequest':
                    seq_eq(e[1], sq(lit(b'\x00'), sasl['User'], lit(b'\x00'), sasl['Password']), s.pc)
            ers = [e[4] if e[0] == 'parse' else e[1] if e[0] == 'resp.Error' else e[3] for e in evs if e[0] in ('dial', 'write', 'recv', 'parse', 'resp.Error')]
            closed = any(e[0] == 'close' and W.key(e[1]) == W.key(conn) for e in evs)
            if not isnil(m, s, err):
                if isnil(m, s, dials[0][3]) and not closed:
                    raise Mismatch('a connection that could not be set up is not closed', s.pc)
                return
            for e in ers:
                need(s.pc, e.nil, 'a failed step is ignored')
            if closed:
                raise Mismatch('the connection is closed', s.pc)
            steps = [e[0][7:] for e in evs if e[0].startswith('Encode ')]
            none = prove(s.pc, eq(sasl['Mechanism'].len, I(0)))
            if not none:
                need(s.pc, lt(I(0), sasl['Mechanism'].len), 'mechanism')
            want = ['apiversionsrequest'] + ([] if none else ['saslhandshakerequest', 'saslauthenticaterequest'])
            if steps != want:
                raise Mismatch('%r is done instead of %r' % (steps, want), s.pc)
            if len([e for e in evs if e[0] == 'resp.Error']) != len(want):
                raise Mismatch('the answer to a step is not looked at', s.pc)
            o = m.force(s, b)
            need(s.pc, not_(o.nil), 'no broker')
            seq_eq(m.force(s, getf(m, s, o, 'address')), addr, s.pc)
            need(s.pc, eq(m.force(s, getf(m, s, o, 'nodeID')), node), 'node')
            if W.key(m.force(s, getf(m, s, o, 'conn'))) != W.key(conn):
                raise Mismatch('the broker has another connection', s.pc)
            if W.key(m.force(s, getf(m, s, o, 'config'))) != W.key(cfg):
                raise Mismatch('the broker has another configuration', s.pc)
            pa = [e for e in evs if e[0] == 'parse'][0]
            vs, ws = m.force(s, getf(m, s, o, 'apiVersions')), m.force(s, getf(m, s, pa[5].v, 'APIVersions'))
            need(s.pc, eq(vs.len, ws.len), 'number of api versions')
            if repr(vs) != repr(ws):
                raise Unsupported('the api versions are kept in another form')
        c.post('ensures: a broker is handed out connected and authenticated with its own settings', s1, lambda s: c.cases(s, chk), NEW)
    return n


STREAM = '(*Broker).requestStreamingly'


def streaming_job(c):
    """ensures: the whole payload is written to the connection; on success the length is be32 of the first four bytes received, however they
    arrive, and the reader returned yields at most that many of the bytes that follow on this connection; on failure the connection is closed"""
    from stream import Stream
    m = c.m
    st = State()
    m.nonnil |= {'b', 'b.config'}
    b = m.force(st, Ghost(m.p.byname['*Broker'], 'b'))
    W.net(m)
    S = Stream(m, st)
    m.contracts['(iface net.Conn).Read'] = S.read
    m.contracts['io.ReadFull'] = S.readfull
    conn = m.force(st, getf(m, st, b, 'conn'))
    st.assume(not_(conn.nil))
    frame = any_frame()
    n = 0
    for s1, (rd, ln, err) in m.call_fn(STREAM, [b, m.new_bytes(st, frame), app('timeout', (), -2**31, 2**31)], st, merge=False):
        n += 1

        def chk(s):
            wr = W.evs(s, 'write')
            if len(wr) != 1 or W.key(wr[0][1]) != W.key(conn):
                raise Mismatch('the request is written %d times' % len(wr), s.pc)
            seq_eq(wr[0][2], frame, s.pc)
            fin = m.force(s, getf(m, s, b, 'conn'))
            if not isnil(m, s, err):
                if not isnil(m, s, fin) or not W.evs(s, 'close'):
                    raise Mismatch('after a failure the connection is kept', s.pc)
                return
            if not isnil(m, s, wr[0][3]):
                raise Mismatch('a failed write is not reported', s.pc)
            if isnil(m, s, fin) or W.evs(s, 'close'):
                raise Mismatch('the connection is closed before the response is read', s.pc)
            need(s.pc, eq(S.pos(s), I(4)), 'bytes of the response consumed: %r' % (S.pos(s),))
            L = be_value(slice_seq(S.S, I(0), I(4), s.pc), s.pc)
            need(s.pc, eq(m.force(s, ln), L), 'the length returned is %r' % (ln,))
            r = m.force(s, rd)
            if not isinstance(r, IfaceV) or not isinstance(r.t, int) or m.p.name(r.t) != '*io.LimitedReader':
                raise Unsupported('the reader of the response is %r' % (r,))
            if W.key(m.force(s, getf(m, s, r.v, 'R'))) != W.key(conn):
                raise Mismatch('the reader does not read from the connection', s.pc)
            need(s.pc, eq(m.force(s, getf(m, s, r.v, 'N')), L), 'the reader is limited to %r bytes' % (getf(m, s, r.v, 'N'),))
        c.post('ensures: a streamed response starts after its length and is limited to it', s1, chk, STREAM)
    return n


# ---------------------------------------------------------------- concrete scenarios
def exchange_cases(rng, n):
    import scenario as X
    for k in range(n):
        mech = rng.choice(['', '', 'PLAIN'])
        fault = rng.choice(['none', 'none', 'chunks', 'chunks', 'close', 'silent', 'truncate', 'badauth'])
        if fault == 'badauth':
            mech = 'PLAIN'
        groups = [rng.choice(['g', 'group', '', 'x' * rng.randint(1, 40)]) + str(i) for i in range(rng.randint(1, 6))]
        par = rng.random() < 0.5
        skip = rng.randint(0, len(groups) - 1)
        rules = []
        if fault == 'chunks':
            rules.append({'api': 10, 'broker': -1, 'do': 'echo', 'chunks': [rng.choice([0, 1, 1, 2, 3, 4, 5, 9]) for _ in range(rng.randint(1, 8))]})
        elif fault == 'close':
            rules.append({'api': 10, 'broker': -1, 'do': 'close', 'skip': skip, 'times': 1})
        elif fault == 'silent':
            rules.append({'api': 10, 'broker': -1, 'do': 'silent', 'skip': skip, 'times': 1})
        elif fault == 'truncate':
            rules.append(X.rule(10, X.i16(0) + X.i32(1) + X.s16('host') + X.i32(9), do='truncate', chunks=[rng.choice([0, 1, 3, 4, 5, 8, 11, 19])], skip=skip, times=1))
        elif fault == 'short':
            rules.append(X.rule(10, X.i16(0) + X.i32(1) + X.s16('host'), skip=skip, times=1))
        rules.append({'api': 10, 'broker': -1, 'do': 'echo'})
        rules.append(X.api_versions())
        if fault == 'badauth':
            # the first connection works, then it is closed; authentication of the next one fails once
            rules.insert(0, {'api': 10, 'broker': -1, 'do': 'close', 'skip': 0, 'times': 1})
            rules.append(X.rule(36, X.i16(58) + X.s16('no') + X.i32(0), skip=1, times=1))
        rules += X.sasl()
        ops = [('broker', {'b': 0, 'timeout': 60 if fault == 'silent' else 2000, 'mechanism': mech})]
        ops += [('get', groups)] if par and fault in ('none', 'chunks') else [('get', [g]) for g in groups]

        def check(A, mech=mech, fault=fault, groups=groups, skip=skip):
            if A.res[0]['err'] or A.res[0]['nil']:
                return 'no connection: %r' % (A.res[0],)
            per = {}
            for r in A.reqs:
                per.setdefault(r['conn'], []).append(r)
            for cid, rs in per.items():
                corr = [r['corr'] for r in rs]
                if len(set(corr)) != len(corr):
                    return 'correlation ids repeat on a connection: %r' % corr
                pre = [18] + ([17, 36] if mech else [])
                apis = [r['api'] for r in rs]
                if apis[:len(pre)] != pre[:len(apis)] or (10 in apis and apis.index(10) != len(pre)):
                    return 'a connection starts with requests %r instead of %r' % (apis[:4], pre)
            for e in A.log:
                if e['ev'] == 'bad' or (e['ev'] == 'end' and e['part'] and fault not in ('silent', 'close')):
                    return 'the broker received an incomplete or malformed frame'
            got = [g for r in A.res[1:] for g in r]
            for i, (g, r) in enumerate(zip(groups, got)):
                bad = (fault in ('close', 'silent', 'truncate', 'short') and i == skip) or (fault == 'badauth' and i == 0)
                if fault == 'badauth' and i == 1:
                    bad = True
                if bad:
                    if not r['err']:
                        return 'request %d: success although the response (%s) did not come' % (i, fault)
                else:
                    if r['err']:
                        return 'request %d fails with %r after %s of request %d' % (i, r['err'], fault, skip)
                    if not r.get('type') or r['host'] != g:
                        return 'request for %r got the response %r' % (g, r.get('host'))
            if fault in ('close', 'silent', 'truncate') and skip + 1 < len(groups):
                c1 = [r['conn'] for r in A.reqs if r['api'] == 10]
                if c1[skip] == c1[skip + 1]:
                    return 'the connection is used again after its response did not come (%s)' % fault
            if len([r for r in A.reqs if r['api'] == 10]) != len(groups) - (1 if fault == 'badauth' and len(groups) > 1 else 0):
                return 'requests sent: %d of %d' % (len([r for r in A.reqs if r['api'] == 10]), len(groups))
        yield X.scenario(1, rules, ops, check)


def connect_cases(rng, n):
    """a new connection: api versions, then the handshake and the authentication with the mechanism; a step that fails ends it"""
    import scenario as X
    for k in range(n):
        mech = rng.choice(['', 'PLAIN', 'plain', 'Plain', 'SCRAM-SHA-256', 'GSSAPI'])
        fault = rng.choice(['none', 'none', 18, 17, 36, 'close'])
        rules = []
        if fault == 'close':
            rules.append({'api': rng.choice([18, 17, 36]), 'broker': -1, 'do': 'close'})
            fault = rules[0]['api']
        elif fault == 18:
            rules.append(X.rule(18, X.i16(rng.choice([35, 58])) + X.i32(0)))
        elif fault == 17:
            rules.append(X.rule(17, X.i16(33) + X.arr([X.s16('OTHER')])))
        elif fault == 36:
            rules.append(X.rule(36, X.i16(58) + X.s16('no') + X.i32(0)))
        rules += [X.api_versions()] + X.sasl()

        def check(A, mech=mech, fault=fault):
            r = A.res[0]
            apis = [q['api'] for q in A.reqs]
            known = mech.lower() in ('', 'plain')
            steps = [18] + ([17, 36] if mech else [])
            good = known and fault not in steps
            if good != (not r['err'] and not r['nil']):
                return 'a connection with mechanism %r, %r failing: %r' % (mech, fault, r)
            if fault in apis:
                steps = steps[:steps.index(fault) + 1]
            if known and apis != steps:
                return 'a connection with mechanism %r starts with requests %r instead of %r' % (mech, apis, steps)
            for q in A.reqs:
                if q['api'] == 17 and not q['p'].endswith(X.s16(mech)):
                    return 'the handshake is not for %r' % mech
                if q['api'] == 36 and not q['p'].endswith(b'\x00\x00\x00\x04\x00u\x00p'):
                    return 'the authentication is %r' % q['p']
        yield X.scenario(1, rules, [('broker', {'b': 0, 'timeout': 2000, 'mechanism': mech})], check)


def c13(P):
    from runner import Job
    out = []
    out.append(Job('Broker.Request: correlation id and frame', request_job('frame'), require=[REQ], cases=exchange_cases, limit=30, **SCN))
    out.append(Job('Read', read_job, require=[READ], cases=exchange_cases, limit=40, **SCN))
    out.append(Job('requestStreamingly', streaming_job, require=[STREAM]))
    out.append(Job('NewBroker', new_broker_job, require=[NEW, REQ, READ, 'newConn'], cases=connect_cases, limit=60, **SCN))
    for part in ('open', 'reopen', 'sasl'):
        out.append(Job('RequestAndGet: ' + part, get_job(part), require=[GET, READ, '(defaultReadParser).Parse', 'newConn'],
                       cases=exchange_cases, limit=30, **SCN))
    return out
