"""C17: the settings of a connection are the ones that were given (config.go, newConn, createTLSConfig, the constructors)."""
from wire import *
from terms import *
from values import *
from machine import State, vsame
from seqops import seq_eq
from solver import prove
import solver
import world as W
from fetch2 import iff
from settings import isnil, holds, weak_decode

FROMC, FROMP = 'getBrokerConfigFromConsumerConfig', 'getBrokerConfigFromProducerConfig'
CCC, NC, TLSC = 'createConsumerConfig', 'newConn', 'createTLSConfig'
NBC = 'NewBrokersWithConfig'
KINDS = {'NewConsumer': 'consumer', 'NewGroupConsumer': 'group', 'NewSimpleConsumer': 'simple consumer', 'NewProducer': 'producer'}


def agree(m, s, a, b, what):
    """obligation: the values a and b are the same"""
    a, b = m.force(s, a), m.force(s, b)
    if a is b or vsame(a, b):
        return
    if isinstance(a, Lin) and isinstance(b, Lin):
        need(s.pc, eq(a, b), 'another ' + what)
    elif isinstance(a, Bl) and isinstance(b, Bl):
        need(s.pc, iff(a, b), 'another ' + what)
    elif isinstance(a, Sq) and isinstance(b, Sq):
        seq_eq(a, b, s.pc)
    elif isinstance(a, StructV) and isinstance(b, StructV):
        for f in m.p.fields(b.t):
            i = m.p.field_index(b.t, f['n'])
            agree(m, s, a.f[i], b.f[i], what + '.' + f['n'])
    elif isinstance(a, PtrV) and isinstance(b, PtrV):
        na, nb = holds(s, a.nil), holds(s, b.nil)
        if na != nb:
            raise Mismatch('%s: nil is %r instead of %r' % (what, na, nb), s.pc)
        if not na:
            if W.key(a) == W.key(b):
                return
            agree(m, s, deref(m, s, a), deref(m, s, b), what)
    elif isinstance(a, SliceV) and isinstance(b, SliceV):
        need(s.pc, eq(a.len, b.len), 'another length of ' + what)
        if not (vsame(a.base, b.base) or a.base == b.base) or not prove(s.pc, eq(a.off, b.off)):
            raise Unsupported('%s: another slice' % what)
    else:
        raise Unsupported('%s: %r and %r' % (what, a, b))


def derived(m, s, b, cfg):
    """obligation: b has the connection settings of cfg"""
    b = m.force(s, b)
    need(s.pc, not_(b.nil), 'no configuration')
    for f in ('Net', 'Sasl', 'TLSEnabled', 'TLS'):
        agree(m, s, getf(m, s, b, f), getf(m, s, cfg, f), f)
    mr, given = getf(m, s, b, 'MetadataRefreshIntervalMS'), getf(m, s, cfg, 'MetadataRefreshIntervalMS')
    need(s.pc, implies(lt(I(0), given), eq(mr, given)), 'another refresh interval')
    need(s.pc, lt(I(0), mr), 'no refresh interval')


def derive_job(fn, t):
    """ensures: Net, Sasl, TLSEnabled and TLS are those given; the refresh interval too, and a positive default where none is given"""
    def body(c):
        m = c.m
        st = State()
        m.nonnil.add('cfg')
        pt = m.p.funcs[fn]['params'][0]['t']
        cfg = m.force(st, Ghost(pt, 'cfg'))
        n = 0
        for s1, (res,) in m.call_fn(fn, [cfg], st):
            n += 1
            c.post('ensures: the connection settings are those of the configuration', s1, lambda s: derived(m, s, res, cfg), fn)
        return n
    return body


def create_consumer_job(kind):
    """ensures: a nil error: every setting is the one given (by default the default one); only the timeouts of each API are derived, and written nowhere else:
    net.timeout.ms, plus fetch.max.wait.ms for a fetch, and more than the session timeout for a join"""
    def body(c):
        m = c.m
        m.intr['github.com/mitchellh/mapstructure.WeakDecode'] = weak_decode
        st = State()
        pt = m.p.byname['ConsumerConfig']
        want = lambda s: m.force(s, Ghost(pt, 'cfg'))
        if kind == 'struct':
            arg = IfaceV(FALSE, pt, m.force(st, Ghost(pt, 'cfg')))
        elif kind == 'nil':
            arg = IfaceV(TRUE, None, None)
            want = lambda s: m.force(s, Ghost(pt, 'global.defaultConsumerConfig'))
        elif kind == 'map':
            arg = None
            for i, ty in enumerate(m.p.types):
                if m.p.name(i) in ('map[string]interface{}', 'map[string]any'):
                    arg = IfaceV(FALSE, i, m.force(st, Ghost(i, 'cfgmap')))
            if arg is None:
                raise Unsupported('no map type')
            want = lambda s: m.force(s, Ghost(pt, 'decoded'))
        else:
            arg = IfaceV(FALSE, m.p.byname['*Broker'], m.force(st, Ghost(m.p.byname['*Broker'], 'thing')))
        p0 = m.p.const_globals
        m.p.const_globals = lambda: set(p0()) - {'defaultConsumerConfig'}
        n = 0
        for s1, (cfg, err) in m.call_fn(CCC, [arg], st):
            n += 1

            def chk(s):
                if not isnil(m, s, err):
                    if kind in ('struct', 'nil'):
                        raise Mismatch('a configuration is refused', s.pc)
                    return
                if kind == 'other':
                    raise Mismatch('a value of another type is accepted', s.pc)
                g, w = m.force(s, cfg), want(s)
                for f in m.p.fields(pt):
                    if f['n'] == 'Net':
                        for x in m.p.fields(f['t']):
                            if x['n'] != 'TimeoutMSForEachAPI':
                                agree(m, s, getf(m, s, g, 'Net.' + x['n']), getf(m, s, w, 'Net.' + x['n']), 'Net.' + x['n'])
                    else:
                        agree(m, s, getf(m, s, g, f['n']), getf(m, s, w, f['n']), f['n'])
                sl, old = getf(m, s, g, 'Net.TimeoutMSForEachAPI'), getf(m, s, w, 'Net.TimeoutMSForEachAPI')
                if not isinstance(sl.base, int):
                    raise Unsupported('the timeouts of each API: %r' % (sl,))
                if sl.base == old.base:
                    raise Mismatch('the timeouts of each API are written into a list that others use', s.pc)
                need(s.pc, le(I(38), sl.len), 'no timeout for some API')
                t, ft, ss = getf(m, s, w, 'Net.TimeoutMS'), getf(m, s, w, 'FetchMaxWaitMS'), getf(m, s, w, 'SessionTimeoutMS')
                i = app('any:api', (), 0, 2**15)
                for k, v in ((1, t + ft), (11, ss + I(5000))):
                    need(s.pc, eq(elem(m, s, sl, I(k)), v), 'the timeout of API %d' % k)
                s2 = s.copy()
                s2.assume(and_(lt(i, sl.len), *[not_(eq(i, I(k))) for k in (1, 8, 11)]))
                need(s2.pc, eq(elem(m, s2, sl, i), t), 'the timeout of another API')
            c.post('ensures: the settings are those given, apart from the timeouts of each API, which are its own', s1, chk, CCC)
        m.p.const_globals = p0
        return n
    return body


def elem(m, s, sl, i):
    from settings import elem as e
    return m.force(s, e(m, s, sl, i))


# ---------------------------------------------------------------- TLS
def tls_job(c):
    """ensures: an error, or the certificate of the files Cert and Key, the authorities of the file CA, and InsecureSkipVerify and ServerName as given"""
    m = c.m
    st = State()
    m.nonnil |= {'tls', 'pool'}
    byt = m.p.funcs[TLSC]['results'][0]['t']
    ct = m.p.u(m.p.u(byt)['e'])
    ft = {f['n']: f['t'] for f in m.p.fields(m.p.u(byt)['e'])}
    certt = m.p.u(ft['Certificates'])['e']

    def load(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'load.err')
        W.ev(st, 'load', m.force(st, a[0]), m.force(st, a[1]), e)
        return (m.force(st, Ghost(certt, 'pair')), e)

    def read(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'read.err')
        W.ev(st, 'read', m.force(st, a[0]), e)
        return (m.force(st, Ghost(m.p.byname['[]byte'], 'pem')), e)

    def pool(m, fr, st, a, ins):
        W.ev(st, 'pool')
        return (m.force(st, Ghost(ft['RootCAs'], 'pool')),)

    def app_(m, fr, st, a, ins):
        W.ev(st, 'append', W.key(m.force(st, a[0])), m.force(st, a[1]))
        return (bapp('pem.ok', ()),)
    m.contracts.update({'crypto/tls.LoadX509KeyPair': load, 'os.ReadFile': read, 'crypto/x509.NewCertPool': pool, '(*crypto/x509.CertPool).AppendCertsFromPEM': app_})
    m.intr.update({k: m.contracts[k] for k in ('crypto/tls.LoadX509KeyPair', 'os.ReadFile', 'crypto/x509.NewCertPool', '(*crypto/x509.CertPool).AppendCertsFromPEM')})
    tc = m.force(st, Ghost(m.p.byname['*TLSConfig'], 'tls'))
    n = 0
    for s1, (res, err) in m.call_fn(TLSC, [tc], st, merge=False):
        n += 1

        def chk(s):
            ld, rd, ap = W.evs(s, 'load'), W.evs(s, 'read'), W.evs(s, 'append')
            for l in ld:
                seq_eq(l[1], getf(m, s, tc, 'Cert'), s.pc)
                seq_eq(l[2], getf(m, s, tc, 'Key'), s.pc)
            for r in rd:
                seq_eq(r[1], getf(m, s, tc, 'CA'), s.pc)
            if not isnil(m, s, err):
                need(s.pc, or_(*([not_(l[3].nil) for l in ld] + [not_(r[2].nil) for r in rd] + [not_(bapp('pem.ok', ()))])), 'an error although the files are there')
                return
            if len(ld) != 1 or len(rd) != 1 or len(ap) != 1:
                raise Mismatch('certificates are not read once each', s.pc)
            need(s.pc, and_(ld[0][3].nil, rd[0][2].nil), 'a file that cannot be read is ignored')
            p = m.force(s, ap[0][2])
            if not vsame(p, m.force(s, Ghost(m.p.byname['[]byte'], 'pem'))) or ap[0][1] != W.key(m.force(s, Ghost(ft['RootCAs'], 'pool'))):
                raise Mismatch('the authorities are not those of the file', s.pc)
            r = m.force(s, res)
            need(s.pc, not_(r.nil), 'nothing without an error')
            if W.key(m.force(s, getf(m, s, r, 'RootCAs'))) != W.key(m.force(s, Ghost(ft['RootCAs'], 'pool'))):
                raise Mismatch('other authorities are trusted', s.pc)
            need(s.pc, iff(getf(m, s, r, 'InsecureSkipVerify'), getf(m, s, tc, 'InsecureSkipVerify')), 'verification is not as configured')
            seq_eq(getf(m, s, r, 'ServerName'), getf(m, s, tc, 'ServerName'), s.pc)
            cs = getf(m, s, r, 'Certificates')
            need(s.pc, eq(cs.len, I(1)), 'not one certificate')
            if not vsame(elem(m, s, cs, I(0)), m.force(s, Ghost(certt, 'pair'))):
                raise Mismatch('another certificate is presented', s.pc)
            for f in ('GetClientCertificate', 'VerifyPeerCertificate', 'VerifyConnection'):
                if f in ft:
                    v = getf(m, s, r, f)
                    if getattr(v, 'nil', TRUE) is not TRUE and not prove(s.pc, v.nil):
                        raise Unsupported('a function in the TLS configuration')
        c.post('ensures: the TLS configuration is the one of the settings', s1, chk, TLSC)
    return n


def newconn_job(c):
    """ensures: TLS exactly when it is enabled, with the configuration of the settings and never without it; the timeouts are those of the settings"""
    m = c.m
    st = State()
    m.nonnil |= {'config', 'made'}
    ft = m.p.funcs
    rt = ft[NC]['results'][0]['t']
    tp = ft[TLSC]['results'][0]['t']

    def mk(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'tls.err')
        W.ev(st, 'tlsconfig', m.force(st, a[0]), e)
        return (m.force(st, Ghost(tp, 'made')), e)

    def dialer(m, st, p):
        return getf(m, st, m.force(st, p), 'Timeout'), getf(m, st, m.force(st, p), 'KeepAlive')

    def plain(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'dial.err')
        W.ev(st, 'plain', dialer(m, st, a[0]), m.force(st, a[1]), m.force(st, a[2]), e)
        return (m.force(st, Ghost(rt, 'conn')), e)

    def secure(m, fr, st, a, ins):
        e = W.ghost_err(m, st, 'dial.err')
        W.ev(st, 'secure', dialer(m, st, a[0]), m.force(st, a[1]), m.force(st, a[2]), e, m.force(st, a[3]))
        ct = [i for i in range(len(m.p.types)) if m.p.name(i) == '*crypto/tls.Conn'][0]
        return (m.force(st, Ghost(ct, 'conn')), e)
    m.contracts[TLSC] = mk
    m.intr['(*net.Dialer).Dial'] = m.contracts['(*net.Dialer).Dial'] = plain
    m.intr['crypto/tls.DialWithDialer'] = m.contracts['crypto/tls.DialWithDialer'] = secure
    addr = satom('address', (), 32767)
    cfg = m.force(st, Ghost(m.p.byname['*BrokerConfig'], 'config'))
    n = 0
    for s1, (res, err) in m.call_fn(NC, [addr, cfg], st, merge=False):
        n += 1

        def chk(s):
            pl, se, mk_ = W.evs(s, 'plain'), W.evs(s, 'secure'), W.evs(s, 'tlsconfig')
            if len(pl) + len(se) > 1:
                raise Mismatch('several connections', s.pc)
            on = holds(s, getf(m, s, cfg, 'TLSEnabled'))
            if pl and on:
                raise Mismatch('the connection is not encrypted although TLS is enabled', s.pc)
            if se and not on:
                raise Mismatch('TLS is spoken although it is not enabled', s.pc)
            e = m.force(s, err)
            for x in pl + se:
                seq_eq(x[3], addr, s.pc)
                seq_eq(x[2], sq(lit(b'tcp')), s.pc)
                need(s.pc, eq(x[1][0], mul(getf(m, s, cfg, 'Net.ConnectTimeoutMS'), I(1000000))), 'another connect timeout')
                need(s.pc, eq(x[1][1], mul(getf(m, s, cfg, 'Net.KeepAliveMS'), I(1000000))), 'another keep-alive')
                need(s.pc, iff(e.nil, x[4].nil), 'a failed connection is not reported')
            if not pl and not se:
                need(s.pc, not_(e.nil), 'no connection and no error')
                if not on:
                    raise Mismatch('no connection is made', s.pc)
            if se:
                if len(mk_) != 1 or W.key(m.force(s, se[0][5])) != W.key(m.force(s, Ghost(tp, 'made'))):
                    raise Mismatch('another TLS configuration', s.pc)
                need(s.pc, mk_[0][2].nil, 'an invalid TLS configuration is used')
                t = getf(m, s, cfg, 'TLS')
                need(s.pc, not_(t.nil), 'no TLS settings')
                if W.key(mk_[0][1]) != W.key(t):
                    raise Mismatch('other TLS settings', s.pc)
        c.post('ensures: TLS exactly when enabled, with the settings given', s1, chk, NC)
    return n


# ---------------------------------------------------------------- constructors
def constructor_job(fn, t, make):
    """ensures: the brokers are looked up at bootstrap.servers with the connection settings of the configuration, and the configuration is kept"""
    def body(c):
        m = c.m
        st = State()
        W.conc(m)
        m.nonnil.add('brokers')
        ct = m.p.byname[t]

        def mk(m, fr, st, a, ins):
            e = W.ghost_err(m, st, 'config.err')
            W.ev(st, 'config', m.force(st, a[0]), e)
            return (m.force(st, Ghost(ct, 'cfg')), e)

        def nbc(m, fr, st, a, ins):
            e = W.ghost_err(m, st, 'nbc.err')
            W.ev(st, 'brokers', m.force(st, a[0]), m.force(st, a[1]), e)
            return (m.force(st, Ghost(m.p.byname['*Brokers'], 'brokers')), e)
        m.contracts[make] = mk
        m.contracts[NBC] = nbc

        def valid(m, fr, st, a, ins):
            e = W.ghost_err(m, st, 'valid.err')
            W.ev(st, 'valid', e)
            return (e,)
        m.contracts['(*ConsumerConfig).checkValid'] = valid
        m.contracts['(*Producer).updateCurrentSimpleProducer'] = W.record('update', lambda m, st, a: IfaceV(TRUE, None, None))
        m.intr['os.Hostname'] = m.contracts['os.Hostname'] = lambda m, fr, st, a, ins: (satom('hostname', (), 255), W.ghost_err(m, st, 'hostname.err'))

        def nsc(m, fr, st, a, ins):
            W.ev(st, 'made', *[m.force(st, x) for x in a])
            m.nonnil.add('made')
            return (m.force(st, Ghost(m.p.byname['*SimpleConsumer'], 'made')),)
        m.contracts['NewSimpleConsumerWithBrokers'] = nsc
        args, conf = [], None
        for p in m.p.funcs[fn]['params']:
            v = m.force(st, Ghost(p['t'], 'arg.' + p['n']))
            if isinstance(v, IfaceV):
                conf = v
            args.append(v)
        n = 0
        for s1, (res, err) in m.call_fn(fn, args, st, merge=False):
            n += 1

            def chk(s):
                ce, bs = W.evs(s, 'config'), W.evs(s, 'brokers')
                if len(ce) != 1 or W.key(ce[0][1]) != W.key(conf):
                    raise Mismatch('the configuration is not made from the argument', s.pc)
                g = m.force(s, Ghost(ct, 'cfg'))
                for b in bs:
                    need(s.pc, and_(ce[0][2].nil, *[v[1].nil for v in W.evs(s, 'valid')]), 'an invalid configuration is used')
                    if fn == 'NewGroupConsumer' and not W.evs(s, 'valid'):
                        from settings import consumer_bad
                        need(s.pc, not_(or_(*consumer_bad(m, s, g))), 'an invalid configuration is used')
                    seq_eq(b[1], getf(m, s, g, 'BootstrapServers'), s.pc)
                    derived(m, s, b[2], g)
                if not isnil(m, s, err):
                    return
                if len(bs) != 1:
                    raise Mismatch('%d lookups of the brokers' % len(bs), s.pc)
                need(s.pc, bs[0][3].nil, 'an error is ignored')
                md = W.evs(s, 'made')
                if md:
                    ts = [m.force(s, x) for x in md[0][1:]]
                    k, br = ts[2], ts[3]
                    seq_eq(ts[0], args[0], s.pc)
                    need(s.pc, eq(ts[1], args[1]), 'another partition')
                else:
                    r = m.force(s, res)
                    need(s.pc, not_(r.nil), 'nothing without an error')
                    k, br = getf(m, s, r, 'config'), getf(m, s, r, 'brokers')
                    tp = [a for a, p in zip(args, m.p.funcs[fn]['params']) if p['n'] == 'topic']
                    if tp and 'topic' in [f['n'] for f in m.p.fields(m.p.u(m.p.funcs[fn]['results'][0]['t'])['e'])]:
                        seq_eq(getf(m, s, r, 'topic'), tp[0], s.pc)
                if W.key(br) != W.key(m.force(s, Ghost(m.p.byname['*Brokers'], 'brokers'))):
                    raise Mismatch('other brokers are used', s.pc)
                k = m.force(s, k)
                for f in m.p.fields(ct):
                    if f['n'] == 'ClientID':
                        cid = getf(m, s, g, 'ClientID')
                        if holds(s, seq_bool(cid, sq())):
                            continue
                    agree(m, s, getf(m, s, k, f['n']), getf(m, s, g, f['n']), f['n'])
            c.post('ensures: the brokers are those of the configuration, with its connection settings', s1, chk, fn)
        return n
    return body


# ---------------------------------------------------------------- concrete inputs
def consumer_value(rng):
    return {'BootstrapServers': b'a:%d' % rng.randint(1, 9), 'ClientID': rng.choice([b'c', b'd']), 'GroupID': rng.choice([b'g', b'']), 'SessionTimeoutMS': rng.choice([6000, 30000, 45000, 90000]),
            'FetchMaxWaitMS': rng.choice([1, 500, 60000]), 'FetchMaxBytes': rng.choice([1, 1 << 20]), 'FromBeginning': rng.random() < .5, 'AutoCommit': rng.random() < .5,
            'MetadataRefreshIntervalMS': rng.choice([1, 1000, 300000]), 'TLSEnabled': rng.random() < .5,
            'Net.ConnectTimeoutMS': rng.randint(1, 50000), 'Net.TimeoutMS': rng.randint(1, 50000), 'Net.KeepAliveMS': rng.randint(1, 50000),
            'Sasl.Mechanism': b'PLAIN', 'Sasl.User': rng.choice([b'u', b'v']), 'Sasl.Password': rng.choice([b'p', b'q'])}


def field(v, path):
    for p in path.split('.'):
        v = v[p]
    return v


def differs(got, cfg, skip=()):
    from replay import unb64
    for k, w in cfg.items():
        if k in skip:
            continue
        g = field(got, k)
        g = unb64(g) if isinstance(w, bytes) else g
        if g != w:
            return '%s is %r instead of %r' % (k, g, w)


def config_cases(rng, n):
    from runner import Case
    for i in range(n):
        a, b, as_map = consumer_value(rng), consumer_value(rng), rng.random() < .5
        sa, sb = dict(a), dict(b)
        if not as_map:
            for x in (sa, sb):
                k = rng.choice([None, 0, 1, 11, 12, 68, 100])
                if k is not None:
                    x['Net.TimeoutMSForEachAPI'] = [rng.randint(0, 9) for _ in range(k)]

        def check(r, a=a, b=b):
            if 'panic' in r:
                return 'createConsumerConfig panics: ' + r['panic']
            o = r['res'][0]['r']
            for w, g, e in ((a, o[0], o[1]), (b, o[2], o[3])):
                if e is not None:
                    return 'the configuration %r is refused: %r' % (w, e)
                d = differs(g, w)
                if d:
                    return 'createConsumerConfig: ' + d
                t = g['Net']['TimeoutMSForEachAPI']
                if len(t) < 38:
                    return 'timeouts for %d APIs' % len(t)
                if t[1] != w['Net.TimeoutMS'] + w['FetchMaxWaitMS'] or t[11] != w['SessionTimeoutMS'] + 5000 or any(v != w['Net.TimeoutMS'] for k, v in enumerate(t) if k not in (1, 8, 11)):
                    return 'the timeouts of each API are %r with net.timeout.ms %d, fetch.max.wait.ms %d and session.timeout.ms %d, made together with another configuration' % (
                        t, w['Net.TimeoutMS'], w['FetchMaxWaitMS'], w['SessionTimeoutMS'])
        yield Case([{'fn': 'vTwoConsumers', 'args': [as_map, sa, sb]}], check)


def derive_cases(fn):
    def cases(rng, n):
        from runner import Case
        for i in range(n):
            a = consumer_value(rng)
            if rng.random() < .3:
                a['MetadataRefreshIntervalMS'] = rng.choice([0, -1])
            a['TLS'] = rng.choice([None, {'Cert': b'c', 'Key': b'k', 'CA': b'a', 'InsecureSkipVerify': True, 'ServerName': b'n'}, {'Cert': b'c2', 'InsecureSkipVerify': False}])
            a['Net.TimeoutMSForEachAPI'] = [rng.randint(0, 9) for _ in range(rng.randint(0, 3))]
            keep = ['MetadataRefreshIntervalMS', 'TLSEnabled', 'TLS', 'Net.ConnectTimeoutMS', 'Net.TimeoutMS', 'Net.KeepAliveMS', 'Net.TimeoutMSForEachAPI', 'Sasl.Mechanism', 'Sasl.User', 'Sasl.Password']
            if fn == FROMP:
                a = {k: a[k] for k in keep + ['BootstrapServers', 'ClientID']}

            def check(r, a=a):
                if 'panic' in r:
                    return fn + ' panics: ' + r['panic']
                g = r['res'][0]['r'][0]
                d = differs(g, {k: a[k] for k in keep if k not in ('TLS', 'MetadataRefreshIntervalMS')})
                if not d and (g['TLS'] is None) != (a['TLS'] is None):
                    d = 'TLS is %r' % (g['TLS'],)
                if not d and a['TLS']:
                    d = differs(g['TLS'], a['TLS'])
                mr = a['MetadataRefreshIntervalMS']
                if not d and (g['MetadataRefreshIntervalMS'] != mr if mr > 0 else g['MetadataRefreshIntervalMS'] <= 0):
                    d = 'MetadataRefreshIntervalMS is %r instead of %r' % (g['MetadataRefreshIntervalMS'], mr)
                if d:
                    return '%s: %s' % (fn, d)
            yield Case([{'fn': fn, 'args': [a]}], check)
    return cases


def dial_cases(rng, n):
    from runner import Case
    from replay import unb64
    combos = []
    for missing in ('cert', 'key', 'ca', 'nofile', 'nocafile', 'all'):
        combos.append((True, missing, False, b'', True, True))
    for ins in (False, True):
        for name in (b'', b'kafka.example', b'other.example'):
            for ca in (False, True):
                for ip in (False, True):
                    combos.append((True, '', ins, name, ca, ip))
    combos += [(False, 'all', False, b'', True, True), (False, '', False, b'', True, True), (False, 'cert', True, b'', True, True)]
    rng.shuffle(combos)
    for on, missing, ins, name, ca, ip in combos:
        def check(r, on=on, missing=missing, ins=ins, name=name, ca=ca, ip=ip):
            if 'panic' in r:
                return 'newConn panics: ' + r['panic']
            err, conns, spoken, cn, sni = r['res'][0]['r']
            what = 'newConn with TLS %s%s%s, server name %r, %s authority, certificate %s the address' % (
                'enabled' if on else 'disabled', ' without ' + missing if missing else '', ', insecure' if ins else '', name.decode(), 'the right' if ca else 'another', 'for' if ip else 'not for')
            if not on:
                if err or spoken:
                    return '%s: error %r, TLS %r' % (what, err, spoken)
                return
            if missing:
                if not err or conns:
                    return '%s: error %r, %d connections' % (what, err, conns)
                return
            if conns and not spoken:
                return what + ': the connection is not encrypted'
            ok = ins or (ca and (name == b'kafka.example' or name == b'' and ip))
            if err == ok:
                return '%s: error is %r' % (what, err)
            if ok and unb64(cn) != b'the client':
                return '%s: the certificate presented is %r' % (what, unb64(cn))
            if ok and name and unb64(sni) != name:
                return '%s: the server name asked for is %r' % (what, unb64(sni))
        yield Case([{'fn': 'vDialConfig', 'args': [on, missing == 'all', (b'' if missing == 'all' else missing.encode()), ins, name, ca, ip]}], check)


def construct_cases(kind):
    def cases(rng, n):
        from runner import Case
        from replay import unb64
        modes = ['timeout', 'sasl', 'nosasl', 'tls', 'tls?', 'noboot'] + (['nogroup'] if kind == 'group' else [])
        for i in range(n):
            mode = modes[i % len(modes)]
            sasl = {'Sasl.Mechanism': b'PLAIN', 'Sasl.User': rng.choice([b'alice', b'bob', b'x']), 'Sasl.Password': rng.choice([b'secret', b'p'])} if mode in ('sasl', 'tls') else {}
            cfg = {'Net.ConnectTimeoutMS': 3000, 'Net.TimeoutMS': 300 if mode == 'timeout' else 4000, 'Net.KeepAliveMS': 1000, 'ClientID': b'c', 'TLSEnabled': mode.startswith('tls'), **sasl}
            if mode == 'tls?':
                cfg['TLS'] = {'Cert': b'', 'Key': b'k', 'CA': b'a'}
            c = dict(cfg, GroupID=b'' if mode == 'nogroup' else b'g', OffsetsStorage=1, SessionTimeoutMS=6000)
            p = dict(cfg, CompressionType=b'none', MessageMaxCount=10, FlushIntervalMS=100, MetadataMaxAgeMS=10000, RetryBackOffMS=10)

            def check(r, mode=mode, cfg=cfg):
                what = 'a %s made with %s' % (kind, {'timeout': 'net.timeout.ms 300', 'sasl': 'SASL', 'nosasl': 'no SASL', 'tls': 'TLS and no certificates', 'tls?': 'TLS and no certificate',
                                                    'noboot': 'no bootstrap servers', 'nogroup': 'no group'}[mode])
                if 'panic' in r:
                    return '%s: %s' % (what, r['panic'])
                err, conns, first, apis, last, ms = r['res'][0]['r']
                if not err:
                    return what + ': no error although no broker answers'
                if mode in ('noboot', 'nogroup', 'tls', 'tls?'):
                    return '%s: %d connections' % (what, conns) if conns else None
                if not conns:
                    return what + ': no connection'
                if mode == 'timeout':
                    return '%s: waits %d ms' % (what, ms) if ms > 6000 else None
                if mode == 'sasl':
                    if apis[:3] != [18, 17, 36]:
                        return '%s: requests %r' % (what, apis)
                    if not unb64(last).endswith(b'\0' + cfg['Sasl.User'] + b'\0' + cfg['Sasl.Password']):
                        return '%s: the credentials sent are %r' % (what, unb64(last)[-20:])
                elif 17 in apis or 36 in apis:
                    return '%s: requests %r' % (what, apis)
            yield Case([{'fn': 'vConstruct', 'args': [kind.replace(' ', '').encode(), mode == 'timeout', mode != 'noboot', c, p]}], check)
    return cases


def jobs(P):
    from runner import Job
    X = dict(extra=['config'])
    out = [Job(f, derive_job(f, t), cases=derive_cases(f), fns=[f]) for f, t in ((FROMC, 'ConsumerConfig'), (FROMP, 'ProducerConfig'))]
    for k in ('struct', 'nil', 'map', 'other'):
        out.append(Job('createConsumerConfig (%s)' % k, create_consumer_job(k), cases=config_cases if k != 'other' else None, require=[CCC], xfns=['vTwoConsumers'], **X))
    out.append(Job(TLSC, tls_job, cases=dial_cases, require=[TLSC], xfns=['vDialConfig'], **X))
    out.append(Job(NC, newconn_job, cases=dial_cases, require=[NC], xfns=['vDialConfig'], **X))
    for f, t, mk in (('NewConsumer', 'ConsumerConfig', CCC), ('NewGroupConsumer', 'ConsumerConfig', CCC), ('NewSimpleConsumer', 'ConsumerConfig', CCC), ('NewProducer', 'ProducerConfig', 'createProducerConfig')):
        out.append(Job(f, constructor_job(f, t, mk), require=[f, NBC], cases=construct_cases(KINDS[f]), xfns=['vConstruct'], limit=14, **X))
    return out
