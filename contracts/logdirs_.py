"""C14: the broker asked for the log directories of a replica (client.go DescribeLogDirs), the groups of all brokers (helper.go)."""
from routing import *
import broker_ as BR
from settings import deref

DLD = CT + 'DescribeLogDirs'
ADD = '(*DescribeLogDirsRequest).AddTopicPartition'
RQ = BK + 'RequestAndGet'


def logdirs_job(c):
    """loop invariants: every replica of every partition of the answer is filed once, under its broker; ensures: every broker filed is asked for exactly its partitions,
    its answer is listed under its id; a broker that cannot be reached is an error"""
    m = c.m
    st = State()
    getbroker_contract(m)
    exchange_contract(m)
    cl, b = client(m, st)
    BR.errors_model(m)
    name = BS + 'RequestMetaData'
    rt = m.p.funcs[name]['results'][0]['t']

    def rmd(m, fr, st, a, ins):
        """contract of Brokers.RequestMetaData (any_broker_job)"""
        e = W.ghost_err(m, st, 'md.err')
        m.nonnil |= {'md.TopicMetadatas[].PartitionMetadatas[]'}
        r = m.force(st, Ghost(rt, 'md'))
        W.ev(st, 'metadata', [m.force(st, x) for x in a], r, e)
        return (r, e)
    m.contracts[name] = rmd

    pos = {}
    lt_ = next(f['t'] for f in m.p.fields(m.p.byname['DescribeLogDirsRequest']) if f['n'] == 'Topics')

    def asked(m, st):
        """the topics of the request are those added"""
        if 'obj' in pos and pos['obj'].tgt and pos['obj'].tgt[0] in st.heap:
            setf(m, st, pos['obj'], 'Topics', m.force(st, Ghost(lt_, 'asked', (I(0),))))

    def add(m, fr, st, a, ins):
        """contract of AddTopicPartition (C03, builders.py)"""
        r = m.force(st, a[0])
        W.ev(st, 'add', W.key(r), m.force(st, a[1]), m.force(st, a[2]))
        pos['obj'] = r
        asked(m, st)
        return ()
    m.contracts[ADD] = add
    topics = m.force(st, Ghost(m.p.byname['[]string'], 'topics'))
    box = {}

    def reset(m, st):
        for o, v in list(st.heap.items()):
            if isinstance(v, MapC) and (v.base is None or v.base[0] in ('filed', 'answers', 'set')):
                k = 'answers' if m.p.name(v.et).endswith('DescribeLogDirsResponse') else 'filed' if m.p.name(v.kt) == 'int32' else 'set'
                if k == 'filed' and box.setdefault('filed', o) != o:
                    raise Unsupported('two maps by broker')
                box[k] = o
                st.heap[o] = MapC(v.kt, v.et, (), (k, ()))
    tm = lambda s: at(m, s, m.force(s, Ghost(rt, 'md')), ['TopicMetadatas'])
    pm = lambda s, i: at(m, s, elem(m, s, tm(s), i), ['PartitionMetadatas'])
    rp = lambda s, i, j: at(m, s, elem(m, s, pm(s, i), j), ['Replicas'])

    def files(m, fr, body):
        return not calls(m, fr, body, RQ) and not box.get('asking')

    def topic_pid(s, v):
        v = m.force(s, v)
        if not isinstance(v, StructV):
            raise Unsupported('an entry that is not a topic and a partition')
        fs = [m.force(s, f) for f in v.f]
        t, p = [f for f in fs if isinstance(f, Sq)], [f for f in fs if isinstance(f, Lin)]
        if len(t) != 1 or len(p) != 1:
            raise Unsupported('an entry that is not a topic and a partition')
        return t[0], p[0]

    def replica(s, k, evs):
        i, j = pos['i'], pos['j']
        o = box['filed']
        mc = s.heap[o]
        r = m.force(s, elem_(m, s, rp(s, i, j), k))
        u = mc.upd
        if len(u) != 1:
            raise Mismatch('a replica is filed %d times' % len(u), s.pc)
        need(s.pc, eq(m.force(s, u[0][0]), r), 'a replica is filed under another broker')
        l = m.force(s, u[0][1])
        if not isinstance(l, SliceV):
            raise Unsupported('a list of another kind')
        s2 = s.copy()
        s2.heap[o] = MapC(mc.kt, mc.et, (), mc.base)
        old, ok = m.map_get(s2, MapV(FALSE, o), r, {'e': mc.et})
        old = m.force(s2, old)
        n = old.len if holds(s, ok) else I(0)
        if n is old.len or prove(s.pc, not_(ok)):
            pass
        else:
            raise Split(ok)
        need(s.pc, eq(l.len, n + 1), 'not one partition more for the broker')
        t, p = topic_pid(s, elem_(m, s, l, n))
        seq_eq(t, at(m, s, elem(m, s, tm(s), i), ['TopicName']), s.pc)
        need(s.pc, eq(p, at(m, s, elem(m, s, pm(s, i), j), ['PartitionID'])), 'another partition is filed')
        if n.const() == 0:
            return
        q = app('any:q', (), 0, 2**40)
        s3 = s.copy()
        s3.assume(lt(q, n))
        t, p = topic_pid(s3, elem_(m, s3, l, q))
        t2, p2 = topic_pid(s3, elem_(m, s3, old, q))
        seq_eq(t, t2, s3.pc)
        need(s3.pc, eq(p, p2), 'a partition filed before is lost')

    def visited(s, evs, xs, n, what):
        lp = [e for e in evs if e[0] == 'loop' and e[1] in xs]
        if not lp:
            raise Mismatch(what + ' is not visited', s.pc)
        need(s.pc, le(n, lp[-1][1]), what + ' is left out')
    X = {k: [] for k in 'ABCDE'}
    seen = lambda k: (lambda s, x: X[k].append(x))

    def want_b(m, fr, st0, h, body):
        if not A.active or B.active or not files(m, fr, body):
            return False
        pos['i'] = m.iter
        return True

    def want_c(m, fr, st0, h, body):
        if not A.active or not B.active or not files(m, fr, body):
            return False
        pos['j'] = m.iter
        return True
    A = Each(m, None, allowed=[reset], more=seen('A'), check=lambda s, x, evs: visited(s, evs, X['B'], pm(s, x).len, 'a partition'),
             want=lambda m, fr, st0, h, body: m.iter is None and updates(m, fr, body) and files(m, fr, body))
    B = Each(m, None, allowed=[reset], more=seen('B'), check=lambda s, x, evs: visited(s, evs, X['C'], rp(s, pos['i'], x).len, 'a replica'), want=want_b)
    C_ = Each(m, None, allowed=[reset], more=seen('C'), check=lambda s, x, evs: c.cases(s, lambda s2: replica(s2, x, evs)), want=want_c)

    def entry(s, x):
        mc = s.heap[box['filed']]
        return m.force(s, Ghost(mc.kt, 'filed#key', (x,))), m.force(s, Ghost(mc.et, 'filed{v}', (x,)))

    def added(s, y, evs):
        ad = [e for e in evs if e[0] == 'add']
        if len(ad) != 1:
            raise Mismatch('%d partitions are added' % len(ad), s.pc)
        _, l = entry(s, pos['x'])
        t, p = topic_pid(s, elem_(m, s, l, y))
        seq_eq(ad[0][2], t, s.pc)
        need(s.pc, eq(ad[0][3], p), 'another partition is asked for')
        if pos.setdefault('req', ad[0][1]) != ad[0][1]:
            raise Unsupported('several requests')

    def want_d(m, fr, st0, h, body):
        if m.iter is not None or not calls(m, fr, body, RQ):
            return False
        box['asking'] = True
        return True

    def want_e(m, fr, st0, h, body):
        if not D.active or not calls(m, fr, body, ADD):
            return False
        pos['x'] = m.iter
        pos.pop('req', None)
        pos.pop('obj', None)
        return True

    def judge(s, x, evs, err):
        gb, rq = [[e for e in evs if e[0] == k] for k in ('GetBroker', 'request')]
        k, l = entry(s, x)
        if len(gb) != 1:
            raise Mismatch('%d brokers for one entry' % len(gb), s.pc)
        need(s.pc, eq(gb[0][1], k), 'another broker')
        if not rq:
            need(s.pc, not_(gb[0][3].nil), 'a broker is not asked')
            if err is None:
                raise Mismatch('a broker that cannot be reached is not reported', s.pc)
            return
        need(s.pc, gb[0][3].nil, 'a broker that was not found is used')
        if len(rq) != 1 or rq[0][1] != W.key(gb[0][2]):
            raise Mismatch('another broker is asked', s.pc)
        visited(s, evs[:evs.index(rq[0])], X['E'], l.len, 'a partition of the broker')
        if not same_slice(m, s, at(m, s, m.force(s, rq[0][2].v), ['Topics']), m.force(s, Ghost(lt_, 'asked', (I(0),)))):
            raise Mismatch('another request is sent', s.pc)
        seq_eq(deref(m, s, at(m, s, m.force(s, rq[0][2].v), ['RequestHeader', 'ClientID'])), at(m, s, cl, ['clientID']), s.pc)
        if err is not None:
            return
        u = s.heap[box['answers']].upd
        if holds(s, rq[0][3].nil):
            if len(u) != 1:
                raise Mismatch('the answer of a broker is lost', s.pc)
            need(s.pc, eq(m.force(s, u[0][0]), k), 'an answer is listed under another broker')
            v = m.force(s, u[0][1])
            w = m.force(s, rq[0][4].v)
            need(s.pc, eq(at(m, s, v, ['ThrottleTimeMS']), at(m, s, w, ['ThrottleTimeMS'])), 'another answer is listed')
        elif u:
            raise Mismatch('an answer that failed is listed', s.pc)
    D = Each(m, None, allowed=[reset], more=seen('D'), check=lambda s, x, evs: c.cases(s, lambda s2: judge(s2, x, evs, None)), want=want_d, loose=True)
    E = Each(m, None, allowed=[asked], more=seen('E'), check=added, want=want_e)

    def fresh_request(s, y):
        if y.const() == 0 and 'obj' in pos:
            need(s.pc, eq(at(m, s, pos['obj'], ['Topics']).len, I(0)), 'a request that asks for something else already')
        return TRUE
    E.inv2 = fresh_request
    F = Each(m, None, allowed=[reset], check=lambda s, x, evs: None, want=lambda m, fr, st0, h, body: D.active and not calls(m, fr, body, ADD), loose=True)
    F2 = Each(m, None, allowed=[reset], check=lambda s, x, evs: None, want=lambda m, fr, st0, h, body: D.active and F.active and not calls(m, fr, body, ADD), loose=True)
    n = 0
    for s1, (res, err) in m.call_fn(DLD, [cl, topics], st, merge=False):
        n += 1

        def chk(s):
            md = W.evs(s, 'metadata')
            if len(md) != 1 or W.key(md[0][1][0]) != W.key(b) or not same_slice(m, s, md[0][1][2], topics):
                raise Mismatch('not one question for the topics', s.pc)
            e = m.force(s, err)
            lp = [e_ for e_ in s.ev if e_[0] == 'loop']
            if not isnil(m, s, e):
                if lp and lp[-1][1] in X['D']:
                    judge(s, lp[-1][1], s.ev[last_loop(s) + 1:], e)
                return
            need(s.pc, md[0][3].nil, 'an error is ignored')
            if not (A.done and B.done and C_.done and D.done and E.done):
                raise Unsupported('the brokers are asked in another way')
            visited(s, s.ev, X['A'], tm(s).len, 'a topic')
            if lp[-1][1] not in X['D']:
                raise Unsupported('another loop')
            need(s.pc, le(m.map_len(s, MapV(FALSE, box['filed'])), lp[-1][1]), 'a broker is left out')
            if m.force(s, res).obj != box['answers']:
                raise Mismatch('other answers', s.pc)
        c.post('ensures: every replica is asked for at its broker', s1, chk, DLD)
    return n


HGG = '(*Helper).GetGroups'


def groups_job(c):
    """loop invariants: each broker of the answer is asked once, and its groups are appended in order; ensures: all brokers were asked, or the result is nil"""
    m = c.m
    st = State()
    W.conc(m)
    BR.errors_model(m)
    getbroker_contract(m)
    m.nonnil |= {'h.brokers', 'md.Brokers[]'}
    h = recv_of(m, st, 'Helper', 'h')
    name = BS + 'RequestMetaData'
    rt = m.p.funcs[name]['results'][0]['t']

    def rmd(m, fr, st, a, ins):
        """contract of Brokers.RequestMetaData (any_broker_job)"""
        e = W.ghost_err(m, st, 'md.err')
        W.ev(st, 'metadata', [m.force(st, x) for x in a], e)
        return (m.force(st, Ghost(rt, 'md')), e)
    m.contracts[name] = rmd
    lg = BK + 'RequestListGroups'
    lt_ = m.p.funcs[lg]['results'][0]['t']

    def ask(m, fr, st, a, ins):
        """contract of Broker.RequestListGroups (ask_job)"""
        e = W.ghost_err(m, st, 'lg.err')
        path = 'groups!%d' % len(st.ev)
        m.nonnil |= {path, path + '.Groups[]'}
        r = m.force(st, Ghost(lt_, path))
        W.ev(st, 'ask', W.key(m.force(st, a[0])), e, r)
        return (r, e)
    m.contracts[lg] = ask
    bl = lambda s: at(m, s, m.force(s, Ghost(rt, 'md')), ['Brokers'])
    lists = lambda d: [(r, v) for r, v in d.items() if isinstance(v, SliceV)]
    pos = {}

    def judge(s, x, evs, left):
        gb, ak = [[e for e in evs if e[0] == k] for k in ('GetBroker', 'ask')]
        nid = at(m, s, elem(m, s, bl(s), x), ['NodeID'])
        if len(gb) != 1:
            raise Mismatch('%d brokers are asked for' % len(gb), s.pc)
        need(s.pc, eq(gb[0][1], nid), 'another broker')
        if not ak:
            need(s.pc, not_(gb[0][3].nil), 'a broker is not asked')
            if not left:
                raise Mismatch('a broker that cannot be reached is left out', s.pc)
            return
        need(s.pc, gb[0][3].nil, 'a broker that is not reachable is used')
        if len(ak) != 1 or ak[0][1] != W.key(gb[0][2]):
            raise Mismatch('another broker is asked', s.pc)
        if left:
            need(s.pc, not_(ak[0][2].nil), 'the rest is not asked')
            return
        need(s.pc, ak[0][2].nil, 'an error is ignored')
        lp = [e for e in evs if e[0] == 'loop' and e[1] in pos['ys']]
        if not lp or lp[-1] not in evs[evs.index(ak[0]):]:
            raise Unsupported('the groups are not taken one by one')
        need(s.pc, le(at(m, s, ak[0][3], ['Groups']).len, lp[-1][1]), 'a group is left out')
    pos['ys'], pos['xs'] = [], []

    def one(s, y, evs):
        a, b = lists(B.start), [v for r, v in B.now.items() if isinstance(v, SliceV)]
        if len(a) != 1 or len(b) != 1:
            raise Unsupported('the groups are gathered in another way')
        a, b = a[0][1], b[0]
        need(s.pc, eq(b.len, a.len + 1), 'not one group more')
        r = W.evs(s, 'ask')[-1][3]
        seq_eq(m.force(s, elem_(m, s, b, a.len)), at(m, s, elem(m, s, at(m, s, r, ['Groups']), y), ['GroupID']), s.pc)
        q = app('any:q', (), 0, 2**40)
        s2 = s.copy()
        s2.assume(lt(q, a.len))
        seq_eq(m.force(s2, elem_(m, s2, b, q)), m.force(s2, elem_(m, s2, a, q)), s2.pc)

    def start(s, x):
        if x.const() == 0 and not A.assuming:
            for r, v in lists(A.now):
                need(s.pc, eq(v.len, I(0)), 'groups of nobody')
        return TRUE
    A = Each(m, None, check=lambda s, x, evs: judge(s, x, evs, False), want=lambda m, fr, st0, h_, body: m.iter is None and calls(m, fr, body, lg), more=lambda s, x: pos['xs'].append(x), loose=True)
    A.inv2 = start
    B = Each(m, None, check=one, want=lambda m, fr, st0, h_, body: A.active, more=lambda s, y: pos['ys'].append(y), loose=True)
    n = 0
    for s1, (res,) in m.call_fn(HGG, [h], st, merge=False):
        n += 1

        def chk(s):
            md = W.evs(s, 'metadata')
            if len(md) != 1:
                raise Mismatch('the brokers are asked for %d times' % len(md), s.pc)
            r = m.force(s, res)
            lp = [e for e in s.ev if e[0] == 'loop' and e[1] in pos['xs']]
            if not lp:
                need(s.pc, not_(md[0][2].nil), 'nobody is asked')
                need(s.pc, r.nil, 'groups of nobody')
                return
            need(s.pc, md[0][2].nil, 'an error is ignored')
            if not A.done or not B.done:
                raise Unsupported('another way')
            evs = s.ev[s.ev.index(lp[-1]) + 1:]
            if any(e[0] == 'GetBroker' for e in evs):
                judge(s, lp[-1][1], evs, True)
                need(s.pc, r.nil, 'the groups of some brokers only')
            else:
                need(s.pc, le(bl(s).len, lp[-1][1]), 'not all brokers are asked')
                if not any(same_slice(m, s, r, v) for _, v in lists(A.start)):
                    raise Mismatch('other groups', s.pc)
        c.post('ensures: the groups of all brokers', s1, chk, HGG)
    return n


# ---------------------------------------------------------------- clients and helpers: made with their own servers, and closed
CLOSE = BS + 'Close'


def close_job(fn, path):
    """ensures: every connection that is kept is closed once (path: the Brokers inside the receiver)"""
    def body(c):
        m = c.m
        st = State()
        recv = None
        if path:
            recv, b = client(m, st)
            m.nonnil |= {'c.brokers.brokers', 'c.brokers.brokers{v}'}
            root = 'c.brokers'
            W.conc(m)
        else:
            recv = b = cluster(m, st)
            root = 'b'
        m.contracts[BK + 'Close'] = W.record('bclose')
        bad = []

        def one(s, x, evs):
            cl = [e for e in evs if e[0] == 'bclose']
            w = m.force(s, Ghost(m.p.byname['*Broker'], root + '.brokers{v}', (x,)))
            if len(cl) != 1 or W.key(cl[0][1]) != W.key(w):
                bad.append(('a connection is closed %d times' % len(cl), s.pc))
        Each(m, None, check=one, loose=True)
        n = 0
        for s1, _ in m.call_fn(fn, [recv], st, merge=False):
            n += 1

            def chk(s):
                if bad:
                    raise Mismatch(*bad[0])
                i = last_loop(s)
                if i < 0:
                    raise Unsupported('connections are closed in another way')
                need(s.pc, le(m.map_len(s, m.force(s, getf(m, s, b, 'brokers'))), s.ev[i][1]), 'not every connection is closed')
            c.post('ensures: every connection is closed', s1, chk, fn)
        return n
    return body


def made_job(fn, cls, servers, config):
    """ensures: a handle made from servers uses the brokers found through exactly these servers (with the configuration given) and the client id given; no brokers, an error"""
    def body(c):
        m = c.m
        st = State()
        nb = m.p.funcs['NewBrokersWithConfig']

        def h(m, fr, st, a, ins):
            r, e = m.force(st, Ghost(nb['results'][0]['t'], 'brokers')), W.ghost_err(m, st, 'brokers.err')
            st.assume(or_(not_(r.nil), not_(e.nil)))
            W.ev(st, 'brokers', m.force(st, a[0]), m.force(st, a[1]), r, e)
            return (r, e)
        m.contracts['NewBrokersWithConfig'] = h
        dflt = m.force(st, Ghost(nb['params'][1]['t'], 'default.config'))
        m.contracts['DefaultBrokerConfig'] = lambda m, fr, st, a, ins: (dflt,)
        args, bs, cfg = [], None, dflt
        for p in m.p.funcs[fn]['params']:
            name = m.p.name(p['t'])
            if name == 'string':
                args.append(satom('arg%d' % len(args), (), 32767))
            else:
                args.append(m.force(st, Ghost(p['t'], 'arg%d' % len(args))))
        if servers is None:
            bs = args[0]
        if config is not None:
            cfg = args[config]
        cid = args[1]
        n = 0
        for s1, res in m.call_fn(fn, args, st, merge=False):
            n += 1

            def chk(s):
                o = m.force(s, res[0])
                ev = W.evs(s, 'brokers')
                if bs is not None:
                    want = bs
                else:
                    if len(ev) != 1:
                        raise Mismatch('the brokers are looked up %d times' % len(ev), s.pc)
                    seq_eq(ev[0][1], args[servers], s.pc)
                    if W.key(ev[0][2]) != W.key(cfg):
                        raise Mismatch('another configuration', s.pc)
                    if not isnil(m, s, ev[0][4]):
                        need(s.pc, not_(m.force(s, res[1]).nil), 'the error is swallowed')
                        return
                    need(s.pc, m.force(s, res[1]).nil, 'an error although none happened')
                    want = ev[0][3]
                need(s.pc, not_(o.nil), 'nothing is returned')
                if W.key(m.force(s, getf(m, s, o, 'brokers'))) != W.key(want):
                    raise Mismatch('other brokers are used', s.pc)
                seq_eq(m.force(s, getf(m, s, o, 'clientID')), cid, s.pc)
            c.post('ensures: made with its own servers and client id', s1, lambda s: c.cases(s, chk), fn)
        return n
    return body


MADE = [('NewClient', made_job('NewClient', 'Client', 0, None)), ('NewHelper', made_job('NewHelper', 'Helper', 0, 2)), ('NewHelperFromBrokers', made_job('NewHelperFromBrokers', 'Helper', None, None))]
