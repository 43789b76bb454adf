"""Contracts of error reporting: Error() of every response type, KafkaError, the table of error codes."""
from wire import *
import prims
import responses as RS
from responses import Code, Map, Perm, Sized
from terms import *
from values import *
from machine import State
from solver import prove, interesting
import solver

TABLE = {
    -1: 'UNKNOWN_SERVER_ERROR', 1: 'OFFSET_OUT_OF_RANGE', 2: 'CORRUPT_MESSAGE', 3: 'UNKNOWN_TOPIC_OR_PARTITION', 4: 'INVALID_FETCH_SIZE',
    5: 'LEADER_NOT_AVAILABLE', 6: 'NOT_LEADER_OR_FOLLOWER', 7: 'REQUEST_TIMED_OUT', 8: 'BROKER_NOT_AVAILABLE', 9: 'REPLICA_NOT_AVAILABLE',
    10: 'MESSAGE_TOO_LARGE', 11: 'STALE_CONTROLLER_EPOCH', 12: 'OFFSET_METADATA_TOO_LARGE', 13: 'NETWORK_EXCEPTION',
    14: 'COORDINATOR_LOAD_IN_PROGRESS', 15: 'COORDINATOR_NOT_AVAILABLE', 16: 'NOT_COORDINATOR', 17: 'INVALID_TOPIC_EXCEPTION',
    18: 'RECORD_LIST_TOO_LARGE', 19: 'NOT_ENOUGH_REPLICAS', 20: 'NOT_ENOUGH_REPLICAS_AFTER_APPEND', 21: 'INVALID_REQUIRED_ACKS',
    22: 'ILLEGAL_GENERATION', 23: 'INCONSISTENT_GROUP_PROTOCOL', 24: 'INVALID_GROUP_ID', 25: 'UNKNOWN_MEMBER_ID', 26: 'INVALID_SESSION_TIMEOUT',
    27: 'REBALANCE_IN_PROGRESS', 28: 'INVALID_COMMIT_OFFSET_SIZE', 29: 'TOPIC_AUTHORIZATION_FAILED', 30: 'GROUP_AUTHORIZATION_FAILED',
    31: 'CLUSTER_AUTHORIZATION_FAILED', 32: 'INVALID_TIMESTAMP', 33: 'UNSUPPORTED_SASL_MECHANISM', 34: 'ILLEGAL_SASL_STATE', 35: 'UNSUPPORTED_VERSION',
    36: 'TOPIC_ALREADY_EXISTS', 37: 'INVALID_PARTITIONS', 38: 'INVALID_REPLICATION_FACTOR', 39: 'INVALID_REPLICA_ASSIGNMENT', 40: 'INVALID_CONFIG',
    41: 'NOT_CONTROLLER', 42: 'INVALID_REQUEST', 43: 'UNSUPPORTED_FOR_MESSAGE_FORMAT', 44: 'POLICY_VIOLATION', 45: 'OUT_OF_ORDER_SEQUENCE_NUMBER',
    46: 'DUPLICATE_SEQUENCE_NUMBER', 47: 'INVALID_PRODUCER_EPOCH', 48: 'INVALID_TXN_STATE', 49: 'INVALID_PRODUCER_ID_MAPPING',
    50: 'INVALID_TRANSACTION_TIMEOUT', 51: 'CONCURRENT_TRANSACTIONS', 52: 'TRANSACTION_COORDINATOR_FENCED',
    53: 'TRANSACTIONAL_ID_AUTHORIZATION_FAILED', 54: 'SECURITY_DISABLED', 55: 'OPERATION_NOT_ATTEMPTED', 56: 'KAFKA_STORAGE_ERROR',
    57: 'LOG_DIR_NOT_FOUND', 58: 'SASL_AUTHENTICATION_FAILED', 59: 'UNKNOWN_PRODUCER_ID', 60: 'REASSIGNMENT_IN_PROGRESS',
    61: 'DELEGATION_TOKEN_AUTH_DISABLED', 62: 'DELEGATION_TOKEN_NOT_FOUND', 63: 'DELEGATION_TOKEN_OWNER_MISMATCH',
    64: 'DELEGATION_TOKEN_REQUEST_NOT_ALLOWED', 65: 'DELEGATION_TOKEN_AUTHORIZATION_FAILED', 66: 'DELEGATION_TOKEN_EXPIRED',
    67: 'INVALID_PRINCIPAL_TYPE', 68: 'NON_EMPTY_GROUP', 69: 'GROUP_ID_NOT_FOUND', 70: 'FETCH_SESSION_ID_NOT_FOUND',
    71: 'INVALID_FETCH_SESSION_EPOCH', 72: 'LISTENER_NOT_FOUND', 73: 'TOPIC_DELETION_DISABLED', 74: 'FENCED_LEADER_EPOCH', 75: 'UNKNOWN_LEADER_EPOCH',
    76: 'UNSUPPORTED_COMPRESSION_TYPE', 77: 'STALE_BROKER_EPOCH', 78: 'OFFSET_NOT_AVAILABLE', 79: 'MEMBER_ID_REQUIRED',
    80: 'PREFERRED_LEADER_NOT_AVAILABLE', 81: 'GROUP_MAX_SIZE_REACHED', 82: 'FENCED_INSTANCE_ID', 83: 'ELIGIBLE_LEADERS_NOT_AVAILABLE',
    84: 'ELECTION_NOT_NEEDED', 85: 'NO_REASSIGNMENT_IN_PROGRESS', 86: 'GROUP_SUBSCRIBED_TO_TOPIC', 87: 'INVALID_RECORD', 88: 'UNSTABLE_OFFSET_COMMIT',
    89: 'THROTTLING_QUOTA_EXCEEDED', 90: 'PRODUCER_FENCED', 91: 'RESOURCE_NOT_FOUND', 92: 'DUPLICATE_RESOURCE', 93: 'UNACCEPTABLE_CREDENTIAL',
    94: 'INCONSISTENT_VOTER_SET', 95: 'INVALID_UPDATE_VERSION', 96: 'FEATURE_UPDATE_FAILED', 97: 'PRINCIPAL_DESERIALIZATION_FAILURE',
    98: 'SNAPSHOT_NOT_FOUND', 99: 'POSITION_OUT_OF_RANGE', 100: 'UNKNOWN_TOPIC_ID', 101: 'DUPLICATE_BROKER_REGISTRATION',
    102: 'BROKER_ID_NOT_REGISTERED', 103: 'INCONSISTENT_TOPIC_ID', 104: 'INCONSISTENT_CLUSTER_ID', 105: 'TRANSACTIONAL_ID_NOT_FOUND',
    106: 'FETCH_SESSION_TOPIC_ID_ERROR', 107: 'INELIGIBLE_REPLICA', 108: 'NEW_LEADER_ELECTED', 109: 'OFFSET_MOVED_TO_TIERED_STORAGE',
    110: 'FENCED_MEMBER_EPOCH', 111: 'UNRELEASED_INSTANCE_ID', 112: 'UNSUPPORTED_ASSIGNOR', 113: 'STALE_MEMBER_EPOCH',
    114: 'MISMATCHED_ENDPOINT_TYPE', 115: 'UNSUPPORTED_ENDPOINT_TYPE', 116: 'UNKNOWN_CONTROLLER_ID', 117: 'UNKNOWN_SUBSCRIPTION_ID',
    118: 'TELEMETRY_TOO_LARGE', 119: 'INVALID_REGISTRATION'}
RETRIABLE = {2, 3, 5, 6, 7, 9, 13, 14, 15, 16, 19, 20, 41, 51, 56, 70, 71, 72, 74, 75, 78, 80, 83, 84, 88, 89, 100, 103, 106}


def positions(k, pre=()):
    """places of error codes: tuples of ('f', field) | ('a',) | ('m',)"""
    if isinstance(k, Code):
        yield pre
    elif isinstance(k, Struct):
        for n, x in k.fields:
            if n is not None and not n.startswith('?'):
                for p in positions(x, pre + (('f', n),)):
                    yield p
    elif isinstance(k, Array):
        for p in positions(k.elem, pre + (('a',),)):
            yield p
    elif isinstance(k, Map):
        for p in positions(k.val, pre + (('m',),)):
            yield p


def value_at(m, st, v, pos, idx):
    """value at a position; idx: index terms, or None for fresh ones (assumed in range).  Returns (value, indices, bounds)"""
    used, bounds = [], []
    for s in pos:
        if s[0] == 'f':
            v = getf(m, st, v, s[1])
            continue
        v = m.force(st, v)
        if s[0] == 'a':
            n = v.len
        else:
            n, ent = m.map_entries(st, v)
        if idx is None:
            j = fresh('w', 0)
            st.assume(le(I(0), j))
            st.assume(lt(j, n))
        else:
            j = idx[len(used)]
            bounds.append(and_(le(I(0), j), lt(j, n)))
            if not prove(st.pc, bounds[-1]):
                return None, None, None
        used.append(j)
        if s[0] == 'a':
            c = m.content(st, v)
            v = deref(m, st, arr_get(c, j, st.pc, m.zero) if isinstance(c, Arr) else m.step(st, c, ('i', j)))
        else:
            v = deref(m, st, ent(j)[1])
    return m.force(st, v), used, bounds


def to16(v):
    """Go conversion to int16"""
    if v.lo is not None and v.lo >= -32768 and v.hi is not None and v.hi <= 32767:
        return v
    return mod(v + 32768, 65536) - 32768


def kafka_codes(m, st, e, t, d=0):
    """values of the KafkaErrors in the chain of e"""
    e = m.force(st, e)
    if not isinstance(e, IfaceV) or d > 6:
        return []
    if e.t == t:
        return [e.v]
    if hasattr(e.v, 'wraps'):
        return [c for w in e.v.wraps for c in kafka_codes(m, st, w, t, d + 1)]
    return []


def ground(v):
    return [n for n in interesting(v) if n.k == 'app' and not solver.has_bv(n)]


def error_fn(r, P):
    for f in ('(*%s).Error' % r.name, '(%s).Error' % r.name):
        if f in P.funcs:
            return f
    return '(%s).Error' % r.name


def gathering(m, recv, poss):
    """Loops that append an error to a list for some elements of the response.  Invariant after x elements: the list is empty iff their codes are
    all 0, and every error in the list carries a non-zero code of the response (checked when it is appended; errors.Join keeps the elements)."""
    if len(poss) != 1 or [x[0] for x in poss[0] if x[0] != 'f'] != ['a']:
        return
    from havoc import Each
    kt = m.p.byname['KafkaError']
    lists = {}

    def reg(m, fr, header):
        for i in m.p.funcs[fr.fn]['blocks'][header]['instrs']:
            if i['op'] == 'Phi' and m.p.u(i['t']).get('s') == '[]error':
                return i['reg']

    def want(m, fr, st0, header, body):
        w.reg = reg(m, fr, header)
        return w.reg is not None

    def inv2(s, x):
        v, (j,), _ = value_at(m, s.copy(), recv, poss[0], None)
        n = (w.start if w.assuming else w.now)[w.reg].len
        none = all_(eq(v, I(0)), j.m[0][0], I(0), x)
        e = eq(n, I(0))
        inv = or_(and_(e, none), and_(not_(e), not_(none)))
        if w.assuming:          # and what "all of the first x+1" means
            ja = j.m[0][0]
            s.assume(le(I(0), x))
            nxt, step = all_(eq(v, I(0)), ja, I(0), x + 1), and_(none, subst(eq(v, I(0)), {ja: x}))
            inv = and_(inv, or_(and_(nxt, step), and_(not_(nxt), not_(step))))
        return inv

    def check(s, x, evs):
        a, b = w.start[w.reg], w.now[w.reg]
        if a is b or b.base == a.base and b.off == a.off and b.len == a.len:
            return
        if not prove(s.pc, eq(b.len, a.len + 1)):
            raise Unsupported('a list of errors that grows by more than one')
        c = m.content(s, b)
        if not isinstance(c, Arr) or b.off.const() != 0 or not all(q[0] == 'gh' and q[2] == 'loop.%s[]' % w.reg for q in c.p[:-1]):
            raise Unsupported('a list of errors that is not appended to')
        e = arr_get(c, a.len, s.pc, m.zero)
        cs = kafka_codes(m, s, e, kt)
        k = m.force(s, cs[0]) if cs else None
        for g in ground(k) if cs else ():
            v, _, _ = value_at(m, s, recv, poss[0], list(g.a[1])) if len(g.a[1]) == 1 else (None, 0, 0)
            if v is not None and prove(s.pc, and_(eq(to16(v), k), not_(eq(v, I(0))))):
                lists[w.reg] = True
                return
        raise Mismatch('an error is gathered that is not an error code of the response', s.pc)

    w = Each(m, None, want=want, check=check, loose=True)
    w.inv2 = inv2

    def join(m, fr, st, a, ins):
        v = m.force(st, a[0])
        c = m.content(st, v) if isinstance(v, SliceV) else None
        if not isinstance(c, Arr) or len(c.p) != 1 or c.p[0][0] != 'gh' or not any(c.p[0][2] == 'loop.%s[]' % q for q in lists):
            return NotImplemented
        from intrinsics import err
        s1 = st.copy()
        s1.assume(eq(v.len, I(0)))
        st.assume(not_(eq(v.len, I(0))))
        x, _, _ = value_at(m, st, recv, poss[0], None)
        st.assume(not_(eq(x, I(0))))
        return [(s1, (IfaceV(TRUE, None, None),)), (st, (err('err:join', None, (), [IfaceV(FALSE, kt, to16(x))]),))]
    m.contracts['errors.Join'] = join


def error_job(r, fn):
    """ensures: nil iff every error code is 0; a non-nil error carries a KafkaError whose code is in the response; no panic"""
    def body(c):
        m = c.m
        st = State()
        path = 'resp.' + r.name
        poss = list(positions(r.body(r.versions[-1])))
        kt = m.p.byname['KafkaError']
        t = m.p.byname['*' + r.name] if fn.startswith('(*') else m.p.byname[r.name]
        m.nonnil.add(path)
        recv = m.force(st, Ghost(t, path))
        n = 0
        gathering(m, recv, poss)
        for s1, (err,) in m.call_fn(fn, [recv], st):
            n += 1

            def chk(s):
                e = m.force(s, err)
                if not isinstance(e, IfaceV):
                    raise Unsupported('error value %r' % (e,))
                if prove(s.pc, e.nil):
                    for p in poss:
                        s2 = s.copy()

                        def zero(s3, p=p):
                            v, _, _ = value_at(m, s3, recv, p, None)
                            if not prove(s3.pc, eq(v, I(0))):
                                raise Mismatch('no error is reported although %s may be non-zero' % show(p), s3.pc)
                        zero(s2)
                    return
                if not prove(s.pc, not_(e.nil)):
                    raise Split(e.nil)
                cs = kafka_codes(m, s, e, kt)
                if not cs:
                    raise Mismatch('the error reported carries no kafka error code', s.pc)
                for got in cs[:1]:
                    got = m.force(s, got)
                    for p in poss:
                        k = sum(1 for x in p if x[0] != 'f')
                        for a in ([None] if k == 0 else ground(got)):
                            idx = [] if a is None else list(a.a[1])
                            if len(idx) != k:
                                continue
                            v, _, _ = value_at(m, s, recv, p, idx)
                            if v is not None and prove(s.pc, and_(eq(to16(v), got), not_(eq(v, I(0))))):
                                return
                raise Mismatch('the error reported (%r) is not an error code of the response' % (cs,), s.pc)
            c.post('ensures: %s.Error() is nil iff every error code is 0, and otherwise one of them' % r.name, s1, chk, fn)
        return n
    return body


def show(p):
    return '.'.join(x[1] if x[0] == 'f' else '[]' for x in p)


# ---------------------------------------------------------------- concrete inputs
def skeleton(k, rng, d=0):
    """a Go value holding only what error reporting reads"""
    if isinstance(k, Struct):
        out = {}
        for n, x in k.fields:
            if n is None or n.startswith('?') or not (isinstance(x, Str) or RS.has_codes(x)):
                continue
            o = out
            parts = n.split('.')
            for q in parts[:-1]:
                o = o.setdefault(q, {})
            o[parts[-1]] = skeleton(x, rng, d)
        return out
    if isinstance(k, Map):
        return [[b'k%d' % i, skeleton(k.val, rng, d + 1)] for i in range(rng.choice([0, 1, 1, 2, 3]))]
    if isinstance(k, Array):
        return [skeleton(k.elem, rng, d + 1) for _ in range(rng.choice([0, 1, 2, 2, 3, 5]))]
    if isinstance(k, Code):
        if rng.random() < rng.zero:
            return 0
        v = rng.choice([1, 3, 16, 25, 27, 118, 119, 200, 32767, rng.randint(1, 32767)] + ([-1, -32768] if k.signed else [65535]))
        return v
    if isinstance(k, Str):
        if k.null == 'yes' and rng.random() < 0.5:
            return None
        return rng.choice([b'', b'text', b'a %s %d'])
    return None


def skcodes(k, v):
    if isinstance(k, Struct):
        out = []
        for n, x in k.fields:
            if n is None or n.startswith('?') or not RS.has_codes(x):
                continue
            g = v
            for q in n.split('.'):
                g = g[q]
            out += skcodes(x, g)
        return out
    if isinstance(k, Map):
        return [c for _, x in v for c in skcodes(k.val, x)]
    if isinstance(k, Array):
        return [c for x in v for c in skcodes(k.elem, x)]
    if isinstance(k, Code):
        return [RS.i16(v)]
    return []


def error_cases(r, fn):
    from runner import Case
    k = r.body(r.versions[-1])

    def cases(rng, n):
        for i in range(n):
            rng.zero = rng.choice([0.0, 0.5, 0.9, 0.97, 1.0])
            v = skeleton(k, rng)
            cs = [c for c in skcodes(k, v) if c]

            def check(a, cs=cs, v=v):
                if 'panic' in a:
                    return '%s panics with error codes %r: %s' % (fn, cs, a['panic'])
                e = a['res'][0]['r'][0]
                if (e is None) != (not cs):
                    return '%s reports %r with error codes %r' % (fn, e, cs)
                if e is not None and e.get('kafka') not in cs:
                    return '%s reports code %r with error codes %r' % (fn, e.get('kafka'), cs)
            yield Case([{'fn': fn, 'args': [v]}], check)
    return cases


# ---------------------------------------------------------------- KafkaError
def table_job(c):
    """ensures: every code of the protocol has its own name and retriability; any other code is not retriable and is named by its number"""
    m = c.m
    n = 0
    for code in list(sorted(TABLE)) + [None]:
        st = State()
        if code is None:
            v = app('code', (), -32768, 32767)
            for k in list(TABLE) + [0]:
                st.assume(not_(eq(v, I(k))))
        else:
            v = I(code)
        for s1, (r,) in m.call_fn('(KafkaError).IsRetriable', [v], st.copy()):
            n += 1

            def ret(s):
                g = m.force(s, r)
                need(s.pc, g if code in RETRIABLE else not_(g), 'code %s (%s): retriable is %r' % (code, TABLE.get(code), g))
            c.post('ensures: retriability of code %s' % code, s1, ret, '(KafkaError).IsRetriable')
        for s1, (r,) in m.call_fn('(KafkaError).Error', [v], st.copy()):
            n += 1

            def name(s):
                g = m.force(s, r)
                if code is None:
                    if any(x.k == 'atom' and x.a[0] == 'itoa' and x.a[1][0] == v for x in g.a):
                        return
                    raise Unsupported('text of an unknown code %r' % (g,))
                t = b''
                for x in g.a:
                    if x.k != 'lit':
                        break
                    t += x.a[0]
                if not t.startswith(TABLE[code].encode() + b':'):
                    raise Mismatch('code %d is called %r' % (code, t), s.pc)
            c.post('ensures: name of code %s' % code, s1, name, '(KafkaError).Error')
    n += entries(c)
    return n


def entries(c):
    """invariant of package initialisation: the exported table has exactly the codes of the protocol, and the entry of each carries its number, name and retriability"""
    m = c.m
    g = m.p.globals.get('AllError')
    if g is None or m.p.u(g['t'])['k'] != 'ptr' or m.p.u(m.p.u(g['t'])['e'])['k'] != 'map' or m.p.name(m.p.u(m.p.u(g['t'])['e'])['e']) != '*Error' or 'AllError' not in m.p.const_globals():
        return 0
    u = m.p.u(m.p.u(g['t'])['e'])
    for code in sorted(TABLE):
        st = State()
        mp = m.force(st, st.heap[m.global_obj(st, 'AllError', g['t'])])

        def chk(s, code=code, mp=mp):
            v, has = m.map_get(s, mp, I(code), u)
            if has is not TRUE:
                raise Mismatch('code %d (%s) has no entry in the table' % (code, TABLE[code]), s.pc)
            v = m.force(s, v)
            need(s.pc, eq(getf(m, s, v, 'ErrorCode'), I(code)), 'the entry of code %d (%s) carries another number' % (code, TABLE[code]))
            r = m.force(s, getf(m, s, v, 'Retriable'))
            need(s.pc, r if code in RETRIABLE else not_(r), 'the entry of code %d (%s) has the wrong retriability' % (code, TABLE[code]))
        c.post('invariant: table entry of code %d' % code, st, chk, 'init')
    return len(TABLE)


def code_cases(rng, n):
    from runner import Case
    from replay import unb64
    for code in list(range(-3, 135)) + [-32768, 32767, 1000] + [rng.randint(-32768, 32767) for _ in range(10)]:
        def check(a, code=code):
            if 'panic' in a:
                return 'KafkaError(%d): %s' % (code, a['panic'])
            text, ret, e = unb64(a['res'][0]['r'][0]).decode(), a['res'][1]['r'][0], a['res'][2]['r'][0]
            if code in TABLE:
                if not text.startswith(TABLE[code] + ':'):
                    return 'code %d is called %r instead of %s' % (code, text, TABLE[code])
            elif code != 0 and str(code) not in text:
                return 'unknown code %d is called %r' % (code, text)
            if ret != (code in RETRIABLE):
                return 'code %d (%s): retriable is %r' % (code, TABLE.get(code), ret)
            if (e is None) != (code == 0) or (e is not None and e.get('kafka') != code):
                return 'getErrorFromErrorCode(%d) is %r' % (code, e)
            has, num, nm, rt = a['res'][3]['r']
            if has != (code in TABLE) and code != 0:
                return 'code %d: entry in the table is %r' % (code, has)
            if has and code in TABLE and (num != code or unb64(nm).decode() != TABLE[code] or rt != (code in RETRIABLE)):
                return 'the table entry of code %d is number %d, name %r, retriable %r' % (code, num, unb64(nm), rt)
        yield Case([{'fn': '(KafkaError).Error', 'args': [code]}, {'fn': '(KafkaError).IsRetriable', 'args': [code]},
                    {'fn': 'getErrorFromErrorCode', 'args': [code]}, {'fn': 'vErrEntry', 'args': [code]}], check)


def from_code_job(c):
    """ensures: getErrorFromErrorCode(c) is nil for 0 and KafkaError(c) otherwise"""
    m = c.m
    st = State()
    code = app('code', (), -32768, 32767)
    kt = m.p.byname['KafkaError']
    n = 0
    for s1, (err,) in m.call_fn('getErrorFromErrorCode', [code], st):
        n += 1

        def chk(s):
            e = m.force(s, err)
            if prove(s.pc, e.nil):
                need(s.pc, eq(code, I(0)), 'no error for a non-zero code')
                return
            if not prove(s.pc, not_(e.nil)):
                raise Split(e.nil)
            need(s.pc, not_(eq(code, I(0))), 'an error for code 0')
            cs = kafka_codes(m, s, e, kt)
            if not cs or not prove(s.pc, eq(m.force(s, cs[0]), code)):
                raise Mismatch('the error does not carry the code: %r' % (cs,), s.pc)
        c.post('ensures: getErrorFromErrorCode(c) is nil iff c is 0 and carries c otherwise', s1, chk, 'getErrorFromErrorCode')
    return n


def jobs(P):
    from runner import Job
    out = [Job('getErrorFromErrorCode', from_code_job, fns=['getErrorFromErrorCode'], require=['getErrorFromErrorCode']),
           Job('table of error codes', table_job, cases=code_cases, fns=['(KafkaError).Error', '(KafkaError).IsRetriable', 'getErrorFromErrorCode'],
               extra=['table'], xfns=['vErrEntry'])]
    for r in RS.RESP.values():
        if RS.has_codes(r.body(r.versions[-1])):
            fn = error_fn(r, P)
            out.append(Job('%s.Error' % r.name, error_job(r, fn), cases=error_cases(r, fn), fns=[fn]))
    return out
