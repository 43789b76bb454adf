"""Concrete scenarios: the real client against a scripted cluster on the loopback network (harness/cluster_test.go.txt)."""
import base64
import json
import struct
from runner import Case

APIS = {0: 9, 1: 10, 2: 1, 3: 7, 8: 2, 9: 1, 10: 0, 11: 1, 12: 0, 13: 0, 14: 0, 15: 0, 16: 0, 17: 1, 18: 0, 19: 0, 20: 0, 36: 0}


def i8(v):
    return struct.pack('>b', v)


def i16(v):
    return struct.pack('>h', v)


def i32(v):
    return struct.pack('>i', v)


def i64(v):
    return struct.pack('>q', v)


def s16(v):
    b = v.encode() if isinstance(v, str) else v
    return i16(-1) if b is None else i16(len(b)) + b


def arr(l):
    return i32(len(l)) + b''.join(l)


def body(*parts):
    """parts: bytes or {'port': i}"""
    return [base64.b64encode(p).decode() if isinstance(p, (bytes, bytearray)) else p for p in parts]


def rule(api, *parts, **kw):
    r = {'api': api, 'broker': -1, 'do': 'reply', 'body': body(*parts)}
    r.update(kw)
    return r


def api_versions(apis=None, **kw):
    apis = APIS if apis is None else apis
    return rule(18, i16(0) + arr([i16(k) + i16(0) + i16(v) for k, v in apis.items()]), **kw)


def sasl(code=0, **kw):
    return [rule(17, i16(0) + arr([s16('PLAIN')]), **kw), rule(36, i16(code) + s16('') + i32(0), **kw)]


class Answer:
    def __init__(self, a):
        d = json.loads(base64.b64decode(a['res'][0]['r'][0]))
        self.res, self.log = d['res'], d['log']
        self.reqs = [dict(e, p=base64.b64decode(e['p'])) for e in self.log if e['ev'] == 'req']
        for i, r in enumerate(self.reqs):
            r['i'] = i

    def problem(self):
        for r in self.res:
            if isinstance(r, dict) and r.get('panic'):
                return 'panic: ' + r['panic']
            if isinstance(r, dict) and r.get('hang'):
                return 'an operation does not return'
            if isinstance(r, list):
                for x in r:
                    if isinstance(x, dict) and x.get('panic'):
                        return 'panic: ' + x['panic']

    def upto(self, i):
        """requests seen before the end of operation i"""
        out = []
        for e in self.log:
            if e['ev'] == 'req':
                out.append(e)
            if e['ev'] == 'done' and e['i'] == i:
                break
        return out


def scenario(brokers, rules, ops, check, note=''):
    script = {'brokers': brokers, 'rules': rules, 'ops': [{'op': o[0], 'arg': o[1], 'wait': o[2] if len(o) > 2 else 0} for o in ops]}

    def chk(a):
        if 'panic' in a:
            return a['panic']
        A = Answer(a)
        return A.problem() or check(A)
    return Case([{'fn': 'vScenario', 'args': [json.dumps(script).encode()]}], chk, note)


SCN = dict(extra=['cluster'], xfns=['vScenario'])
