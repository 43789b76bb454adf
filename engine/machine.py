"""Symbolic execution of Go SSA with automatic, checked loop invariants."""
import base64
import itertools
import json
import time
from terms import *
import terms as T
from values import *
from values import psplit, plen, pelem
import seqops
import solver
from solver import prove

INTS = {'int': (-2**63, 2**63 - 1), 'int8': (-128, 127), 'int16': (-2**15, 2**15 - 1), 'int32': (-2**31, 2**31 - 1),
        'rune': (-2**31, 2**31 - 1), 'int64': (-2**63, 2**63 - 1), 'uint': (0, 2**64 - 1), 'uint8': (0, 255),
        'byte': (0, 255), 'uint16': (0, 65535), 'uint32': (0, 2**32 - 1), 'uint64': (0, 2**64 - 1),
        'uintptr': (0, 2**64 - 1), 'untyped int': (-2**63, 2**63 - 1)}


STRMAX = 32767     # longest string the protocol can represent
# preconditions on field values: what the protocol can represent
FIELD_RANGE = {('TaggedField', 'Tag'): (0, 2**31 - 1)}
# pointers to structs are not nil (precondition: constructors and decoders set them), except these
MAYNIL = {('SimpleConsumer', 'leaderBroker'), ('SimpleConsumer', 'coordinator'), ('SimpleConsumer', 'belongTO'), ('SimpleConsumer', 'wg'), ('GroupConsumer', 'coordinator'),
          ('Producer', 'currentProducer'), ('SimpleProducer', 'leader'), ('SimpleProducer', 'parent'),
          ('BrokerConfig', 'TLS'), ('ConsumerConfig', 'TLS'), ('ProducerConfig', 'TLS'), ('NetConfig', 'TLS')}


# structs of other packages whose fields the code under contract writes and reads
OPEN = {'io.LimitedReader', 'crypto/tls.Config', 'net.Dialer'}

class MergeFail(Exception):
    pass


class LoopFail(Unsupported):
    pass


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.funcs, self.types, self.methods, self.globals, self.consts = d['funcs'], d['types'], d['methods'], d['globals'], d['consts']
        self.byname = {t['s']: i for i, t in enumerate(self.types)}
        self._loops = {}
        self._cg = None

    def u(self, t):
        x = self.types[t]
        while x['k'] == 'named':
            x = self.types[x['u']]
        return x

    def name(self, t):
        return self.types[t]['s'] if isinstance(t, int) else t

    def int_range(self, t):
        u = self.u(t)
        return INTS.get(u['name']) if u['k'] == 'basic' else None

    def const_globals(self):
        """package variables that only package initialisation writes (maps: only looked up or ranged over elsewhere)"""
        if self._cg is not None:
            return self._cg
        bad = set()
        ro = {'Lookup', 'Range', 'DebugRef'}

        def ops(x, out):
            if isinstance(x, dict):
                if 'k' in x and 'n' in x and x['k'] in ('global', 'reg'):
                    out.append((x['k'], x['n']))
                for y in x.values():
                    ops(y, out)
            elif isinstance(x, list):
                for y in x:
                    ops(y, out)
        for fname, f in self.funcs.items():
            if fname == 'init' or fname.startswith('init#'):
                continue
            regs = {}
            for b in f['blocks'] or ():
                for ins in b['instrs']:
                    us = []
                    ops(ins, us)
                    for k, n in us:
                        if k == 'global':
                            if ins['op'] == 'UnOp' and ins.get('o', ins.get('tok', '*')) == '*':
                                regs[ins['reg']] = n
                            else:
                                bad.add(n)
            for b in f['blocks'] or ():
                for ins in b['instrs']:
                    us = []
                    ops(ins, us)
                    for k, n in us:
                        if k == 'reg' and n in regs and ins['op'] not in ro:
                            g = regs[n]
                            t = self.globals[g]['t'] if g in self.globals else None
                            u = self.u(self.u(t)['e'])['k'] if isinstance(t, int) and self.u(t)['k'] == 'pointer' else None
                            if u in ('map', 'slice', 'pointer') and not (ins['op'] == 'Call' and ins['call'].get('fn', {}).get('n') == 'len'):
                                bad.add(g)
        self._cg = set(self.globals) - bad
        return self._cg

    def is_byte(self, t):
        u = self.u(t)
        return u['k'] == 'basic' and u['name'] in ('byte', 'uint8')

    def fields(self, t):
        return self.u(t)['fields'] or ()

    def field_index(self, t, name):
        for i, f in enumerate(self.fields(t)):
            if f['n'] == name:
                return i
        raise KeyError(name)

    def loops(self, fname):
        r = self._loops.get(fname)
        if r is None:
            r = self._loops[fname] = find_loops(self.funcs[fname])
        return r


def find_loops(f):
    bs = f['blocks']
    n = len(bs)
    dom = [set(range(n)) for _ in range(n)]
    dom[0] = {0}
    rec = f.get('recover')
    if rec is not None:
        dom[rec] = {rec}
    ch = True
    while ch:
        ch = False
        for b in bs:
            i = b['i']
            if i == 0 or i == rec:
                continue
            ps = b['preds']
            s = set.intersection(*[dom[p] for p in ps]) if ps else set()
            s = s | {i}
            if s != dom[i]:
                dom[i] = s
                ch = True
    loops = {}
    for b in bs:
        for s in b['succs']:
            if s in dom[b['i']]:
                body = loops.setdefault(s, {s})
                st = [b['i']]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(bs[x]['preds'])
    return loops


class State:
    __slots__ = ('heap', 'pc', 'ev', 'glob')

    def __init__(self):
        self.heap, self.pc, self.ev, self.glob = {}, [], [], {}

    def copy(self):
        s = State.__new__(State)
        s.heap, s.pc, s.ev, s.glob = dict(self.heap), list(self.pc), list(self.ev), self.glob
        return s

    def assume(self, c):
        if c is TRUE or c in self.pc:
            return
        if c.k == 'and':
            for x in c.a[0]:
                self.assume(x)
            return
        self.pc.append(c)


class Frame:
    __slots__ = ('fn', 'regs', 'defers', 'depth')

    def __init__(self, fn, depth):
        self.fn, self.regs, self.defers, self.depth = fn, {}, [], depth

    def copy(self):
        f = Frame(self.fn, self.depth)
        f.regs = dict(self.regs)
        f.defers = list(self.defers)
        return f


_obj = itertools.count(1)


class Obligation:
    def __init__(self, name, kind, fn, line, ok, detail='', model=None, pc=None):
        self.name, self.kind, self.fn, self.line, self.ok, self.detail, self.model, self.pc = name, kind, fn, line, ok, detail, model, pc


class Machine:
    MAXPATHS = 4000
    MAXDEPTH = 40

    def __init__(self, prog, deadline=None):
        self.p = prog
        self.quiet = 0
        self.qassumed = set()
        self.gids, self.gidset = {}, set()
        self.obls = []          # recorded obligations
        self.failed = []
        self.nonnil = set()
        self.maynil = set()
        self.over = {}          # path -> python callable(machine, st, ghost) -> value
        self.contracts = {}     # function name -> callable(machine, fr, st, args) -> [(st, vals)]
        self.intr = {}
        self.seqs = []          # sequences for repetition hypotheses
        self.steps = 0
        self.deadline = deadline
        self.used = {}          # functions executed
        self.trusted = {}       # intrinsic models used
        self.loops_inv = 0
        self.merge_returns = True
        self.init_heap = None
        self.loop_rules = []
        self.conc = False       # channel operations and go statements are recorded as events
        self.neverclosed = set()
        self.nmerge = set()
        import intrinsics
        intrinsics.install(self)

    # ------------------------------------------------------------------ types and values
    def zero(self, t):
        ty = self.p.types[t]
        if ty['k'] == 'named' and not ty.get('local'):
            s = ty['s']
            if s == 'bytes.Buffer':
                return BufV(EMPTYSEQ)
            if s == 'sync/atomic.Value':
                return OpaqueV('atomic.Value', v=IfaceV(TRUE, None, None))
            u = self.p.u(t)
            if u['k'] == 'struct' and s not in OPEN:
                return OpaqueV('ext:' + s)
        u = self.p.u(t)
        k = u['k']
        if k == 'basic':
            n = u['name']
            if n in INTS:
                return I(0)
            if n in ('bool', 'untyped bool'):
                return FALSE
            if n in ('string', 'untyped string'):
                return EMPTYSEQ
            return OpaqueV('float', v=0)
        if k == 'ptr':
            return PtrV(TRUE, None)
        if k == 'slice':
            return SliceV(None, I(0), I(0), I(0), TRUE, u['e'])
        if k == 'struct':
            return StructV(t, [self.zero(f['t']) for f in u['fields'] or ()])
        if k == 'array':
            if self.p.is_byte(u['e']):
                return zero(I(u['n']))
            return Arr([('zero', u['e'], I(u['n']))])
        if k == 'map':
            return MapV(TRUE, None)
        if k == 'iface':
            return IfaceV(TRUE, None, None)
        if k == 'func':
            return ClosV(None, nil=TRUE)
        if k == 'chan':
            return OpaqueV('chan', nil=TRUE)
        if k == 'tuple':
            return tuple(self.zero(x) for x in u['elems'])
        raise Unsupported('zero value of ' + self.p.name(t))

    def is_nonnil(self, path, t):
        if path in self.nonnil:
            return True
        u = self.p.u(t)
        if u['k'] == 'ptr':
            return self.p.u(u['e'])['k'] == 'struct' and path not in self.maynil
        return False

    def expand(self, st, g):
        """one-level expansion of a ghost"""
        if not isinstance(g, Ghost):
            return g
        o = self.over.get(g.path)
        if o is not None:
            return o(self, st, g)
        t, path, args = g.t, g.path, g.args
        u = self.p.u(t)
        k = u['k']
        if k == 'basic':
            n = u['name']
            if n in INTS:
                lo, hi = INTS[n]
                return app(path, args, lo, hi)
            if n == 'bool':
                return bapp(path, args)
            if n == 'string':
                return satom(path, args, STRMAX)
            return OpaqueV('float', v=path)
        if k == 'struct':
            ty = self.p.types[t]
            if ty['k'] == 'named' and not ty.get('local'):
                return OpaqueV('ext:' + ty['s'], path=path)
            fs = []
            for f in u['fields'] or ():
                if (ty['s'], f['n']) in MAYNIL:
                    self.maynil.add(path + '.' + f['n'])
                r = FIELD_RANGE.get((ty['s'], f['n']))
                if r and path + '.' + f['n'] not in self.over:
                    fs.append(app(path + '.' + f['n'], args, *r))
                else:
                    fs.append(Ghost(f['t'], path + '.' + f['n'], args))
            return StructV(t, fs)
        if k == 'ptr':
            nil = FALSE if self.is_nonnil(path, t) else bapp(path + '#nil', args)
            inner = Ghost(u['e'], path + '*' if self.p.u(u['e'])['k'] != 'struct' else path, args)
            if args:
                return PtrV(nil, (Box(inner), ()))
            o = self.gid(path)
            if o not in st.heap:
                st.heap[o] = inner
            return PtrV(nil, (o, ()))
        if k == 'slice':
            nil = FALSE if path in self.nonnil else bapp(path + '#nil', args)
            if self.p.is_byte(u['e']):
                c = satom(path, args)
                ln = c.len
                solver.nil_len[path + '#nil'] = 'len$' + path
            else:
                ln = app(path + '#len', args, 0, self.count_max(path))
                solver.nil_len[path + '#nil'] = path + '#len'
                c = Arr([('gh', u['e'], path + '[]', args, I(0), ln)])
            if args:
                return SliceV(c, I(0), ln, ln, nil, u['e'])
            o = self.gid(path)
            if o not in st.heap:
                st.heap[o] = c
            return SliceV(o, I(0), ln, ln, nil, u['e'])
        if k == 'array':
            if self.p.is_byte(u['e']):
                ATOM_MAX[path] = u['n']
                c = sg('atom', path, tuple(args))
                return sq(sg('sub', c, I(0), I(u['n'])))
            return Arr([('gh', u['e'], path + '[]', args, I(0), I(u['n']))])
        if k == 'iface':
            return IfaceV(bapp(path + '#nil', args), '?' + path, Ghost(t, path + '!', args))
        if k == 'map':
            o = self.gid(path + ''.join('@%d' % a.id for a in args))
            if o not in st.heap:
                st.heap[o] = MapC(u['key'], u['e'], (), (path, tuple(args)))
            return MapV(FALSE if path in self.nonnil else bapp(path + '#nil', args), o)
        if k == 'func':
            return ClosV('?' + path)
        if k == 'chan':
            return OpaqueV('chan', nil=FALSE, path=path)
        raise Unsupported('symbolic value of type ' + self.p.name(t))

    def gid(self, path):
        o = self.gids.get(path)
        if o is None:
            o = self.gids[path] = next(_obj)
            self.gidset.add(o)
        return o

    def count_max(self, path):
        return self.counts.get(path, 2**31 - 2) if hasattr(self, 'counts') else 2**31 - 2

    def alloc(self, st, content):
        o = next(_obj)
        st.heap[o] = content
        return o

    # ------------------------------------------------------------------ obligations
    def qassume(self, st, cond):
        """assumed while probing only"""
        for c in (cond.a[0] if cond.k == 'and' else (cond,)):
            if c not in st.pc:
                self.qassumed.add(c)
        st.assume(cond)

    def oblige(self, fr, st, kind, cond, line, detail=''):
        if cond is TRUE:
            if not self.quiet:
                self.obls.append(Obligation(kind, kind, fr.fn, line, True))
            return
        if self.quiet:
            if cond is FALSE:
                raise Infeasible()
            self.qassume(st, cond)
            return
        ok, info = solver.check(st.pc, cond, want_model=False)
        if ok:
            self.obls.append(Obligation(kind, kind, fr.fn, line, True))
            return
        # is the path itself reachable?
        ok2, model = solver.check(st.pc, cond, want_model=True)
        ob = Obligation('%s@%s' % (kind, fr.fn), kind, fr.fn, line, False,
                        '%s: cannot prove %r %s' % (kind, cond, detail), model, list(st.pc))
        self.obls.append(ob)
        self.failed.append(ob)
        if cond is FALSE:
            raise Infeasible()
        st.assume(cond)

    # ------------------------------------------------------------------ memory
    def load(self, st, tgt):
        root, path = tgt
        cur = root.v if isinstance(root, Box) else st.heap[root]
        for s in path:
            cur = self.force(st, cur)
            cur = self.step(st, cur, s)
        return self.force(st, cur)

    def force(self, st, v):
        while True:
            if isinstance(v, Ghost):
                v = self.expand(st, v)
            elif isinstance(v, IteV):
                if prove(st.pc, v.c):
                    v = v.a
                elif prove(st.pc, not_(v.c)):
                    v = v.b
                else:
                    raise Split(v.c)
            else:
                return v

    def step(self, st, cur, s):
        if isinstance(s, int):
            if isinstance(cur, StructV):
                return cur.f[s]
            if isinstance(cur, OpaqueV):
                raise Unsupported('field of opaque ' + cur.kind)
            if isinstance(cur, Unk):
                raise Unsupported('use of unknown value: ' + cur.why)
            raise Unsupported('field of %r' % (cur,))
        i = s[1]
        if isinstance(cur, Arr):
            return arr_get(cur, i, st.pc, self.zero)
        if isinstance(cur, BufV):
            cur = cur.s
        if isinstance(cur, Sq):
            return be_value(slice_seq(cur, i, I(1), st.pc), st.pc)
        raise Unsupported('index of %r' % (cur,))

    def store(self, st, tgt, v):
        root, path = tgt
        if isinstance(root, Box):
            raise Unsupported('store through a frozen pointer')
        st.heap[root] = self.upd(st, st.heap[root], path, v)

    def upd(self, st, cur, path, v):
        if not path:
            return v
        cur = self.force(st, cur)
        s, rest = path[0], path[1:]
        if isinstance(s, int):
            if isinstance(cur, Unk):
                raise Unsupported('update of unknown value: ' + cur.why)
            f = list(cur.f)
            f[s] = self.upd(st, f[s], rest, v)
            return StructV(cur.t, f)
        i = s[1]
        if isinstance(cur, Arr):
            if rest:
                e = arr_get(cur, i, st.pc, self.zero)
                v = self.upd(st, e, rest, v)
            return arr_set(cur, i, v, st.pc)
        if isinstance(cur, BufV):
            return BufV(self.splice(st, cur.s, i, be(1, v)))
        if isinstance(cur, Sq):
            return self.splice(st, cur, i, be(1, v))
        raise Unsupported('indexed store into %r' % (cur,))

    def splice(self, st, content, off, new):
        if isinstance(content, Unk):
            raise Unsupported('write into unknown bytes: ' + content.why)
        l, r = split_at(content, off, st.pc)
        n = new.len
        if len(r.a) == 1 and r.a[0].k == 'zero':
            r2 = zero(r.a[0].a[0] - n)
        else:
            _, r2 = split_at(r, n, st.pc)
        return sq(l, new, r2)

    def content(self, st, s):
        """content of a slice value, as Sq (bytes) or Arr"""
        if s.base is None:
            return EMPTYSEQ if self.p.is_byte(s.et) else Arr(())
        c = st.heap[s.base] if isinstance(s.base, int) else s.base
        c = self.force(st, c)
        if isinstance(c, Unk):
            raise Unsupported('content of unknown: ' + c.why)
        if isinstance(c, BufV):
            c = c.s
        if isinstance(c, Sq):
            if s.off.const() == 0 and s.len is c.len:
                return c
            return slice_seq(c, s.off, s.len, st.pc)
        return arr_slice(c, s.off, s.len, st.pc)

    def content_ite(self, st, s, d=0):
        """content, by cases where it depends on a condition"""
        try:
            return self.content(st, s)
        except Split as sp:
            if d > 2:
                raise
            cond = next((at.a[0] for at, _ in s.len.m if at.k == 'ite'), sp.cond)
            out = []
            for c in (cond, not_(cond)):
                s2 = st.copy()
                s2.assume(c)
                x = SliceV(s.base, s.off, T.assume_int(s.len, cond, c is cond), s.cap, s.nil, s.et)
                out.append(self.content_ite(s2, x, d + 1) if solver.sat(s2.pc) else None)
            if out[0] is None or out[1] is None:
                return out[0] if out[1] is None else out[1]
            return sq_ite(cond, out[0], out[1])

    def new_bytes(self, st, s, et=None, nil=FALSE):
        o = self.alloc(st, s)
        return SliceV(o, I(0), s.len, s.len, nil, self.byte_t)

    @property
    def byte_t(self):
        return self.p.byname['byte']

    def write_bytes(self, st, sl, off, new):
        """write new at sl[off:]"""
        if sl.base is None:
            if prove(st.pc, eq(new.len, I(0))):
                return
            raise Unsupported('write to nil slice')
        if not isinstance(sl.base, int):
            raise Unsupported('write into a frozen slice')
        c = self.force(st, st.heap[sl.base])
        if isinstance(c, BufV):
            st.heap[sl.base] = BufV(self.splice(st, c.s, sl.off + off, new))
            return
        st.heap[sl.base] = self.splice(st, c, sl.off + off, new)

    # ------------------------------------------------------------------ operands
    def const(self, o):
        t = o['t']
        v = o.get('v')
        if v is None:
            return self.zero(t)
        if o.get('str'):
            b = base64.b64decode(v)
            return lit(b)
        if isinstance(v, bool):
            return B(v)
        u = self.p.u(t)
        if o.get('float') or (u['k'] == 'basic' and u['name'] not in INTS):
            return OpaqueV('float', v=v)
        return I(int(v))

    def val(self, fr, st, o):
        if o is None:
            return None
        k = o['k']
        if k == 'reg':
            v = fr.regs[o['n']]
            return v
        if k == 'const':
            return self.const(o)
        if k == 'func':
            return ClosV(o['n'])
        if k == 'global':
            return PtrV(FALSE, (self.global_obj(st, o['n'], o['t']), ()))
        if k == 'builtin':
            return ClosV('builtin:' + o['n'])
        raise Unsupported(str(o))

    def global_obj(self, st, name, t):
        o = self.gid('global:' + name)
        if o not in st.heap:
            et = self.p.u(t)['e']
            if name in self.p.globals:
                st.heap[o] = Ghost(et, 'global.' + name)
                if name in self.p.const_globals():
                    self.run_init()
                    if o in self.init_heap and not isinstance(self.init_heap[o], Unk):
                        for k, v in self.init_heap.items():
                            st.heap.setdefault(k, v)
                        st.heap[o] = self.init_heap[o]
            else:
                st.heap[o] = OpaqueV('extglobal', name=name)
        return o

    def run_init(self):
        """the heap after package initialisation (straight-line initialisers of package variables and init functions)"""
        if self.init_heap is not None:
            return
        self.init_heap = {}
        st = State()
        used, trusted, obls = dict(self.used), dict(self.trusted), len(self.obls)
        for fname in ['init'] + sorted((f for f in self.p.funcs if f.startswith('init#')), key=lambda f: int(f[5:])):
            fr = Frame(fname, 0)
            blocks = self.p.funcs[fname]['blocks']
            seq = [b for b in blocks if len(b['instrs']) > 2] if fname == 'init' else blocks
            if len(seq) != 1:
                self.init_heap = {}
                return
            for ins in seq[0]['instrs']:
                if ins['op'] in ('Jump', 'Return', 'If') or ins['op'] == 'Call' and str(ins['call'].get('static', '')).endswith('.init'):
                    continue
                reg = ins.get('reg')
                try:
                    snap = st.copy()
                    if ins['op'] == 'Call' and ins['call'].get('static') in ('init#%d' % i for i in range(9)):
                        continue
                    r = self.instr(fr, st, ins)
                    if r is not None:
                        if len(r) != 1:
                            raise Unsupported('branching initialiser')
                        fr, st = r[0]
                except (Unsupported, Split, Infeasible, Mismatch) as e:
                    st = snap
                    if reg:
                        fr.regs[reg] = Unk('package initialiser')
                    elif ins['op'] == 'Store' and ins['addr']['k'] == 'global':
                        st.heap[self.gid('global:' + ins['addr']['n'])] = Unk('package initialiser')
        del self.obls[obls:]
        self.used, self.trusted = used, trusted
        self.init_heap = st.heap

    # ------------------------------------------------------------------ running
    def call_fn(self, fname, args, st, binds=(), depth=0, merge=None):
        """list of (st, tuple of results)"""
        f = self.p.funcs.get(fname)
        if f is None or not f['blocks']:
            raise Unsupported('no body for ' + fname)
        if depth > self.MAXDEPTH:
            raise Unsupported('call depth')
        self.used[fname] = self.used.get(fname, 0) + 1
        fr = Frame(fname, depth)
        for p, a in zip(f['params'] or (), args):
            fr.regs[p['n']] = a
        for p, a in zip(f.get('freevars') or (), binds):
            fr.regs[p['n']] = a
        base = len(st.pc)
        basepc = list(st.pc)
        outs = self.run(fr, st, 0, None, {}, None)
        rets = []
        for o in outs:
            if o[0] == 'ret':
                rets.append((o[1], o[2]))
        if len(rets) > 1 and (self.merge_returns if merge is None else merge):
            rets = self.merge_list(rets, basepc, strict=True)
        return rets

    def run(self, fr, st, block, pred, loops_open, region):
        """explore from the start of `block`; region = (header, blockset) stops at back edges / exits"""
        work = [(fr, st, block, pred, True)]
        outs = []
        blocks = self.p.funcs[fr.fn]['blocks']
        loops = self.p.loops(fr.fn)
        n = 0
        while work:
            fr, st, b, pred, first = work.pop()
            n += 1
            if n > self.MAXPATHS:
                raise Unsupported('too many paths in ' + fr.fn)
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time limit')
            if not first and region is not None:
                if b == region[0]:
                    outs.append(('back', fr, st, pred))
                    continue
                if b not in region[1]:
                    outs.append(('exit', fr, st, b, pred))
                    continue
            if b in loops and not (first and region is not None and b == region[0]):
                for o in self.loop(fr, st, b, pred, loops[b]):
                    if o[0] == 'exit':
                        work.append((o[1], o[2], o[3], o[4], False))
                    else:
                        outs.append(o)
                continue
            if not (first and region is not None and b == region[0]):
                ph = self.phis(fr, st, blocks[b], pred)
                fr.regs.update(ph)
            for o in self.block(fr, st, blocks[b]):
                if o[0] == 'goto':
                    work.append((o[1], o[2], o[3], b, False))
                else:
                    outs.append(o)
        return outs

    def phis(self, fr, st, blk, pred):
        r = {}
        for ins in blk['instrs']:
            if ins['op'] != 'Phi':
                break
            i = blk['preds'].index(pred)
            r[ins['reg']] = self.val(fr, st, ins['edges'][i])
        return r

    def block(self, fr, st, blk):
        """execute non-phi instructions; yields outcomes"""
        outs = []
        work = [(fr, st, 0)]
        instrs = blk['instrs']
        while work:
            fr, st, i = work.pop()
            try:
                while True:
                    ins = instrs[i]
                    op = ins['op']
                    self.steps += 1
                    if op == 'Phi':
                        i += 1
                        continue
                    if op == 'Jump':
                        outs.append(('goto', fr, st, blk['succs'][0]))
                        break
                    if op == 'If':
                        c = self.val(fr, st, ins['x'])
                        c = self.force(st, c)
                        if c is not TRUE and c is not FALSE:
                            if solver.decide(st.pc, c):
                                c = TRUE
                            elif solver.decide(st.pc, not_(c)):
                                c = FALSE
                        if c is TRUE:
                            outs.append(('goto', fr, st, blk['succs'][0]))
                        elif c is FALSE:
                            outs.append(('goto', fr, st, blk['succs'][1]))
                        else:
                            fr2, st2 = fr.copy(), st.copy()
                            st.assume(c)
                            st2.assume(not_(c))
                            outs.append(('goto', fr2, st2, blk['succs'][1]))
                            outs.append(('goto', fr, st, blk['succs'][0]))
                        break
                    if op == 'Return':
                        outs.append(('ret', st, tuple(self.val(fr, st, x) for x in ins['rs'])))
                        break
                    if op == 'Panic':
                        self.oblige(fr, st, 'panic', FALSE, ins.get('line', 0))
                        break
                    snap = (fr.copy(), st.copy()) if op in COMPLEX else None
                    try:
                        r = self.instr(fr, st, ins)
                    except Split as sp:
                        fr0, st0 = snap if snap else (fr, st)
                        if sp.cond in st0.pc or not_(sp.cond) in st0.pc:
                            raise Unsupported('case split on %r does not help' % (sp.cond,))
                        if self.deadline and time.time() > self.deadline:
                            raise Unsupported('time limit')
                        for c in (sp.cond, not_(sp.cond)):
                            st2 = st0.copy()
                            st2.assume(c)
                            if solver.sat(st2.pc):
                                work.append((fr0.copy(), st2, i))
                        break
                    if r is not None:
                        # several continuations (fr, st)
                        for fr2, st2 in r:
                            work.append((fr2, st2, i + 1))
                        break
                    i += 1
            except Infeasible:
                continue
        return outs

    # ------------------------------------------------------------------ instructions
    def instr(self, fr, st, ins):
        op = ins['op']
        m = getattr(self, 'i_' + op, None)
        if m is None:
            raise Unsupported('instruction ' + op)
        return m(fr, st, ins)

    def ptr(self, fr, st, v, line, what='nil dereference'):
        v = self.force(st, v)
        if isinstance(v, Unk):
            raise Unsupported('use of unknown pointer: ' + v.why)
        if not isinstance(v, PtrV):
            raise Unsupported('pointer expected: %r' % (v,))
        if v.nil is not FALSE:
            self.oblige(fr, st, 'nil', not_(v.nil), line, what)
        if v.tgt is None:
            raise Infeasible()
        return v.tgt

    def i_Alloc(self, fr, st, ins):
        t = self.p.u(ins['t'])['e']
        o = self.alloc(st, self.zero(t))
        fr.regs[ins['reg']] = PtrV(FALSE, (o, ()))

    def i_Store(self, fr, st, ins):
        tgt = self.ptr(fr, st, self.val(fr, st, ins['addr']), ins.get('line', 0))
        self.store(st, tgt, self.val(fr, st, ins['x']))

    def i_FieldAddr(self, fr, st, ins):
        root, path = self.ptr(fr, st, self.val(fr, st, ins['x']), ins.get('line', 0))
        fr.regs[ins['reg']] = PtrV(FALSE, (root, path + (ins['f'],)))

    def i_Field(self, fr, st, ins):
        v = self.force(st, self.val(fr, st, ins['x']))
        fr.regs[ins['reg']] = self.force(st, self.step(st, v, ins['f']))

    def bounds(self, fr, st, i, n, line):
        self.oblige(fr, st, 'index', and_(le(I(0), i), lt(i, n)), line, 'index %r of length %r' % (i, n))

    def i_IndexAddr(self, fr, st, ins):
        x = self.force(st, self.val(fr, st, ins['x']))
        i = self.val(fr, st, ins['i'])
        line = ins.get('line', 0)
        if isinstance(x, PtrV):      # pointer to array
            root, path = self.ptr(fr, st, x, line)
            at = self.p.u(self.p.u(ins['x']['t'])['e'])
            self.bounds(fr, st, i, I(at['n']), line)
            fr.regs[ins['reg']] = PtrV(FALSE, (root, path + (('i', i),)))
            return
        if isinstance(x, Unk):
            raise Unsupported('index of unknown: ' + x.why)
        self.bounds(fr, st, i, x.len, line)
        if x.base is None:
            raise Infeasible()
        root = x.base if isinstance(x.base, int) else Box(x.base)
        fr.regs[ins['reg']] = PtrV(FALSE, (root, (('i', x.off + i),)))

    def i_Index(self, fr, st, ins):
        x = self.force(st, self.val(fr, st, ins['x']))
        i = self.val(fr, st, ins['i'])
        if isinstance(x, (Sq, Arr)):
            self.bounds(fr, st, i, x.len, ins.get('line', 0))
            fr.regs[ins['reg']] = self.force(st, self.step(st, x, ('i', i)))
            return
        raise Unsupported('Index')

    def i_UnOp(self, fr, st, ins):
        o = ins['o']
        x = self.val(fr, st, ins['x'])
        if o == '*':
            tgt = self.ptr(fr, st, x, ins.get('line', 0))
            v = self.load(st, tgt)
            fr.regs[ins['reg']] = v
            return
        x = self.force(st, x)
        if o == '!':
            r = not_(x)
        elif o == '-':
            if isinstance(x, OpaqueV):
                r = x
            else:
                r = self.wrap(st, -x, ins['t'])
        elif o == '^':
            r = self.wrap(st, -x - 1, ins['t'])
        elif o == '<-':
            return self.recv(fr, st, ins, x)
        else:
            raise Unsupported('unop ' + o)
        fr.regs[ins['reg']] = r

    # ------------------------------------------------------------------ channels and goroutines: events of a trace
    def chan_key(self, st, ch):
        ch = self.force(st, ch)
        if isinstance(ch, OpaqueV) and ch.kind == 'chan':
            if ch['nil'] is TRUE:
                return 'nil'
            return str(ch.d.get('path') or 'made%s' % ch.d.get('id'))
        raise Unsupported('channel %r' % (ch,))

    def received(self, st, et, key):
        """[(value, ok)] of a receive: any value, or the zero value of a closed channel"""
        v = self.force(st, Ghost(et, 'recv!%d' % len(st.ev)))
        out = [(v, TRUE)]
        u = self.p.u(et)
        if key not in self.neverclosed and not (u['k'] == 'struct' and not u.get('fields')):
            out.append((self.zero(et), FALSE))
        return out

    def recv(self, fr, st, ins, x):
        if not self.conc:
            raise Unsupported('channel receive')
        key = self.chan_key(st, x)
        et = self.p.u(ins['x']['t'])['e']
        out = []
        rs = self.received(st, et, key)
        for v, ok in rs:
            f2, s2 = (fr, st) if len(rs) == 1 else (fr.copy(), st.copy())
            s2.ev.append(('recv', key, v, ok))
            f2.regs[ins['reg']] = (v, ok) if ins.get('commaok') else v
            out.append((f2, s2))
        return out

    def wrap(self, st, x, t):
        u = self.p.u(t)
        if u['k'] != 'basic' or u['name'] not in INTS:
            raise Unsupported('arithmetic on ' + self.p.name(t))
        n = u['name']
        lo, hi = INTS[n]
        if n in ('int', 'int64', 'untyped int'):
            return x          # 64-bit signed arithmetic is treated as mathematical (stated assumption)
        if x.lo is not None and x.hi is not None and x.lo >= lo and x.hi <= hi:
            return x
        if prove(st.pc, and_(le(I(lo), x), le(x, I(hi)))):
            return x
        bits = (hi - lo + 1).bit_length() - 1
        return wrap_u(x, bits) if lo == 0 else wrap_s(x, bits)

    def convert_int(self, st, x, tfrom, tto):
        lo, hi = INTS[self.p.u(tto)['name']]
        if x.lo is not None and x.hi is not None and x.lo >= lo and x.hi <= hi:
            return x
        bits = (hi - lo + 1).bit_length() - 1
        r = wrap_u(x, bits) if lo == 0 else wrap_s(x, bits)
        if r is x:
            return x
        if any(at.k == 'mod' for at, _ in r.m) and not solver.has_sum(x) and prove(st.pc, and_(le(I(lo), x), le(x, I(hi)))):
            return x
        return r

    def i_BinOp(self, fr, st, ins):
        o = ins['o']
        x, y = self.force(st, self.val(fr, st, ins['x'])), self.force(st, self.val(fr, st, ins['y']))
        fr.regs[ins['reg']] = self.binop(fr, st, o, x, y, ins)

    def binop(self, fr, st, o, x, y, ins):
        line = ins.get('line', 0)
        for z in (x, y):
            if isinstance(z, Unk):
                raise Unsupported('use of unknown value: ' + z.why)
        if o in ('==', '!='):
            r = self.equal(st, x, y)
            return r if o == '==' else not_(r)
        if isinstance(x, Lin) and isinstance(y, Lin):
            if o == '<':
                return lt(x, y)
            if o == '<=':
                return le(x, y)
            if o == '>':
                return lt(y, x)
            if o == '>=':
                return le(y, x)
            t = ins['t']
            if o == '+':
                return self.wrap(st, x + y, t)
            if o == '-':
                return self.wrap(st, x - y, t)
            if o == '*':
                return self.wrap(st, x * y, t)
            if o in ('/', '%'):
                self.oblige(fr, st, 'div', ne(y, I(0)), line)
                c = y.const()
                if c is not None and c > 0:
                    if (x.lo is not None and x.lo >= 0) or prove(st.pc, le(I(0), x)):
                        return div(x, c) if o == '/' else mod(x, c)
                    q = ite(le(I(0), x), div(x, c), -div(-x, c))
                    return q if o == '/' else x - q * c
                if prove(st.pc, and_(le(I(0), x), le(I(1), y))):
                    return divv(x, y) if o == '/' else modv(x, y)
                raise Unsupported('division by a possibly negative value')
            if o == '&':
                return bitop('band', x, y)
            if o == '|':
                if (x.lo is None or x.lo < 0) or (y.lo is None or y.lo < 0):
                    lo, hi = self.p.int_range(t)
                    bits = (hi - lo + 1).bit_length() - 1
                    r = bitop('bor', wrap_u(x, bits), wrap_u(y, bits))
                    return r if lo == 0 else wrap_s(r, bits)
                return bitop('bor', x, y)
            if o == '^':
                return bitop('bxor', x, y)
            if o == '&^':
                return x - bitop('band', x, y)
            if o == '<<':
                c = y.const()
                if c is None:
                    raise Unsupported('symbolic shift')
                n = self.p.u(t)['name']
                r = x * (1 << c)
                lo, hi = INTS[n]
                if r.lo is not None and r.hi is not None and r.lo >= lo and r.hi <= hi:
                    return r
                bits = (hi - lo + 1).bit_length() - 1
                return wrap_u(r, bits) if lo == 0 else wrap_s(r, bits)
            if o == '>>':
                c = y.const()
                if c is None:
                    raise Unsupported('symbolic shift')
                return div(x, 1 << c)
        if isinstance(x, Sq) and isinstance(y, Sq):
            if o == '+':
                return sq(x, y)
            if o in ('<', '<=', '>', '>='):
                a, b = (x, y) if o in ('<', '<=') else (y, x)
                lx, ly = lit_value(a), lit_value(b)
                if lx is not None and ly is not None:
                    return B(lx < ly if o in ('<', '>') else lx <= ly)
                r = bapp('strlt', (a, b)) if o in ('<', '>') else not_(bapp('strlt', (b, a)))
                return r
        if isinstance(x, OpaqueV) or isinstance(y, OpaqueV):
            if o in ('<', '<=', '>', '>='):
                return bapp('fcmp!%d' % next(T._vc), ())
            return OpaqueV('float', v='?')
        raise Unsupported('binop %s on %r' % (o, x))

    def equal(self, st, x, y):
        if isinstance(x, Lin):
            return eq(x, y)
        if isinstance(x, Bl):
            return or_(and_(x, y), and_(not_(x), not_(y)))
        if isinstance(x, Sq):
            return seq_bool(x, y)
        if isinstance(x, PtrV):
            if y.tgt is None:
                return x.nil if y.nil is TRUE else Unsupp('ptr')
            if x.tgt is None:
                return y.nil
            if x.tgt == y.tgt:
                return or_(and_(not_(x.nil), not_(y.nil)), and_(x.nil, y.nil))
            if isinstance(x.tgt[0], int) and isinstance(y.tgt[0], int):
                return and_(x.nil, y.nil)
            raise Unsupported('pointer comparison')
        if isinstance(x, SliceV):
            return x.nil if y.nil is TRUE else y.nil if x.nil is TRUE else Unsupp('slice ==')
        if isinstance(x, MapV):
            return x.nil if y.nil is TRUE else y.nil
        if isinstance(x, ClosV):
            return x.nil if y.nil is TRUE else y.nil
        for x, y in ((x, y), (y, x)):
            if isinstance(x, IfaceV) and isinstance(y, OpaqueV) and y.kind == 'extglobal':   # an error variable of another package, not nil
                if x.nil is TRUE or isinstance(x.v, ErrInfo):
                    return FALSE
                if isinstance(x.v, Ghost):
                    return and_(not_(x.nil), bapp('eq$%s$%s' % (y['name'], x.v.path), x.v.args))
                return and_(not_(x.nil), bapp('eq!%d' % next(T._vc)))
        x, y = y, x
        if isinstance(x, IfaceV):
            if y.nil is TRUE:
                return x.nil
            if x.nil is TRUE:
                return y.nil
            if x.t != y.t:
                if isinstance(x.t, str) and x.t.startswith('?') or isinstance(y.t, str) and y.t.startswith('?'):
                    r = self.iface_eq(st, x, y)
                    return or_(and_(x.nil, y.nil), and_(not_(x.nil), not_(y.nil), r))
                return and_(x.nil, y.nil)
            a, b = self.force(st, x.v), self.force(st, y.v)
            if isinstance(a, ErrInfo) and isinstance(b, ErrInfo):
                e = B(a.id == b.id)
            else:
                e = self.equal(st, a, b)
            return or_(and_(x.nil, y.nil), and_(not_(x.nil), not_(y.nil), e))
        if isinstance(x, StructV):
            return and_(*[self.equal(st, self.force(st, a), self.force(st, b)) for a, b in zip(x.f, y.f)])
        if isinstance(x, OpaqueV) and isinstance(y, OpaqueV):
            if x.kind == 'chan':
                return x['nil'] if y['nil'] is TRUE else y['nil']
            if x is y:
                return TRUE
            return bapp('opaque_eq!%d' % next(T._vc))
        raise Unsupported('comparison of %r and %r' % (x, y))

    def iface_eq(self, st, x, y):
        def key(z):
            v = z.v
            if isinstance(v, Ghost):
                return v.path + ''.join('_%r' % a for a in v.args)
            if isinstance(v, ErrInfo):
                return 'E%s' % (v.id,)
            return None
        a, b = key(x), key(y)
        if a is None or b is None:
            return bapp('ifeq!%d' % next(T._vc))
        if a > b:
            a, b = b, a
        return bapp('ifeq$%s$%s' % (a, b))

    def i_ChangeType(self, fr, st, ins):
        fr.regs[ins['reg']] = self.val(fr, st, ins['x'])

    i_ChangeInterface = i_ChangeType

    def i_Convert(self, fr, st, ins):
        x = self.force(st, self.val(fr, st, ins['x']))
        tf, tt = ins['x']['t'], ins['t']
        uf, ut = self.p.u(tf), self.p.u(tt)
        if isinstance(x, Unk):
            raise Unsupported('use of unknown value: ' + x.why)
        if isinstance(x, Lin):
            if ut['k'] == 'basic' and ut['name'] in INTS:
                fr.regs[ins['reg']] = self.convert_int(st, x, tf, tt)
                return
            if ut['k'] == 'basic' and ut['name'] == 'string':
                raise Unsupported('string(int)')
            fr.regs[ins['reg']] = OpaqueV('float', v='?', src=x)
            return
        if isinstance(x, Sq):
            if ut['k'] == 'slice':
                fr.regs[ins['reg']] = self.new_bytes(st, x)
                return
            fr.regs[ins['reg']] = x
            return
        if isinstance(x, SliceV):
            if ut['k'] == 'basic' and ut['name'] == 'string':
                fr.regs[ins['reg']] = self.content(st, x)
                return
        if isinstance(x, OpaqueV) and x.kind == 'float':
            rng = self.p.int_range(tt)
            if rng:
                fr.regs[ins['reg']] = fresh('fconv', *rng)
            else:
                fr.regs[ins['reg']] = x
            return
        raise Unsupported('convert %s to %s' % (self.p.name(tf), self.p.name(tt)))

    def i_MakeInterface(self, fr, st, ins):
        fr.regs[ins['reg']] = IfaceV(FALSE, ins['x']['t'], self.val(fr, st, ins['x']))

    def i_MakeClosure(self, fr, st, ins):
        fr.regs[ins['reg']] = ClosV(ins['fn']['n'], [self.val(fr, st, b) for b in ins['binds']])

    def i_MakeSlice(self, fr, st, ins):
        n, c = self.val(fr, st, ins['len']), self.val(fr, st, ins['cap'])
        et = self.p.u(ins['t'])['e']
        self.oblige(fr, st, 'makeslice', and_(le(I(0), n), le(n, c)), ins.get('line', 0), 'length %r' % n)
        content = zero(c) if self.p.is_byte(et) else Arr([('zero', et, c)])
        o = self.alloc(st, content)
        fr.regs[ins['reg']] = SliceV(o, I(0), n, c, FALSE, et)

    def i_MakeMap(self, fr, st, ins):
        u = self.p.u(ins['t'])
        o = self.alloc(st, MapC(u['key'], u['e']))
        fr.regs[ins['reg']] = MapV(FALSE, o)

    def i_MakeChan(self, fr, st, ins):
        fr.regs[ins['reg']] = OpaqueV('chan', nil=FALSE, id=next(_obj), size=self.val(fr, st, ins['size']))

    def i_Slice(self, fr, st, ins):
        x = self.force(st, self.val(fr, st, ins['x']))
        lo, hi, mx = self.val(fr, st, ins['low']), self.val(fr, st, ins['high']), self.val(fr, st, ins['max'])
        line = ins.get('line', 0)
        if lo is None:
            lo = I(0)
        if isinstance(x, PtrV):
            root, path = self.ptr(fr, st, x, line)
            at = self.p.u(self.p.u(ins['x']['t'])['e'])
            n = I(at['n'])
            if path or not isinstance(root, int):
                raise Unsupported('slice of an inner array')
            x = SliceV(root, I(0), n, n, FALSE, at['e'])
        if isinstance(x, Sq):
            if hi is None:
                hi = x.len
            self.oblige(fr, st, 'slice', and_(le(I(0), lo), le(lo, hi), le(hi, x.len)), line, 'string[%r:%r] of %r' % (lo, hi, x.len))
            fr.regs[ins['reg']] = slice_seq(x, lo, hi - lo, st.pc)
            return
        if isinstance(x, Unk):
            raise Unsupported('slice of unknown: ' + x.why)
        if hi is None:
            hi = x.len
        cap = x.cap
        if mx is not None:
            self.oblige(fr, st, 'slice', and_(le(hi, mx), le(mx, cap)), line)
            cap = mx
        # hi <= len implies hi <= cap
        if prove(st.pc, le(hi, x.len)) :
            self.oblige(fr, st, 'slice', and_(le(I(0), lo), le(lo, hi)), line, '[%r:%r] of length %r' % (lo, hi, x.len))
        else:
            self.oblige(fr, st, 'slice', and_(le(I(0), lo), le(lo, hi), le(hi, cap)), line, '[%r:%r] of capacity %r' % (lo, hi, cap))
        fr.regs[ins['reg']] = SliceV(x.base, x.off + lo, hi - lo, cap - lo, x.nil, x.et)

    def i_Extract(self, fr, st, ins):
        v = self.val(fr, st, ins['x'])
        fr.regs[ins['reg']] = v[ins['i']]

    def i_TypeAssert(self, fr, st, ins):
        x = self.force(st, self.val(fr, st, ins['x']))
        at = ins['at']
        u = self.p.u(at)
        isif = u['k'] == 'iface'
        if not isinstance(x, IfaceV):
            raise Unsupported('type assert on %r' % (x,))
        if x.t is None:
            ok = FALSE
            v = self.zero(at)
        elif isif:
            ok = self.implements(x.t, u)
            ok = and_(not_(x.nil), ok)
            v = x
        else:
            if isinstance(x.t, int):
                same = B(x.t == at)
            elif x.t.startswith('?'):
                same = self.dyn_type_is(st, x, at)
            else:
                same = B(self.modelled_type(x.t) == self.p.name(at))
            ok = and_(not_(x.nil), same)
            v = x.v if same is TRUE else self.typed_ghost(st, x, at) if same is not FALSE else self.zero(at)
        if ins['commaok']:
            if ok is not TRUE and ok is not FALSE:
                if prove(st.pc, ok):
                    ok = TRUE
                elif prove(st.pc, not_(ok)):
                    ok = FALSE
                else:
                    raise Split(ok)
            fr.regs[ins['reg']] = (v if ok is TRUE else self.zero(at), ok)
        else:
            self.oblige(fr, st, 'typeassert', ok, ins.get('line', 0), 'to ' + self.p.name(at))
            fr.regs[ins['reg']] = v

    def modelled_type(self, t):
        return {'err:fmt': '*fmt.wrapError', 'err:new': '*errors.errorString'}.get(t, t)

    def dyn_type_is(self, st, x, at):
        key = x.t + '#is#' + self.p.name(at)
        return bapp(key, x.v.args if isinstance(x.v, Ghost) else ())

    def typed_ghost(self, st, x, at):
        return Ghost(at, x.t[1:] + '!' + self.p.name(at), x.v.args if isinstance(x.v, Ghost) else ())

    def implements(self, t, u):
        if isinstance(t, int):
            ms = self.p.methods.get(str(t), {})
            return B(all(m in ms for m in u['methods']))
        if isinstance(t, str) and t.startswith('err:'):
            return B(u['methods'] in (['Error'], []))
        return bapp('implements#%s#%s' % (t, u['s']))

    # maps
    def i_Lookup(self, fr, st, ins):
        x = self.force(st, self.val(fr, st, ins['x']))
        i = self.force(st, self.val(fr, st, ins['i']))
        if isinstance(x, Sq):
            self.bounds(fr, st, i, x.len, ins.get('line', 0))
            fr.regs[ins['reg']] = self.step(st, x, ('i', i))
            return
        u = self.p.u(ins['x']['t'])
        v, ok = self.map_get(st, x, i, u)
        fr.regs[ins['reg']] = (v, ok) if ins['commaok'] else v

    def map_get(self, st, x, key, u):
        if isinstance(x, Unk):
            raise Unsupported('unknown map: ' + x.why)
        if x.obj is None:
            return self.zero(u['e']), FALSE
        c = st.heap[x.obj] if isinstance(x.obj, int) else x.obj
        c = self.force(st, c)
        if isinstance(c, Unk):
            raise Unsupported('unknown map: ' + c.why)
        for k, v in c.upd:
            if k == 'lam':
                raise Unsupported('lookup in a loop-built map')
            e = self.equal(st, self.force(st, k), key)
            if e is TRUE or (e is not FALSE and prove(st.pc, e)):
                if v is DELETED:
                    return self.zero(u['e']), FALSE
                return v, TRUE
            if e is FALSE or prove(st.pc, not_(e)):
                continue
            raise Split(e)
        if c.base is None:
            return self.zero(u['e']), FALSE
        path, args = c.base
        ka = self.key_args(key)
        has = bapp(path + '#has', args + ka)
        if x.nil is not FALSE:
            has = and_(has, not_(x.nil))
        if not prove(st.pc, has):
            if prove(st.pc, not_(has)):
                return self.zero(u['e']), FALSE
            raise Split(has)
        return self.force(st, Ghost(u['e'], path + '{}', args + ka)), TRUE

    def key_args(self, key):
        if isinstance(key, (Lin, Sq)):
            return (key,)
        if isinstance(key, StructV):
            r = ()
            for f in key.f:
                r += self.key_args(f)
            return r
        raise Unsupported('map key %r' % (key,))

    def i_MapUpdate(self, fr, st, ins):
        m = self.force(st, self.val(fr, st, ins['m']))
        k, v = self.force(st, self.val(fr, st, ins['key'])), self.val(fr, st, ins['x'])
        if m.nil is not FALSE:
            self.oblige(fr, st, 'nilmap', not_(m.nil), ins.get('line', 0))
        if not isinstance(m.obj, int):
            raise Unsupported('update of frozen map')
        c = self.force(st, st.heap[m.obj])
        if isinstance(c, Unk):
            raise Unsupported('unknown map: ' + c.why)
        upd = []
        for kk, vv in c.upd:
            e = self.equal(st, self.force(st, kk), k) if kk != 'lam' else FALSE
            if e is TRUE:
                continue
            upd.append((kk, vv))
        st.heap[m.obj] = MapC(c.kt, c.et, [(k, v)] + upd, c.base)

    # calls
    def i_Call(self, fr, st, ins):
        c = ins['call']
        args = [self.val(fr, st, a) for a in c['args']]
        reg = ins.get('reg')
        rs = self.do_call(fr, st, c, args, ins)
        if rs is None:
            return None
        out = []
        for st2, vals in rs:
            fr2 = fr.copy() if len(rs) > 1 else fr
            if reg:
                fr2.regs[reg] = vals[0] if isinstance(vals, tuple) and len(vals) == 1 else vals
            out.append((fr2, st2))
        if len(out) == 1 and out[0][1] is st:
            return None
        return out

    def do_call(self, fr, st, c, args, ins):
        """list of (st, tuple)"""
        line = ins.get('line', 0)
        if c.get('invoke'):
            recv = self.force(st, self.val(fr, st, c['recv']))
            return self.invoke(fr, st, recv, c['invoke'], args, ins, c)
        f = c['fn']
        if f['k'] == 'builtin':
            return self.builtin(fr, st, f['n'], args, ins)
        if f['k'] == 'func':
            return self.call_named(fr, st, f['n'], args, (), ins)
        clo = self.force(st, self.val(fr, st, f))
        if isinstance(clo, Unk):
            raise Unsupported('call of unknown: ' + clo.why)
        if clo.nil is not FALSE:
            self.oblige(fr, st, 'nilfunc', not_(clo.nil), line)
        if clo.fn is None:
            raise Infeasible()
        return self.call_named(fr, st, clo.fn, args, clo.binds, ins)

    def call_named(self, fr, st, name, args, binds, ins):
        h = self.contracts.get(name)
        if h is not None:
            r = h(self, fr, st, args, ins)
            if r is not NotImplemented:
                return r if isinstance(r, list) else [(st, r if isinstance(r, tuple) else (r,))]
        h = self.intr.get(name)
        if h is None:
            h = self.intr_prefix(name)
        if h is not None:
            self.trusted[name] = self.trusted.get(name, 0) + 1
            r = h(self, fr, st, args, ins)
            return r if isinstance(r, list) else [(st, r if isinstance(r, tuple) else (r,))]
        if name in self.p.funcs:
            return self.call_fn(name, args, st, binds, fr.depth + 1)
        if name.startswith('?') and self.conc and not ins.get('reg'):
            st.ev.append(('callfn', name, args))
            return [(st, ())]
        raise Unsupported('external call ' + name)

    def intr_prefix(self, name):
        for p, h in self.intr_pre:
            if name.startswith(p):
                return h
        return None

    def invoke(self, fr, st, recv, meth, args, ins, c):
        if isinstance(recv, Unk):
            raise Unsupported('method of unknown: ' + recv.why)
        self.oblige(fr, st, 'nil', not_(recv.nil), ins.get('line', 0), 'method %s on nil interface' % meth) if recv.nil is not FALSE else None
        t = recv.t
        if isinstance(t, int):
            ms = self.p.methods.get(str(t))
            if ms and meth in ms:
                return self.call_named(fr, st, ms[meth], [recv.v] + args, (), ins)
            name = '(%s).%s' % (self.p.name(t), meth)
        elif t is None:
            raise Infeasible()
        else:
            name = '(%s).%s' % (t.split('?')[0] if not t.startswith('?') else 'iface ' + self.p.name(c['recv']['t']), meth)
        h = self.contracts.get(name) or self.intr.get(name) or self.intr_prefix(name)
        if h is None:
            raise Unsupported('method call ' + name)
        self.trusted[name] = self.trusted.get(name, 0) + 1
        r = h(self, fr, st, [recv] + args if not isinstance(t, int) else [recv.v] + args, ins)
        return r if isinstance(r, list) else [(st, r if isinstance(r, tuple) else (r,))]

    def i_Defer(self, fr, st, ins):
        c = ins['call']
        args = [self.val(fr, st, a) for a in c['args']]
        recv = self.val(fr, st, c['recv']) if c.get('invoke') else None
        clo = None
        if not c.get('invoke') and c['fn']['k'] == 'reg':
            clo = self.val(fr, st, c['fn'])
        fr.defers.append((c, args, recv, clo, ins))

    def i_RunDefers(self, fr, st, ins):
        ds = list(reversed(fr.defers))
        fr.defers = []
        states = [st]
        for c, args, recv, clo, dins in ds:
            nxt = []
            for s in states:
                if recv is not None:
                    rs = self.invoke(fr, s, self.force(s, recv), c['invoke'], args, dins, c)
                elif clo is not None:
                    rs = self.call_named(fr, s, clo.fn, args, clo.binds, dins)
                elif c['fn']['k'] == 'builtin':
                    rs = self.builtin(fr, s, c['fn']['n'], args, dins)
                else:
                    rs = self.call_named(fr, s, c['fn']['n'], args, (), dins)
                nxt += [r[0] for r in rs]
            states = nxt
        if len(states) == 1 and states[0] is st:
            return None
        return [(fr.copy(), s) for s in states]

    def i_Go(self, fr, st, ins):
        if not self.conc:
            raise Unsupported('go statement')
        c = ins['call']
        args = [self.val(fr, st, a) for a in c['args']]
        if c.get('invoke'):
            st.ev.append(('go', c['invoke'], [self.val(fr, st, c['recv'])] + args, ()))
        elif c['fn']['k'] == 'func':
            st.ev.append(('go', c['fn']['n'], args, ()))
        else:
            clo = self.force(st, self.val(fr, st, c['fn']))
            st.ev.append(('go', clo.fn, args, clo.binds))

    def i_Send(self, fr, st, ins):
        if not self.conc:
            raise Unsupported('channel send')
        st.ev.append(('send', self.chan_key(st, self.val(fr, st, ins['chan'])), self.val(fr, st, ins['x'])))

    def i_Select(self, fr, st, ins):
        if not self.conc:
            raise Unsupported('select')
        states = ins['states'] or []
        recvs = [i for i, s in enumerate(states) if s['dir'] == 2]
        keys = [self.chan_key(st, self.val(fr, st, s['chan'])) for s in states]
        ets = [self.p.u(s['chan']['t'])['e'] for s in states]
        out = []

        def res(s2, idx, ok, v):
            vals = [I(idx), ok] + [v if i == idx else self.zero(ets[i]) for i in recvs]
            f2 = fr.copy()
            f2.regs[ins['reg']] = tuple(vals)
            out.append((f2, s2))
        for i, s in enumerate(states):
            if keys[i] == 'nil':
                continue
            if s['dir'] == 2:
                for v, ok in self.received(st, ets[i], keys[i]):
                    s2 = st.copy()
                    s2.ev.append(('recv', keys[i], v, ok))
                    res(s2, i, ok, v)
            else:
                s2 = st.copy()
                s2.ev.append(('send', keys[i], self.val(fr, s2, s['send'])))
                res(s2, i, FALSE, None)
        if not ins.get('blocking'):
            s2 = st.copy()
            s2.ev.append(('default', tuple(keys)))
            res(s2, -1, FALSE, None)
        return out

    def i_Range(self, fr, st, ins):
        x = self.force(st, self.val(fr, st, ins['x']))
        if not isinstance(x, MapV):
            raise Unsupported('range over a string')
        o = self.alloc(st, OpaqueV('mapiter', m=x, i=I(0)))
        fr.regs[ins['reg']] = PtrV(FALSE, (o, ()))

    def i_Next(self, fr, st, ins):
        p = self.val(fr, st, ins['x'])
        it = st.heap[p.tgt[0]]
        n, ent = self.map_entries(st, it['m'])
        i = it['i']
        if ent is None:
            fr.regs[ins['reg']] = (FALSE, Unk('no entry'), Unk('no entry'))
            return
        k, v = ent(i)
        st.heap[p.tgt[0]] = it.with_(i=i + 1)
        fr.regs[ins['reg']] = (lt(i, n), k, v)

    def i_SliceToArrayPointer(self, fr, st, ins):
        raise Unsupported('slice to array')

    # builtins
    def builtin(self, fr, st, n, args, ins):
        R = lambda v: [(st, (v,))]
        args = [self.force(st, a) for a in args]
        for a in args:
            if isinstance(a, Unk):
                raise Unsupported('builtin %s on unknown: %s' % (n, a.why))
        if n == 'len':
            x = args[0]
            if isinstance(x, (SliceV, Sq)):
                return R(x.len)
            if isinstance(x, MapV):
                return R(self.map_len(st, x))
            if isinstance(x, Arr):
                return R(x.len)
            if isinstance(x, OpaqueV):
                return R(fresh('chanlen', 0, 2**31))
        if n == 'cap':
            if isinstance(args[0], SliceV):
                return R(args[0].cap)
            return R(fresh('cap', 0, 2**31))
        if n == 'copy':
            d, s = args
            src = s if isinstance(s, Sq) else self.content(st, s)
            if isinstance(src, Sq):
                if prove(st.pc, le(src.len, d.len)):
                    m = src.len
                elif not self.quiet and prove(st.pc, le(d.len, src.len)) or self.quiet and d.len.const() is not None and prove(st.pc, le(d.len, src.len)):
                    m = d.len
                    src = slice_seq(src, I(0), m, st.pc)
                elif self.quiet:
                    self.qassume(st, le(src.len, d.len))
                    m = src.len
                else:
                    raise Split(le(src.len, d.len))
                if m.const() != 0:
                    self.write_bytes(st, d, I(0), src)
                return R(m)
            if prove(st.pc, le(src.len, d.len)):
                m = src.len
            elif prove(st.pc, le(d.len, src.len)):
                m = d.len
                src = arr_slice(src, I(0), m, st.pc)
            else:
                raise Split(le(src.len, d.len))
            if m.const() != 0:
                if not isinstance(d.base, int):
                    raise Unsupported('copy into frozen slice')
                c = self.force(st, st.heap[d.base])
                l, r = arr_split(c, d.off, st.pc)
                _, r2 = arr_split(r, m, st.pc)
                st.heap[d.base] = Arr(l.p + src.p + r2.p)
            return R(m)
        if n == 'append':
            d = args[0]
            if len(args) == 1:
                return R(d)
            s = args[1]
            add = s if isinstance(s, Sq) else self.content(st, s)
            return R(self.append(st, d, add))
        if n == 'ssa:wrapnilchk':
            self.ptr(fr, st, args[0], ins.get('line', 0))
            return R(args[0])
        if n in ('print', 'println'):
            return [(st, ())]
        if n == 'recover':
            return R(IfaceV(TRUE, None, None))
        if n == 'close':
            return self.close_chan(fr, st, args[0], ins)
        if n == 'delete':
            m, k = args
            if m.obj is None:
                return [(st, ())]
            c = self.force(st, st.heap[m.obj])
            st.heap[m.obj] = MapC(c.kt, c.et, [(k, DELETED)] + [(a, b) for a, b in c.upd if a == 'lam' or self.equal(st, a, k) is not TRUE], c.base)
            return [(st, ())]
        if n in ('min', 'max'):
            a, b = args[0], args[1]
            return R(ite(le(a, b), a, b) if n == 'min' else ite(le(a, b), b, a))
        raise Unsupported('builtin ' + n)

    def close_chan(self, fr, st, ch, ins):
        if not self.conc:
            raise Unsupported('close')
        st.ev.append(('closechan', self.chan_key(st, ch)))
        return [(st, ())]

    def map_len(self, st, m):
        if m.obj is None:
            return I(0)
        c = self.force(st, st.heap[m.obj])
        if c.base is None and all(k != 'lam' for k, _ in c.upd):
            # keys are distinct unless comparison is undecided
            return I(len([1 for k, v in c.upd if v is not DELETED]))
        if c.base is not None and not c.upd:
            n = app(c.base[0] + '#n', c.base[1], 0, 2**31 - 2)
            solver.nil_len[c.base[0] + '#nil'] = c.base[0] + '#n'
            return ite(m.nil, I(0), n) if m.nil is not FALSE else n
        return fresh('maplen', 0, 2**31)

    def map_entries(self, st, m):
        """(count, entry function) of a symbolic map in its (arbitrary, fixed) iteration order"""
        n = self.map_len(st, m)
        if m.obj is None:
            return I(0), None
        c = self.force(st, st.heap[m.obj] if isinstance(m.obj, int) else m.obj)
        if c.base is None or c.upd:
            raise Unsupported('iteration over a map that was built or changed by the code')
        path, args = c.base
        return n, lambda k: (Ghost(c.kt, path + '#key', args + (k,)), Ghost(c.et, path + '{v}', args + (k,)))

    def append(self, st, d, add):
        n = add.len
        if n.const() == 0:
            return d
        if d.base is not None and isinstance(d.base, int) and d.cap is not d.len and prove(st.pc, le(d.len + n, d.cap)):
            # in place
            if isinstance(add, Sq):
                st.heap[d.base] = self.splice(st, self.force(st, st.heap[d.base]), d.off + d.len, add)
            else:
                c = self.force(st, st.heap[d.base])
                l, r = arr_split(c, d.off + d.len, st.pc)
                _, r2 = arr_split(r, n, st.pc)
                st.heap[d.base] = Arr(l.p + add.p + r2.p)
            return SliceV(d.base, d.off, d.len + n, d.cap, FALSE, d.et)
        old = self.content(st, d)
        new = sq(old, add) if isinstance(old, Sq) else Arr(old.p + add.p)
        o = self.alloc(st, new)
        nil = and_(d.nil, eq(n, I(0)))
        return SliceV(o, I(0), d.len + n, d.len + n, nil, d.et)

    # ------------------------------------------------------------------ merging
    def merge_list(self, rs, basepc, strict):
        """rs: list of (st, vals) all extending basepc"""
        rs = list(rs)
        nb = len(basepc)
        failed = set()

        def pass_(exact):
            pairs = [(i, j) for i in range(len(rs)) for j in range(i + 1, len(rs)) if (id(rs[i]), id(rs[j]), exact) not in failed]
            if exact:
                pairs.sort(key=lambda p: -prefix(rs[p[0]][0].pc, rs[p[1]][0].pc))    # innermost branches first
            for i, j in pairs:
                try:
                    m = self.merge2(rs[i], rs[j], nb, strict, exact)
                except MergeFail:
                    m = None
                if m is not None:
                    keep.append((rs[i], rs[j]))
                    rs[i] = m
                    del rs[j]
                    return True
                failed.add((id(rs[i]), id(rs[j]), exact))
            return False

        def prefix(a, b):
            n = 0
            for x, y in zip(a, b):
                if x is not y:
                    break
                n += 1
            return n
        keep = []     # (merged pairs stay alive: their identities are in `failed`)
        while len(rs) > 1 and (pass_(True) or pass_(False)):    # first paths that differ in one condition only
            pass
        return rs

    def merge2(self, a, b, nb, strict, exact=False):
        (sa, va), (sb, vb) = a, b
        if sa.ev != sb.ev and len(sa.ev) != len(sb.ev) or any(x is not y for x, y in zip(sa.ev, sb.ev)):
            raise MergeFail()
        pa, pb = sa.pc[nb:], sb.pc[nb:]
        setb = set(pb)
        seta = set(pa)
        disc = None
        for c in pa:
            if c not in setb and not_(c) in setb:
                disc = c
                break
        common = [c for c in pa if c in setb]
        ra = [c for c in pa if c not in setb and c is not disc]
        rb = [c for c in pb if c not in seta and c is not (not_(disc) if disc is not None else None)]
        if exact and (disc is None or sum(not_(c) in setb for c in pa) != 1):
            return None
        if disc is None:
            ca, cb = and_(*ra), and_(*rb)
            # use a's condition as discriminator when exclusive
            if not ra or not rb:
                return None
            if not prove(sa.pc[:nb] + common, not_(and_(ca, cb))):
                return None
            disc = ca
            newc = [or_(ca, cb)]
        else:
            newc = [] if not ra and not rb else [or_(and_(disc, *ra), and_(not_(disc), *rb))]
        if vmerge_bad(va, vb) and strict:
            return None
        st = State.__new__(State)
        st.pc = sa.pc[:nb] + common
        st.ev = list(sa.ev)
        st.glob = dict(sa.glob)
        st.glob.update(sb.glob)
        st.heap = dict(sa.heap)
        for o, v in sb.heap.items():
            if o not in st.heap:
                st.heap[o] = v
            elif st.heap[o] is not v:
                st.heap[o] = self.mval(disc, st.heap[o], v, strict, sa, sb)
        vals = self.mval(disc, va, vb, strict, sa, sb)
        for c in newc:
            st.assume(c)
        return st, vals

    def mfail(self):
        raise MergeFail()

    def mval(self, c, a, b, strict, sa=None, sb=None):
        if a is b or vsame(a, b):
            return a
        M = lambda x, y: self.mval(c, x, y, strict, sa, sb)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(M(x, y) for x, y in zip(a, b))
        if isinstance(a, dict):
            return {k: M(a[k], b[k]) for k in a if k in b}
        if isinstance(a, Lin) and isinstance(b, Lin):
            return ite(c, a, b)
        if isinstance(a, Bl) and isinstance(b, Bl):
            return bite(c, a, b)
        if isinstance(a, Sq) and isinstance(b, Sq):
            return sq_ite(c, a, b)
        if isinstance(a, Ghost) and isinstance(b, (Sq, Lin, Bl)):
            g = self.scalar_ghost(a)
            if g is not None:
                return M(g, b)
        if isinstance(b, Ghost) and isinstance(a, (Sq, Lin, Bl)):
            g = self.scalar_ghost(b)
            if g is not None:
                return M(a, g)
        if isinstance(a, StructV) and isinstance(b, StructV):
            return StructV(a.t, [M(x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, SliceV) and isinstance(b, SliceV):
            if a.base == b.base and isinstance(a.base, int):
                return SliceV(a.base, ite(c, a.off, b.off), ite(c, a.len, b.len), ite(c, a.cap, b.cap), bite(c, a.nil, b.nil), a.et)
            if a.base is None and b.base is not None and a.nil is TRUE:
                if b.off.const() == 0 or isinstance(b.base, int):
                    return self.slice_or_nil(c, a, b, sa, sb, nilfirst=True)
            if b.base is None and a.base is not None and b.nil is TRUE:
                return self.slice_or_nil(not_(c), b, a, sb, sa, nilfirst=True)
            if self.p.is_byte(a.et) and sa is not None:
                try:
                    ca, cb = self.content_ite(sa, a), self.content_ite(sb, b)
                except (Unsupported, Split):
                    raise MergeFail()
                s = sq_ite(c, ca, cb)
                return SliceV(s, I(0), s.len, s.len, bite(c, a.nil, b.nil), a.et)
            if not strict and sa is not None and a.len is b.len and not self.p.is_byte(a.et):
                try:
                    ca, cb = self.content(sa, a), self.content(sb, b)
                except (Unsupported, Split):
                    ca = cb = None
                if isinstance(ca, Arr) and isinstance(cb, Arr):
                    r = M(ca, cb)
                    if isinstance(r, Arr):
                        return SliceV(r, I(0), a.len, a.len, bite(c, a.nil, b.nil), a.et)
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            if a.tgt == b.tgt:
                return PtrV(bite(c, a.nil, b.nil), a.tgt)
            if a.tgt is None:
                return PtrV(or_(c, b.nil), b.tgt)
            if b.tgt is None:
                return PtrV(or_(not_(c), a.nil), a.tgt)
        if isinstance(a, IfaceV) and isinstance(b, IfaceV):
            if a.t is None:
                return IfaceV(or_(c, b.nil), b.t, b.v)
            if b.t is None:
                return IfaceV(or_(not_(c), a.nil), a.t, a.v)
            if a.t == b.t:
                return IfaceV(bite(c, a.nil, b.nil), a.t, M(a.v, b.v))
        if isinstance(a, BufV) and isinstance(b, BufV):
            return BufV(sq_ite(c, a.s, b.s))
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.p) == len(b.p):
            out = []
            for x, y in zip(a.p, b.p):
                if psame(x, y):
                    out.append(x)
                elif x[0] == 'el' and y[0] == 'el' and len(x[1]) == len(y[1]):
                    out.append(('el', tuple(M(p, q) for p, q in zip(x[1], y[1]))))
                else:
                    break
            else:
                return Arr(out)
        if isinstance(a, Unk):
            return a
        if isinstance(b, Unk):
            return b
        if strict:
            raise MergeFail()
        return IteV(c, a, b)

    def scalar_ghost(self, g):
        u = self.p.u(g.t)
        if u['k'] == 'basic' and g.path not in self.over:
            return self.expand(None, g)
        return None

    def slice_or_nil(self, c, n, s, sn, ss, nilfirst):
        """value that is the nil slice n when c, else s"""
        if isinstance(s.base, int):
            return SliceV(s.base, s.off, ite(c, I(0), s.len), ite(c, I(0), s.cap), or_(c, s.nil), s.et)
        if isinstance(s.base, Sq):
            full = self.content(ss, s)
            q = sq_ite(c, EMPTYSEQ, full)
            return SliceV(q, I(0), q.len, q.len, or_(c, s.nil), s.et)
        return SliceV(s.base, s.off, ite(c, I(0), s.len), ite(c, I(0), s.cap), or_(c, s.nil), s.et)

    # ------------------------------------------------------------------ loops
    def loop(self, fr, st, header, pred, body):
        import loops
        for rule in self.loop_rules:
            r = rule(self, fr, st, header, pred, body)
            if r is not NotImplemented:
                return r
        return loops.run_loop(self, fr, st, header, pred, body)

    # ------------------------------------------------------------------ freezing
    def freeze(self, st, v, keep):
        """replace references to objects not satisfying keep by immutable values"""
        if isinstance(v, SliceV):
            if isinstance(v.base, int) and not keep(v.base):
                c = self.content_ite(st, v) if self.p.is_byte(v.et) else self.content(st, v)
                c = self.freeze(st, c, keep)
                return SliceV(c, I(0), v.len, v.len, v.nil, v.et)
            if isinstance(v.base, (Arr,)):
                return SliceV(self.freeze(st, v.base, keep), v.off, v.len, v.cap, v.nil, v.et)
            return v
        if isinstance(v, PtrV):
            if v.tgt is not None and isinstance(v.tgt[0], int) and not keep(v.tgt[0]):
                cur = st.heap[v.tgt[0]]
                for s in v.tgt[1]:
                    cur = self.step(st, self.force(st, cur), s)
                return PtrV(v.nil, (Box(self.freeze(st, cur, keep)), ()))
            return v
        if isinstance(v, StructV):
            return StructV(v.t, [self.freeze(st, x, keep) for x in v.f])
        if isinstance(v, Arr):
            out = []
            for x in v.p:
                if x[0] == 'el':
                    out.append(('el', tuple(self.freeze(st, y, keep) for y in x[1])))
                elif x[0] == 'lam':
                    out.append(('lam', x[1], x[2], x[3], self.freeze(st, x[4], keep)))
                else:
                    out.append(x)
            return Arr(out)
        if isinstance(v, IfaceV):
            return IfaceV(v.nil, v.t, self.freeze(st, v.v, keep) if v.v is not None else None)
        if isinstance(v, IteV):
            return IteV(v.c, self.freeze(st, v.a, keep), self.freeze(st, v.b, keep))
        if isinstance(v, ErrInfo):
            return ErrInfo(v.id, v.fmt, [self.freeze(st, x, keep) for x in v.args], [self.freeze(st, x, keep) for x in v.wraps])
        if isinstance(v, MapV) and isinstance(v.obj, int) and not keep(v.obj):
            return MapV(v.nil, self.freeze(st, st.heap[v.obj], keep))
        if isinstance(v, MapC):
            return MapC(v.kt, v.et, [(k if k == 'lam' else self.freeze(st, k, keep), x if x is DELETED else self.freeze(st, x, keep)) for k, x in v.upd], v.base)
        if isinstance(v, tuple):
            return tuple(self.freeze(st, x, keep) for x in v)
        return v


class Infeasible(Exception):
    pass


class _Del:
    def __repr__(self):
        return 'DELETED'


DELETED = _Del()

COMPLEX = {'Call', 'RunDefers', 'Slice', 'Store', 'UnOp', 'Lookup', 'MapUpdate', 'Convert', 'TypeAssert', 'BinOp', 'IndexAddr', 'Field', 'Index', 'Select', 'Send', 'Go', 'Next'}


def Unsupp(x):
    raise Unsupported(x)


def vmerge_bad(va, vb):
    return False


def psame(x, y):
    if x is y:
        return True
    if x[0] != y[0]:
        return False
    k = x[0]
    if k == 'el':
        return len(x[1]) == len(y[1]) and all(vsame(a, b) for a, b in zip(x[1], y[1]))
    if k == 'lam':
        if x[2] is not y[2] or x[3] is not y[3]:
            return False
        if x[1] is y[1]:
            return vsame(x[4], y[4])
        return vsame(x[4], vsubst(y[4], {y[1]: lin(x[1])}))
    return all(a is b or a == b for a, b in zip(x[1:], y[1:]))


def vsame(a, b):
    """syntactic equality"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Node):
        return False
    if isinstance(a, tuple) or isinstance(a, list):
        return len(a) == len(b) and all(vsame(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(vsame(a[k], b[k]) for k in a)
    if isinstance(a, Ghost):
        return a.t == b.t and a.path == b.path and len(a.args) == len(b.args) and all(x is y for x, y in zip(a.args, b.args))
    if isinstance(a, StructV):
        return all(vsame(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, SliceV):
        return (a.base == b.base if isinstance(a.base, int) or isinstance(b.base, int) or a.base is None or b.base is None else vsame(a.base, b.base)) \
            and a.off is b.off and a.len is b.len and a.cap is b.cap and a.nil is b.nil
    if isinstance(a, PtrV):
        if a.nil is not b.nil:
            return False
        if a.tgt is None or b.tgt is None:
            return a.tgt is b.tgt
        return (a.tgt[0] == b.tgt[0] if isinstance(a.tgt[0], int) or isinstance(b.tgt[0], int) else vsame(a.tgt[0].v, b.tgt[0].v)) and vsame(a.tgt[1], b.tgt[1])
    if isinstance(a, IfaceV):
        return a.nil is b.nil and a.t == b.t and vsame(a.v, b.v)
    if isinstance(a, IteV):
        return a.c is b.c and vsame(a.a, b.a) and vsame(a.b, b.b)
    if isinstance(a, Arr):
        return len(a.p) == len(b.p) and all(psame(x, y) for x, y in zip(a.p, b.p))
    if isinstance(a, ErrInfo):
        return a.id == b.id and a.fmt == b.fmt and vsame(a.args, b.args) and vsame(a.wraps, b.wraps)
    if isinstance(a, MapV):
        return a.nil is b.nil and (a.obj == b.obj if isinstance(a.obj, int) or a.obj is None or isinstance(b.obj, int) or b.obj is None else vsame(a.obj, b.obj))
    if isinstance(a, MapC):
        return a.base == b.base and vsame(a.upd, b.upd)
    if isinstance(a, ClosV):
        return a.fn == b.fn and vsame(a.binds, b.binds) and a.nil is b.nil
    if isinstance(a, BufV):
        return a.s is b.s
    if isinstance(a, Box):
        return vsame(a.v, b.v)
    if isinstance(a, OpaqueV):
        return a.kind == b.kind and vsame(a.d, b.d)
    if isinstance(a, Unk):
        return True
    return a == b
