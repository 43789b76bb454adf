"""Concrete replay: run the real code of /repo (through a test binary built with an overlay) on given inputs."""
import base64
import json
import os
import subprocess
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')  # (the variable is for development only)
GOENV = {'HOME': '/root', 'GOROOT': '/opt/veriftools/go1.23.12', 'GOTOOLCHAIN': 'local', 'GOPROXY': 'off',
         'GOFLAGS': '-mod=mod -buildvcs=false', 'GOWORK': 'off', 'GOPATH': '/root/go', 'GOMODCACHE': '/root/go/pkg/mod',
         'GOCACHE': '/root/.cache/go-build', 'PATH': '/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'}


def b64(b):
    return base64.b64encode(bytes(b)).decode()


def unb64(s):
    return None if s is None else base64.b64decode(s)


def enc(v):
    """python value -> harness JSON"""
    if isinstance(v, (bytes, bytearray)):
        return b64(v)
    if isinstance(v, dict):
        return {k: enc(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    return v


class Raw(dict):
    pass


class HarnessError(Exception):
    pass


class Harness:
    def __init__(self, scratch, fnames, types=(), extra=(), xfns=()):
        """fnames: SSA names of functions to register (must exist)"""
        self.dir = scratch
        self.names = sorted(set(fnames))
        self.types = sorted(set(types))
        self.extra = sorted(set(extra))
        self.xfns = sorted(set(xfns))
        self.bin = None
        self.error = None

    def build(self):
        """the drivers in harness/ named in extra are left out when they do not compile against the tree"""
        if self.extra:
            try:
                self.build1(self.extra, self.xfns)
                return
            except HarnessError as e:
                first = str(e)
            self.build1((), ())
            open(os.path.join(self.dir, 'noextra'), 'w').write(first)
            return
        self.build1((), ())

    def build1(self, extra, xfns):
        d = self.dir
        os.makedirs(d, exist_ok=True)
        core = open('/verif/harness/core_test.go.txt').read()
        core += '\nvar vFuncs = map[string]interface{}{\n' + ''.join('\t%s: %s,\n' % (json.dumps(n), n) for n in self.names + list(xfns)) + '}\n'
        core += '\nvar vTypes = map[string]reflect.Type{\n' + ''.join('\t%s: reflect.TypeOf((*%s)(nil)).Elem(),\n' % (json.dumps(n), n) for n in self.types) + '}\n'
        src = os.path.join(d, 'verif_core_test.go')
        open(src, 'w').write(core)
        rep = {REPO + '/zz_verif_core_test.go': src}
        for e in extra:
            rep[REPO + '/zz_verif_%s_test.go' % e] = '/verif/harness/%s_test.go.txt' % e
        for f in os.listdir(REPO):
            if f.endswith('_test.go'):
                rep[REPO + '/' + f] = ''
        ov = os.path.join(d, 'overlay.json')
        json.dump({'Replace': rep}, open(ov, 'w'))
        out = os.path.join(d, 'harness.test')
        p = subprocess.run(['go', 'test', '-c', '-vet=off', '-overlay', ov, '-o', out, '.'], cwd=REPO, env=GOENV, capture_output=True, text=True, timeout=400)
        if p.returncode != 0:
            self.error = (p.stdout + p.stderr)[-3000:]
            raise HarnessError(self.error)
        self.error = None
        self.bin = out

    def run(self, cases, timeout=120):
        """cases: list of lists of steps {'fn','args'}; returns list of results (dict) in order"""
        if self.bin is None:
            self.build()
        fin = tempfile.NamedTemporaryFile('w', dir=self.dir, suffix='.in', delete=False)
        for i, c in enumerate(cases):
            fin.write(json.dumps({'id': i, 'steps': [{'fn': s['fn'], 'args': [enc(a) for a in s['args']]} for s in c]}) + '\n')
        fin.close()
        fout = fin.name + '.out'
        res = [None] * len(cases)
        skip = 0
        while skip < len(cases):
            open(fout, 'w').close()
            env = dict(GOENV, VERIF_IN=fin.name, VERIF_OUT=fout, VERIF_SKIP=str(skip), GOTRACEBACK='single')
            tail = ''
            late = False
            try:
                p = subprocess.run(['bash', '-c', 'ulimit -v 20000000; exec "$0" -test.run "^TestVerifHarness$" -test.timeout 0', self.bin],
                                   cwd=self.dir, env=env, capture_output=True, text=True, timeout=timeout, errors='replace')
                tail = (p.stdout + p.stderr)
            except subprocess.TimeoutExpired:
                tail = 'harness time limit'
                late = True
            last = None
            for line in open(fout):
                try:
                    o = json.loads(line)
                except ValueError:
                    continue
                if 'start' in o:
                    last = o['start']
                else:
                    res[o['id']] = o
            if last is None:
                raise HarnessError('harness did not start: ' + tail[-2000:])
            if late and last > skip and res[last] is None:
                skip = last        # the time limit is for one input, not for all: this one starts again
                continue
            if last is not None and res[last] is None:
                i = tail.find('fatal error')
                i = i if i >= 0 else tail.find('panic:')
                res[last] = {'id': last, 'panic': 'process died: ' + (tail[i:i + 300] if i >= 0 else tail[-300:]), 'stack': tail[-800:], 'at': 0, 'res': []}
            skip = last + 1
        os.unlink(fin.name)
        os.unlink(fout)
        for i, r in enumerate(res):
            if r is not None and str(r.get('panic', '')).startswith('harness:'):
                raise HarnessError(r['panic'])
        return res
