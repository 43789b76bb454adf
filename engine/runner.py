"""Scheduling of verification jobs (one forked process each), replay, verdict, evidence."""
import json
import multiprocessing as mp
import os
import pickle
import random
import select
import shutil
import signal
import subprocess
import sys
import time

import jobs
import solver
from replay import Harness, HarnessError, GOENV, REPO

NPROC = int(os.environ.get('VERIF_NPROC', '8'))


class Case:
    """one concrete input for the real code: steps for the harness and an oracle over its answer"""
    def __init__(self, steps, check, note=''):
        self.steps, self.check, self.note = steps, check, note

    def verdict(self, r):
        if r is None:
            return None
        try:
            return self.check(r)
        except Exception as e:   # the oracle itself could not read the answer
            return None if getattr(self, 'lenient', False) else 'the answer does not have the expected form: %s: %s' % (type(e).__name__, e)


class Job:
    """name; body(Ctx) -> number of paths; phase: helpers (0, 1, ..) before the rest (9);
    key: what is added to prims.VERIFIED when the contract is discharged; cases(rng, n): concrete inputs; fns: functions the cases call"""
    def __init__(self, name, body, phase=9, key=None, cases=None, fns=(), main=True, timeout=None, types=(), require=(), bounded=None, extra=(), xfns=(), limit=None):
        self.name, self.body, self.phase, self.key, self.cases, self.fns, self.main = name, body, phase, key, cases, list(fns), main
        self.timeout, self.types, self.require = timeout, list(types), list(require) or list(fns)
        self.extra, self.xfns, self.limit = list(extra), list(xfns), limit   # Go drivers in harness/, their functions; most inputs in the quick tier
        self.bounded = bounded       # reason why no deductive proof is attempted


def slim(res):
    return {'name': res.job, 'ok': res.ok, 'fails': [f.as_dict() for f in res.fails], 'unsupported': res.unsupported,
            'obligations': res.obligations, 'discharged': res.discharged, 'funcs': sorted(res.funcs), 'trusted': sorted(map(str, res.trusted)),
            'time': res.time, 'solver_time': res.solver_time, 'queries': res.queries, 'vacuous': res.vacuous}


def dead(name, why):
    return {'name': name, 'ok': False, 'fails': [], 'unsupported': why, 'obligations': 0, 'discharged': 0, 'funcs': [], 'trusted': [],
            'time': 0.0, 'solver_time': 0.0, 'queries': 0, 'vacuous': False}


def run_all(js, timeout, verbose=False):
    """fork one process per job, NPROC at a time"""
    todo = list(js)
    running = {}
    out = {}
    while todo or running:
        while todo and len(running) < NPROC:
            j = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    for fd in list(running):
                        os.close(fd)
                    res = slim(jobs.run_job(j.name, j.body, timeout=j.timeout or timeout))
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(res, f)
                except BaseException as e:
                    try:
                        sys.stderr.write('job %s: %r\n' % (j.name, e))
                    except Exception:
                        pass
                    code = 1
                os._exit(code)
            os.close(w)
            running[r] = (pid, j, time.time(), [])
        rl, _, _ = select.select(list(running), [], [], 1.0)
        for fd in list(running):
            pid, j, t0, buf = running[fd]
            if fd in rl:
                b = os.read(fd, 1 << 20)
                if b:
                    buf.append(b)
                    continue
                os.close(fd)
                os.waitpid(pid, 0)
                del running[fd]
                try:
                    out[j.name] = pickle.loads(b''.join(buf))
                except Exception:
                    out[j.name] = dead(j.name, 'the verifier process ended without an answer')
            elif time.time() - t0 > (j.timeout or timeout) + 20:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                del running[fd]
                out[j.name] = dead(j.name, 'hard time limit')
            else:
                continue
            o = out[j.name]
            if verbose:
                print('%-60s %s %d/%d %.1fs %s' % (j.name, 'ok' if o['ok'] else 'FAIL' if o['fails'] else 'undecided', o['discharged'], o['obligations'], o['time'],
                                                 (o['unsupported'] or '')[:150].replace('\n', ' ')), flush=True)
                for f in o['fails'][:3]:
                    print('      ', f['obligation'], f['line'], f['detail'][:200])
    return out


def load_known():
    out = []
    try:
        for line in open('/verif/known_findings.txt'):
            line = line.strip()
            if line.startswith('known:'):
                out.append(line)
    except OSError:
        pass
    return out


ASSUME = [
    'the Go SSA (golang.org/x/tools/go/ssa) of /repo, rebuilt on every run, means what the Go compiler compiles',
    '64-bit signed arithmetic is mathematical (no overflow of int/int64 within the stated ranges); narrower conversions wrap as in Go',
    'strings put on the wire with a 16-bit length are at most 32767 bytes, arrays at most 2^31-2 elements',
    'objects handed in are not shared with other goroutines during the call',
    'logging (klog/glog), metrics and time have no effect on the results',
    'contracts of the standard library functions used are assumed (listed under trusted_base)',
]


def check(pid, tier, title, alljobs, seed, level='proof', extra_assume=(), keep=False, verbose=False):
    """alljobs: list of Job.  Returns exit status"""
    t0 = time.time()
    scratch = '/verif/build/run.%s.%d' % (pid, os.getpid())
    os.makedirs(scratch, exist_ok=True)
    try:
        return check1(pid, tier, title, alljobs, seed, scratch, t0, extra_assume, verbose)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay_all(H, cs, width, deadline):
    """answers for the inputs, a few processes at a time; after a round with a failing one, or past the deadline, the rest is left out"""
    from concurrent.futures import ThreadPoolExecutor
    if width == 1:
        return H.run([c.steps for c in cs])
    out = []
    size = 10
    with ThreadPoolExecutor(width) as ex:
        while len(out) < len(cs):
            part = [cs[i:i + size] for i in range(len(out), min(len(cs), len(out) + size * width), size)]
            for p, ans in zip(part, ex.map(lambda p: H.run([c.steps for c in p]), part)):
                out += ans
            if any(c.verdict(a) for c, a in zip(cs, out)) or time.time() > deadline:
                break
    return out


def check1(pid, tier, title, mk, seed, scratch, t0, extra_assume, verbose):
    import prims
    ssa = os.path.join(scratch, 'ssa.json')
    p = subprocess.run(['/verif/build/ssadump', REPO, '.', ssa], env=GOENV, capture_output=True, text=True)
    if p.returncode != 0:
        print('the tree in /repo does not build:\n' + (p.stdout + p.stderr)[-2000:])
        return 2
    P = jobs.prog(ssa)
    alljobs = mk(P)
    present, missing = [], []
    for j in alljobs:
        (present if all(f in P.funcs for f in j.require) else missing).append(j)
    timeout = 150 if tier == 'quick' else 600
    deadline = t0 + (700 if tier == 'quick' else 6000)

    # the harness is compiled while the proofs run
    names = set()
    types = set()
    for j in present:
        if j.cases:
            names |= {f for f in j.fns if f in P.funcs}
            types |= set(j.types)
    extra = {e for j in present if j.cases for e in j.extra}
    xfns = {e for j in present if j.cases for e in j.xfns}
    H = Harness(scratch, names, types, extra, xfns)
    hpid = None
    hlog = os.path.join(scratch, 'hlog')
    if names or xfns:
        hpid = os.fork()
        if hpid == 0:
            try:
                H.build()
                os._exit(0)
            except BaseException as e:
                open(hlog, 'w').write(str(e))
                os._exit(1)

    results = {}
    for ph in sorted({j.phase for j in present}):
        js = [j for j in present if j.phase == ph and j.bounded is None]
        rs = run_all(js, timeout, verbose)
        results.update(rs)
        for j in js:
            if rs[j.name]['ok'] and j.key is not None:
                prims.VERIFIED.add(j.key)
    if hpid is not None:
        _, stt = os.waitpid(hpid, 0)
        if stt == 0:
            H.bin = os.path.join(scratch, 'harness.test')
            if os.path.exists(os.path.join(scratch, 'noextra')):
                H.extra = None
                print('note: the scenario driver does not build: ' + open(os.path.join(scratch, 'noextra')).read()[-600:])
        else:
            H.error = open(hlog).read() if os.path.exists(hlog) else 'build failed'
            print('note: the replay harness does not build: ' + H.error[-600:])

    # concrete inputs
    ncase = 0
    nontrivial = 0
    failing = {}
    samples = []
    counts = {}
    herr = {}
    for j in present:
        if not j.main or not j.cases or H.error or (j.extra and H.extra is None):
            continue
        r = results.get(j.name) or dead(j.name, j.bounded or 'not attempted')
        results[j.name] = r
        n = (30 if r['ok'] else 400) if tier == 'quick' else (300 if r['ok'] else 4000)
        if j.limit:
            n = max(1, min(n, j.limit if r['ok'] else 3 * j.limit) if tier == 'quick' else 10 * j.limit)
        if time.time() > deadline:
            n = min(n, 30)
        rng = random.Random('%d/%s' % (seed, j.name))
        rng.big = not r['ok'] or tier != 'quick'
        try:
            cs = list(j.cases(rng, n))
            answers = replay_all(H, cs, 3 if j.extra else 1, deadline)
            cs = cs[:len(answers)]
        except HarnessError as e:
            herr[j.name] = str(e)[-500:]
            continue
        except Exception as e:
            herr[j.name] = 'harness: %r' % e
            continue
        counts[j.name] = len(cs)
        for c, a in zip(cs, answers):
            ncase += 1
            w = c.verdict(a)
            if len(samples) < 3 and a is not None and rng.random() < 0.2:
                samples.append({'job': j.name, 'steps': trim(c.steps), 'answer': trim(a.get('res'))})
            if w:
                failing.setdefault(j.name, []).append((c, a, w))
                if len(failing[j.name]) >= 5:
                    break

    viol = []
    undecided = []
    rdir = '/verif/build/replay'
    os.makedirs(rdir, exist_ok=True)
    known = load_known()
    for j in present:
        if not j.main:
            continue
        r = results.get(j.name) or dead(j.name, j.bounded or 'not attempted')
        path = '%s/%s-%s.json' % (rdir, pid, ''.join(ch if ch.isalnum() else '_' for ch in j.name))
        if j.name in failing:
            c, a, w = min(failing[j.name], key=lambda x: len(json.dumps(x[0].steps, default=str)))
            doc = {'property': pid, 'job': j.name, 'what': w, 'input': trim(c.steps, 4000), 'answer': trim(a, 4000),
                   'failed_obligations': r['fails'], 'verifier': r['unsupported'],
                   'how': 'steps are calls into package healer through harness/core_test.go.txt; strings and bytes are base64'}
            json.dump(doc, open(path, 'w'), indent=1, default=str)
            viol.append('VIOLATION property=%s replay=%s' % (pid, path))
            print('%s: %s: %s' % (pid, j.name, w[:400]))
        elif r['fails']:
            doc = {'property': pid, 'job': j.name, 'failed_obligations': r['fails'], 'inputs_tried': counts.get(j.name, 0),
                   'note': 'no failing input found by replay; the verifier does not accept the obligations listed'}
            json.dump(doc, open(path, 'w'), indent=1, default=str)
            viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
            for f in r['fails'][:3]:
                print('%s: %s: obligation "%s" (%s line %s): %s' % (pid, j.name, f['obligation'], f['fn'], f['line'], f['detail'][:300]))
        elif r['unsupported'] is not None:
            n = counts.get(j.name, 0)
            undecided.append({'job': j.name, 'reason': r['unsupported'][:300], 'bounded_inputs': n, 'harness': herr.get(j.name)})
            print('note: %s: %s: not proved (%s); %s' % (pid, j.name, r['unsupported'].strip().splitlines()[-1][:160],
                                                        'bounded check of %d inputs passed' % n if n else 'no bounded check available'))
            if not n:
                doc = {'property': pid, 'job': j.name, 'verifier': r['unsupported'], 'harness': herr.get(j.name) or H.error}
                json.dump(doc, open(path, 'w'), indent=1, default=str)
                viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    for k in known:
        if 'property=%s ' % pid in k:
            print('KNOWN-FINDING: ' + k[len('known:'):].strip())
    for v in viol:
        print(v)

    rs = list(results.values())
    mainj = [j for j in present if j.main]
    proved = [j.name for j in mainj if results.get(j.name, {}).get('ok')]
    funcs, trusted = set(), set()
    for r in rs:
        funcs |= set(r['funcs'])
        trusted |= set(r['trusted'])
    bounded = [u for u in undecided if u['bounded_inputs']]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': sum(r['obligations'] for r in rs),
            'discharged': sum(r['discharged'] for r in rs),
            'checker_cmd': 'python3-vt /verif/check.py %s %s' % (pid, tier),
            'trusted_base': ['z3 (python3-vt z3-solver)', 'x/tools/go/ssa', '/verif/engine (symbolic execution of SSA, sequence and loop reasoning)'] + sorted(trusted),
            'contracts_checked': len(mainj), 'contracts_proved': len(proved),
            'contracts_bounded_only': bounded,
            'contracts_skipped_function_absent': [j.name for j in missing],
            'helper_contracts': [j.name for j in present if not j.main and results.get(j.name, {}).get('ok')],
            'functions_under_contract_or_inlined': sorted(funcs),
            'solver': 'z3', 'solver_seconds': round(sum(r['solver_time'] for r in rs), 2), 'solver_queries': sum(r['queries'] for r in rs),
            'concrete_inputs_replayed_on_real_code': ncase,
            'samples': samples,
            'per_contract': [{'name': r['name'], 'obligations': r['obligations'], 'discharged': r['discharged'], 'seconds': round(r['time'], 2),
                              'result': 'proved' if r['ok'] else 'failed' if r['fails'] else 'undecided'} for r in rs],
        },
        'assumptions': ASSUME + list(extra_assume),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    os.makedirs('/verif/evidence', exist_ok=True)
    json.dump(ev, open('/verif/evidence/%s.json' % pid, 'w'), indent=1, default=str)
    print('%s %s: %d contracts, %d proved, %d bounded only; %d/%d obligations; %d concrete inputs; %.0f s' % (
        pid, tier, len(mainj), len(proved), len(bounded), ev['coverage']['discharged'], ev['coverage']['obligations'], ncase, time.time() - t0))
    return 1 if viol else 0


def trim(x, n=600):
    from replay import enc
    s = json.dumps(enc(x), default=str)
    return json.loads(s) if len(s) <= n * 4 else s[:n * 4] + '...'
