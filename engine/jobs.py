"""Verification jobs: run one function under contract, collect obligations."""
import os
import sys
import time
import traceback
sys.path.insert(0, '/verif/engine')
sys.path.insert(0, '/verif/contracts')
sys.setrecursionlimit(50000)
from machine import *
import machine as MM
import solver
import terms
from seqops import seq_eq
from bycases import by_cases

PROG = None


def prog(path=None):
    global PROG
    if PROG is None:
        PROG = Prog(path or '/verif/build/ssa.json')
    return PROG


class Fail:
    def __init__(self, obligation, detail, fn='', line=0, model=None):
        self.obligation, self.detail, self.fn, self.line, self.model = obligation, detail, fn, line, model

    def as_dict(self):
        return {'obligation': self.obligation, 'detail': self.detail, 'fn': self.fn, 'line': self.line}


class Result:
    def __init__(self, job):
        self.job = job
        self.fails = []
        self.unsupported = None
        self.obligations = 0
        self.discharged = 0
        self.funcs, self.trusted = {}, {}
        self.time = self.solver_time = 0.0
        self.queries = 0
        self.loops = 0
        self.vacuous = False

    @property
    def ok(self):
        return not self.fails and self.unsupported is None


class Ctx:
    """handed to a job body"""
    def __init__(self, res, m):
        self.res, self.m = res, m

    def ob(self, name, ok, detail='', model=None, fn=''):
        self.res.obligations += 1
        if ok:
            self.res.discharged += 1
        else:
            self.res.fails.append(Fail(name, detail, fn, 0, model))

    def cases(self, st, f):
        """run f(st) splitting on undetermined conditions"""
        by_cases(st, f)

    def post(self, name, st, f, fn=''):
        """postcondition: f(st) raises Mismatch when it cannot be proved"""
        try:
            self.cases(st, f)
            self.ob(name, True)
        except Mismatch as e:
            model = None
            self.ob(name, False, e.why, model, fn)


def run_job(name, body, timeout=120):
    res = Result(name)
    t0 = time.time()
    q0, s0 = solver.stats['queries'], solver.stats['time']
    m = Machine(prog(), deadline=t0 + timeout)
    res.machine = m
    solver.DEADLINE[0] = t0 + timeout
    try:
        n = body(Ctx(res, m))
        if n == 0:
            res.vacuous = True
            res.fails.append(Fail('vacuity', 'no execution path reaches the postcondition'))
    except Unsupported as e:
        res.unsupported = str(e)
    except Mismatch as e:
        res.fails.append(Fail('contract of a loop body', e.why))
    except Split as e:
        res.unsupported = 'undetermined condition %r' % (e.cond,)
        if os.environ.get('VDEBUG'):
            traceback.print_exc()
    except solver.TimeUp:
        res.unsupported = 'time limit of %d s' % timeout
    except Infeasible:
        res.unsupported = 'the start state is contradictory'
    except RecursionError:
        res.unsupported = 'recursion'
    except Exception as e:
        res.unsupported = 'engine: ' + ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
    for o in m.obls:
        res.obligations += 1
        if o.ok:
            res.discharged += 1
        else:
            res.fails.append(Fail(o.kind + ' at ' + o.fn, o.detail, o.fn, o.line, o.model))
    res.funcs, res.trusted = m.used, m.trusted
    res.time = time.time() - t0
    res.solver_time = solver.stats['time'] - s0
    res.queries = solver.stats['queries'] - q0
    del res.machine
    return res
