"""property id -> function(Prog) -> list of Job"""
import prims
import requests_ as R
import responses as RS
import errors_ as E
import settings as ST
import broker_ as BR
import assign_ as AS
import batch as BA
import fetch as FE
import producer_ as PD
import routing as RO
import builders as BU
from runner import Job

JOBS = {}


def prop(pid):
    def deco(f):
        JOBS[pid] = f
        return f
    return deco


def helpers(P, versions=None, main=False):
    """contracts of shared helpers, verified in this run before they are used"""
    out = []
    for n, b in prims.JOBS.items():
        out.append(Job('helper ' + n, b, phase=0, key=n, main=main, require=[n]))
    return out


def dechelpers(P):
    return [Job('helper DecodeTaggedFields', prims.DJOBS['DecodeTaggedFields'], phase=0, key='DecodeTaggedFields', main=False, require=['DecodeTaggedFields'])]


def headers(P, main=False):
    out = []
    for r in R.REQ.values():
        for v in r.versions:
            out.append(Job('header length %d/%d' % (r.api, v), prims.header_length_job(r.api, v), phase=1, key=('length', r.api, v), main=False, require=['(*RequestHeader).length']))
            out.append(Job('header EncodeTo %d/%d' % (r.api, v), prims.header_encode_job(r.api, v), phase=1, key=('EncodeTo', r.api, v), main=False, require=['(*RequestHeader).EncodeTo']))
    return out


@prop('C01')
def _(P):
    out = helpers(P) + headers(P)
    for r in R.REQ.values():
        for v0 in r.versions:
            for v1 in r.versions:
                out.append(Job('SetVersion api %d: %d to %d' % (r.api, v0, v1), prims.setversion_job(r.api, v0, v1), require=['(*RequestHeader).SetVersion'],
                               cases=prims.setversion_cases(r.api, v0, v1), fns=['(*RequestHeader).SetVersion', '(*RequestHeader).EncodeTo']))
    return out + R.jobs_for(('C02', 'C03'), ('frame',), P)


@prop('C02')
def _(P):
    return helpers(P) + headers(P) + R.jobs_for(('C02',), ('frame', 'body'), P) + BU.jobs_for('C02')


@prop('C03')
def _(P):
    return helpers(P) + headers(P) + R.jobs_for(('C03',), ('frame', 'body'), P) + BU.jobs_for('C03')


@prop('C16')
def _(P):
    out = []
    for n, b in list(prims.JOBS.items()) + list(prims.DJOBS.items()):
        out.append(Job(n, b, cases=prims.CASES[n], fns=[n]))
    return out


@prop('C04')
def _(P):
    return dechelpers(P) + RS.jobs_for('C04')


@prop('C05')
def _(P):
    return dechelpers(P) + RS.jobs_for('C05')


@prop('C06')
def _(P):
    return E.jobs(P)


@prop('C17')
def _(P):
    return ST.c17(P)


@prop('C18')
def _(P):
    return ST.c18(P)


@prop('C11')
def _(P):
    return BR.c11(P)


@prop('C13')
def _(P):
    return BR.c13(P)


@prop('C10')
def _(P):
    return AS.c10(P)


@prop('C07')
def _(P):
    return BA.c07(P)


@prop('C08')
def _(P):
    return FE.c08(P)


@prop('C12')
def _(P):
    return PD.c12(P)


@prop('C14')
def _(P):
    return RO.c14(P)


@prop('C09')
def _(P):
    import consumer_ as CO
    return CO.c09(P)


@prop('C15')
def _(P):
    import group_ as GR
    return GR.c15(P)
