#!/bin/bash
# (debugging) all request jobs, in parallel
cd /verif; . /opt/vp/env.sh; build/ssadump /repo . build/ssa.json
T=${T:-120}
export T
cat ${1:-/tmp/reqs} | xargs -P8 -I{} sh -c 'timeout $T python3-vt engine/t2.py {} > /tmp/t2_{}.out 2>&1 || echo "{} TIMEOUT/ERR $?" >> /tmp/t2_{}.out'; for r in $(cat ${1:-/tmp/reqs}); do cut -c1-200 /tmp/t2_$r.out | head -14; done
