"""Case analysis of checks: a check that leaves a condition open is run for both its values; one that fails while conditional values (from a helper whose
branches were merged, for example) are in the state is run again for every value of their conditions, and fails only if one of the cases fails."""
from terms import *
from values import *
import solver
from solver import prove

DEPTH = 4


def conditions(st):
    """conditions of conditional values in the events and the heap, newest first"""
    out, seen = [], set()
    todo = [v for v in st.heap.values()] + [e for e in st.ev]
    while todo:
        v = todo.pop()
        if isinstance(v, (tuple, list)):
            todo.extend(v)
            continue
        if not isinstance(v, (Node, V)):
            p = getattr(v, 'p', None) if type(v).__name__ == 'Arr' else None
            if p:
                todo.extend(p)
            continue
        if id(v) in seen:
            continue
        seen.add(id(v))
        if len(seen) > 20000:
            break
        if isinstance(v, Node):
            if isinstance(v, Lin):
                todo.extend(at for at, _ in v.m)
                continue
            if v.k == 'ite' and not solver.has_bv(v) and v.a[0] not in out:
                out.append(v.a[0])
            todo.extend(x for x in v.a if isinstance(x, (Node, tuple)))
            continue
        if isinstance(v, Ghost):
            continue
        if isinstance(v, (IfaceV, PtrV, SliceV)) and v.nil.k in ('and', 'or', 'not') and not solver.has_bv(v.nil) and v.nil not in out:
            out.append(v.nil)
        for c in type(v).__mro__:
            for s in getattr(c, '__slots__', ()):
                x = getattr(v, s, None)
                if isinstance(x, (Node, V, tuple, list)):
                    todo.append(x)
        d = getattr(v, '__dict__', None)
        if d:
            todo.extend(x for x in d.values() if isinstance(x, (Node, V, tuple, list)))
            for x in d.values():
                if isinstance(x, dict):
                    todo.extend(x.values())
    return out


def by_cases(st, f, limit=300):
    work = [(st, 0, None)]
    n = 0
    while work:
        s, d, cs = work.pop()
        n += 1
        if n > limit:
            raise Unsupported('too many cases')
        try:
            f(s.copy())
            continue
        except Split as sp:
            c, d2 = sp.cond, d
        except Mismatch:
            if d >= DEPTH:
                raise
            if cs is None:
                cs = conditions(s)[:40]
            c = None
            while cs:
                x, cs = cs[0], cs[1:]
                if not prove(s.pc, x) and not prove(s.pc, not_(x)):
                    c = x
                    break
            if c is None:
                raise
            d2 = d + 1
        for x in (c, not_(c)):
            s2 = s.copy()
            s2.assume(x)
            if solver.sat(s2.pc):
                work.append((s2, d2, cs))
