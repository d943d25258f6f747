"""C06: a controlled step advances everything or nothing"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp
import absint as A
from absint import is_const, cval
import ctrl, bounds

RULE = ("Each controller (over an opaque error stepper for the Runge-Kutta and Rosenbrock controllers, over the library's own stages for the Bulirsch-Stoer and "
        "Adams ones) is interpreted symbolically for one call of try_step, in every call form, from the fresh controller and after short histories, with symbolic state, time, "
        "step size of either sign and error norm. The paths are partitioned by the tests the code makes; in every cell that returns fail the caller's state, time and derivative "
        "must have their old values and |dt| must have shrunk with its sign kept, and in every cell that returns success the time must be t+dt with the old dt, the state must be the "
        "step's result for the old state, time and dt, and the derivative that is kept or returned must be that of the new state.")

def one(r):
    j = r.j
    out = "out" in j.ov
    vals = [r.res, r.after["X"], r.after["T"], r.after["DT"], r.after["D"], r.after["Y"], r.after["E"],
            r.before["X"], r.before["T"], r.before["DT"], r.before["D"]]
    cs = A.cells(A.ONE, vals, prune=ctrl.prune)
    bad = []
    states = []
    seen = set()
    for cons, v in cs:
        res, X, T, DT, D, Y, E, X0, T0, DT0, D0 = v
        if bounds.Cell(cons).contradictory():
            continue
        where = A.cons_str(cons)
        if not is_const(res) or cval(res) not in (0, 1):
            bad.append("undecided result %s (%s)" % (res, where))
            continue
        if cval(res) == 1:
            seen.add("fail")
            if X is not X0 or T is not T0:
                bad.append("rejected, but state %s -> %s, time %s -> %s (%s)" % (X0, X, T0, T, where))
            if D is not D0:
                bad.append("rejected, but the caller's derivative became %s (%s)" % (D, where))
            iv, q = ctrl.ratio(bounds.Cell(cons), DT, DT0)
            if not (iv.above(0) and iv.below(1)) and not limited(r, cons, DT, DT0):
                bad.append("rejected, but the step size changes by the factor %s in %s (%s)" % (q, iv, where))
        else:
            seen.add("success")
            if T is not A.p_add(T0, DT0):
                bad.append("accepted with time %s, expected %s (%s)" % (T, A.p_add(T0, DT0), where))
            if out and (X is not X0 or D is not D0):
                bad.append("accepted, but the input state or derivative changed: %s, %s (%s)" % (X, D, where))
            y = Y if out else X
            if j.kind in ("rk", "fsal", "ros"):
                given = "derivative" in j.ov
                want = A.app("STEP", X0, D0 if given else ctrl.F(X0, T0), T0, DT0)
                if y is not want:
                    bad.append("accepted with state %s, expected %s (%s)" % (y, want, where))
                if j.kind == "fsal" and given:
                    dn = E if out else D
                    if dn is not ctrl.F(want, A.p_add(T0, DT0)):
                        bad.append("accepted with derivative %s, not that of the new state (%s)" % (dn, where))
            else:
                if j.kind == "bd" and E is not ctrl.F(Y, A.p_add(T0, DT0)):
                    bad.append("accepted with derivative %s, not that of the new state (%s)" % (E, where))
                if not j.pre and "derivative" not in j.ov:
                    states.append(A.stable_str(y))
                if y is X0:
                    bad.append("accepted without a new state (%s)" % where)
    if not set(r.must) <= seen:
        bad.append("possible outcomes are %s, expected %s" % (sorted(seen), r.must))
    return r.label, bad[:3], r.site, sorted(set(states)), len(cs)


def limited(r, cons, DT, DT0):
    """the step was refused because it is longer than the maximal step: the new one is the maximal step"""
    return r.j.md and DT is r.md and ctrl.at_most(cons, DT, DT0, r.sgn, 0)


def fn(c, sgns=(1, -1)):
    same = {}
    for (kind, md, ov, h, sn, sgn), (label, bad, site, states, n) in ctrl.each(c, ["rk", "fsal", "ros", "abm", "bs", "bd"], one, sgns):
        c.count("cells", n)
        c.check(label, not bad, "; ".join(bad), site)
        if states:
            same.setdefault((kind, md, sn, sgn), {})[ov] = states
    for (kind, md, sn, sgn), d in same.items():
        names = sorted(d)
        for n in names[1:]:
            c.check("%s%s, %s, %s: %s gives the state of %s" % (ctrl.NAMES[kind], ", maximal step given" if md else "", sn, "forward" if sgn > 0 else "backward", n, names[0]),
                    d[n] == d[names[0]], "results differ: %s / %s" % (d[n], d[names[0]]))


if __name__ == "__main__":
    sys.exit(vp.main("C06", RULE, fn, 200))
