"""C07: step-size adjustment stays inside its limits"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp
import absint as A
from absint import is_const, cval
import ctrl, bounds
from fractions import Fraction as Fr

RULE = ("One call of try_step of every controller (with its default error checker and step adjuster, over opaque error steppers of the orders the library provides, fresh and after short "
        "histories) is interpreted with a symbolic error norm and step size of either sign. In every cell of the path partition the ratio of the new to the old step size is bounded by "
        "interval arithmetic from the tests of the cell and must lie within the limits of the controller, keep the sign, and, if a maximal step is given, neither the step attempted nor "
        "the one proposed after success may exceed it.")

# factor limits: rejected, accepted (low, high)
LIM = {"rk": ((Fr(1, 5), 1), (Fr(1, 5), 5)), "fsal": ((Fr(1, 5), 1), (Fr(1, 5), 5)), "ros": ((Fr(1, 5), 1), (Fr(1, 5), 6)), "abm": ((Fr(1, 5), 1), (Fr(1, 5), 5))}


def one(r):
    j = r.j
    vals = [r.res, r.after["DT"], r.before["DT"]]
    cs = A.cells(A.ONE, vals, prune=ctrl.prune)
    bad = []
    rng = {}
    for cons, (res, DT, DT0) in cs:
        cell = bounds.Cell(cons)
        if cell.contradictory():
            continue
        where = A.cons_str(cons)
        if not is_const(res):
            bad.append("undecided result %s" % res)
            continue
        ok = cval(res) == 0
        iv, q = ctrl.ratio(cell, DT, DT0)
        if not iv.above(0):
            bad.append("the step size may change its sign: factor %s in %s (%s)" % (q, iv, where))
        too_long = j.md and not ok and DT is r.md and ctrl.at_most(cons, DT, DT0, r.sgn, 0)
        lo, hi = LIM.get(j.kind, ((0, 1), (0, bounds.INF)))[1 if ok else 0]
        if j.kind == "abm" and not j.md and is_const(DT):
            lo = 0          # limited by the default maximal step
        limited = j.md and DT is r.md and ctrl.at_most(cons, DT, r.md, r.sgn)
        if not too_long:
            inside = (iv.below(hi) if not ok else iv.below(hi, strict=False)) and (iv.above(lo * (1 - Fr(1, 10 ** 9)), strict=False) or limited)
            if not inside:
                bad.append("%s step changes the step size by the factor %s in %s, documented limits are %s and %s (%s)" % ("accepted" if ok else "rejected", q, iv, lo, hi, where))
        if not limited:
            k = "accepted" if ok else "rejected"
            rng.setdefault(k, []).append((float(iv.lo), float(iv.hi)))
        if j.md and ok:
            if not ctrl.at_most(cons, DT, r.md, r.sgn):
                bad.append("the step proposed after success, %s, may exceed the maximal step (%s)" % (DT, where))
            if j.kind != "abm" and not ctrl.at_most(cons, DT0, r.md, r.sgn):
                bad.append("a step longer than the maximal step is made (%s)" % where)
    return r.label, bad[:3], r.site, len(cs), {k: (min(a for a, b in v), max(b for a, b in v)) for k, v in rng.items()}


def fn(c, sgns=(1, -1)):
    lims = {}
    for (kind, md, ov, h, sn, sgn), (label, bad, site, n, rng) in ctrl.each(c, ["rk", "fsal", "ros", "abm", "bs", "bd"], one, sgns):
        c.count("cells", n)
        c.check(label, not bad, "; ".join(bad), site)
        for k, (a, b) in rng.items():
            o = lims.setdefault((ctrl.NAMES[kind], k), [a, b])
            o[0], o[1] = min(o[0], a), max(o[1], b)
    for (n, k), (a, b) in sorted(lims.items()):
        c.samples.insert(0, "%s, %s: factor within [%.4g, %.4g]" % (n, k, a, b))


if __name__ == "__main__":
    sys.exit(vp.main("C07", RULE, fn, 200))
