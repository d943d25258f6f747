"""C09: stepping backwards mirrors stepping forwards"""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, integ, iters, ctrl, bounds
import absint as A
from absint import is_const, cval

ONLY = os.environ.get("VP_ONLY")
RULE = ("Every integrate function is instantiated for opaque steppers of the three categories (plain, controlled, dense output), with and without observer, by value, by boost::ref and std::ref, "
        "with and without step checker, and interpreted over symbolic start time, end time, step size, number of steps and time points; a controlled stepper succeeds or fails at will and proposes "
        "any step size, a dense-output stepper may stop anywhere short of the step attempted. Ghost variables follow the current state and time, the last interval, the numbers of steps and observations. "
        "Loops are summarised by inferred invariants (induction variables, affine relations, sign templates), so the obligations at each call of the observer and stepper hold in every iteration. "
        "The ODE iterators and try_step of the controllers (see C06, C07, C19) likewise. "
        "Backward direction: start and end time, time points and step sizes all mirrored; the obligations are those of C06, C07, C10 to C12 and C19. "
        "In addition each controller call is interpreted twice, once forward and once for the mirrored problem x'(-t) from -t with step -dt, under the same scripts of error norms: "
        "result, new state, time, step size and the errors measured must mirror each other in every cell.")


def zero(v, what, guard=None):
    """cells in which a difference is not zero"""
    if v is A.ZERO:
        return []
    bad = []
    for cons, (p,) in A.cells(A.ONE if guard is None else guard, [v], prune=ctrl.prune):
        if p is A.ZERO or bounds.Cell(cons).contradictory() or (ctrl.at_most(cons, p, A.ZERO, 1) and ctrl.at_most(cons, p, A.ZERO, -1)):
            continue
        bad.append("%s by %s (%s)" % (what, p, A.cons_str(cons)))
    return bad[:2]


def mirror(r):
    """the same call seen backward in time: x'(-t) from -t with step -dt"""
    b = r.again()
    bad = []
    for n, what, sg in (("R", "the results differ", -1), ("T", "the times are not mirrored, off", 1), ("DT", "the new step sizes are not mirrored, off", 1), ("X", "the states differ", -1), ("Y", "the output states differ", -1),
                        ("D", "the derivatives are not mirrored, off", 1), ("E", "the output derivatives are not mirrored, off", 1)):
        f, g = (r.res, b.res) if n == "R" else (r.after[n], b.after[n])
        bad += zero(A.op_add(f, g) if sg > 0 else A.op_sub(f, g), what)
    nf, nb = ([e.info["v"] for e in q.events if e.name == "vp_norm"] for q in (r, b))
    if len(nf) != len(nb):
        bad.append("%d error norms forward, %d backward" % (len(nf), len(nb)))
    else:
        for i, (p, q) in enumerate(zip(nf, nb)):
            if p is not q and A.op_neg(p) is not q:
                bad += zero(A.op_sub(A.op_fabs(p), A.op_fabs(q)), "the weighted error in norm %d differs" % (i + 1))
    return r.label.replace("; forward", "; mirrored"), bad[:3], b.site, 1


def fn(c):
    for key, (label, bad, site, n) in ctrl.each(c, ["rk", "fsal", "ros", "abm", "bs", "bd"], mirror, (1,)):
        c.check(label, not bad, "; ".join(bad), site)
    if ONLY == "mirror":
        return
    c.assumptions += ["requested times are strictly ordered", "the step size is at least 2^-20 (times closer than the resolution of the comparison count as equal)", "real arithmetic"]
    integ.check(c, [(j, -1) for j in integ.jobs(vp.TIER)], ("C10", "C11", "C12", "C15"))
    integ.check(c, [(j, -1) for j in iters.jobs() if not j.ref], ("C10", "C11", "C12"), iters.ItMon, iters.witness)
    for n in ("c06", "c07"):
        importlib.import_module(n).fn(c, (-1,))


if __name__ == "__main__":
    sys.exit(vp.main("C09", RULE, fn, 200))
