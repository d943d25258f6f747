"""C11: integrate functions end where documented and never step past the end"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, integ

RULE = ("Every integrate function is instantiated for opaque steppers of the three categories (plain, controlled, dense output), with and without observer, by value, by boost::ref and std::ref, "
        "with and without step checker, and interpreted over symbolic start time, end time, step size, number of steps and time points; a controlled stepper succeeds or fails at will and proposes "
        "any step size, a dense-output stepper may stop anywhere short of the step attempted. Ghost variables follow the current state and time, the last interval, the numbers of steps and observations. "
        "Loops are summarised by inferred invariants (induction variables, affine relations, sign templates), so the obligations at each call of the observer and stepper hold in every iteration. "
        "Forward direction (the backward one is C09).")


def fn(c):
    c.assumptions += ["requested times are strictly ordered", "the step size is at least 2^-20 (times closer than the resolution of the comparison count as equal)", "real arithmetic"]
    integ.check(c, [(j, 1) for j in integ.jobs(vp.TIER)], ("C11",))


if __name__ == "__main__":
    sys.exit(vp.main("C11", RULE, fn, 200))
