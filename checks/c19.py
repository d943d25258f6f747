"""C19: ODE iterators visit the solution points of the integrate functions"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, integ, iters

RULE = ("The const-step, adaptive, n-step and times iterators, delivering states or pairs of state and time, are instantiated for opaque steppers of the categories they accept, made by the range and by the "
        "begin/end functions, with stepper and system by value, boost::ref and std::ref, copied, and run to the end by a loop over symbolic intervals, step sizes, numbers of steps and sequences of times in both directions. "
        "A controlled stepper succeeds or fails at will and proposes any step size; a dense-output stepper may stop anywhere short of the step attempted. Ghost variables follow the solution, "
        "loops are summarised by inferred invariants, and the obligations at each dereference and each call of the stepper hold in every iteration.")


def fn(c):
    c.assumptions += ["requested times are strictly ordered", "the step size is at least 2^-20 (times closer than the resolution of the comparison count as equal)", "real arithmetic",
                      "the step size a controlled stepper proposes after a failure is smaller (C06)"]
    js = iters.jobs()
    if vp.TIER == "quick":
        js = [j for j in js if j.ref != 2]
    integ.check(c, [(j, s) for j in js for s in (1, -1)], ("C10", "C11", "C12", "C15"), iters.ItMon, iters.witness)


if __name__ == "__main__":
    sys.exit(vp.main("C19", RULE, fn, 200))
