"""C23: a dense-output stepper always describes its last completed step"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, dense

RULE = ("do_step, calc_state and initialize of every dense-output stepper are interpreted on an object in any state (all members symbolic), over opaque inner steppers which may reject any number of times. "
        "The accessors read before the call fix what the object describes; the inner step is followed by ghost variables, and after every call the accessors, the returned interval and the arguments "
        "of the inner interpolation must be those of the step just made. As the start is arbitrary, this holds after every sequence of calls.")


def fn(c):
    c.assumptions.append("the try_step of bulirsch_stoer_dense_out is taken as opaque here (its own contract: C06, C25)")
    dense.check(c, ("C23", "C08"))
    for k, (n, ty) in dense.KINDS.items():
        if k != "ro":
            vp.compiles(c, "%s: interpolating does not need a modifiable object" % n,
                        dense.PRE + "void f(const %s &s, X1 &y) { s.calc_state(0.0, y); s.current_state(); s.current_time(); s.previous_state(); s.previous_time(); s.current_time_step(); }\n" % ty)


if __name__ == "__main__":
    sys.exit(vp.main("C23", RULE, fn, 100))
