"""C12: no stepping loop can retry or run on for ever without progress"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, integ, dense, retry, iters

RULE = ("Integrate functions over controlled steppers and with a max_step_checker, and do_step of the dense-output steppers (on objects in any state) and initialize_controlled, are interpreted over opaque "
        "steppers that succeed or fail at will. A ghost counter of consecutive failures (of steps since the last observation) is related to the code's own counters by inferred loop invariants: no attempt is "
        "made after more than 500 failures (1000 for ODE iterators), no step beyond the number permitted, and the exceptions are raised with a full counter only. The exception types are checked by the type checker.")


def fn(c):
    c.assumptions += ["requested times are strictly ordered", "the step size is at least 2^-20"]
    integ.check(c, [(j, s) for j in integ.jobs(vp.TIER) if j.chk or j.cat == "ctrl" for s in (1, -1)], ("C12",))
    integ.check(c, [(j, s) for j in iters.jobs() if j.cat == "ctrl" and not j.ref for s in (1, -1)], ("C12",), iters.ItMon, iters.witness)
    dense.check(c, ("C12",), [j for j in dense.jobs() if j[0] != "eu"])
    retry.check(c)
    for e in ("no_progress_error", "step_adjustment_error"):
        vp.compiles(c, "%s is an odeint_error" % e, "#include <type_traits>\n#include <boost/numeric/odeint/util/odeint_error.hpp>\nnamespace o = boost::numeric::odeint;\n"
                    "static_assert(std::is_base_of<o::odeint_error, o::%s>::value && std::is_convertible<o::%s*, o::odeint_error*>::value, \"\");\n"
                    "static_assert(std::is_convertible<o::odeint_error*, std::runtime_error*>::value, \"\");\n" % (e, e), "odeint/util/odeint_error.hpp")


if __name__ == "__main__":
    sys.exit(vp.main("C12", RULE, fn, 60))
