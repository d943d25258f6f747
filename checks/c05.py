"""C05: all call forms of do_step give the same value numbers and write only documented outputs."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp
import absint as A
from interp import Interp, changed
from rkset import sys_handler, sym, inc

RULE = ("For every explicit one-step, multistep and extrapolation stepper a witness performs the same step through each call form "
        "(in place, out of place, derivative supplied, error returning, and with input and output aliased) from the same stepper history. "
        "Value-number dataflow gives the output of each form as a term over the opaque right-hand side; all forms must give the same term, and the "
        "set of caller-visible memory cells whose value number changed must be exactly the documented outputs.")

XA = "X1,double,X1,double,array_algebra"
PRE = "#include <vp.hpp>\n#include <boost/numeric/odeint/algebra/array_algebra.hpp>\n%s\nusing namespace boost::numeric::odeint;\n"

# form: (name, code, outputs {arg: quantity})
BASIC = [
    ("in-place", "s.do_step(SysX(), x, t, dt);", {"x": "x"}),
    ("out-of-place", "s.do_step(SysX(), x, t, y, dt);", {"y": "x"}),
    ("out-of-place, in and out aliased", "s.do_step(SysX(), x, t, x, dt);", {"x": "x"}),
]
DERIV = [
    ("derivative supplied", "SysX()(x, d, t); vp_mark(1); s.do_step(SysX(), x, d, t, dt);", {"x": "x"}),
    ("derivative supplied, out-of-place", "SysX()(x, d, t); vp_mark(1); s.do_step(SysX(), x, d, t, y, dt);", {"y": "x"}),
    ("derivative supplied, in and out aliased", "SysX()(x, d, t); vp_mark(1); s.do_step(SysX(), x, d, t, x, dt);", {"x": "x"}),
]
ERR = [
    ("error", "s.do_step(SysX(), x, t, dt, e);", {"x": "x", "e": "e"}),
    ("error, out-of-place", "s.do_step(SysX(), x, t, y, dt, e);", {"y": "x", "e": "e"}),
    ("error, in and out aliased", "s.do_step(SysX(), x, t, x, dt, e);", {"x": "x", "e": "e"}),
]
ERRD = [
    ("error, derivative supplied", "SysX()(x, d, t); vp_mark(1); s.do_step(SysX(), x, d, t, dt, e);", {"x": "x", "e": "e"}),
    ("error, derivative supplied, out-of-place", "SysX()(x, d, t); vp_mark(1); s.do_step(SysX(), x, d, t, y, dt, e);", {"y": "x", "e": "e"}),
]
FSAL = [
    ("fsal derivative supplied", "SysX()(x, d, t); vp_mark(1); s.do_step(SysX(), x, d, t, dt);", {"x": "x", "d": "d"}),
    ("fsal derivative supplied, out-of-place", "SysX()(x, d, t); vp_mark(1); s.do_step(SysX(), x, d, t, y, dn, dt);", {"y": "x", "dn": "d"}),
    ("fsal derivative supplied, aliased", "SysX()(x, d, t); vp_mark(1); s.do_step(SysX(), x, d, t, x, d, dt);", {"x": "x", "d": "d"}),
    ("fsal error, derivative supplied", "SysX()(x, d, t); vp_mark(1); s.do_step(SysX(), x, d, t, dt, e);", {"x": "x", "d": "d", "e": "e"}),
    ("fsal error, derivative supplied, out-of-place", "SysX()(x, d, t); vp_mark(1); s.do_step(SysX(), x, d, t, y, dn, dt, e);", {"y": "x", "dn": "d", "e": "e"}),
]
PREP1 = "s.do_step(SysX(), x, t - dt, dt);"


def steppers():
    L = []
    for n in ("euler", "runge_kutta4", "runge_kutta4_classic"):
        L.append((n, ("stepper/" + n,), "%s<%s>" % (n, XA), BASIC + DERIV, ["", PREP1]))
    L.append(("modified_midpoint", ("stepper/modified_midpoint",), "modified_midpoint<%s>" % XA, BASIC + DERIV, ["", PREP1]))
    for n in ("runge_kutta_cash_karp54", "runge_kutta_cash_karp54_classic", "runge_kutta_fehlberg78"):
        L.append((n, ("stepper/" + n,), "%s<%s>" % (n, XA), BASIC + DERIV + ERR + ERRD, ["", PREP1]))
    L.append(("extrapolation_stepper<4>", ("stepper/extrapolation_stepper",), "extrapolation_stepper<4,%s>" % XA, BASIC + DERIV + ERR + ERRD, ["", PREP1]))
    L.append(("extrapolation_stepper<8>", ("stepper/extrapolation_stepper",), "extrapolation_stepper<8,%s>" % XA, BASIC + DERIV + ERR[:2] + ERRD[:1], [""]))
    L.append(("runge_kutta_dopri5", ("stepper/runge_kutta_dopri5",), "runge_kutta_dopri5<%s>" % XA, BASIC + ERR + FSAL, ["", PREP1]))
    for k in range(1, 9):
        preps = ["", PREP1] if k < 4 else [""]
        full = " ".join("s.do_step(SysX(), x, t - %d*dt, dt);" % (k + 1 - i) for i in range(k + 1))
        L.append(("adams_bashforth<%d>" % k, ("stepper/adams_bashforth",), "adams_bashforth<%d,%s,default_operations,initially_resizer,euler<%s> >" % (k, XA, XA),
                  BASIC, [""] + ([full] if k > 0 else []), ("stepper/euler",)))
        if k <= 4:
            L.append(("adams_bashforth_moulton<%d>" % k, ("stepper/adams_bashforth_moulton",),
                      "adams_bashforth_moulton<%d,%s,default_operations,initially_resizer,euler<%s> >" % (k, XA, XA), BASIC, ["", full], ("stepper/euler",)))
    return L


def witness(entry):
    name, hs, ty, forms, preps = entry[:5]
    s = PRE % inc(*(list(hs) + list(entry[5] if len(entry) > 5 else [])))
    s += "typedef %s St;\n" % ty
    for pi, p in enumerate(preps):
        for fi, (fn, code, outs) in enumerate(forms):
            s += "VP_W w_%d_%d(X1 &x, X1 &y, X1 &d, X1 &dn, X1 &e, double t, double dt) { St s; %s vp_mark(0); %s }\n" % (pi, fi, p, code)
    return s


ARGS = ["x", "y", "d", "dn", "e"]


def mark(it, ev, args):
    it.emit(ev)


def run(c):
    L = steppers()
    mods = vp.build_many([(witness(e), "c05_%d" % i, ()) for i, e in enumerate(L)])
    for e, m in zip(L, mods):
        if isinstance(m, Exception):
            raise m
        one(c, e, m)


def one(c, e, m):
    import time; t0 = time.time()
    try:
        one_(c, e, m)
    finally:
        if os.environ.get('VP_TIME'):
            print('  %-40s %.1fs' % (e[0], time.time() - t0), flush=True)


def one_(c, e, m):
    name, hs, ty, forms, preps = e[:5]
    c.analysed(m)
    for pi, p in enumerate(preps):
        ref = {}
        for fi, (fn, code, outs) in enumerate(forms):
            it = Interp(m, {"vp_sys": sys_handler, "vp_mark": mark})
            it.loopstack = []
            bases = {}
            for a in ARGS:
                bases[a] = Interp.base(a.upper())
                it.store(bases[a], sym(a))
            t, dt = sym("t"), sym("dt")
            it.run("w_%d_%d" % (pi, fi), [bases[a] for a in ARGS] + [t, dt])
            c.analysed(m, "%s:%d:%s" % (name, pi, fn), it)
            mk = [ev for ev in it.events if ev.name == "vp_mark"][-1]
            inst = "%s %s (%s)" % (name, fn, "first step" if not p else "after %d steps" % p.count("do_step"))
            site = next((ev.where() for ev in reversed(it.events) if ev.name == "vp_sys"), "?")
            for a, q in outs.items():
                v = it.load(bases[a])
                if q not in ref:
                    ref[q] = (fn, v)
                    continue
                same = A.approx_equal(v, ref[q][1])
                c.check(inst + ": same %s as %s" % ({"x": "state", "e": "error", "d": "derivative"}[q], ref[q][0]), same,
                        "%s\n  versus\n%s" % (v, ref[q][1]), site)
            ch = changed(it, it.freeze(), mk.mem)
            bad = []
            for b, o, v0, v1 in ch:
                a = str(b.name).lower()
                if a not in outs:
                    bad.append("%s[%s]: %r -> %r" % (a, o, v0, v1))
            c.check(inst + ": writes only its outputs", not bad, "; ".join(bad), site)


if __name__ == "__main__":
    sys.exit(vp.main("C05", RULE, run, minimum=150))
