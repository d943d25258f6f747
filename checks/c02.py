"""C02: continuous extensions: end points, polynomial in theta, continuous order conditions."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, rk, cont, ros
import absint as A
from absint import const, is_const, cval
from fractions import Fraction as Fr
from interp import Interp
from rkset import sys_handler, sym, inc

RULE = ("The continuous extension of euler, runge_kutta_dopri5 and rosenbrock4 is evaluated by value-number dataflow at t_old + theta*dt for a step of "
        "symbolic start, length and sign, both through the stepper's calc_state and through the dense-output stepper after one and two steps. The normal form must be "
        "x_old + dt*sum b_i(theta) K_i with polynomial b_i that satisfy every continuous order condition up to the documented order (1, 4, 3) and "
        "must equal the old and the new state at theta = 0 and 1.")
XA = "X1,double,X1,double,array_algebra"
PRE = "#include <vp.hpp>\n#include <boost/numeric/odeint/algebra/array_algebra.hpp>\n%s\nusing namespace boost::numeric::odeint;\n"
POLICY = """
struct EC { typedef double value_type; typedef array_algebra algebra_type; typedef default_operations operations_type;
  template<class... A> double error(A&&...) const { return 0.5; } };
typedef default_step_adjuster<double,double> SA;
"""


def witness():
    s = PRE % inc("stepper/euler", "stepper/runge_kutta_dopri5", "stepper/dense_output_runge_kutta", "stepper/controlled_runge_kutta") + POLICY
    s += "typedef euler<%s> Eu; typedef runge_kutta_dopri5<%s> Do;\n" % (XA, XA)
    s += "typedef dense_output_runge_kutta<Eu> DEu; typedef dense_output_runge_kutta<controlled_runge_kutta<Do,EC,SA> > DDo;\n"
    s += "VP_W w_dopri_direct(X1 &x, X1 &y, X1 &d, X1 &dn, X1 &o, double t, double dt, double th) { Do s; SysX()(x,d,t); s.do_step(SysX(), x, d, t, y, dn, dt); s.calc_state(t+th*dt, o, x, d, t, y, dn, t+dt); }\n"
    s += "VP_W w_euler_direct(X1 &x, X1 &y, X1 &d, X1 &dn, X1 &o, double t, double dt, double th) { Eu s; s.do_step(SysX(), x, t, y, dt); s.calc_state(o, t+th*dt, x, t, y, t+dt); }\n"
    for n, ty in (("euler", "DEu"), ("dopri", "DDo")):
        s += "VP_W w_%s_dense1(X1 &x, X1 &y, X1 &d, X1 &dn, X1 &o, double t, double dt, double th) { %s s; s.initialize(x,t,dt); s.do_step(SysX()); y = s.current_state(); s.calc_state(t+th*dt, o); }\n" % (n, ty)
        s += "VP_W w_%s_dense2(X1 &x, X1 &y, X1 &d, X1 &dn, X1 &o, double t, double dt, double th) { %s s; s.initialize(d,t-dt,dt); s.do_step(SysX()); x = s.current_state(); s.do_step(SysX()); y = s.current_state(); s.calc_state(t+th*dt, o); }\n" % (n, ty)
        s += "VP_W w_%s_dense3(X1 &x, X1 &y, X1 &d, X1 &dn, X1 &o, double t, double dt, double th) { %s s; s.initialize(d,t-dt,dt); s.do_step(SysX()); s.initialize(x,t,dt); s.do_step(SysX()); y = s.current_state(); s.calc_state(t+th*dt, o); }\n" % (n, ty)
        s += "VP_W w_%s_copy(X1 &x, X1 &y, X1 &d, X1 &dn, X1 &o, double t, double dt, double th) { %s s0; s0.initialize(x,t,dt); s0.do_step(SysX()); %s s(s0); y = s.current_state(); s.calc_state(t+th*dt, o); }\n" % (n, ty, ty)
    return s


ORDER = {"euler": 1, "dopri": 4}


def same_at(v, th, val, want):
    return A.approx_equal(A.subst(v, {th: const(val)}), want)


def run(c):
    m, mr = vp.build_many([(witness(), "c02", ()), (ros.witness_dense(), "c02r", ros.FLAGS)])
    for q in (m, mr):
        if isinstance(q, Exception):
            raise q
    c.analysed(m)
    for n in ("euler", "dopri"):
        for form in ("direct", "dense1", "dense2", "dense3", "copy"):
            explicit(c, m, n, form)
    c.analysed(mr)
    rosen(c, mr)


def explicit(c, m, n, form):
    it = Interp(m, {"vp_sys": sys_handler})
    it.loopstack = []
    B = {k: Interp.base(k.upper()) for k in ("x", "y", "d", "dn", "o")}
    for k in ("x", "d", "dn", "o"):
        it.store(B[k], sym(k))
    t, dt, th = sym("t"), sym("dt"), sym("theta")
    thid = A.poly_atoms(th).__iter__().__next__()
    it.run("w_%s_%s" % (n, form), [B[k] for k in ("x", "y", "d", "dn", "o")] + [t, dt, th])
    c.analysed(m, "%s %s" % (n, form), it)
    name = "%s %s" % ({"euler": "euler", "dopri": "runge_kutta_dopri5"}[n],
                      {"direct": "calc_state", "dense1": "dense output, first step", "dense2": "dense output, second step",
                       "dense3": "dense output, after re-initialisation", "copy": "dense output, copied stepper"}[form])
    site = next((e.where() for e in reversed(it.events) if e.name == "vp_sys"), "?")
    x = it.load(B["x"])
    y = it.load(B["y"])
    o = it.load(B["o"])
    for cons, v in A.cells(A.ONE, [o]):
        v = v[0]
        at = " [%s]" % A.cons_str(cons) if cons else ""
        one_cell(c, name, site, at, cons, v, x, y, t, dt, th, thid, ORDER[n])


def one_cell(c, name, site, at, cons, v, x, y, t, dt, th, thid, order):
    single = None
    for var, s in cons.items():
        if var.kind == "sgn" and s == 1 and thid in A.poly_atoms(var.obj):
            single = var.obj
    if single is not None:
        # dt*(theta - k) == 0
        for k, want, nm in ((0, x, "old"), (1, y, "new")):
            if A.subst(single, {thid: const(k)}) == A.ZERO:
                c.check("%s: %s state at theta=%d%s" % (name, nm, k, at), A.approx_equal(A.subst(v, {thid: const(k)}), want), repr(v), site)
                return
        c.check("%s: no special case inside the step%s" % (name, at), False, "a branch on %r" % (single,), site)
        return
    c.check("%s: old state at theta=0%s" % (name, at), same_at(v, thid, 0, x), "%r\n  expected %r" % (A.subst(v, {thid: const(0)}), x), site)
    c.check("%s: new state at theta=1%s" % (name, at), same_at(v, thid, 1, y), "%r\n  expected %r" % (A.subst(v, {thid: const(1)}), y), site)
    T = rk.Tableau(x, t, dt)
    try:
        T.linear(y)
        b = T.linear(v)
        a, cc = T.numeric()
    except rk.NotRK as e:
        c.check("%s: combination of the step's derivatives%s" % (name, at), False, str(e), site)
        return
    bp = {}
    for i, q in b.items():
        bp[i] = cont.numeric_poly(q, thid)
        if bp[i] is None:
            c.check("%s: weights are polynomials in theta%s" % (name, at), False, "weight %r" % (q,), site)
            return
    c.check("%s: weights are polynomials in theta%s" % (name, at), True)
    memo = {}
    bad, nn = cont.continuous_defects(rk.trees, rk.gamma, rk.size, lambda tr: rk.elementary(a, tr, memo), bp, order)
    c.count("continuous_order_conditions", nn)
    c.check("%s: %d continuous order conditions up to order %d%s" % (name, nn, order, at), not bad,
            "; ".join("order %d tree %s: residual %s" % (q, rk.tree_str(tr), {d: float(z) for d, z in w.items()}) for q, tr, w in bad[:3]), site)


def rosen(c, m):
    for form in ros.DENSE_FORMS:
        r = ros.analyse_dense(m, form, c)
        name = "rosenbrock4 " + form
        for i in (0, 1):
            v, x, y, thid = r["out"][i], r["x"][i], r["y"][i], r["th"]
            c.check("%s: old state at theta=0 (component %d)" % (name, i), same_at(v, thid, 0, x), "%r" % (v,), r["site"])
            c.check("%s: new state at theta=1 (component %d)" % (name, i), same_at(v, thid, 1, y), "%r" % (v,), r["site"])
            bad, nn, msg = ros.continuous(r, i, 3)
            c.count("continuous_order_conditions", nn)
            c.check("%s: %d continuous order conditions up to order 3 (component %d)" % (name, nn, i), not bad and not msg,
                    msg or "; ".join("order %d tree %s: residual %s" % (q, rk.tree_str(tr), {d: float(z) for d, z in w.items()}) for q, tr, w in bad[:3]), r["site"])


if __name__ == "__main__":
    sys.exit(vp.main("C02", RULE, run, minimum=40))
