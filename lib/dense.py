"""dense-output steppers over opaque inner steppers: one do_step from an arbitrary object state, ghost monitor and obligations"""
import vp, bounds
import absint as A
from absint import const, is_const, cval, op_add, op_sub, ONE, ZERO
from interp import Interp
from rkset import sym, inc
import integ

PRE = """#include <vp.hpp>
#include <utility>
%s
using namespace boost::numeric::odeint;
extern "C" {
bool vp_try(const double *x, const double *d, double *t, double *y, double *dy, double *dt) noexcept;
void vp_do(const double *x, double t, double *y, double dt) noexcept;
void vp_prep(void) noexcept;
void vp_calc(double t, double *o, const double *x, const double *d, double t0, const double *y, const double *dy, double t1) noexcept;
void vp_cur(int k, const double *x, double t, const double *xo, double to, double dt) noexcept;
void vp_pair(double a, double b) noexcept;
void vp_have(const double *o) noexcept;
}
struct Base { typedef X1 state_type; typedef double value_type; typedef X1 deriv_type; typedef double time_type; typedef unsigned short order_type;
  typedef array_algebra algebra_type; typedef default_operations operations_type; typedef initially_resizer resizer_type; typedef state_wrapper<X1> wrapped_state_type; typedef state_wrapper<X1> wrapped_deriv_type; };
struct EU : Base { typedef stepper_tag stepper_category;
  template<class S> void do_step(S s, const X1 &x, double t, X1 &y, double dt) { vp_do(&x[0], t, &y[0], dt); }
  template<class O> void calc_state(O &o, double t, const X1 &x, double t0, const X1 &y, double t1) const { vp_calc(t, const_cast<double*>(&o[0]), &x[0], 0, t0, &y[0], 0, t1); } };
struct DP : Base { typedef explicit_error_stepper_fsal_tag stepper_category;
  template<class O> void calc_state(double t, O &o, const X1 &x, const X1 &d, double t0, const X1 &y, const X1 &dy, double t1) const { vp_calc(t, const_cast<double*>(&o[0]), &x[0], &d[0], t0, &y[0], &dy[0], t1); } };
struct CD : Base { typedef DP stepper_type; typedef explicit_controlled_stepper_fsal_tag stepper_category; DP s; DP &stepper() { return s; } const DP &stepper() const { return s; }
  template<class S> controlled_step_result try_step(S, const X1 &x, const X1 &d, double &t, X1 &y, X1 &dy, double &dt) { return vp_try(&x[0], &d[0], &t, &y[0], &dy[0], &dt) ? success : fail; } };
struct RS : Base { typedef stepper_tag stepper_category; void prepare_dense_output() { vp_prep(); }
  template<class O> void calc_state(double t, O &o, const X1 &x, double t0, const X1 &y, double t1) { vp_calc(t, const_cast<double*>(&o[0]), &x[0], 0, t0, &y[0], 0, t1); } };
struct CR : Base { typedef RS stepper_type; typedef controlled_stepper_tag stepper_category; RS s; RS &stepper() { return s; } const RS &stepper() const { return s; }
  template<class S> controlled_step_result try_step(S, const X1 &x, double &t, X1 &y, double &dt) { return vp_try(&x[0], 0, &t, &y[0], 0, &dt) ? success : fail; } };
template<class S> inline void cur(int k, const S &s) { vp_cur(k, &s.current_state()[0], s.current_time(), &s.previous_state()[0], s.previous_time(), s.current_time_step()); }
""" % inc("util/unwrap_reference", "algebra/array_algebra", "algebra/default_operations", "util/state_wrapper", "stepper/dense_output_runge_kutta", "stepper/rosenbrock4_dense_output", "stepper/bulirsch_stoer_dense_out")

KINDS = {"eu": ("dense_output_runge_kutta (plain stepper)", "dense_output_runge_kutta<EU>"), "dp": ("dense_output_runge_kutta (controlled stepper)", "dense_output_runge_kutta<CD>"),
         "ro": ("rosenbrock4_dense_output", "rosenbrock4_dense_output<CR>"), "bd": ("bulirsch_stoer_dense_out", "bulirsch_stoer_dense_out<X1,double,X1,double,array_algebra>")}
FORMS = {"out": "s.calc_state(tq, y);", "const": "s.calc_state(tq, (const X1&)y);"}
OPAQUE = ("::try_step<SysX, boost",)


def witness():
    s = PRE
    for k, (n, ty) in KINDS.items():
        for f, call in FORMS.items():
            if k == "bd":
                call = ""
                if f != "out":
                    continue
            arg = "(%s &s, X1 &x1, double t1, double dt1, double tq, X1 &y)" % ty
            step = "p = s.do_step(SysX()); cur(%d, s); vp_pair(p.first, p.second); " + call + " vp_have(&y[0]); cur(2, s);"
            s += "VP_W w_%s_%s%s { std::pair<double, double> p; cur(0, s); %s %s }\n" % (k, f, arg, step % 1, step % 3)
            s += "VP_W w_%s_%s_init%s { std::pair<double, double> p; s.initialize(x1, t1, dt1); cur(10, s); %s %s }\n" % (k, f, arg, step % 11, "" if k == "bd" else step % 12)
            # (a fresh object)
    s += "template<class S> void fresh(S &s, X1 &x1, double t1, double dt1) { s.initialize(x1, t1, dt1); cur(10, s); std::pair<double, double> p = s.do_step(SysX()); cur(11, s); vp_pair(p.first, p.second); p = s.do_step(SysX()); cur(12, s); vp_pair(p.first, p.second); }\n"
    for k, (n, ty) in KINDS.items():
        s += "VP_W w_%s_fresh(X1 &x1, double t1, double dt1) { %s s; fresh(s, x1, t1, dt1); }\n" % (k, ty)
    return s


OFF = {f: 8 * i for i, f in enumerate(("x", "t", "dt", "d", "dk", "xo", "to", "do", "f", "fp", "r", "p", "k", "lf"))}
INTS = ("dk", "f", "fp", "r", "p", "k", "lf")


class Mon(integ.Mon):
    def __init__(self, kind, form):
        self.kind, self.form, self.sgn = kind, form, 1
        self.G = Interp.base("GHOST")
        self.obl = []

    def g(self, f):
        return self.it.load(op_add(self.G, const(OFF[f])), 8, "i64" if f in INTS else "f64")

    def set(self, f, v):
        self.it.store(op_add(self.G, const(OFF[f])), v, 8, "i64" if f in INTS else "f64")

    def label(self):
        return KINDS[self.kind][0] + (", fresh object" if self.form == "fresh" else ", initialised again" if "init" in self.form else ", any object state")

    def run(self, m):
        it = Interp(m, {"vp_cur": self.h_cur, "vp_pair": self.h_pair, "vp_have": self.h_have, "vp_do": self.h_do, "vp_try": self.h_try, "vp_prep": self.h_prep,
                        "vp_calc": self.h_calc, "vp_sys": self.h_sys, "raise": self.h_raise, OPAQUE[0]: lambda it, ev, a: self.h_try(it, ev, a[-6:])})
        it.loopstack = []
        it.deco = it.doom = True
        A.INTEGRAL[0] = True
        A._sgcache.clear()
        A.SORTED.clear()
        A.SCALERS[:] = []
        it.itemplates = [const(500)]
        it.templates = []
        self.it = it
        self.common = set()
        B = {b: Interp.base(b) for b in ("S", "X1", "Y")}
        self.x1, self.t1, self.dt1, self.tq = sym("x1"), sym("t1"), sym("dt1"), sym("tq")
        it.store(B["X1"], self.x1)
        for f in OFF:
            self.set(f, const(0))
        args = [B["X1"], self.t1, self.dt1]
        it.run("w_%s_%s" % (self.kind, self.form), args if self.form == "fresh" else [B["S"]] + args + [self.tq, B["Y"]])
        return self

    def h_cur(self, it, ev, args):
        k, px, t, pxo, to, dt = args
        k = int(cval(k))
        x, xo = it.load(px), it.load(pxo)
        if k in (0, 10):
            self.arb = k == 0
        if k == 0:
            self.set("dk", const(0))
        elif k == 10:
            for n, a, b in (("state", x, self.x1), ("time", t, self.t1), ("step size", dt, self.dt1)):
                self.same(ev, "C23", "after initialize the current %s is the one given" % n, a, b)
            self.set("dk", const(0))
        if k in (0, 10):
            for f, v in (("x", x), ("t", t), ("dt", dt), ("xo", xo), ("to", to)):
                self.set(f, v)
        else:
            w = "calc_state leaves the %s as it is" if k == 2 else "after do_step the %s is that of the step just made"
            for n, a, f in (("current state", x, "x"), ("current time", t, "t"), ("previous state", xo, "xo"), ("previous time", to, "to")):
                self.same(ev, "C23", w % n, a, self.g(f))
            self.same(ev, "C23", "calc_state leaves the step size as it is" if k == 2 else "after do_step the step size is the one to be used next", dt, self.g("dt"))
        self.set("k", const(0))
        it.emit(ev)

    def h_pair(self, it, ev, args):
        self.same(ev, "C23", "the returned interval begins where the step began", args[0], self.g("to"))
        self.same(ev, "C23", "the returned interval ends at the current time", args[1], self.g("t"))
        it.emit(ev)

    def interp(self, t):
        return A.app("INTERP", t, self.g("xo"), self.g("to"), self.g("x"), self.g("t"))

    def h_have(self, it, ev, args):
        if self.kind == "bd":
            return
        o = it.load(args[0])
        self.ob(ev, "C23", "calc_state delivers the interpolation of the last step", [op_sub(o, self.interp(self.tq)), op_sub(o, self.g("x")), op_sub(self.tq, self.g("t"))],
                lambda c, a, b, d: self.eq(c, a) or self.eq(c, b) and self.eq(c, d))
        it.emit(ev)

    def h_sys(self, it, ev, args):
        x, t = it.load(args[0]), args[2]
        self.same(ev, "C08", "a derivative is evaluated at the current state", x, self.g("x"))
        self.same(ev, "C08", "a derivative is evaluated at the current time", t, self.g("t"))
        it.store(args[1], A.app("F", x, t))
        it.emit(ev)

    def begin(self, ev, x, t, dt):
        self.same(ev, "C23", "the step starts at the current state", x, self.g("x"))
        self.same(ev, "C23", "the step starts at the current time", t, self.g("t"))
        self.same(ev, "C23", "the step attempted has the current step size", dt, self.g("dt"))
        self.same(ev, "C23", "do_step makes one step", self.g("k"), const(0))

    def h_do(self, it, ev, args):
        px, t, py, dt = args
        x = it.load(px)
        self.begin(ev, x, t, dt)
        y = A.app("STEP", x, t, dt)
        it.store(py, y)
        for f, v in (("xo", x), ("to", t), ("x", y), ("t", op_add(t, dt)), ("k", const(1))):
            self.set(f, v)
        it.emit(ev)

    def h_try(self, it, ev, args):
        px, pd, pt, py, pdy, pdt = args
        x, t, dt = it.load(px), it.load(pt), it.load(pdt)
        der = not (isinstance(pd, A.Poly) and is_const(pd))
        self.begin(ev, x, t, dt)
        self.ob(ev, "C12", "at most 500 failures precede an attempt", [self.g("f")], lambda c, f: A.sign_in(c, A.p_add(const(501), f, -1)) == "+")
        ok = integ.A_bool(it, "ok")
        sel = lambda a, b: A.ite(ok, a, b)
        y = A.app("STEP", x, t, dt)
        dn = sel(it.fresh_atom("dts"), it.fresh_atom("dtf"))
        tn = sel(op_add(t, dt), t)
        if der:
            d = it.load(pd)
            self.ob(ev, "C08", "the derivative handed on is that of the current state", [self.g("dk"), op_sub(d, self.g("d")), op_sub(d, A.app("F", x, t)), d],
                    lambda c, k, a, b, v: self.eq(c, a) if is_const(k) and cval(k) == 1 else self.eq(c, b) or not is_const(k) and (self.eq(c, a) or self.eq(c, b)) or self.unknown(v))
            dy = A.app("DSTEP", x, t, dt)
            it.store(pdy, sel(dy, it.fresh_atom("garbage")))
            self.set("do", sel(d, self.g("do")))
            self.set("d", sel(dy, d))
            self.set("dk", const(1))
        it.store(py, sel(y, it.fresh_atom("garbage")))
        it.store(pt, tn)
        it.store(pdt, dn)
        for f, a, b in (("xo", x, self.g("xo")), ("to", t, self.g("to")), ("x", y, x)):
            self.set(f, sel(a, b))
        self.set("t", tn)
        self.set("dt", dn)
        self.set("p", const(0))
        self.set("k", sel(const(1), const(0)))
        self.set("fp", self.g("f"))
        self.set("f", sel(const(0), op_add(self.g("f"), const(1))))
        self.set("r", sel(const(0), const(1)))
        # (the two outcomes as controlled_step_result)
        ret = ok
        if ev.name != "vp_try":
            ret = sel(const(0), const(1))
        ev.ret = ret
        it.emit(ev)
        return ret

    def unknown(self, v):
        """the derivative kept in an object of unknown state"""
        return self.arb and any("init(S" in str(A._atoms[a]) for a in A.poly_atoms(v))

    def h_prep(self, it, ev, args):
        self.same(ev, "C23", "dense output is prepared after an accepted step", self.g("r"), const(0))
        self.set("p", const(1))
        it.emit(ev)

    def h_calc(self, it, ev, args):
        t, po, px, pd, t0, py, pdy, t1 = args
        self.same(ev, "C23", "the interpolation is for the time asked for", t, self.tq)
        for n, v, f in (("old state", it.load(px), "xo"), ("old time", t0, "to"), ("new state", it.load(py), "x"), ("new time", t1, "t")):
            self.same(ev, "C23", "the interpolation uses the %s of the last step" % n, v, self.g(f))
        if not (isinstance(pd, A.Poly) and is_const(pd)):
            self.same(ev, "C23", "the interpolation uses the old derivative of the last step", it.load(pd), self.g("do"))
            self.same(ev, "C23", "the interpolation uses the new derivative of the last step", it.load(pdy), self.g("d"))
        if self.kind == "ro":
            self.same(ev, "C23", "dense output is prepared before it is used", self.g("p"), const(1))
        it.store(po, self.interp(t))
        it.emit(ev)

    def h_raise(self, it, ev, args):
        n = ev.info["names"]
        k = any("step_adjustment_error" in x for x in n), any("no_progress_error" in x for x in n)
        self.ob(ev, "C12", "a step_adjustment_error is raised after 500 failures in a row only", [self.g("f"), self.g("fp")],
                lambda c, f, fp: k == (True, False) and "+" in (A.sign_in(c, A.p_add(f, const(499), -1)), A.sign_in(c, A.p_add(fp, const(499), -1))))
        it.emit(ev)


def jobs():
    return [(k, f) for k in KINDS for f in [x + y for x in FORMS for y in ("", "_init")] + ["fresh"] if not (k == "bd" and f.startswith("const"))]


def one(a):
    m, k, f = a
    mon = Mon(k, f).run(m)
    mon.evset = set(mon.it.events)
    return mon.label(), "w_%s_%s" % (k, f), integ.evaluate(mon), dict(mon.it.stats), len(mon.it.events)


def check(c, tags, items=None):
    m = vp.build_ir(witness(), "dense", opaque=OPAQUE)
    c.analysed(module=m)
    for label, w, obl, st, nev in vp.pmap(one, [(m, k, f) for k, f in items or jobs()]):
        c.analysed(func=w)
        c.count("events", nev)
        for k, v in st.items():
            c.count("ir_" + k, v)
        seen = {}
        for tag, text, site, bad, n in obl:
            if tag in tags:
                c.count("cells", n)
                seen.setdefault((text, site), []).extend(bad)
        for (text, site), bad in sorted(seen.items()):
            c.check("%s: %s" % (label, text), not bad, "; ".join(bad[:2])[:1500], site)
