"""C20: factory functions hand every parameter and the stepper through to the result"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp
import absint as A
from absint import const, is_const, cval, ZERO
from fractions import Fraction as Fr
from interp import Interp
from rkset import sym, inc

RULE = ("For every stepper with a controller or dense output, what make_controlled and make_dense_output return is interpreted side by side with the documented class constructed directly from the same symbolic "
        "tolerances, maximal step and stepper (whose algebra carries an identity that every use reveals): results, states, times, step sizes, error estimates and algebra identities of two attempted steps must be "
        "the same terms. The types returned are compared by the type checker, programs with a time type of its own must compile, and integrate() must make the same calls as integrate_adaptive with the documented "
        "stepper.")

EACH = "".join("  template<%s, class Op> void for_each%d(%s, Op op) const { vp_use(id); array_algebra::for_each%d(%s, op); }\n" % (
    ", ".join("class A%d" % i for i in range(k)), k, ", ".join("A%d &a%d" % (i, i) for i in range(k)), k, ", ".join("a%d" % i for i in range(k))) for k in range(1, 16))
PRE = """#include <vp.hpp>
%s
extern "C" void vp_use(double id) noexcept;
extern "C" double vp_norm(const double *) noexcept;
extern "C" void vp_step(double id, const double *x, const double *d, double t, double *y, double *dy, double dt, double *e) noexcept;
extern "C" void vp_calc(double id, double t, double *x) noexcept;
using namespace boost::numeric::odeint;
struct TA { double id; TA(double i = 0) : id(i) {}
%s  template<class S> double norm_inf(const S &s) const { vp_use(id); return vp_norm(&s[0]); }
};
struct Y1 : boost::array<double,1> {};
struct SysY { void operator()(const Y1 &x, Y1 &dxdt, double t) const { vp_sys(&x[0], &dxdt[0], t); } };
struct ObsY { void operator()(const Y1 &x, double t) const { vp_obs(&x[0], t); } };
namespace boost { namespace numeric { namespace odeint { template<> struct algebra_dispatcher<Y1> { typedef TA algebra_type; }; } } }
// a Rosenbrock stepper that shows who it is
struct Ros { typedef X1 state_type, deriv_type; typedef double value_type, time_type; typedef initially_resizer resizer_type; typedef error_stepper_tag stepper_category; typedef unsigned short order_type;
  typedef state_wrapper<X1> wrapped_state_type, wrapped_deriv_type; static const order_type stepper_order = 4, error_order = 3; double id; Ros(double i = 0) : id(i) {}
  template<class Sy> void do_step(Sy s, const X1 &x, double t, X1 &y, double dt, X1 &e) { vp_step(id, &x[0], 0, t, &y[0], 0, dt, &e[0]); }
  void calc_state(double t, X1 &x, const X1 &, double, const X1 &, double) { vp_calc(id, t, &x[0]); } void prepare_dense_output() {} template<class X> void adjust_size(const X &) {} };
namespace boost { namespace numeric { namespace odeint { template<> struct get_controller<Ros> { typedef rosenbrock4_controller<Ros> type; }; template<> struct get_dense_output<Ros> { typedef rosenbrock4_dense_output<rosenbrock4_controller<Ros> > type; }; } } }
""" % (inc("stepper/runge_kutta_dopri5", "stepper/runge_kutta_cash_karp54", "stepper/runge_kutta_cash_karp54_classic", "stepper/runge_kutta_fehlberg78", "stepper/rosenbrock4", "stepper/rosenbrock4_controller",
           "stepper/rosenbrock4_dense_output", "stepper/controlled_runge_kutta", "stepper/dense_output_runge_kutta", "stepper/adaptive_adams_bashforth_moulton", "stepper/controlled_adams_bashforth_moulton",
           "stepper/generation", "integrate/integrate", "algebra/array_algebra"), EACH)
RK = ["runge_kutta_dopri5", "runge_kutta_cash_karp54", "runge_kutta_cash_karp54_classic", "runge_kutta_fehlberg78"]
ABM = "adaptive_adams_bashforth_moulton"


def typ(s):
    if s == "rosenbrock4":
        return "Ros"
    return "%s<%sX1,double,X1,double,TA>" % (s, "3," if s == ABM else "")


def stepper(s):
    return "Ros(id)" if s == "rosenbrock4" else "S(TA(id))"


def reference(s, what, md):
    if s in RK:
        c = "controlled_runge_kutta<S>"
        ctl = "%s(%s::error_checker_type(a, r), %s::step_adjuster_type(%s), %s)" % (c, c, c, "m" if md else "", stepper(s))
        return ctl if what == "controlled" else "dense_output_runge_kutta<%s >(%s)" % (c, ctl)
    if s == ABM:
        c = "controlled_adams_bashforth_moulton<S>"
        return "%s(%s::step_adjuster_type(a, r%s), S(TA(id)))" % (c, c, ", m" if md else "")
    c = "rosenbrock4_controller<S>"
    ctl = "%s(a, r, %sRos(id))" % (c, "m, " if md else "")
    return ctl if what == "controlled" else "rosenbrock4_dense_output<%s >(%s)" % (c, ctl)


def factory(s, what, md):
    return "make_%s(a, r, %s%s)" % (what, "m, " if md else "", stepper(s))


def default(s, what, md):
    return "make_%s<S>(a, r%s)" % (what, ", m" if md else "")


SIG = "(double a, double r, double m, double id, X1 &x, X1 &y, double &t, double &dt, int &r1, int &r2)"
USE = {"controlled": "r1 = c.try_step(SysX(), x, t, dt); vp_mark(1); r2 = c.try_step(SysX(), x, t, dt);",
       "dense_output": "c.initialize(x, t, dt); c.do_step(SysX()); vp_mark(1); std::pair<double,double> p = c.do_step(SysX()); t = p.first; dt = c.current_time_step(); c.calc_state((t + p.second) / 2.0, y); x = c.current_state(); r1 = r2 = 0;"}


def cases():
    for s in RK + ["rosenbrock4", ABM]:
        for what in ("controlled", "dense_output"):
            if what == "dense_output" and s not in ("runge_kutta_dopri5", "rosenbrock4"):
                continue
            for md in (False, True):
                yield s, what, md


def witness():
    out = PRE
    for n, (s, what, md) in enumerate(cases()):
        for tag, ex in (("f", factory(s, what, md)), ("r", reference(s, what, md)), ("d", default(s, what, md))):
            out += "extern \"C\" void w_%s%d%s { typedef %s S; auto c = %s; %s }\n" % (tag, n, SIG, typ(s), ex, USE[what])
    return out


class Observe:
    def __init__(self, m):
        self.n = self.steps = 0
        self.log = []
        self.ids = set()
        self.it = Interp(m, {"vp_sys": self.sys, "vp_use": self.use, "vp_norm": self.norm, "vp_step": self.step, "vp_calc": self.calc, "vp_mark": lambda it, ev, a: None, "vp_obs": self.obs, "vp_throw": self.stop, "raise": self.stop})
        self.it.loopstack = []
        self.it.deco = self.it.doom = True
        self.accept = False
        self.fixed = False

    def stop(self, it, ev, a=None):
        self.log.append(("exception", it.guard))

    def use(self, it, ev, a):
        self.ids.add(a[0])

    def sys(self, it, ev, a):
        v = A.app("F", it.load(a[0]), a[2])
        self.log.append(("system", it.load(a[0]), a[2], it.guard))
        it.store(a[1], v)

    def norm(self, it, ev, a):
        self.n += 1
        v = it.load(a[0])
        self.log.append(("error", v, it.guard))
        return const(Fr(1, 2)) if self.accept else sym("N%d" % self.n, sign="0+")

    def step(self, it, ev, a):
        x = it.load(a[1])
        self.ids.add(a[0])
        self.steps += 1
        # (decided runs: the first error lets the step size grow by what the tolerances say, later ones as far as it may)
        it.store(a[4], const(2) if self.fixed else A.app("STEP", x, a[3], a[6]))
        it.store(a[7], A.app("ERR", x, a[3], a[6]) if not self.fixed else const(Fr(1, 5)) if self.steps == 1 else ZERO)
        self.log.append(("step", x, a[3], a[6], it.guard))

    def calc(self, it, ev, a):
        self.ids.add(a[0])
        it.store(a[2], A.app("CALC", a[1]))

    def obs(self, it, ev, a):
        self.log.append(("observer", it.load(a[0]), a[1], it.guard))

    def run(self, w):
        P = [Interp.base(n) for n in ("x", "y", "t", "dt", "r1", "r2")]
        if self.fixed == "state":
            self.it.store(P[0], const(Fr(3, 2)))
        self.it.store(P[2], ZERO if self.fixed else sym("t"))
        self.it.store(P[3], const(Fr(1, 4)) if self.fixed else sym("dt", sign="+"))
        self.it.unroll_decided = bool(self.fixed)
        num = [const(Fr(1, 8)), const(Fr(1, 4)), const(Fr(1, 2))] if self.fixed == "state" else [sym("a", sign="+"), sym("r", sign="+"), const(Fr(1, 2)) if self.fixed else sym("m", sign="+")]
        self.it.run(w, num + [sym("ID")] + P)
        ty = [(8, "f64")] * 4 + [(4, "i32")] * 2
        return [self.it.load(p, *t) for p, t in zip(P, ty)] + self.log


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y and not (isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] and all(same(p, q) for p, q in zip(x, y))) and not (not isinstance(x, tuple) and same(x, y)):
            n = ("the state", "the interpolated state", "the time", "the step size", "the first result", "the second result")[i] if i < 6 else "a call of %s" % x[0]
            return "%s: %s instead of %s" % (n, str(x)[:200], str(y)[:200])
    if len(a) != len(b):
        return "%d calls instead of %d" % (len(a), len(b))
    return ""


def same(p, q):
    if p == q:
        return True
    try:
        return A.approx_equal(p, q, 1e-14)
    except Exception:
        return False


INTEG = """
extern "C" void w_i%(n)d(Y1 &x, double t0, double t1, double dt, long &n) { n = integrate%(v)s(SysY(), x, t0, t1, dt%(o)s); }
extern "C" void w_j%(n)d(Y1 &x, double t0, double t1, double dt, long &n) { typedef runge_kutta_dopri5<Y1,double,Y1,double> S; typedef controlled_runge_kutta<S> C; n = integrate_adaptive(C(C::error_checker_type(1e-6, 1e-6)), SysY(), x, t0, t1, dt%(o)s); }
"""
INTEGS = [("", ", ObsY()"), ("<double>", ", ObsY()"), ("", ""), ("<double>", "")]

TYPES = """
typedef %(s)s S;
template<class T, class U> struct eq { static const bool v = false; }; template<class T> struct eq<T,T> { static const bool v = true; };
static_assert(eq<result_of::make_controlled<S>::type, %(c)s>::v, "controller");
static_assert(eq<decltype(make_controlled(1e-6, 1e-6, S())), %(c)s>::v, "controller");
static_assert(eq<decltype(make_controlled(1e-6, 1e-6, 0.5, S())), %(c)s>::v, "controller");
%(d)s
"""
DENSE = """static_assert(eq<result_of::make_dense_output<S>::type, %(c)s>::v, "dense output");
static_assert(eq<decltype(make_dense_output(1e-6, 1e-6, S())), %(c)s>::v, "dense output");
static_assert(eq<decltype(make_dense_output(1e-6, 1e-6, 0.5, S())), %(c)s>::v, "dense output");
"""
UNITS = """#include <boost/units/systems/si/length.hpp>
#include <boost/units/systems/si/time.hpp>
#include <boost/units/systems/si/velocity.hpp>
#include <boost/units/systems/si/io.hpp>
#include <boost/fusion/container.hpp>
#include <boost/numeric/odeint/algebra/fusion_algebra.hpp>
#include <boost/numeric/odeint/algebra/fusion_algebra_dispatcher.hpp>
%s
using namespace boost::numeric::odeint;
typedef boost::units::quantity<boost::units::si::time,double> T;
typedef boost::units::quantity<boost::units::si::length,double> L;
typedef boost::units::quantity<boost::units::si::velocity,double> V;
typedef boost::units::quantity<boost::units::si::acceleration,double> Ac;
typedef boost::fusion::vector<L,V> X;
typedef boost::fusion::vector<V,Ac> D;
struct Sy { void operator()(const X &x, D &d, T) const { boost::fusion::at_c<0>(d) = boost::fusion::at_c<1>(x); boost::fusion::at_c<1>(d) = -boost::fusion::at_c<0>(x) / (1.0 * boost::units::si::second * boost::units::si::second); } };
void f(X &x, T t, T dt) { typedef %s<X,double,D,T,fusion_algebra> S; T m = 1.0 * boost::units::si::second; auto c = %s; %s }
"""


def run(c):
    m = vp.build_ir(witness(), "fac")
    c.analysed(m)
    cs = list(cases())

    def one(n):
        s, what, md = cs[n]
        lab = "make_%s(%s%s)" % (what, s, ", maximal step" if md else "")
        site = "boost/numeric/odeint/stepper/generation/generation_%s.hpp" % {True: "dense_output_runge_kutta" if what == "dense_output" else "controlled_runge_kutta"}.get(s in RK, "rosenbrock4" if s == "rosenbrock4" else "controlled_adams_bashforth_moulton")
        obs = {k: Observe(m) for k in "frd"}
        for o in obs.values():
            o.accept = what == "dense_output" or s == ABM
            o.fixed = "state" if what == "dense_output" and s == "rosenbrock4" else what == "dense_output" or s == ABM   # (a multistep method: its order and step are decided, the tolerances and the state stay symbolic)
        val = {k: o.run("w_%s%d" % (k, n)) for k, o in obs.items()}
        out = []
        d = diff(val["f"], val["r"])
        out.append(("%s acts like the documented class with the same parameters" % lab, not d, d, site))
        d = diff(val["d"], val["r"])
        out.append(("%s with the default stepper acts like the documented class with the same parameters" % lab, not d, d, site))
        ids = obs["f"].ids
        ok = ids == {sym("ID")} if s != ABM else sym("ID") in ids
        out.append(("%s works on a copy of the stepper it was given" % lab, ok, "the algebra or stepper used has the identity %s" % sorted(map(repr, ids)), site))
        return out
    for n, out in enumerate(vp.pmap(one, range(len(cs)))):
        c.functions.add("make_%s<%s>" % (cs[n][1], cs[n][0]))
        for o in out:
            c.check(*o)
    integ(c)
    types(c)
    c.assumptions += ["Controllers constructed directly do what C07, C09 and C11 show them to do."]


def integ(c):
    src = PRE + "".join(INTEG % {"n": n, "v": v, "o": o} for n, (v, o) in enumerate(INTEGS))
    m = vp.build_ir(src, "facint")
    c.analysed(m)
    for n, (v, o) in enumerate(INTEGS):
        for t1, dt in ((1, Fr(1, 4)), (-1, Fr(-1, 4)), (1, 3)):
            got = []
            for k in "ij":
                ob = Observe(m)
                ob.accept = True
                x, cnt = Interp.base("x"), Interp.base("n")
                ob.it.unroll_decided = True
                ob.it.run("w_%s%d" % (k, n), [x, ZERO, const(t1), const(dt), cnt])
                got.append([ob.it.load(x), None, None, None, ob.it.load(cnt, 8, "i64"), None] + ob.log)
            d = diff(*got)
            c.functions.add("integrate%s" % v)
            c.check("integrate%s(%s) from 0 to %d with %s makes the calls of integrate_adaptive with a controlled dopri5 stepper and tolerances 1e-6" % (v, "observer" if o else "no observer", t1, dt), not d and len(got[0]) > 8, d,
                    "boost/numeric/odeint/integrate/integrate.hpp")


def types(c):
    for s in RK + [ABM, "rosenbrock4"]:
        t = "rosenbrock4<double>" if s == "rosenbrock4" else typ(s)
        ctl = {"rosenbrock4": "rosenbrock4_controller", ABM: "controlled_adams_bashforth_moulton"}.get(s, "controlled_runge_kutta") + "<S>"
        d = DENSE % {"c": {"rosenbrock4": "rosenbrock4_dense_output", "runge_kutta_dopri5": "dense_output_runge_kutta"}[s] + "<%s >" % ctl} if s in ("rosenbrock4", "runge_kutta_dopri5") else ""
        vp.compiles(c, "%s: the factories return the documented types" % s, PRE + TYPES % {"s": t, "c": ctl, "d": d}, "boost/numeric/odeint/stepper/generation/generation_%s.hpp" % s)
        if s in RK:
            h = inc("stepper/" + s, "stepper/controlled_runge_kutta", "stepper/dense_output_runge_kutta", "stepper/generation")
            if s == "runge_kutta_fehlberg78":
                continue   # (needs 14 fusion arguments and gigabytes of memory)
            for md in ("", "m, "):
                vp.compiles(c, "%s: make_controlled(%s) with a time type of its own" % (s, "maximal step" if md else ""), UNITS % (h, s, "make_controlled(1e-6, 1e-6, %sS())" % md, "c.try_step(Sy(), x, t, dt);"),
                            "boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp", UF)
                if s == "runge_kutta_dopri5":
                    vp.compiles(c, "%s: make_dense_output(%s) with a time type of its own" % (s, "maximal step" if md else ""), UNITS % (h, s, "make_dense_output(1e-6, 1e-6, %sS())" % md, "c.initialize(x, t, dt); c.do_step(Sy()); c.calc_state(t, x);"),
                                "boost/numeric/odeint/stepper/generation/generation_dense_output_runge_kutta.hpp", UF)


UF = ["-DFUSION_MAX_VECTOR_SIZE=15", "-DBOOST_FUSION_INVOKE_MAX_ARITY=15", "-DBOOST_RESULT_OF_NUM_ARGS=15", "-DBOOST_FUSION_UNFUSED_MAX_ARITY=15"]


if __name__ == "__main__":
    sys.exit(vp.main("C20", RULE, run, 60))
