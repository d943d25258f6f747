"""stepper objects over an opaque resizable state: one witness per operation, run in any order on one object"""
from fractions import Fraction as Fr
import vp
import absint as A
from absint import const, is_const, cval, Poly, op_add
from interp import Interp, touched
from rkset import sym, inc

PRE = """#include <vp.hpp>
#include <utility>
#include <new>
#include <boost/fusion/container.hpp>
#include <boost/type_traits.hpp>
%s
extern "C" {
void vp_use(const void *) noexcept;
void vp_same(const void *, const void *) noexcept;
double vp_norm(const double *) noexcept;
double vp_lost() noexcept;
}
// a resizable state; its size is a plain number, a resized state loses its content
struct RX { double v; long n; RX() : v(0), n(0) {} };
namespace boost { namespace numeric { namespace odeint {
struct RA {
%s
  template<class S> static double norm_inf(const S &s) { vp_use(&s); return vp_norm(&s.v); }
};
template<> struct is_resizeable<RX> { typedef boost::true_type type; static const bool value = true; };
template<> struct same_size_impl<RX, RX> { static bool same_size(const RX &a, const RX &b) { return a.n == b.n; } };
template<> struct resize_impl<RX, RX> { static void resize(RX &a, const RX &b) { a.n = b.n; a.v = vp_lost(); } };
template<> struct copy_impl<RX, RX> { static void copy(const RX &a, RX &b) { vp_same(&a, &b); b.v = a.v; } };
template<> struct algebra_dispatcher<RX> { typedef RA algebra_type; };
} } }
using namespace boost::numeric::odeint;
struct Sy { void operator()(const RX &x, RX &d, double t) const { vp_use(&x); vp_use(&d); vp_sys(&x.v, &d.v, t); } };
struct Acc { void operator()(const RX &x, const RX &v, RX &a, double t) const { vp_use(&x); vp_use(&v); vp_use(&a); vp_sys2(&x.v, &v.v, &a.v, t); } };
struct Q1 { void operator()(const RX &x, RX &d) const { vp_use(&x); vp_use(&d); vp_sys(&x.v, &d.v, 0.0); } };
// everything an operation may be given: state, output, derivatives, error, time, step size, result
struct Env { RX x, y, d, d2, e, p, py; double t, dt; int r; };
template<class S> inline void dense_all(S &s, Env &E) { std::pair<double, double> i = s.do_step(Sy()); s.calc_state(i.first, E.y); E.t = i.second; E.x = s.current_state(); }
""" % (inc("algebra/default_operations", "algebra/algebra_dispatcher", "algebra/operations_dispatcher", "util/state_wrapper", "util/is_resizeable", "util/resize", "util/same_size", "util/copy", "util/resizer",
           "stepper/euler", "stepper/runge_kutta4", "stepper/runge_kutta4_classic", "stepper/modified_midpoint", "stepper/runge_kutta_cash_karp54", "stepper/runge_kutta_cash_karp54_classic",
           "stepper/runge_kutta_dopri5", "stepper/runge_kutta_fehlberg78", "stepper/explicit_generic_rk", "stepper/explicit_error_generic_rk", "stepper/extrapolation_stepper", "stepper/adams_bashforth",
           "stepper/adams_bashforth_moulton", "stepper/adams_moulton", "stepper/adaptive_adams_bashforth_moulton", "stepper/controlled_adams_bashforth_moulton", "stepper/controlled_runge_kutta",
           "stepper/bulirsch_stoer", "stepper/bulirsch_stoer_dense_out", "stepper/dense_output_runge_kutta", "stepper/symplectic_euler", "stepper/symplectic_rkn_sb3a_mclachlan",
           "stepper/symplectic_rkn_sb3a_m4_mclachlan", "stepper/velocity_verlet"),
       "\n".join("  template<%s, class Op> static void for_each%d(%s, Op op) { %s op(%s); }" % (
           ", ".join("class S%d" % i for i in range(n)), n, ", ".join("S%d &s%d" % (i, i) for i in range(n)), " ".join("vp_use(&s%d);" % i for i in range(n)),
           ", ".join("s%d.v" % i for i in range(n))) for n in range(1, 16)))

C = "(const RX&)"
EX = {"in": "s.do_step(Sy(), E.x, E.t, E.dt); E.t += E.dt;", "out": "s.do_step(Sy(), %sE.x, E.t, E.y, E.dt); E.x = E.y; E.t += E.dt;" % C,
      "in, derivative given": "s.do_step(Sy(), E.x, E.d, E.t, E.dt); E.t += E.dt;", "out, derivative given": "s.do_step(Sy(), %sE.x, %sE.d, E.t, E.y, E.dt); E.x = E.y; E.t += E.dt;" % (C, C)}
ER = dict(EX)
ER.update({"in, error": "s.do_step(Sy(), E.x, E.t, E.dt, E.e); E.t += E.dt;", "out, error": "s.do_step(Sy(), %sE.x, E.t, E.y, E.dt, E.e); E.x = E.y; E.t += E.dt;" % C,
           "in, derivative given, error": "s.do_step(Sy(), E.x, E.d, E.t, E.dt, E.e); E.t += E.dt;", "out, derivative given, error": "s.do_step(Sy(), %sE.x, %sE.d, E.t, E.y, E.dt, E.e); E.x = E.y; E.t += E.dt;" % (C, C)})
FS = {"in": EX["in"], "out": EX["out"], "in, error": ER["in, error"], "out, error": ER["out, error"],
      "in, derivatives": EX["in, derivative given"], "in, derivatives, error": ER["in, derivative given, error"],
      "out, derivatives": "s.do_step(Sy(), %sE.x, %sE.d, E.t, E.y, E.d2, E.dt); E.x = E.y; E.d = E.d2; E.t += E.dt;" % (C, C),
      "out, derivatives, error": "s.do_step(Sy(), %sE.x, %sE.d, E.t, E.y, E.d2, E.dt, E.e); E.x = E.y; E.d = E.d2; E.t += E.dt;" % (C, C)}
KEEP = {"reset": "s.reset();", "initialize(system)": "s.initialize(Sy(), E.x, E.t);", "initialize(derivative)": "s.initialize(E.d);"}
ADJ = {"adjust_size": "s.adjust_size(E.x);"}
# (the step size of the next attempt is set by the caller of the witness)
TRY = {"try in": "E.r = s.try_step(Sy(), E.x, E.t, E.dt);", "try out": "E.r = s.try_step(Sy(), %sE.x, E.t, E.y, E.dt); if(E.r == 0) E.x = E.y;" % C,
       "try in, derivative given": "E.r = s.try_step(Sy(), E.x, E.d, E.t, E.dt);", "try out, derivative given": "E.r = s.try_step(Sy(), %sE.x, %sE.d, E.t, E.y, E.dt); if(E.r == 0) E.x = E.y;" % (C, C)}
TRYF = {"try in": TRY["try in"], "try out": TRY["try out"], "try in, derivatives": TRY["try in, derivative given"],
        "try out, derivatives": "E.r = s.try_step(Sy(), %sE.x, %sE.d, E.t, E.y, E.d2, E.dt); if(E.r == 0) { E.x = E.y; E.d = E.d2; }" % (C, C)}
INIT4 = {"initialize(system)": "s.initialize(Sy(), E.x, E.t, E.dt);"}
SEP = {"in": "s.do_step(std::make_pair(Q1(), Q1()), std::make_pair(boost::ref(E.x), boost::ref(E.p)), E.t, E.dt); E.t += E.dt;",
       "in, one function": "s.do_step(Q1(), std::make_pair(boost::ref(E.x), boost::ref(E.p)), E.t, E.dt); E.t += E.dt;",
       "out": "{ std::pair<RX, RX> a, b; a.first = E.x; a.second = E.p; b.first = E.y; b.second = E.py; s.do_step(std::make_pair(Q1(), Q1()), a, E.t, b, E.dt); E.x = b.first; E.p = b.second; E.t += E.dt; }",
       "coordinates and momenta": "s.do_step(std::make_pair(Q1(), Q1()), E.x, E.p, E.t, E.dt); E.t += E.dt;"}
VER = {"in": "{ std::pair<RX, RX> a; a.first = E.x; a.second = E.p; s.do_step(Acc(), a, E.t, E.dt); E.x = a.first; E.p = a.second; E.t += E.dt; }",
       "accelerations given": "s.do_step(Acc(), %sE.x, %sE.p, %sE.d, E.y, E.py, E.d2, E.t, E.dt); E.x = E.y; E.p = E.py; E.d = E.d2; E.t += E.dt;" % (C, C, C),
       "reset": "s.reset();", "initialize(system)": "s.initialize(Acc(), E.x, E.p, E.t);", "initialize(derivative)": "s.initialize(E.d);"}
DEN = {"initialize": "s.initialize(E.x, E.t, E.dt);", "step": "dense_all(s, E);"}
P = "RX,double,RX,double,RA,default_operations,%s"


def plus(*ds):
    o = {}
    for d in ds:
        o.update(d)
    return o


# kind: (type for a resizer policy, constructor arguments, operations)
KINDS = {
    "euler": ("euler<%s>" % P, "", plus(EX, ADJ)),
    "runge_kutta4": ("runge_kutta4<%s>" % P, "", plus(EX, ADJ)),
    "runge_kutta4_classic": ("runge_kutta4_classic<%s>" % P, "", plus(EX, ADJ)),
    "modified_midpoint": ("modified_midpoint<%s>" % P, "(4)", plus(EX, ADJ)),
    "runge_kutta_cash_karp54": ("runge_kutta_cash_karp54<%s>" % P, "", plus(ER, ADJ)),
    "runge_kutta_cash_karp54_classic": ("runge_kutta_cash_karp54_classic<%s>" % P, "", plus(ER, ADJ)),
    "runge_kutta_fehlberg78": ("runge_kutta_fehlberg78<%s>" % P, "", plus(ER, ADJ)),
    "runge_kutta_dopri5": ("runge_kutta_dopri5<%s>" % P, "", plus(FS, KEEP, ADJ)),
    "extrapolation_stepper": ("extrapolation_stepper<6,%s>" % P, "", plus(ER, ADJ)),
    "adams_bashforth": ("adams_bashforth<3,%s>" % P, "", plus({k: EX[k] for k in ("in", "out")}, INIT4, ADJ, {"reset": "s.reset();"})),
    "adams_bashforth_moulton": ("adams_bashforth_moulton<3,%s>" % P, "", plus({k: EX[k] for k in ("in", "out")}, INIT4, ADJ)),
    "adaptive_adams_bashforth_moulton": ("adaptive_adams_bashforth_moulton<3,%s>" % P, "", plus({k: ER[k] for k in ("in", "out", "in, error", "out, error")}, {"reset": "s.reset();"})),
    "controlled_adams_bashforth_moulton": ("controlled_adams_bashforth_moulton< adaptive_adams_bashforth_moulton<3,%s> >" % P, "", plus({k: TRY[k] for k in ("try in", "try out")}, {"reset": "s.reset();"})),
    "controlled_runge_kutta<cash_karp54>": ("controlled_runge_kutta< runge_kutta_cash_karp54<%s>, default_error_checker<double,RA,default_operations>, default_step_adjuster<double,double>, %%s >" % P, "", plus(TRY, ADJ)),
    "controlled_runge_kutta<dopri5>": ("controlled_runge_kutta< runge_kutta_dopri5<%s>, default_error_checker<double,RA,default_operations>, default_step_adjuster<double,double>, %%s >" % P, "", plus(TRYF, KEEP, ADJ)),
    "bulirsch_stoer": ("bulirsch_stoer<%s>" % P, "", plus(TRY, ADJ, {"reset": "s.reset();"})),
    "bulirsch_stoer_dense_out": ("bulirsch_stoer_dense_out<%s>" % P, "", plus(DEN, ADJ, {"reset": "s.reset();"})),
    "dense_output_runge_kutta<euler>": ("dense_output_runge_kutta< euler<%s> >" % P, "", plus(DEN, ADJ)),
    "dense_output_runge_kutta<dopri5>": ("dense_output_runge_kutta< controlled_runge_kutta< runge_kutta_dopri5<%s>, default_error_checker<double,RA,default_operations>, default_step_adjuster<double,double>, %%s > >" % P, "", plus(DEN, ADJ)),
    "symplectic_euler": ("symplectic_euler<RX,RX,double,RX,RX,double,RA,default_operations,%s>", "", plus(SEP, ADJ)),
    "symplectic_rkn_sb3a_mclachlan": ("symplectic_rkn_sb3a_mclachlan<RX,RX,double,RX,RX,double,RA,default_operations,%s>", "", plus(SEP, ADJ)),
    "velocity_verlet": ("velocity_verlet<RX,RX,double,RX,double,double,RA,default_operations,%s>", "", plus(VER, ADJ)),
}
GEN = ("{ boost::array<double,1> a1 = {{0.5}}; boost::array<double,2> b = {{0.0,1.0}}, c = {{0.0,0.5}};%s new (&s) T(boost::fusion::make_vector(a1), b%s, c); }")
KINDS["explicit_generic_rk"] = ("explicit_generic_rk<2,2,%s>" % P, GEN % ("", ""), plus(EX, ADJ))
KINDS["explicit_error_generic_rk"] = ("explicit_error_generic_rk<2,2,2,1,%s>" % P, GEN % (" boost::array<double,2> b2 = {{0.25,0.75}};", ", b2"), plus(ER, ADJ))
POL = ("initially_resizer", "always_resizer", "never_resizer")


def typ(kind, pol):
    t = KINDS[kind][0]
    return t % ((pol,) * t.count("%s")) if "controlled" in kind or "dense" in kind else t % pol


def ident(s):
    return "".join(ch if ch.isalnum() else "_" for ch in s)


def wname(kind, pol, op):
    return "w_%s_%s_%s" % (ident(kind), pol[0], ident(op))


def witness(kind, pols=POL, extra="", assign=False):
    s = PRE
    for p in pols:
        s += "namespace %s_%s { typedef %s T;\n" % (ident(kind), p[0], typ(kind, p).replace("%s", p))
        c = KINDS[kind][1]
        s += "VP_W %s(T &s) { %s }\n" % (wname(kind, p, "new"), c if c.startswith("{") else "new (&s) T%s;" % c)
        s += "VP_W %s(T &s, const T &o) { new (&s) T(o); }\nVP_W %s(T &s) { s.~T(); }\n" % (wname(kind, p, "copy"), wname(kind, p, "destroy"))
        if assign:
            s += "VP_W %s(T &s, const T &o) { s = o; }\n" % wname(kind, p, "assign")
        for op, code in KINDS[kind][2].items():
            s += "VP_W %s(T &s, Env &E) { %s }\n" % (wname(kind, p, op), code)
        s += "}\n"
    return s + extra


OFF = {n: 16 * i for i, n in enumerate(("x", "y", "d", "d2", "e", "p", "py"))}
TOFF, DTOFF, ROFF = 112, 120, 128
SIZES = (3, 5)


class Obj:
    """an abstract machine holding stepper objects and the caller's variables"""
    def __init__(self, m, kind, pol, norms=None):
        self.m, self.kind, self.pol = m, kind, pol
        # the coefficients of the variable-step multistep methods are rational functions of all step sizes: numbers there
        self.numeric = "adaptive" in kind or kind.startswith("controlled_adams")
        self.bad, self.uses, self.lost = [], 0, 0
        self.norms = norms or (lambda i: const(Fr(1, 2)))
        self.ni = 0
        it = self.it = Interp(m, {"vp_use": self.h_use, "vp_same": self.h_same, "vp_norm": self.h_norm, "vp_lost": self.h_lost, "vp_sys": self.h_sys, "vp_sys2": self.h_sys2, "sqrt": None})
        del it.handlers["sqrt"]
        it.loopstack = []
        it.unroll_decided = True
        self.S = {}
        self.size = SIZES[0]
        self.E = Interp.base("ENV")
        self.op = "?"
        self.calls = []
        self.fill(SIZES[0], "0")

    def var(self, n, o=0):
        return op_add(self.E, const(OFF[n] + o))

    def get(self, n):
        return self.it.load(self.var(n))

    def fill(self, size, tag):
        """the caller's variables: fresh values of the given size"""
        it = self.it
        self.size = size
        for n in OFF:
            it.store(self.var(n), sym(n + tag))
            it.store(self.var(n, 8), const(size), 8, "i64")
        self.fills = getattr(self, "fills", -1) + 1
        self.time(const(4 * self.fills) if self.numeric else sym("t" + tag, sign="+"))
        it.store(op_add(self.E, const(ROFF)), const(0), 4, "i32")
        self.step()

    def time(self, t=None):
        p = op_add(self.E, const(TOFF))
        if t is not None:
            self.it.store(p, t)
        return self.it.load(p)

    def step(self, h=None):
        self.it.store(op_add(self.E, const(DTOFF)), h or (const(Fr(1, 8)) if self.numeric else sym("h", sign="+")))

    def obj(self, name):
        if name not in self.S:
            self.S[name] = Interp.base("OBJ" + name)
        return self.S[name]

    def new(self, name="a"):
        self.call("new", name)

    def copy(self, src, dst):
        self.op = "copy construction"
        self.it.run(wname(self.kind, self.pol, "copy"), [self.obj(dst), self.obj(src)])

    def assign(self, src, dst):
        self.op = "copy assignment"
        self.it.run(wname(self.kind, self.pol, "assign"), [self.obj(dst), self.obj(src)])

    def env(self, saved=None):
        """save or restore the caller's variables"""
        cells = [(n, o, sz, ty) for n in OFF for o, sz, ty in ((0, 8, "f64"), (8, 8, "i64"))]
        if saved is None:
            return [self.it.load(self.var(n, o), sz, ty) for n, o, sz, ty in cells], self.time(), self.it.load(op_add(self.E, const(DTOFF))), self.it.load(op_add(self.E, const(ROFF)), 4, "i32"), self.size
        for (n, o, sz, ty), v in zip(cells, saved[0]):
            self.it.store(self.var(n, o), v, sz, ty)
        self.time(saved[1])
        self.step(saved[2])
        self.it.store(op_add(self.E, const(ROFF)), saved[3], 4, "i32")
        self.size = saved[4]

    def call(self, op, name="a"):
        self.op, self.ni, self.calls = op, 0, []
        self.it.run(wname(self.kind, self.pol, op), [self.obj(name)] + ([self.E] if op not in ("new", "destroy") else []))

    # -- events
    def note(self, ev, what):
        self.bad.append((self.op, what, ev.where()))

    def sz(self, p):
        return self.it.load(op_add(p, const(8)), 8, "i64")

    def h_use(self, it, ev, args):
        n = self.sz(args[0])
        self.uses += 1
        if not (is_const(n) and cval(n) == self.size):
            self.note(ev, "a state of size %s is used with a state of size %d" % (n, self.size))
        it.emit(ev)

    def h_same(self, it, ev, args):
        a, b = self.sz(args[0]), self.sz(args[1])
        self.uses += 1
        if a is not b or not is_const(a) or cval(a) == 0:
            self.note(ev, "a state of size %s is copied into one of size %s" % (a, b))
        it.emit(ev)

    def h_norm(self, it, ev, args):
        v = self.norms(self.ni)
        self.ni += 1
        ev.ret = v
        it.emit(ev)
        return v

    def h_lost(self, it, ev, args):
        self.lost += 1
        v = sym("lost%d" % self.lost)
        ev.ret = v
        it.emit(ev)
        return v

    def h_sys(self, it, ev, args):
        x, t = it.load(args[0]), args[2]
        self.calls.append((x, t))
        it.store(args[1], A.app("F", x, t))
        it.emit(ev)

    def h_sys2(self, it, ev, args):
        x, v, t = it.load(args[0]), it.load(args[1]), args[3]
        self.calls.append((x, v, t))
        it.store(args[2], A.app("F2", x, v, t))
        it.emit(ev)

    def cells(self, name):
        """the cells of an object which were ever written"""
        root = self.it.split_ptr(self.obj(name))[0]
        return {o: v for (b, o), v in touched(self.it.mem, None).items() if b is root and isinstance(o, int)}

    def poison(self, name):
        """the object is gone: whatever is read from it from now on shows"""
        for o, (sz, ty) in sorted(self.cells(name).items()):
            v = sym("dead%s_%d" % (name, o))
            if ty == "ptr":
                v = Interp.base("dead%s_%d" % (name, o))
            self.it.store(op_add(self.obj(name), const(o)), v, sz, ty)
