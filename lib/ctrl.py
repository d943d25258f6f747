"""controlled steppers over opaque error steppers: witnesses and symbolic runs"""
from fractions import Fraction as Fr
import vp
import absint as A
from absint import const, is_const, cval, Poly, patom, atom
from interp import Interp
from rkset import sym, inc, sys_handler
import bounds

PRE = """#include <vp.hpp>
#include <boost/numeric/odeint/algebra/array_algebra.hpp>
extern "C" double vp_norm(const double *) noexcept;
extern "C" void vp_step(const double *x, const double *d, double t, double *y, double *dy, double dt, double *e) noexcept;
using boost::numeric::odeint::array_algebra;
struct NA : array_algebra { template<class S> static double norm_inf(const S &s) { return vp_norm(&s[0]); } };
%s
using namespace boost::numeric::odeint;
template<int SO, int EO, class Tag> struct OStep {
  typedef X1 state_type, deriv_type; typedef double value_type, time_type; typedef NA algebra_type; typedef default_operations operations_type; typedef initially_resizer resizer_type;
  typedef Tag stepper_category; typedef unsigned short order_type; typedef state_wrapper<X1> wrapped_state_type, wrapped_deriv_type;
  static const order_type order_value = SO, stepper_order_value = SO, error_order_value = EO;
  order_type order() const { return SO; } order_type stepper_order() const { return SO; } order_type error_order() const { return EO; }
  NA al; NA &algebra() { return al; } const NA &algebra() const { return al; }
  template<class Sy> void do_step(Sy s, const X1 &x, const X1 &d, double t, X1 &y, double dt, X1 &e) { vp_step(&x[0], &d[0], t, &y[0], 0, dt, &e[0]); }
  template<class Sy> void do_step(Sy s, const X1 &x, const X1 &d, double t, X1 &y, X1 &dy, double dt, X1 &e) { vp_step(&x[0], &d[0], t, &y[0], &dy[0], dt, &e[0]); }
  template<class Sy> void do_step(Sy s, const X1 &x, double t, X1 &y, double dt, X1 &e) { X1 d; s(x, d, t); vp_step(&x[0], &d[0], t, &y[0], 0, dt, &e[0]); }
  template<class X> void adjust_size(const X &) {}
};
""" % inc("stepper/controlled_runge_kutta", "stepper/rosenbrock4_controller", "stepper/bulirsch_stoer", "stepper/bulirsch_stoer_dense_out",
          "stepper/adaptive_adams_bashforth_moulton", "stepper/controlled_adams_bashforth_moulton")

SIG = "(X1 &x, X1 &y, X1 &d, X1 &e, double &t, double &dt, double md, int &r)"
ORDERS = [(5, 4), (8, 7), (4, 3), (3, 2)]
OV_ERR = {"in place": "s.try_step(SysX(), x, t, dt)", "in place, derivative given": "s.try_step(SysX(), x, d, t, dt)",
          "out of place": "s.try_step(SysX(), (const X1&)x, t, y, dt)", "out of place, derivative given": "s.try_step(SysX(), (const X1&)x, (const X1&)d, t, y, dt)"}
OV_FSAL = {"in place": "s.try_step(SysX(), x, t, dt)", "in place, derivative given": "s.try_step(SysX(), x, d, t, dt)",
           "out of place, derivatives given": "s.try_step(SysX(), (const X1&)x, (const X1&)d, t, y, e, dt)"}
OV_ROS = {"in place": "s.try_step(SysX(), x, t, dt)", "out of place": "s.try_step(SysX(), (const X1&)x, t, y, dt)"}
OV_ABM = OV_ROS
OV_BD = {"out of place, derivatives given": "s.try_step(SysX(), (const X1&)x, (const X1&)d, t, y, e, dt)"}


def ctor(kind, so, eo, md):
    tag = {"rk": "explicit_error_stepper_tag", "fsal": "explicit_error_stepper_fsal_tag", "ros": "rosenbrock_stepper_tag_"}.get(kind)
    if kind in ("rk", "fsal"):
        S = "OStep<%d,%d,%s>" % (so, eo, tag)
        T = "controlled_runge_kutta<%s>" % S
        return "typedef %s C; C s%s;" % (T, "(C::error_checker_type(1e-6, 1e-6), C::step_adjuster_type(md))" if md else "")
    if kind == "ros":
        T = "rosenbrock4_controller<OStep<4,3,explicit_error_stepper_tag> >"
        return "typedef %s C; C s%s;" % (T, "(1e-6, 1e-6, md)" if md else "")
    if kind in ("bs", "bd"):
        T = "bulirsch_stoer%s<X1,double,X1,double,NA>" % ("" if kind == "bs" else "_dense_out")
        if kind == "bd":
            return "typedef %s C; C s(1e-6, 1e-6, 1.0, 1.0, %s, true);" % (T, "md" if md else "0.0")
        return "typedef %s C; C s%s;" % (T, "(1e-6, 1e-6, 1.0, 1.0, md)" if md else "")
    if kind == "abm":
        T = "controlled_adams_bashforth_moulton<adaptive_adams_bashforth_moulton<3,X1,double,X1,double,NA> >"
        return "typedef %s C; C s%s;" % (T, "(C::step_adjuster_type(1e-6, 1e-6, md))" if md else "")
    raise KeyError(kind)


OVERLOADS = {"rk": OV_ERR, "fsal": OV_FSAL, "ros": OV_ROS, "bs": OV_ERR, "bd": OV_BD, "abm": OV_ABM}
NAMES = {"rk": "controlled_runge_kutta", "fsal": "controlled_runge_kutta (FSAL)", "ros": "rosenbrock4_controller", "bs": "bulirsch_stoer",
         "bd": "bulirsch_stoer_dense_out", "abm": "controlled_adams_bashforth_moulton"}


class Job:
    """one witness function: controller, overload, number of preceding steps"""
    def __init__(self, w, kind, so, eo, md, ov, pre):
        self.w, self.kind, self.so, self.eo, self.md, self.ov, self.pre = w, kind, so, eo, md, ov, pre

    def label(self):
        return "%s%s, %s%s" % (NAMES[self.kind], " of order %d(%d)" % (self.so, self.eo) if self.kind in ("rk", "fsal") else "", self.ov,
                               ", maximal step given" if self.md else "")


# histories: error norms of the earlier calls (one letter each), a accepted, s accepted with a tiny error, r rejected
HIST = {"rk": ["", "a", "r"], "fsal": ["", "a", "r", "ar", "ra"], "ros": ["", "a", "s", "r", "ar", "ra"], "abm": ["", "a", "r", "aa"],
        "bs": ["", "a", "r", "rr", "ar"], "bd": ["", "a", "r", "rr", "ar"]}


def jobs(kinds):
    out = []
    for k in kinds:
        for so, eo in (ORDERS if k in ("rk", "fsal") else [(0, 0)]):
            for md in (0, 1):
                for ov in OVERLOADS[k]:
                    for pre in sorted({len(h) for h in HIST[k]}):
                        if pre and ((so, eo) not in ((5, 4), (0, 0)) or (md and (pre > 1 or k == "abm"))):
                            continue
                        out.append(Job("w_%s_%d" % (k, len(out)), k, so, eo, md, ov, pre))
    return out


def witness(js):
    s = PRE
    for j in js:
        call = OVERLOADS[j.kind][j.ov]
        s += "VP_W %s%s { %s " % (j.w, SIG, ctor(j.kind, j.so, j.eo, j.md))
        for i in range(j.pre):
            s += "vp_mark(%d); r = %s; " % (i + 1, call)
            if "out" in j.ov:
                s += "if(r == 0) { x = y; d = e; } "
        s += "vp_mark(100); r = %s; vp_mark(101); }\n" % call
    return s


def F(x, t):
    return A.app("F", x, t)


class Run:
    pass


def step_handler(it, ev, args):
    x, d = it.load(args[0]), it.load(args[1])
    t, dt = args[2], args[5]
    y = A.app("STEP", x, d, t, dt)
    it.store(args[3], y)
    if not (isinstance(args[4], Poly) and is_const(args[4])):
        it.store(args[4], F(y, A.op_add(t, dt)))
    it.store(args[6], A.app("ERR", x, d, t, dt))
    ev.info = {"x": x, "d": d, "t": t, "dt": dt, "y": y}
    it.emit(ev)


def anyerr(i):
    v = sym("err_%d" % i, sign="0+")
    A.set_range(v, bounds.I(0, bounds.INF))
    return v


def below1(i):
    """an arbitrary error in (0, 1)"""
    v = sym("conv_%d" % i, sign="+")
    A.set_range(v, bounds.I(0, 1, False, False))
    return v


def above(i, b):
    """an arbitrary error above b"""
    v = sym("rej_%d_%d" % (i, int(b)), sign="+")
    A.set_range(v, bounds.I(b, bounds.INF, False))
    return v


def ranged(name, sgn, kind):
    """a step size of the given sign; well above the resolution of the time type where the code compares with it"""
    v = sym("%s_%s%s" % (name, "fwd" if sgn > 0 else "bwd", "_b" if kind in ("bs", "bd") else "_h" if kind == "abm_h" else ""), sign="+" if sgn > 0 else "-")
    if kind == "abm_h":
        # (histories of the Adams controller start with a step well below the maximal one)
        A.set_range(v, bounds.I(0, Fr(1, 4), False) if sgn > 0 else bounds.I(-Fr(1, 4), 0, True, False))
    if kind in ("bs", "bd"):
        b = Fr(1, 1000000)
        A.set_range(v, bounds.I(b, bounds.INF) if sgn > 0 else bounds.I(-bounds.INF, -b))
    return v


def scripts(kind, pre):
    """error norms of the last step: list of (name, fn(i) -> value, outcomes that have to be possible)"""
    if kind not in ("bs", "bd"):
        return [("any error", lambda i: anyerr(i), ("fail", "success"))]
    # one error per column; the first column that converges ends the step (and the interpolation error follows it)
    out = [("no convergence", lambda i: above(i, 1) if i == 4 else const(2), ("fail",)), ("hopeless error", lambda i: above(i, 1000000), ("fail",)),
           ("error of exactly one", lambda i: const(1), ("fail",)), ("no error", lambda i: const(0), ("success",))]
    for k in (0, 2, 3, 4):
        # (after an accepted step the order may be lower than the column asked for)
        out.append(("convergence in column %d" % (k + 1), lambda i, k=k: below1(i) if i == k else const(3), ("success",) if not pre and k or kind == "bs" and not pre else ()))
    if kind == "bd":
        out.append(("convergence in column 3, interpolation not accurate", lambda i: const(3) if i < 2 else below1(i) if i == 2 else above(i, 10), ("fail",) if not pre else ()))
    return out


def hist_norm(c, i):
    return {"a": const(Fr(7, 10)), "s": const(Fr(1, 100000)), "r": const(50)}[c]


def mirrored_sys(it, ev, args):
    """the system seen backward in time: x'(-t)"""
    x, t = it.load(args[0]), args[2]
    it.store(args[1], A.op_neg(F(x, A.op_neg(t))))
    ev.info = {"x": x, "t": t}
    it.emit(ev)


def mirrored_step(it, ev, args):
    x, d = it.load(args[0]), A.op_neg(it.load(args[1]))
    t, dt = A.op_neg(args[2]), A.op_neg(args[5])
    y = A.app("STEP", x, d, t, dt)
    it.store(args[3], y)
    if not (isinstance(args[4], Poly) and is_const(args[4])):
        it.store(args[4], A.op_neg(F(y, A.op_add(t, dt))))
    it.store(args[6], A.app("ERR", x, d, t, dt))
    ev.info = {"x": x, "d": d, "t": t, "dt": dt, "y": y}
    it.emit(ev)


def run(m, j, sgn, hist, script, mirror=False):
    """script(i) -> value of the i-th error norm asked for in the last step; mirror: the forward run, seen backward in time"""
    st = {"step": 0, "i": 0}

    def nextnorm():
        v = script(st["i"]) if st["step"] >= 100 else hist_norm(hist[st["step"] - 1], st["i"])
        st["i"] += 1
        return v

    def norm(it, ev, args):
        ev.info = {"v": it.load(args[0])}
        it.emit(ev)
        return nextnorm()

    def root(it, ev, args):
        """a square root is only known to be non-negative (over-approximation)"""
        if isinstance(args[0], Poly) and is_const(args[0]):
            return A.app("sqrt", args[0])
        return nextnorm()

    def mark(it, ev, args):
        st["step"] = int(cval(args[0]))
        st["i"] = 0
        it.emit(ev)
    hs = {"vp_sys": sys_handler, "vp_norm": norm, "vp_mark": mark, "vp_step": step_handler}
    if mirror:
        hs.update({"vp_sys": mirrored_sys, "vp_step": mirrored_step})
    if j.kind == "ros":
        hs["sqrt"] = root
    it = Interp(m, hs)
    it.loopstack = []
    r = Run()
    B = {b: Interp.base(b) for b in ("X", "Y", "D", "E", "T", "DT", "R")}
    dt = ranged("dt", sgn, "abm_h" if j.kind == "abm" and hist else j.kind)
    md = ranged("md", sgn, j.kind)
    x, t = sym("x"), sym("t")
    d = F(x, t) if j.pre else sym("d")
    e = sym("e")
    if mirror:
        t, dt, md, d, e = (A.op_neg(v) for v in (t, dt, md, d, e))
    for b, v in (("X", x), ("Y", sym("y")), ("D", d), ("E", e), ("T", t), ("DT", dt)):
        it.store(B[b], v)
    it.run(j.w, [B["X"], B["Y"], B["D"], B["E"], B["T"], B["DT"], md, B["R"]])
    r.it, r.B, r.md, r.dt0 = it, B, md, dt
    r.start = next(q for q in it.events if q.name == "vp_mark" and cval(q.args[0]) == 100)
    k = it.events.index(r.start)
    r.events = it.events[k + 1:]
    r.before = {b: it.load(B[b], mem=r.start.mem) for b in ("X", "Y", "D", "E", "T", "DT")}
    r.after = {b: it.load(B[b]) for b in ("X", "Y", "D", "E", "T", "DT")}
    r.res = it.load(B["R"], 4, "i32")
    r.sgn = sgn
    steps = [e for e in r.events if e.name in ("vp_step", "vp_sys", "vp_norm")]
    r.site = steps[-1].where() if steps else "?"
    return r


def prune(cons):
    return bounds.Cell(cons, None, False).contradictory(last=True)


HN = {"a": "an accepted step", "s": "an accepted step with a tiny error", "r": "a rejected step"}


def each(c, kinds, fn, sgns=(1, -1)):
    """build the witnesses and run fn on every job under every history and script (in parallel); returns the results of fn"""
    js = jobs(kinds)
    by = {}
    for j in js:
        by.setdefault(j.kind, []).append(j)
    mods = vp.build_many([(witness(l), "ctrl_" + k, ()) for k, l in by.items()])
    tasks = []
    for m, (k, l) in zip(mods, by.items()):
        if isinstance(m, Exception):
            raise m
        c.analysed(m)
        for j in l:
            for h in HIST[k]:
                if len(h) == j.pre and not (j.md and k in ("bs", "bd") and h):
                    tasks.append((m, j, h))

    def work(t):
        m, j, h = t
        out = []
        for sn, sf, must in scripts(j.kind, h):
            for sgn in sgns:
                r = run(m, j, sgn, h, sf)
                r.j, r.hist, r.script, r.must = j, h, sn, list(must)
                r.again = lambda: run(m, j, sgn, h, sf, True)
                r.label = "%s; %s%s; %s" % (j.label(), sn, "; after " + ", ".join(HN[x] for x in h) if h else "", "forward" if sgn > 0 else "backward")
                out.append(((j.kind, j.md, j.ov, h, sn, sgn), fn(r), dict(r.it.stats), len(r.it.events)))
        return out
    res = []
    for t, out in zip(tasks, vp.pmap(work, tasks)):
        for key, v, stats, nev in out:
            c.analysed(func=t[1].w)
            for a, b in stats.items():
                c.count("ir_" + a, b)
            c.count("events", nev)
            res.append((key, v))
    return res


def ratio(cell, num, den):
    q = A.p_div(num, den)
    return cell.poly(q), q


def at_most(cons, a, b, sgn, slack=Fr(1, 2 ** 50)):
    """do the tests of a cell say that a does not exceed b (in the direction sgn) by more than the slack?"""
    if a is b:
        return True
    dif = A.p_add(a, b, -1)
    if sgn < 0:
        dif = A.p_scale(dif, -1)
    cell = bounds.Cell(cons)
    if cell.sign(dif).below(0, strict=False):
        return True
    for v, br in cons.items():
        if v.kind != "sgn":
            continue
        for s in (1, -1):
            q = A.p_add(v.obj, A.p_scale(dif, s), -1)        # obj = s*dif + q
            if is_const(q):
                bound = -cval(q) * s                         # dif ~ bound
                if bound <= slack and (br == 1 or (br == 0) == (s == 1)):
                    return True
    return False
