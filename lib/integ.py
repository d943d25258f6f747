"""integrate functions over opaque steppers: witnesses, ghost monitor and obligations"""
from fractions import Fraction as Fr
import vp, bounds
import absint as A
from absint import const, is_const, cval, Poly, patom, atom, op_add, op_sub, op_mul, BOT, ZERO, ONE
from interp import Interp
from rkset import sym, inc

PRE = """#include <vp.hpp>
#include <utility>
#include <functional>
#include <boost/ref.hpp>
%s
using namespace boost::numeric::odeint;
extern "C" {
void vp_do(const void *st, const void *sys, double *x, double t, double dt) noexcept;
bool vp_try(const void *st, const void *sys, double *x, double *t, double *dt) noexcept;
void vp_dinit(void *st) noexcept;
void vp_dense(void *st, const void *sys) noexcept;
void vp_calc(const void *st, double t, double *x) noexcept;
void vp_see(const void *obs, const double *x, double t) noexcept;
void vp_check(int) noexcept;
}
struct Base { typedef X1 state_type; typedef double value_type; typedef X1 deriv_type; typedef double time_type; typedef unsigned short order_type; int id; };
struct SysR { int id; void operator()(const X1 &, X1 &, double) const {} };
struct ObsR { int id; void operator()(const X1 &x, double t) const { vp_see(this, &x[0], t); } };
struct PS : Base { typedef stepper_tag stepper_category;
  template<class S> void do_step(S s, X1 &x, double t, double dt) { typename unwrap_reference<S>::type &r = s; vp_do(this, &r, &x[0], t, dt); } };
struct CS : Base { typedef controlled_stepper_tag stepper_category;
  template<class S> controlled_step_result try_step(S s, X1 &x, double &t, double &dt) { typename unwrap_reference<S>::type &r = s; return vp_try(this, &r, &x[0], &t, &dt) ? success : fail; } };
struct DS : Base { typedef dense_output_stepper_tag stepper_category;
  double to, t, dt; X1 xo, x;
  void initialize(const X1 &x0, double t0, double dt0) { x = x0; to = t = t0; dt = dt0; vp_dinit(this); }
  template<class S> std::pair<double, double> do_step(S s) { typename unwrap_reference<S>::type &r = s; vp_dense(this, &r); return std::make_pair(to, t); }
  void calc_state(double tt, X1 &y) const { vp_calc(this, tt, &y[0]); }
  void calc_state(double tt, const X1 &y) const { vp_calc(this, tt, const_cast<double*>(&y[0])); }
  const X1 &current_state() const { return x; } double current_time() const { return t; } const X1 &previous_state() const { return xo; }
  double previous_time() const { return to; } double current_time_step() const { return dt; } };
""" % inc("integrate/integrate_const", "integrate/integrate_adaptive", "integrate/integrate_n_steps", "integrate/integrate_times", "integrate/null_observer",
          "integrate/max_step_checker", "stepper/controlled_step_result")

CATS = {"plain": "PS", "ctrl": "CS", "dense": "DS"}
CATN = {"plain": "plain stepper", "ctrl": "controlled stepper", "dense": "dense-output stepper"}
ARGS = "(X1 &x, double t0, double t1, double dt, size_t n, const double *tb, const double *te, size_t &r, double &rt, Base *sp, SysR *sy, ObsR *ob, int mx)"
FNS = {"const": "r = integrate_const(%s, t0, t1, dt%s)", "adaptive": "r = integrate_adaptive(%s, t0, t1, dt%s)",
       "n_steps": "rt = integrate_n_steps(%s, t0, dt, n%s)", "times": "r = integrate_times(%s, tb, te, dt%s)",
       "times_range": "r = integrate_times(%s, std::make_pair(tb, te), dt%s)"}
OFF = {"x": 0, "t": 8, "gd": 16, "k": 24, "no": 32, "f": 40, "r": 48, "s": 56, "gc": 64, "c": 72, "to": 80, "dt": 88, "xo": 96, "lt": 104, "tno": 112, "fp": 120}
INTS = ("k", "no", "f", "r", "s", "c", "fp")
SLACK = Fr(1, 2 ** 48)


class Job:
    """ref: 0 arguments by value, 1 through boost::ref, 2 through std::ref; chk: steps a max_step_checker permits"""
    def __init__(self, fn, cat, obs=True, ref=0, chk=0):
        self.fn, self.cat, self.obs, self.ref, self.chk = fn, cat, obs, ref, chk
        self.rng = fn == "times_range"
        self.w = "w_%s_%s%s%s%s" % (fn, cat, "" if obs else "_null", ["", "_bref", "_sref"][ref], "_chk" if chk else "")
        if self.rng:
            self.fn = "times"

    def label(self):
        return "integrate_%s%s, %s%s%s%s" % (self.fn, " (range)" if self.rng else "", CATN[self.cat], "" if self.obs else ", no observer",
                                            ["", ", arguments by boost::ref", ", arguments by std::ref"][self.ref], ", max_step_checker" if self.chk else "")

    def code(self):
        T = CATS[self.cat]
        s = "*static_cast<%s*>(sp)" % T
        if self.ref:
            r = "boost::ref(%s)" if self.ref == 1 else "std::ref(%s)"
            a, o = "%s, %s, x" % (r % s, r % "*sy"), ", " + r % "*ob"
        else:
            a, o = "%s, *sy, x" % s, ", *ob"
        if not self.obs:
            o = ", null_observer()" if self.chk or self.fn == "times" else ""
        if self.chk:
            o += ", max_step_checker(mx)"
        return "VP_W %s%s { %s; }\n" % (self.w, ARGS, FNS["times_range" if self.rng else self.fn] % (a, o))


def A_bool(it, name):
    p = it.fresh_atom(name)
    return A.mkbool(A._atoms[p.terms[0][0][0][0]])


class Mon:
    """the ghost monitor of one run: events carry obligations (tag, text, values, predicate)"""
    LIMIT = 500

    def __init__(self, job, sgn):
        self.j, self.sgn = job, sgn
        self.G = Interp.base("GHOST")
        self.obl = []

    # ghost memory
    def g(self, f):
        return self.it.load(op_add(self.G, const(OFF[f])), 8, "i64" if f in INTS else "f64")

    def set(self, f, v):
        self.it.store(op_add(self.G, const(OFF[f])), v, 8, "i64" if f in INTS else "f64")

    def ob(self, ev, tag, text, vals, pred):
        self.obl.append((ev, tag, text, vals, pred))

    # predicates on one cell
    def eq(self, cons, d):
        return not d.terms or A.sign_in(cons, d, 2, True) == "0"

    def le(self, cons, d):
        """d = a - b: a not beyond b by more than the resolution of the time type"""
        p = A.p_add(A.p_scale(d, -self.sgn), const(SLACK))
        return A.sign_in(cons, p, 2, True) in ("+", "0+", "0")

    def near(self, cons, d):
        return self.eq(cons, d) or self.le(cons, d) and self.le(cons, A.p_scale(d, -1))

    # obligations
    def same(self, ev, tag, text, a, b):
        self.ob(ev, tag, text, [op_sub(a, b)], self.eq)

    def about(self, ev, tag, text, a, b):
        self.ob(ev, tag, text, [op_sub(a, b)], self.near)

    def reached(self, ev, t, tp):
        self.same(ev, "C10", "the observed time is the requested one", t, tp)

    def upto(self, ev, tag, text, a, b):
        self.ob(ev, tag, text, [op_sub(a, b)], self.le)

    def invariants(self):
        """functions of the memory that may never be positive at a loop header"""
        return []

    def tpoint(self, k):
        """the k-th requested time"""
        return self.it.load(op_add(self.tb, op_mul(const(8), k)), 8, "f64")

    def nextobs(self):
        """(lower-case) the time the current stretch of steps leads to"""
        k = self.j.fn
        if k in ("const", "n_steps"):
            return self.g("tno")
        if k == "adaptive":
            return self.t1
        return self.tpoint(self.g("no"))

    def end(self):
        """the time no step of a dense-output stepper leads past"""
        j = self.j
        if j.cat != "dense":
            return None
        if j.fn == "adaptive":
            return self.t1
        if j.fn == "n_steps":
            return op_add(self.t0, op_mul(self.n, self.dt))
        if j.fn == "times":
            return self.it.load(op_add(self.te, const(-8)), 8, "f64")

    def run(self, m):
        j, sgn = self.j, self.sgn
        it = Interp(m, {"vp_do": self.h_do, "vp_try": self.h_try, "vp_dinit": self.h_dinit, "vp_dense": self.h_dense, "vp_calc": self.h_calc, "vp_see": self.h_see, "raise": self.h_raise})
        it.loopstack = []
        it.deco = it.doom = True
        A.INTEGRAL[0] = True
        A._sgcache.clear()
        self.it = it
        d = "fwd" if sgn > 0 else "bwd"
        S = "+" if sgn > 0 else "-"
        self.S = S
        self.common = set()
        self.x0, self.t0, self.t1 = sym("x"), sym("t0_" + d), sym("t1_" + d)
        self.dt = sym("h_" + d, sign=S)
        # (times closer than the resolution of the time type count as equal)
        b = Fr(1, 2 ** 20)
        A.set_range(self.dt, bounds.I(b, bounds.INF) if sgn > 0 else bounds.I(-bounds.INF, -b))
        self.n = sym("n_steps", sign="0+", info="int")
        B = {b: Interp.base(b) for b in ("X", "R", "RT", "TB", "TE", "ST", "SY", "OB")}
        self.B = B
        self.tb = B["TB"]
        self.nt = sym("n_times", sign="0+", info="int")
        self.te = op_add(B["TB"], op_mul(const(8), self.nt))
        A.SORTED.clear()
        A.SORTED[B["TB"]] = S          # (requested times are in order, none twice)
        it.store(B["X"], self.x0)
        self.mx = sym("max_steps", sign="+", info="int")
        A.SCALERS[:] = [A.p_scale(self.dt, sgn)]
        it.itemplates = ([self.mx, op_add(self.mx, ONE)] if j.chk else []) + ([self.n] if j.fn == "n_steps" else []) + ([const(self.LIMIT)] if j.cat == "ctrl" else []) + ([self.nt] if j.fn == "times" else [])
        e = self.end()
        it.templates = ([e, op_add(e, const(SLACK * sgn))] if e is not None else [])
        it.candidates = self.invariants()
        self.common = {a for p in (self.t0, self.t1, self.dt, self.n) for a in A.poly_atoms(p)}
        self.xcell = B["X"]
        for f, v in (("x", self.x0), ("t", self.t0), ("tno", self.t0), ("gd", self.dt), ("gc", self.dt), ("k", const(0)), ("no", const(0)), ("f", const(0)), ("fp", const(0)), ("r", const(0)), ("s", const(0)), ("c", const(0))):
            self.set(f, v)
        if j.fn == "times":
            self.set("t", self.tpoint(ZERO))
        it.run(j.w, [B["X"], self.t0, self.t1, self.dt, self.n, self.tb, self.te, B["R"], B["RT"], B["ST"], B["SY"], B["OB"], self.mx])
        self.ret()
        return self

    # handlers ------------------------------------------------------------
    def where(self, ev, what, p):
        """the object called is the caller's own (passed by reference) / not the caller's (a stepper passed by value)"""
        own = {"stepper": "ST", "system": "SY", "observer": "OB"}[what]
        if self.j.ref:
            self.ob(ev, "C15", "the %s called is the one passed by reference" % what, [op_sub(p, self.B[own])], self.eq)
        elif what == "stepper":
            self.ob(ev, "C15", "a stepper passed by value is not itself used", [p], lambda c, q: not any(A._atoms[a] is self.B[own] or patom(A._atoms[a]) is self.B[own] for a in A.poly_atoms(q)))

    def stepped(self, ev, one):
        """bookkeeping of a completed step"""
        if self.j.chk:
            # (the counter of the checker in integrate_times with controlled steppers is out of reach of the loop abstraction; its raise is checked)
            if not (self.j.fn == "times" and self.j.cat == "ctrl"):
                self.ob(ev, "C12", "no step is made beyond the number permitted between two observations", [self.g("c")], lambda c, n: A.sign_in(c, A.p_add(n, op_add(self.mx, ONE), -1)) == "-")
            self.set("c", op_add(self.g("c"), one))

    def stepfrom(self, ev, t):
        if self.j.obs or self.j.fn == "adaptive":
            self.about(ev, "C10", "the time stepped from is the current one", t, self.g("t"))
        else:
            self.set("t", t)      # (set by observations otherwise)

    def h_do(self, it, ev, args):
        st, sy, px, t, dt = args
        j = self.j
        self.where(ev, "stepper", st)
        self.where(ev, "system", sy)
        self.stepped(ev, const(1))
        x = it.load(px)
        self.same(ev, "C10", "the state stepped from is the current one", x, self.g("x"))
        self.stepfrom(ev, t)
        if j.fn in ("const", "n_steps"):
            self.same(ev, "C11", "the step size is the one given", dt, self.dt)
        elif j.fn == "adaptive":
            self.ob(ev, "C11", "the step size is the one given or the remaining interval", [op_sub(dt, self.dt), op_sub(op_add(t, dt), self.t1)],
                    lambda c, a, b: self.eq(c, a) or self.near(c, b))
        elif j.obs:
            self.ob(ev, "C11", "the step size is the one given or leads to the next time point", [op_sub(dt, self.dt), op_sub(op_add(t, dt), self.nextobs())],
                    lambda c, a, b: self.eq(c, a) or self.near(c, b))
        if j.fn == "n_steps":
            self.ob(ev, "C11", "no more than the given number of steps is made", [op_sub(self.n, self.g("k"))], lambda c, a: A.sign_in(c, a) == "+")
        elif j.obs or j.fn in ("const", "adaptive"):
            self.upto(ev, "C11", "no step leads past the end", op_add(t, dt), self.t1 if j.fn in ("const", "adaptive") else self.nextobs())
        if j.obs and j.fn != "times":
            self.same(ev, "C10", "every state is observed before the next step", self.g("no"), op_add(self.g("k"), const(1)))
        y = A.app("STEP", x, t, dt)
        it.store(px, y)
        self.set("x", y)
        self.set("t", op_add(t, dt))
        self.set("k", op_add(self.g("k"), const(1)))
        it.emit(ev)

    def fresh(self, n, s=None):
        return self.it.fresh_atom("%s_%s" % (n, "fwd" if self.sgn > 0 else "bwd"), sign=s or self.S)

    def fcount(self, ev):
        self.ob(ev, "C12", "at most 500 failures precede an attempt", [self.g("f")], lambda c, f: A.sign_in(c, A.p_add(const(501), f, -1)) == "+")

    def h_try(self, it, ev, args):
        st, sy, px, pt, pdt = args
        j = self.j
        self.where(ev, "stepper", st)
        self.where(ev, "system", sy)
        x, t, dt = it.load(px), it.load(pt), it.load(pdt)
        ev.info = {"t": t, "dt": dt}
        r = self.g("r")
        self.same(ev, "C10", "the state stepped from is the current one", x, self.g("x"))
        self.stepfrom(ev, t)
        self.ob(ev, "C11", "a step has the direction of the integration", [dt], lambda c, a: A.sign_in(c, a, 2, True) == self.S)
        lim = self.nextobs() if j.obs or j.fn != "times" else None
        if lim is not None and (j.obs or j.fn == "adaptive"):
            self.ob(ev, "C11", "no attempt leads past the end (or the next observation), a repeated one has the size proposed", [r, op_sub(dt, self.g("gd")), op_sub(op_add(t, dt), lim)],
                    lambda c, rr, a, b: self.le(c, b) or is_const(rr) and cval(rr) == 1 and self.eq(c, a))
        if j.fn == "times" and j.obs:
            self.ob(ev, "C11", "a step shortened to hit a time point does not replace the carried step size", [r, op_sub(dt, self.g("gc")), op_sub(op_add(t, dt), lim)],
                    lambda c, rr, a, b: is_const(rr) and cval(rr) == 1 or self.eq(c, a) or self.near(c, b))
        if j.obs and j.fn == "adaptive":
            self.same(ev, "C10", "every accepted state is observed before the next step", self.g("no"), op_add(self.g("k"), const(1)))
        self.fcount(ev)
        ok = A_bool(it, "ok")
        y = A.app("STEP", x, t, dt)
        sel = lambda a, b: A.ite(ok, a, b)
        ds, df = self.fresh("dts"), self.fresh("dtf")
        xn, tn, dn = sel(y, x), sel(op_add(t, dt), t), sel(ds, df)
        it.store(px, xn)
        it.store(pt, tn)
        it.store(pdt, dn)
        self.set("x", xn)
        self.set("t", tn)
        self.set("gd", dn)
        # the step size carried on: a failure replaces it, after a success it is the larger of the two
        gc = self.g("gc")
        mx = self.larger(gc, ds)
        self.set("gc", sel(mx, df))
        self.set("k", op_add(self.g("k"), sel(const(1), const(0))))
        self.set("r", sel(const(0), const(1)))
        self.stepped(ev, sel(const(1), const(0)))
        self.set("fp", self.g("f"))
        self.set("f", sel(const(0), op_add(self.g("f"), const(1))))
        ev.ret = ok
        it.emit(ev)
        return ok

    def larger(self, a, b):
        if self.sgn > 0:
            return A.apply("max", lambda p, q: A.sign_value(A.p_add(p, q, -1), q, p, p), a, b)
        return A.apply("min", lambda p, q: A.sign_value(A.p_add(p, q, -1), p, p, q), a, b)

    DSO = {"to": 8, "t": 16, "dt": 24, "xo": 32, "x": 40}

    def m(self, st, f):
        return op_add(st, const(self.DSO[f]))

    def h_dinit(self, it, ev, args):
        st, = args
        x, t = it.load(self.m(st, "x")), it.load(self.m(st, "t"))
        dt = it.load(self.m(st, "dt"))
        self.same(ev, "C10", "the dense-output stepper is started at the current state", x, self.g("x"))
        self.about(ev, "C10", "the dense-output stepper is started at the current time", t, self.g("t"))
        e = self.end()
        self.ob(ev, "C11", "a step has the direction of the integration or leads to the end", [dt, op_sub(op_add(t, dt), e) if e is not None else ONE],
                lambda c, a, b: A.sign_in(c, a, 2, True) == self.S or self.near(c, b))
        self.set("s", const(0))
        self.set("to", t)
        self.set("dt", dt)
        it.emit(ev)

    def h_dense(self, it, ev, args):
        st, sy = args
        j = self.j
        self.where(ev, "stepper", st)
        self.where(ev, "system", sy)
        self.stepped(ev, const(1))
        x, t, dt = [it.load(self.m(st, f)) for f in ("x", "t", "dt")]
        ev.info = {"t": t, "dt": dt}
        e = self.end()
        if e is not None:
            self.upto(ev, "C11", "no step leads past the last time point" if j.fn == "times" else "no step leads past the end", op_add(t, dt), e)
        if j.obs and j.fn == "adaptive":
            self.same(ev, "C10", "every state is observed before the next step", self.g("no"), op_add(self.g("k"), const(1)))
        if j.obs and j.fn != "adaptive":
            self.upto(ev, "C10", "no step is made while an observation is due in the past one", t, self.nextobs())
        y = A.app("STEP", x, t, dt)
        r = self.fresh("rest", "0" + self.S)
        tn = op_add(t, op_sub(dt, r))
        for f, v in (("xo", x), ("to", t), ("x", y), ("t", tn), ("dt", self.fresh("dtd"))):
            it.store(self.m(st, f), v)
        self.set("x", y)
        self.set("t", tn)
        self.set("xo", x)
        self.set("to", t)
        self.set("s", const(1))
        self.set("k", op_add(self.g("k"), const(1)))
        it.emit(ev)

    def interp(self, t):
        return A.app("INTERP", t, self.g("xo"), self.g("to"), self.g("x"), self.g("t"))

    def h_calc(self, it, ev, args):
        st, t, px = args
        self.ob(ev, "C11", "dense output is evaluated only after a completed step, and not beyond it", [self.g("s"), op_sub(t, self.g("t"))],
                lambda c, s, a: (not (is_const(s) and cval(s) == 0) or self.j.fn == "times" and bool(a.terms) and self.near(c, a)) and self.le(c, a))
        it.store(px, self.interp(t))
        it.emit(ev)

    def h_see(self, it, ev, args):
        o, px, t = args
        j = self.j
        no = self.g("no")
        x = it.load(px)
        ev.info = {"t": t}
        self.where(ev, "observer", o)
        self.set("c", const(0))
        if j.fn in ("const", "n_steps"):
            self.same(ev, "C10", "the observed time is start + n*dt", t, self.g("tno"))
            self.set("tno", op_add(self.t0, op_mul(op_add(no, const(1)), self.dt)))
        elif j.fn == "times":
            self.reached(ev, t, self.tpoint(no))
            self.ob(ev, "C10", "nothing is observed if no time is requested", [no, self.nt], lambda c, n, d: bool(n.terms) or A.sign_in(c, d) == "+")
        if j.cat != "dense":
            self.same(ev, "C10", "the observed state is the current one", x, self.g("x"))
            self.ob(ev, "C10", "the observed time belongs to the observed state", [no, op_sub(t, self.g("t"))],
                    lambda c, n, d: self.le(c, d) or j.fn == "times" and not n.terms)
        else:
            cur = [op_sub(x, self.g("x")), op_sub(t, self.g("t"))]
            itp = op_sub(x, self.interp(t))
            self.ob(ev, "C10", "the observed state is the solution at the observed time", [no] + cur + [itp],
                    lambda c, n, a, b, e: self.eq(c, a) and (self.near(c, b) or j.fn == "times" and not n.terms) or self.eq(c, e))
        if j.fn == "adaptive":
            self.same(ev, "C10", "there is one observation per accepted step", no, self.g("k"))
        if j.cat == "ctrl" and j.fn != "times":
            self.same(ev, "C10", "no observation is made between a failed attempt and its repetition", self.g("r"), const(0))
        if j.fn in ("const", "n_steps"):
            pass
        if j.cat != "dense":
            self.set("t", t)
        elif j.fn == "times":
            self.set("t", A.apply("t0", lambda n, a, b: a if not n.terms else b, no, t, self.g("t")))
        self.set("no", op_add(no, const(1)))
        it.emit(ev)

    def h_raise(self, it, ev, args):
        n = ev.info["names"]
        ev.info = {"step_adjustment": any("step_adjustment_error" in x for x in n), "no_progress": any("no_progress_error" in x for x in n)}
        k = ev.info["step_adjustment"], ev.info["no_progress"]
        self.ob(ev, "C12", "an exception is raised after 500 failures in a row (step_adjustment_error) or too many steps (no_progress_error) only", [self.g("f"), self.g("fp"), self.g("c")],
                lambda c, f, fp, s: k == (True, False) and "+" in (A.sign_in(c, A.p_add(f, const(499), -1)), A.sign_in(c, A.p_add(fp, const(499), -1))) or
                k == (False, True) and self.j.chk and A.sign_in(c, A.p_add(s, op_sub(self.mx, ONE), -1)) == "+")
        it.emit(ev)

    # at the end -------------------------------------------------------------
    def ret(self):
        it, j = self.it, self.j

        class E:
            pass
        e = E()
        e.name, e.where = "return", lambda: "return of the function"
        e.guard = ONE
        g = ZERO
        for gg, v, m in it.rets:
            g = A.b_or(g, gg)
        e.guard = g
        x = it.load(self.xcell)
        steps = it.load(self.B["R"], 8, "i64")
        rt = it.load(self.B["RT"], 8, "f64")
        k, no, t = self.g("k"), self.g("no"), self.g("t")
        if j.fn != "n_steps":
            self.same(e, "C11", "the returned count is that of the accepted steps", steps, k)
        else:
            self.same(e, "C11", "the returned time is start + n*dt", rt, op_add(self.t0, op_mul(self.n, self.dt)))
            if j.cat == "plain":
                self.same(e, "C11", "exactly the given number of steps is made", k, self.n)
        if j.cat != "dense" or j.fn == "adaptive":
            self.same(e, "C11", "the caller's state is the last one", x, self.g("x"))
        if j.fn == "adaptive" and (j.obs or True):
            self.ob(e, "C11", "the end is reached", [op_sub(self.t1, t)], lambda c, d: self.le(c, d))
        if j.obs:
            if j.fn == "const":
                last = self.g("tno")
                self.ob(e, "C10", "no observation inside the interval is left out", [op_sub(self.t1, last)], lambda c, d: self.le(c, d))
            if j.fn == "n_steps":
                self.ob(e, "C10", "there is one observation more than steps asked for", [op_sub(op_add(self.n, const(1)), no), op_mul(op_sub(op_add(self.n, const(1)), no), self.dt)],
                        lambda c, d, d2: self.eq(c, d) or self.eq(c, d2))
            if j.fn == "adaptive":
                self.same(e, "C10", "the final state is observed", no, op_add(k, const(1)))
            if j.fn == "times":
                self.ob(e, "C10", "every requested time is observed", [op_sub(op_add(self.tb, op_mul(const(8), no)), self.te)], self.eq)


def jobs(tier="quick"):
    out = []
    for fn in ("const", "adaptive", "n_steps", "times"):
        for cat in CATS:
            out += [Job(fn, cat), Job(fn, cat, obs=False), Job(fn, cat, ref=1), Job(fn, cat, ref=2)]
            if fn != "adaptive":
                out += [Job(fn, cat, chk=3), Job(fn, cat, chk=3, ref=1)]
    out += [Job("times_range", cat) for cat in CATS] + [Job("times_range", cat, chk=3) for cat in CATS]
    return out


def witness(js):
    return PRE + "".join(j.code() for j in js)


def prune(cons):
    return not A.feasible(cons) if len(cons) <= 14 else False


def evaluate(mon, limit=4000):
    """[(tag, text, site, [bad cell texts], number of cells)]"""
    out = []
    for ev, tag, text, vals, pred in mon.obl:
        if ev.name != "return" and ev not in mon.evset:
            continue
        bad, n = ["?"], 0
        for rounds in (0, 1, 2, 3):
            # (forget as much of the path condition as possible)
            try:
                cs = A.wcells(ev.guard, vals, limit, rounds, mon.common) if rounds < 3 else A.cells(ev.guard, vals, limit, A.prune_last)
            except A.TooBig:
                bad = ["too many cells"]
                break
            n = len(cs)
            bad = []
            for cons, lv in cs:
                if not pred(cons, *lv):
                    bad.append("%s with %s" % (", ".join(A.poly_str(x) for x in lv), A.cons_str(cons)))
                    break
            if not bad:
                break
        out.append((tag, text, ev.where(), bad, n))
    return out


def one(a):
    """one job in one direction: label, direction, witness, obligations [(tag, text, site, bad, cells)], statistics"""
    m, j, sgn, Mo = a
    mon = Mo(j, sgn).run(m)
    mon.evset = set(mon.it.events)
    return j.label(), sgn, j.w, evaluate(mon), dict(mon.it.stats), len(mon.it.events)


def check(c, items, tags, Mo=Mon, wit=None):
    """run the (job, direction) items and report the obligations with one of the tags"""
    js = []
    for j, s in items:
        if j.w not in [x.w for x in js]:
            js.append(j)
    m = vp.build_ir((wit or witness)(js), "iters" if wit else "integ")
    c.analysed(module=m)
    for label, sgn, w, obl, st, nev in vp.pmap(one, [(m, j, s, Mo) for j, s in items]):
        c.analysed(func=w)
        c.count("events", nev)
        for k, v in st.items():
            c.count("ir_" + k, v)
        d = "forward" if sgn > 0 else "backward"
        seen = {}
        for tag, text, site, bad, n in obl:
            if tag not in tags:
                continue
            c.count("cells", n)
            k = (text, site)
            o = seen.setdefault(k, [])
            o += bad
        if not obl:
            c.check("%s, %s: calls of the stepper and the observer found" % (label, d), False, "nothing happens in this function")
        for (text, site), bad in sorted(seen.items()):
            c.check("%s, %s: %s" % (label, d, text), not bad, "; ".join(bad[:2])[:1500], site)
