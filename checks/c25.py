"""C25: extrapolation steppers: midpoint runs, extrapolation weights for every order, dense-output polynomial."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, extra
import absint as A
from absint import const, is_const, cval, Poly
from fractions import Fraction as Fr
from interp import Interp
from rkset import sys_handler, sym, inc

RULE = ("One step of modified_midpoint (1..12 substeps), extrapolation_stepper (orders 4..10), bulirsch_stoer and bulirsch_stoer_dense_out (acceptance at every order 1..8, after "
        "accepted and rejected steps, driven by constants substituted for the error norm) is brought to normal form over an opaque right-hand side. The substep counts are read off the system "
        "evaluations; the result must be a combination of modified-midpoint results of exactly those counts whose weights sum to one and annihilate every power of the squared substep size up to the number of runs minus one, "
        "and an error estimate must be the difference to a combination of the next lower degree. The dense-output polynomial must be exact for polynomial derivatives up to degree 2k.")
PRE = """#include <vp.hpp>
#include <boost/numeric/odeint/algebra/array_algebra.hpp>
extern "C" double vp_norm(const double *) noexcept;
using boost::numeric::odeint::array_algebra;
struct NA : array_algebra { template<class S> static double norm_inf(const S &s) { return vp_norm(&s[0]); } };
%s
using namespace boost::numeric::odeint;
""" % inc("stepper/modified_midpoint", "stepper/extrapolation_stepper", "stepper/bulirsch_stoer", "stepper/bulirsch_stoer_dense_out")
XA = "X1,double,X1,double,array_algebra"
XN = "X1,double,X1,double,NA"


def w_small():
    s = PRE
    for n in range(1, 13):
        s += "VP_W w_mm%d(X1 &x, X1 &y, X1 &e, double t, double dt) { modified_midpoint<%s> s(%d); s.do_step(SysX(), x, t, y, dt); }\n" % (n, XA, n)
        s += "VP_W w_ms%d(X1 &x, X1 &y, X1 &e, double t, double dt) { modified_midpoint<%s> s; s.set_steps(%d); s.do_step(SysX(), e, t, dt); y = x; s.do_step(SysX(), y, t, dt); }\n" % (n, XA, n)
    for n in range(2, 36, 4):
        s += ("VP_W w_md%d(X1 &x, X1 &y, X1 &e, double t, double dt, X1 *z) { typedef modified_midpoint_dense_out<%s> M; M s(%d); typename M::deriv_table_type dv(%d); X1 d; SysX()(x, d, t); "
              "s.do_step(SysX(), x, d, t, y, dt, e, dv); for(int i = 0; i < %d; ++i) z[i] = dv[i].m_v; }\n") % (n, XA, n, n, n)
    for o in (4, 6, 8, 10):
        s += "VP_W w_ex%d(X1 &x, X1 &y, X1 &e, double t, double dt) { extrapolation_stepper<%d,%s> s; s.do_step(SysX(), x, t, y, dt, e); }\n" % (o, o, XA)
        s += "VP_W w_ey%d(X1 &x, X1 &y, X1 &e, double t, double dt) { extrapolation_stepper<%d,%s> s; s.do_step(SysX(), e, t, y, dt); y = x; s.do_step(SysX(), y, t, dt, e); }\n" % (o, o, XA)
    return s


def scenarios():
    hi = [20.0, 20.0, 20.0, 20.0, 1e-8]
    L = []
    for k in range(1, 6):
        L.append(("accepted at column %d in the first step" % k, [[2.0] * (k - 1) + [0.5]]))
    L.append(("growing order", [hi, [20.0] * 6 + [1e-8], [20.0] * 7 + [1e-8]]))
    L.append(("order growing by one", [hi, [20.0] * 5 + [1e-8], [20.0] * 6 + [1e-8], [20.0] * 7 + [1e-8]]))
    L.append(("small errors", [[1e-3], [1e-3], [1e-3] * 2, [1e-3] * 3]))
    L.append(("after a rejection", [[100.0] * 6, [0.4] * 6, [0.4] * 6]))
    L.append(("late rejection", [[0.5], [20.0] * 8, [2.0, 0.3, 0.3, 0.3, 0.3]]))
    return L


def w_bs():
    s = PRE + "typedef bulirsch_stoer<%s> Bs; typedef bulirsch_stoer_dense_out<%s> Bd;\n" % (XN, XN)
    for form, call in (("in", "s.try_step(SysX(), x[%d], t[%d], *dt)"), ("out", "s.try_step(SysX(), x[%d], t[%d], y[%d], *dt)")):
        s += "VP_W w_bs_%s(X1 *x, double *t, X1 *y, double *dt, int *r) { Bs s; " % form
        for i in range(4):
            s += "vp_mark(%d); r[%d] = %s; " % (i, i, call % ((i, i) if form == "in" else (i, i, i)))
        s += "vp_mark(4); }\n"
    s += "VP_W w_bd(X1 *x, double *t, X1 *y, double *dt, int *r, double th) { Bd s; "
    for i in range(3):
        s += "vp_mark(%d); s.initialize(x[%d], t[%d], *dt); s.do_step(SysX()); y[%d] = s.current_state(); s.calc_state(t[%d] + th*(s.current_time() - t[%d]), y[%d]); t[%d] = s.current_time(); " % (i, i, i, i, i, i, i + 10, i + 10)
    s += "vp_mark(3); }\n"
    return s


def setup(m, handlers):
    it = Interp(m, handlers)
    it.loopstack = []
    return it


def mark(it, ev, args):
    it.emit(ev)


def runs_of(evs, x, t, dt, f0):
    """the midpoint runs among system-evaluation events that start at (x, t)"""
    ns = []
    for e in evs:
        n = extra.first_stage(x, t, dt, f0, e.info["x"], e.info["t"])
        if n is not None and n not in ns:
            ns.append(n)
    return [extra.Midpoint(x, t, dt, n, f0) for n in ns]


def combination(c, label, term, x, t, dt, evs, degree, site, exact_runs=None):
    f0 = extra.F(x, t)
    runs = runs_of(evs, x, t, dt, f0)
    ws = extra.weights(term, x, runs, dt)
    ok = ws is not None and bool(ws) and A.approx_equal(extra.combine(ws, runs), term, 1e-8)
    c.check(label + ": combination of modified-midpoint results", ok, "weights %s" % ({n: float(w) for n, w in (ws or {}).items()}), site)
    if not ok:
        return None
    deg = degree if degree is not None else len(ws) - 1
    bad = extra.defects(ws, deg)
    c.count("extrapolation_conditions", deg + 1)
    c.check(label + ": leading %d error terms eliminated" % deg, not bad, "; ".join(bad), site)
    if degree is None:
        c.check(label + ": all midpoint runs are used", len(ws) == len(runs), "%s of %s" % (sorted(ws), sorted(r.n for r in runs)), site)
    return ws, runs


def run(c):
    ms, mb = vp.build_many([(w_small(), "c25s", ()), (w_bs(), "c25b", ())])
    for m in (ms, mb):
        if isinstance(m, Exception):
            raise m
        c.analysed(m)
    small(c, ms)
    for form in ("in", "out"):
        for sn, errs in scenarios():
            bs(c, mb, form, sn, errs)
    need = set(range(1, 9))
    c.check("bulirsch_stoer: every order 1..8 was reached in some scenario", c.counts.get("_bs", set()) >= need, "%s" % sorted(c.counts.get("_bs", set())), "")
    for sn, errs in scenarios():
        if "rejection" not in sn:
            bd(c, mb, sn, errs[:3])
    c.check("bulirsch_stoer_dense_out: every order 1..8 was reached in some scenario", c.counts.get("_bd", set()) >= need, "%s" % sorted(c.counts.get("_bd", set())), "")
    for k in ("_bs", "_bd"):
        c.counts[k + "_orders_reached"] = sorted(c.counts.pop(k, []))
    for k in (1, 2, 3, 4):
        for sgn in (1, -1):
            dense_poly(c, mb, k, sgn)


def small(c, m):
    x, t, dt = sym("x"), sym("t"), sym("dt")

    def go(w, *more):
        it = setup(m, {"vp_sys": sys_handler})
        X, Y, E = [Interp.base(b) for b in "XYE"]
        it.store(X, x)
        it.store(E, sym("e"))
        it.run(w, [X, Y, E, t, dt] + list(more))
        c.analysed(m, w, it)
        evs = [e for e in it.events if e.name == "vp_sys"]
        return it, it.load(Y), it.load(E), evs, (evs[-1].where() if evs else "?")
    for n in range(1, 13):
        M = extra.Midpoint(x, t, dt, n)
        for w, nm in (("mm", "constructed"), ("ms", "set_steps, second step in place")):
            it, y, e, evs, site = go("w_%s%d" % (w, n))
            c.check("modified_midpoint %d substeps (%s)" % (n, nm), A.approx_equal(y, M.out), "%r expected %r" % (y, M.out), site)
    for n in range(2, 36, 4):
        M = extra.Midpoint(x, t, dt, n)
        Z = Interp.base("Z")
        it, y, e, evs, site = go("w_md%d" % n, Z)
        c.check("modified_midpoint_dense_out %d substeps: result" % n, A.approx_equal(y, M.out), "%r" % (y,), site)
        c.check("modified_midpoint_dense_out %d substeps: midpoint state" % n, A.approx_equal(e, M.x[n // 2]), "%r expected %r" % (e, M.x[n // 2]), site)
        bad = [i for i in range(n) if not A.approx_equal(it.load(A.op_add(Z, const(8 * i))), M.f[i + 1])]
        c.check("modified_midpoint_dense_out %d substeps: stored derivatives" % n, not bad, "indices %s" % bad, site)
    for o in (4, 6, 8, 10):
        for w, nm in (("ex", "out of place"), ("ey", "in place, second step")):
            it, y, e, evs, site = go("w_%s%d" % (w, o))
            label = "extrapolation_stepper<%d> %s" % (o, nm)
            r = combination(c, label, y, x, t, dt, evs, o // 2 - 1, site)
            if r:
                emb = A.op_sub(y, e)
                r2 = combination(c, label + ", embedded result", emb, x, t, dt, evs, o // 2 - 2, site)
                if r2:
                    c.check(label + ": embedded result is of lower order", bool(extra.defects(r2[0], o // 2 - 1)), "", site)


def norm_handler(errs):
    """errs: per step list of constants"""
    st = {"step": -1, "i": 0, "used": []}

    def norm(it, ev, args):
        L = errs[st["step"]] if 0 <= st["step"] < len(errs) else [0.5]
        v = L[st["i"]] if st["i"] < len(L) else L[-1]
        st["i"] += 1
        ev.info = {"step": st["step"], "v": it.load(args[0])}
        it.emit(ev)
        return const(Fr(v))

    def mk(it, ev, args):
        st["step"] = int(cval(args[0]))
        st["i"] = 0
        it.emit(ev)
    return norm, mk


def bs(c, m, form, sn, errs):
    norm, mk = norm_handler(errs + [[0.5]] * (4 - len(errs)))
    it = setup(m, {"vp_sys": sys_handler, "vp_norm": norm, "vp_mark": mk})
    X, T, Y, D, R = [Interp.base(b) for b in "XTYDR"]
    for i in range(4):
        it.store(A.op_add(X, const(8 * i)), sym("x%d" % i))
        it.store(A.op_add(T, const(8 * i)), sym("t%d" % i))
        it.store(A.op_add(Y, const(8 * i)), sym("y%d" % i))
    it.store(D, sym("dtp", sign="+"))
    it.run("w_bs_" + form, [X, T, Y, D, R])
    label0 = "bulirsch_stoer %s (%s)" % ("in place" if form == "in" else "out of place", sn)
    c.analysed(m, label0, it)
    marks = [k for k, e in enumerate(it.events) if e.name == "vp_mark"]
    for i in range(4):
        seg = it.events[marks[i]:marks[i + 1]]
        evs = [e for e in seg if e.name == "vp_sys"]
        site = evs[-1].where() if evs else "?"
        label = "%s step %d" % (label0, i)
        dt = it.load(D, mem=seg[0].mem)
        x, t = sym("x%d" % i), sym("t%d" % i)
        r = it.load(A.op_add(R, const(4 * i)), 4, "i32")
        if not is_const(r) or not isinstance(dt, Poly):
            c.check(label + ": decided by the error values", False, "result %r" % (r,), site)
            return
        if cval(r) != 0:
            c.count("rejected_steps")
            continue
        y = it.load(A.op_add(X if form == "in" else Y, const(8 * i)))
        res = combination(c, label, y, x, t, dt, evs, None, site)
        if res:
            c.counts.setdefault("_bs", set()).add(len(res[0]) - 1)


def bd(c, m, sn, errs):
    norm, mk = norm_handler(errs + [[0.5]] * (3 - len(errs)))
    it = setup(m, {"vp_sys": sys_handler, "vp_norm": norm, "vp_mark": mk})
    X, T, Y, D, R = [Interp.base(b) for b in "XTYDR"]
    for i in range(3):
        it.store(A.op_add(X, const(8 * i)), sym("x%d" % i))
        it.store(A.op_add(T, const(8 * i)), sym("t%d" % i))
    dt = sym("dtp", sign="+")
    it.store(D, dt)
    it.run("w_bd", [X, T, Y, D, R, sym("theta")])
    label0 = "bulirsch_stoer_dense_out (%s)" % sn
    c.analysed(m, label0, it)
    marks = [k for k, e in enumerate(it.events) if e.name == "vp_mark"]
    for i in range(3):
        seg = it.events[marks[i]:marks[i + 1]]
        evs = [e for e in seg if e.name == "vp_sys"]
        site = evs[-1].where() if evs else "?"
        label = "%s step %d" % (label0, i)
        x, t = sym("x%d" % i), sym("t%d" % i)
        y = it.load(A.op_add(Y, const(8 * i)))
        res = combination(c, label, y, x, t, dt, evs, None, site)
        if res:
            c.counts.setdefault("_bd", set()).add(len(res[0]) - 1)


def dense_poly(c, m, k, sgn):
    """exactness of the interpolation polynomial for dx/dt = t^d, d <= 2k, when accepted at column k"""
    errs = [[2.0] * (k - 1) + [0.5]]
    for d in (0, 1, 2 * k - 1, 2 * k):
        def h_sys(it, ev, args, d=d):
            v = const(1)
            for _ in range(d):
                v = A.op_mul(v, args[2])
            it.store(args[1], v)
            it.emit(ev)
        norm, mk = norm_handler(errs + [[0.5]] * 2)
        it = setup(m, {"vp_sys": h_sys, "vp_norm": norm, "vp_mark": mk})
        X, T, Y, D, R = [Interp.base(b) for b in "XTYDR"]
        for i in range(3):
            it.store(A.op_add(X, const(8 * i)), sym("x%d" % i))
            it.store(A.op_add(T, const(8 * i)), sym("t%d" % i))
        dt = sym("dtp" if sgn > 0 else "dtm", sign="+" if sgn > 0 else "-")
        th = sym("theta")
        it.store(D, dt)
        it.run("w_bd", [X, T, Y, D, R, th])
        label = "bulirsch_stoer_dense_out interpolation, column %d, dt %s 0, derivative t^%d" % (k, "><"[sgn < 0], d)
        c.analysed(m, label, it)
        site = next((e.where() for e in reversed(it.events) if e.name == "vp_sys"), "?")
        got = it.load(A.op_add(Y, const(80)))

        def powd(v, n):
            r = const(1)
            for _ in range(n):
                r = A.op_mul(r, v)
            return r
        t = sym("t0")
        te = A.op_add(t, A.op_mul(th, dt))
        want = A.op_add(sym("x0"), A.op_mul(const(Fr(1, d + 1)), A.op_sub(powd(te, d + 1), powd(t, d + 1))))
        c.check(label + ": exact", A.approx_equal(got, want, 1e-8), "%r expected %r" % (got, want), site)


if __name__ == "__main__":
    sys.exit(vp.main("C25", RULE, run, minimum=150))
