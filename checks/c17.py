"""C17: operations compute exactly the documented linear combinations and error measures."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp
import absint as A
from absint import const, is_const, cval, Poly
from interp import Interp
from rkset import sym, inc
from generic import gen_witness, generic

RULE = ("Every operation functor (default_operations, thrust_operations, mkl_operations over reference BLAS) is called with symbolic coefficients and elements; the normal form of each "
        "argument after the call must be the documented one, also when the target is the same object as one of the inputs. The generic Runge-Kutta operations are analysed through "
        "explicit_generic_rk and explicit_error_generic_rk with symbolic coefficient tables for every supported number of stages.")
A14 = range(1, 15)


def p(n, f="%s"):
    return ", ".join(f % i if "%" in f else f for i in range(n))


def w_default():
    s = "#include <vp.hpp>\n" + inc("algebra/default_operations") + "using namespace boost::numeric::odeint; typedef default_operations O;\n"
    s += "VP_W w_scale(const double *a, double *x) { O::scale<double> op(a[0]); op(x[0]); }\n"
    for n in A14:
        ar = ", ".join("a[%d]" % i for i in range(n))
        s += "VP_W w_sum%d(const double *a, double *x) { O::scale_sum%d<double> op(%s); op(%s); }\n" % (n, n, ar, ", ".join("x[%d]" % i for i in range(n + 1)))
        for al in range(1, n + 1):
            s += "VP_W w_sum%d_alias%d(const double *a, double *x) { O::scale_sum%d<double> op(%s); op(x[%d], %s); }\n" % (n, al, n, ar, al, ", ".join("x[%d]" % i for i in range(1, n + 1)))
    s += "VP_W w_swap(const double *a, double *x) { O::scale_sum_swap2<double> op(a[0], a[1]); op(x[0], x[1], x[2]); }\n"
    s += "VP_W w_rel(const double *a, double *x) { O::rel_error<double> op(a[0], a[1], a[2], a[3]); op(x[0], x[1], x[2]); }\n"
    s += "VP_W w_drel(const double *a, double *x) { O::default_rel_error<double> op(a[0], a[1]); op(x[0], x[1], x[2]); }\n"
    s += "VP_W w_max(const double *a, double *x, double *r) { O::maximum<double> op; r[0] = op(x[0], x[1]); }\n"
    for n in ("max", "l2"):
        s += "VP_W w_rel_%s(const double *a, double *x, double *r) { O::rel_error_%s<double> op(a[0], a[1]); r[0] = op(x[0], x[1], x[2], x[3]); }\n" % (n, n)
    for n in ("max2", "l2_2"):
        s += "VP_W w_rel_%s(const double *a, double *x, double *r) { O::rel_error_%s<double> op(a[0], a[1], a[2], a[3]); r[0] = op(x[0], x[1], x[2], x[3], x[4]); }\n" % (n, n)
    return s


def w_thrust():
    s = "#include <vp.hpp>\n#include <thrust/tuple.h>\n#include <thrust/iterator/zip_iterator.h>\n" + inc("external/thrust/thrust_operations") + "using namespace boost::numeric::odeint; typedef thrust_operations O;\n"
    for n in range(2, 8):
        ar = ", ".join("a[%d]" % i for i in range(n))
        tt = "thrust::tuple<%s>" % ",".join(["double&"] * (n + 1))
        s += "VP_W w_sum%d(const double *a, double *x) { O::scale_sum%d<double> op(%s); op(%s(%s)); }\n" % (n, n, ar, tt, ", ".join("x[%d]" % i for i in range(n + 1)))
        for al in range(1, n + 1):
            s += "VP_W w_sum%d_alias%d(const double *a, double *x) { O::scale_sum%d<double> op(%s); op(%s(x[%d], %s)); }\n" % (n, al, n, ar, tt, al, ", ".join("x[%d]" % i for i in range(1, n + 1)))
    t3 = "thrust::tuple<double&,double&,double&>(x[0], x[1], x[2])"
    s += "VP_W w_swap(const double *a, double *x) { O::scale_sum_swap2<double> op(a[0], a[1]); op(%s); }\n" % t3
    s += "VP_W w_rel(const double *a, double *x) { O::rel_error<double> op(a[0], a[1], a[2], a[3]); op(%s); }\n" % t3
    return s


def w_mkl():
    s = "#include <vp.hpp>\n" + inc("external/mkl/mkl_operations") + "using namespace boost::numeric::odeint; typedef mkl_operations O;\n"
    for n in range(2, 6):
        ar = ", ".join("a[%d]" % i for i in range(n))
        s += "VP_W w_sum%d(const double *a, X1 *x) { O::scale_sum%d<double> op(%s); op(%s); }\n" % (n, n, ar, ", ".join("x[%d]" % i for i in range(n + 1)))
        s += "VP_W w_sum%d_alias1(const double *a, X1 *x) { O::scale_sum%d<double> op(%s); op(x[1], %s); }\n" % (n, n, ar, ", ".join("x[%d]" % i for i in range(1, n + 1)))
    return s


THR = ("-DTHRUST_DEVICE_SYSTEM=THRUST_DEVICE_SYSTEM_CPP", "-DTHRUST_HOST_SYSTEM=THRUST_HOST_SYSTEM_CPP", "-D__host__=", "-D__device__=")


def has_thrust():
    return os.path.exists("/usr/include/thrust/tuple.h") or os.path.exists("/usr/local/include/thrust/tuple.h")


def prog(m, w):
    it = Interp(m, {})
    it.loopstack = []
    Ab, X, R = Interp.base("A"), Interp.base("X"), Interp.base("R")
    n = 15
    for i in range(n):
        it.store(A.op_add(Ab, const(8 * i)), sym("a%d" % i))
        it.store(A.op_add(X, const(8 * i)), sym("x%d" % i))
    f = m.func(w)
    it.run(w, [Ab, X, R][:3 if w in ("w_max",) or w.startswith("w_rel_") else 2])
    xs = [it.load(A.op_add(X, const(8 * i))) for i in range(n)]
    as_ = [it.load(A.op_add(Ab, const(8 * i))) for i in range(n)]
    return it, xs, as_, it.load(R)


def lin(n):
    s = const(0)
    for i in range(n):
        s = A.op_add(s, A.op_mul(sym("a%d" % i), sym("x%d" % (i + 1))))
    return s


def expect(w):
    """-> {index: expected} of the changed elements, expected return value"""
    a = [sym("a%d" % i) for i in range(15)]
    x = [sym("x%d" % i) for i in range(15)]
    ab = A.op_fabs
    add, mul, div = A.op_add, A.op_mul, A.op_div

    def mx(u, v):
        return A.ite(A.apply("lt", lambda d: A.sign_value(d, A.ONE, A.ZERO, A.ZERO), A.op_sub(u, v)), v, u)
    if w == "w_scale":
        return {0: mul(a[0], x[0])}, None
    if w.startswith("w_sum"):
        q = w[5:].split("_alias")
        n = int(q[0])
        return {(int(q[1]) if len(q) > 1 else 0): lin(n)}, None
    if w == "w_swap":
        return {0: lin(2), 1: x[0]}, None
    den4 = lambda u, v: add(a[0], mul(a[1], add(mul(a[2], ab(u)), mul(a[3], ab(v)))))
    if w == "w_rel":
        return {0: div(ab(x[0]), den4(x[1], x[2]))}, None
    if w == "w_drel":
        return {0: div(ab(x[0]), add(a[0], mul(a[1], mx(ab(x[1]), ab(x[2])))))}, None
    if w == "w_max":
        return {}, mx(ab(x[0]), ab(x[1]))
    if w in ("w_rel_max", "w_rel_l2"):
        r = div(ab(x[3]), add(a[0], mul(a[1], mx(ab(x[1]), ab(x[2])))))
        return {}, (mx(x[0], r) if w == "w_rel_max" else add(x[0], mul(r, r)))
    if w in ("w_rel_max2", "w_rel_l2_2"):
        r = div(ab(x[4]), den4(x[1], x[3]))
        return {}, (mx(x[0], r) if w == "w_rel_max2" else add(x[0], mul(r, r)))
    raise KeyError(w)


def same(u, v):
    """equal on every feasible sign cell"""
    if A.approx_equal(u, v):
        return True
    for cons, (p, q) in A.cells(A.ONE, [u, v]):
        if not A.feasible(cons):
            continue
        if A.approx_equal(p, q):
            continue
        d = A.op_sub(p, q)
        # equal values on a boundary cell (both arguments of a maximum agree)
        if isinstance(d, Poly) and A.sign_in(cons, d) == "0":
            continue
        return False
    return True


def run(c):
    jobs = [(w_default(), "c17d", ()), (w_mkl(), "c17m", ("-I" + os.path.join(vp.ROOT, "witness", "stub"),)), (gen_witness(), "generic", ())]
    if has_thrust():
        jobs.append((w_thrust(), "c17t", THR))
    mods = vp.build_many(jobs)
    for m in mods:
        if isinstance(m, Exception):
            raise m
    for lib, m in zip(("default_operations", "mkl_operations", None, "thrust_operations"), mods):
        c.analysed(m)
        if lib is None:
            generic(c, m)
            continue
        for w in sorted(k for k in m.funcs if k.startswith("w_")):
            it, xs, as_, r = prog(m, w)
            c.analysed(m, lib + w, it)
            inst = "%s %s" % (lib, w[2:].replace("sum", "scale_sum").replace("_alias", ", target is input ") if not w.startswith("w_scale") else "scale")
            ex, er = expect(w)
            f = m.func(w)
            site = "include/boost/numeric/odeint/" + ("algebra/default_operations.hpp" if lib[0] == "d" else "external/%s/%s.hpp" % (lib.split("_")[0], lib)) + ": " + w[2:]
            for i in range(15):
                want = ex.get(i, sym("x%d" % i))
                if i in ex or not A.approx_equal(xs[i], want):
                    c.check(inst + ": argument %d" % i, same(xs[i], want), "%r expected %r" % (xs[i], want), site)
            c.check(inst + ": coefficients untouched", all(A.approx_equal(as_[i], sym("a%d" % i)) for i in range(15)), "", site)
            if er is not None:
                c.check(inst + ": result", same(r, er), "%r expected %r" % (r, er), site)


if __name__ == "__main__":
    sys.exit(vp.main("C17", RULE, run, minimum=250))
