"""generic Runge-Kutta steppers with symbolic user coefficients"""
import absint as A
from absint import const
from interp import Interp
from rkset import V, sym, sys_handler

GEN = """
#include <vp.hpp>
#include <boost/array.hpp>
#include <boost/fusion/container.hpp>
#include <boost/numeric/odeint/algebra/vector_space_algebra.hpp>
#include <boost/numeric/odeint/stepper/explicit_generic_rk.hpp>
#include <boost/numeric/odeint/stepper/explicit_error_generic_rk.hpp>
using namespace boost::numeric::odeint;
namespace fusion = boost::fusion;
extern "C" { extern const double UA[256]; extern const double UB[16]; extern const double UB2[16]; extern const double UC[16]; }
template<size_t N> boost::array<double,N> arr(const double *p) { boost::array<double,N> a; for (size_t i=0;i<N;++i) a[i]=p[i]; return a; }
template<class S, size_t N> struct mk;
"""

GSIZES = [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13]
ESIZES = [2, 3, 4, 5, 6, 13]


def gen_witness():
    s = GEN
    for n in GSIZES:
        s += "template<class S> struct mk<S,%d> { static typename S::coef_a_type a() { return typename S::coef_a_type(%s); } };\n" % (
            n, ",".join("arr<%d>(UA+%d)" % (i, 16 * (i - 1)) for i in range(1, n)))
        s += "typedef explicit_generic_rk<%d,3,%s> G%d;\n" % (n, V, n)
        s += "VP_W w_g%d(double &x, double t, double dt) { G%d s(mk<G%d,%d>::a(), arr<%d>(UB), arr<%d>(UC)); s.do_step(Sys(), x, t, dt); }\n" % (n, n, n, n, n, n)
    for n in ESIZES:
        s += "typedef explicit_error_generic_rk<%d,3,3,2,%s> E%d;\n" % (n, V, n)
        s += "VP_W w_e%d(double &x, double t, double dt, double &e) { E%d s(mk<E%d,%d>::a(), arr<%d>(UB), arr<%d>(UB2), arr<%d>(UC)); s.do_step(Sys(), x, t, dt, e); }\n" % (n, n, n, n, n, n, n)
    return s


def site_of(it):
    for e in reversed(it.events):
        if e.name == "vp_sys":
            return e.where()
    return "?"


def generic(c, m):
    c.analysed(m)
    x, t, dt = sym("x"), sym("t"), sym("dt")

    def cell(g, i):
        return A.patom(A.atom("app", "init", (A.patom(A.atom("sym", "@" + g, (), isbase=True, info=("global", g))), const(8 * i)), info=("f64", 8)))
    for kind, sizes in (("g", GSIZES), ("e", ESIZES)):
        for n in sizes:
            it = Interp(m, {"vp_sys": sys_handler})
            it.loopstack = []
            X, E = Interp.base("X"), Interp.base("E")
            it.store(X, x)
            it.run("w_%s%d" % (kind, n), [X, t, dt] + ([E] if kind == "e" else []))
            c.analysed(m, "generic %s%d" % (kind, n), it)
            inst = "explicit_%sgeneric_rk with %d stages" % ("error_" if kind == "e" else "", n)
            # expected value numbers built from the user's coefficients
            ks = []
            for i in range(n):
                xs = x
                for j in range(i):
                    xs = A.op_add(xs, A.op_mul(A.op_mul(dt, cell("UA", 16 * (i - 1) + j)), ks[j]))
                # documented: c[0] belongs to the first stage, which uses the derivative at t
                ts = t if i == 0 else A.op_add(t, A.op_mul(cell("UC", i), dt))
                ks.append(A.app("F", xs, ts))
            want = x
            for i in range(n):
                want = A.op_add(want, A.op_mul(A.op_mul(dt, cell("UB", i)), ks[i]))
            got = it.load(X)
            c.check(inst + ": every user coefficient in its place", A.approx_equal(got, want), "result %r\n   expected %r" % (got, want), site_of(it))
            if kind == "e":
                we = A.ZERO
                for i in range(n):
                    we = A.op_add(we, A.op_mul(A.op_mul(dt, cell("UB2", i)), ks[i]))
                c.check(inst + ": error weights in their place", A.approx_equal(it.load(E), we), "error %r\n   expected %r" % (it.load(E), we), site_of(it))
