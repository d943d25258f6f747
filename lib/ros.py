"""rosenbrock4: witnesses with an opaque linear solver, scheme extraction, order conditions"""
from fractions import Fraction as Fr
import vp, rk, cont
import absint as A
from absint import const, is_const, cval
from interp import Interp, loc_str
from rkset import sym, inc

FLAGS = ()
# The linear algebra of uBLAS is opaque: factorisation and substitution become events.
PRE = r"""
#include <vp.hpp>
#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/ublas/matrix.hpp>
#define lu_factorize vp_real_lu_factorize
#define lu_substitute vp_real_lu_substitute
#include <boost/numeric/ublas/lu.hpp>
#undef lu_factorize
#undef lu_substitute
extern "C" {
void vp_f(const double *x, double *d, double t) noexcept;      // right-hand side, two components
void vp_jac(const double *x, double *j, double t, double *dfdt) noexcept;
void vp_jac2(const double *x, double *j, double t) noexcept;
double vp_luf(double *m, unsigned long rows, unsigned long cols, unsigned long *pm) noexcept;
void vp_lus(const double *m, const unsigned long *pm, double *v) noexcept;
}
namespace boost { namespace numeric { namespace ublas {
template<class M, class PM> typename M::size_type lu_factorize(M &m, PM &pm) { return vp_luf(&m.data()[0], m.size1(), m.size2(), &pm[0]); }
template<class M, class PM, class T, class A> void lu_substitute(const M &m, const PM &pm, vector<T, A> &v) { vp_lus(&m.data()[0], &pm[0], &v.data()[0]); }
}}}
// dense stand-in for the identity matrix of uBLAS, whose sparse assignment path is of no interest here
#include <boost/numeric/odeint/util/ublas_wrapper.hpp>
namespace boost { namespace numeric { namespace ublas {
template<class T> struct vp_identity_matrix : matrix<T> { explicit vp_identity_matrix(std::size_t n) : matrix<T>(n, n) { for(std::size_t i = 0; i < n; ++i) for(std::size_t j = 0; j < n; ++j) (*this)(i, j) = T(i == j ? 1 : 0); } };
}}}
#define identity_matrix vp_identity_matrix
#include <boost/numeric/odeint/stepper/rosenbrock4.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_controller.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_dense_output.hpp>
#include <boost/numeric/odeint/stepper/implicit_euler.hpp>
using namespace boost::numeric::odeint;
namespace ub = boost::numeric::ublas;
typedef ub::vector<double> V; typedef ub::matrix<double> M;
struct RF { void operator()(const V &x, V &d, double t) const { vp_f(&x.data()[0], &d.data()[0], t); } };
struct RJ { void operator()(const V &x, M &j, double t, V &dfdt) const { vp_jac(&x.data()[0], &j.data()[0], t, &dfdt.data()[0]); } };
struct RJ2 { void operator()(const V &x, M &j, double t) const { vp_jac2(&x.data()[0], &j.data()[0], t); } };
typedef rosenbrock4<double> Ros;
// a controller that accepts every step
struct Always {
  typedef Ros stepper_type; typedef double value_type, time_type; typedef V state_type, deriv_type; typedef Ros::wrapped_state_type wrapped_state_type; typedef Ros::wrapped_deriv_type wrapped_deriv_type;
  typedef initially_resizer resizer_type; typedef controlled_stepper_tag stepper_category;
  Ros s; Ros &stepper() { return s; } const Ros &stepper() const { return s; }
  template<class Sy> controlled_step_result try_step(Sy sy, const V &x, double &t, V &y, double &dt) { V e(2); s.do_step(sy, x, t, y, dt, e); t += dt; return success; }
  template<class Sy> controlled_step_result try_step(Sy sy, V &x, double &t, double &dt) { V e(2), y(2); s.do_step(sy, x, t, y, dt, e); x = y; t += dt; return success; }
  template<class X> void adjust_size(const X &x) { s.adjust_size(x); }
};
typedef rosenbrock4_dense_output<Always> Rd;
inline V ld(const double *p) { V v(2); v[0] = p[0]; v[1] = p[1]; return v; }
inline void st(const V &v, double *p) { p[0] = v[0]; p[1] = v[1]; }
"""

N = 2


def F(i, xs, t):
    return A.app("F%d" % i, xs[0], xs[1], t)


def h_f(it, ev, args):
    xs = [it.load(A.op_add(args[0], const(8 * i))) for i in range(N)]
    ks = [F(i, xs, args[2]) for i in range(N)]
    for i in range(N):
        it.store(A.op_add(args[1], const(8 * i)), ks[i])
    ev.info = {"x": xs, "t": args[2]}
    it.emit(ev)


def h_jac(it, ev, args):
    xs = [it.load(A.op_add(args[0], const(8 * i))) for i in range(N)]
    for i in range(N * N):
        it.store(A.op_add(args[1], const(8 * i)), A.app("J%d" % i, xs[0], xs[1], args[2]))
    for i in range(N):
        if len(args) > 3:
            it.store(A.op_add(args[3], const(8 * i)), A.app("T%d" % i, xs[0], xs[1], args[2]))
    ev.info = {"x": xs, "t": args[2]}
    it.emit(ev)


def h_luf(it, ev, args):
    """the factors are opaque functions of the matrix that was factorised and of the initial pivots"""
    ms = [it.load(A.op_add(args[0], const(8 * i))) for i in range(N * N)]
    ps = [it.load(A.op_add(args[3], const(8 * i)), 8, "i64") for i in range(N)]
    ev.info = {"m": ms, "p": ps, "n": (args[1], args[2])}
    for i in range(N * N):
        it.store(A.op_add(args[0], const(8 * i)), A.app("LU%d" % i, *ms, *ps))
    for i in range(N):
        it.store(A.op_add(args[3], const(8 * i)), A.app("PIV%d" % i, *ms, *ps), 8, "i64")
    it.emit(ev)
    return A.ZERO


def h_lus(it, ev, args):
    lu = [it.load(A.op_add(args[0], const(8 * i))) for i in range(N * N)]
    ps = [it.load(A.op_add(args[1], const(8 * i)), 8, "i64") for i in range(N)]
    v = [it.load(A.op_add(args[2], const(8 * i))) for i in range(N)]
    ev.info = {"lu": lu, "p": ps, "rhs": v}
    for i in range(N):
        # the solution of the factorised system, component i
        it.store(A.op_add(args[2], const(8 * i)), A.app("G%d" % i, *v, *lu, *ps))
    it.emit(ev)


HANDLERS = {"vp_f": h_f, "vp_jac": h_jac, "vp_jac2": h_jac, "vp_luf": h_luf, "vp_lus": h_lus}

STEP_FORMS = {
    "out-of-place with error": "Ros s; V x = ld(px), y(2), e(2); s.do_step(std::make_pair(RF(), RJ()), x, t, y, dt, e); st(x, px); st(y, py); st(e, pe);",
    "in-place with error": "Ros s; V x = ld(px), e(2); s.do_step(std::make_pair(RF(), RJ()), x, t, dt, e); st(x, py); st(e, pe);",
    "out-of-place": "Ros s; V x = ld(px), y(2); s.do_step(std::make_pair(RF(), RJ()), x, t, y, dt); st(x, px); st(y, py);",
    "in-place": "Ros s; V x = ld(px); s.do_step(std::make_pair(RF(), RJ()), x, t, dt); st(x, py);",
    "second step": "Ros s; V x = ld(pz), y(2); s.do_step(std::make_pair(RF(), RJ()), x, t - dt, y, dt); x = ld(px); s.do_step(std::make_pair(RF(), RJ()), x, t, y, dt); st(y, py);",
}


def witness_step():
    s = PRE
    for i, k in enumerate(STEP_FORMS):
        s += "VP_W w_s%d(double *px, double *py, double *pe, double *pz, double t, double dt) { %s }\n" % (i, STEP_FORMS[k])
    return s


DENSE_FORMS = {
    "calc_state": "Ros s; V x = ld(px), y(2), e(2), o(2); s.do_step(std::make_pair(RF(), RJ()), x, t, y, dt, e); s.prepare_dense_output(); s.calc_state(t + th*dt, o, x, t, y, t + dt); st(y, py); st(o, po);",
    "calc_state, second step": "Ros s; V x = ld(pz), y(2), e(2), o(2); s.do_step(std::make_pair(RF(), RJ()), x, t - dt, y, dt, e); s.prepare_dense_output(); x = ld(px); s.do_step(std::make_pair(RF(), RJ()), x, t, y, dt, e); s.prepare_dense_output(); s.calc_state(t + th*dt, o, x, t, y, t + dt); st(y, py); st(o, po);",
    "copied stepper": "Ros s0; V x = ld(px), y(2), e(2), o(2); s0.do_step(std::make_pair(RF(), RJ()), x, t, y, dt, e); s0.prepare_dense_output(); Ros s(s0); s.calc_state(t + th*dt, o, x, t, y, t + dt); st(y, py); st(o, po);",
}

DENSE_FORMS["dense output, first step"] = "Rd s; V o(2); s.initialize(ld(px), t, dt); s.do_step(std::make_pair(RF(), RJ())); s.calc_state(t + th*dt, o); st(s.current_state(), py); st(o, po);"
DENSE_FORMS["dense output, second step"] = "Rd s; V o(2); s.initialize(ld(pz), t - dt, dt); s.do_step(std::make_pair(RF(), RJ())); V c = ld(px); const_cast<V&>(s.current_state()) = c; s.do_step(std::make_pair(RF(), RJ())); s.calc_state(t + th*dt, o); st(s.current_state(), py); st(o, po);"


def witness_dense():
    s = PRE
    for i, k in enumerate(DENSE_FORMS):
        s += "VP_W w_d%d(double *px, double *py, double *po, double *pz, double t, double dt, double th) { %s }\n" % (i, DENSE_FORMS[k])
    return s


def load2(it, b):
    return [it.load(A.op_add(b, const(8 * i))) for i in range(N)]


def setup(m):
    it = Interp(m, HANDLERS)
    it.loopstack = []
    B = {k: Interp.base(k) for k in ("PX", "PY", "PE", "PZ")}
    xs = [sym("x%d" % i) for i in range(N)]
    for i in range(N):
        it.store(A.op_add(B["PX"], const(8 * i)), xs[i])
        it.store(A.op_add(B["PZ"], const(8 * i)), sym("z%d" % i))
    return it, B, xs


def site(it):
    return next((e.where() for e in reversed(it.events) if e.name == "vp_lus"), "?")


def analyse_dense(m, form, c=None):
    i = list(DENSE_FORMS).index(form)
    it, B, xs = setup(m)
    t, dt, th = sym("t"), sym("dt"), sym("theta")
    it.run("w_d%d" % i, [B["PX"], B["PY"], B["PE"], B["PZ"], t, dt, th])
    if c:
        c.analysed(m, "rosenbrock4 dense " + form, it)
    return {"x": xs, "y": load2(it, B["PY"]), "out": load2(it, B["PE"]), "th": next(iter(A.poly_atoms(th))), "t": t, "dt": dt, "site": site(it), "it": it}


class NotRos(Exception):
    pass


class Scheme:
    """reads g_j = solve(rhs_j) stages off the normal form of one component"""

    def __init__(self, comp, xs, t, dt):
        self.i, self.xs, self.t, self.dt = comp, xs, t, dt
        self.dtid = next(iter(A.poly_atoms(dt)))
        self.idx = {}
        self.a, self.cc, self.al, self.ga, self.mat = [], [], [], [], []

    def const_div(self, p, power):
        """Poly known to be const * dt^power"""
        out = Fr(0)
        for m, k in p.terms:
            d = dict(m)
            e = d.pop(self.dtid, 0)
            if d or e != power:
                raise NotRos("coefficient %r is not a constant times dt^%d" % (p, power))
            out += Fr(k)
        return out

    def g_linear(self, p, power):
        """p = sum_j c_j dt^power g_j (component i) -> {j: c}"""
        acc = {}
        for m, k in p.terms:
            d = dict(m)
            gs = [a for a in d if A._atoms[a].kind == "app" and A._atoms[a].name.startswith("G") and d[a] == 1]
            if len(gs) != 1 or A._atoms[gs[0]].name != "G%d" % self.i:
                raise NotRos("term %s is not linear in this component of one stage" % A.mono_str(m))
            d.pop(gs[0])
            acc.setdefault(gs[0], {})[tuple(sorted(d.items()))] = k
        return {self.stage(g): self.const_div(A.mkpoly(q), power) for g, q in acc.items()}

    def state(self, comp_states):
        """[x0 + sum a_j g_j^0, x1 + sum a_j g_j^1] -> {j: a_j}, equal for both components"""
        p = A.p_add(comp_states[self.i], self.xs[self.i], -1)
        if not isinstance(p, A.Poly):
            raise NotRos("state depends on a condition")
        return self.g_linear(p, 0)

    def stage(self, aid):
        if aid in self.idx:
            return self.idx[aid]
        at = A._atoms[aid]
        rhs, lu, piv = at.args[:N], at.args[N:N + N * N], at.args[N + N * N:]
        r = rhs[self.i]
        # the single F term
        fs = [(m, k) for m, k in r.terms if len(m) == 1 and m[0][1] == 1 and A._atoms[m[0][0]].name == "F%d" % self.i and A._atoms[m[0][0]].kind == "app"]
        if len(fs) != 1 or fs[0][1] != 1:
            raise NotRos("the right-hand side of a stage is not one derivative plus a linear combination: %r" % (r,))
        fat = A._atoms[fs[0][0][0][0]]
        rest = A.mkpoly({m: k for m, k in r.terms if m != fs[0][0]})
        tt, gg = {}, {}
        for m, k in rest.terms:
            tat = [a for a, e in m if A._atoms[a].kind == "app" and A._atoms[a].name.startswith("T") and A._atoms[a].name[1:].isdigit()]
            (tt if tat else gg)[m] = k
        gi = Fr(0)
        for m, k in tt.items():
            d = dict(m)
            ta = [a for a in d if A._atoms[a].kind == "app" and A._atoms[a].name == "T%d" % self.i]
            if len(ta) != 1 or d.pop(ta[0]) != 1 or d.pop(self.dtid, 0) != 1 or d:
                raise NotRos("time derivative enters as %s" % A.mono_str(m))
            tatom = A._atoms[ta[0]]
            if list(tatom.args) != list(self.xs) + [self.t]:
                raise NotRos("time derivative taken elsewhere than at the beginning of the step")
            gi += Fr(k)
        crow = self.g_linear(A.mkpoly(gg), -1)
        arow = self.state(fat.args[:N])
        # both components of the stage state must be the same combination
        if A.mkpoly({}) is None:
            raise NotRos("")
        dtau = A.p_add(fat.args[N], self.t, -1)
        alpha = self.const_div(dtau, 1)
        j = len(self.a)
        self.idx[aid] = j
        self.a.append(arow)
        self.cc.append(crow)
        self.al.append(alpha)
        self.ga.append(gi)
        self.mat.append((lu, piv))
        return j

    def gamma(self):
        """1/gamma from the factorised matrix: W = 1/(gamma dt) I - J(x,t), pivots 0,1"""
        out = set()
        for lu, piv in self.mat:
            for q, p in enumerate(lu):
                at = single(p, "LU%d" % q)
                if at is None:
                    raise NotRos("the system is solved with %r, which is not a factorised matrix" % (p,))
                ms, ps = at.args[:N * N], at.args[N * N:]
                for k in range(N):
                    if ps[k] != const(k):
                        raise NotRos("the factorisation starts from pivots %r" % (ps,))
                for k in range(N * N):
                    jac = A.app("J%d" % k, *self.xs, self.t)
                    d = A.p_add(ms[k], jac, 1)
                    if k % (N + 1) == 0:
                        out.add(self.const_div(d, -1))
                    elif d.terms:
                        raise NotRos("off-diagonal matrix element %r is not -J" % (ms[k],))
            for k, p in enumerate(piv):
                at = single(p, "PIV%d" % k)
                if at is None:
                    raise NotRos("substitution with pivots %r that are not those of the factorisation" % (p,))
                if list(at.args) != list(single(lu[0], "LU0").args):
                    raise NotRos("pivots of another factorisation")
        if len(out) != 1:
            raise NotRos("different matrices are used: %r" % (out,))
        return 1 / out.pop()


def single(p, name):
    if len(p.terms) == 1 and p.terms[0][1] == 1 and len(p.terms[0][0]) == 1 and p.terms[0][0][0][1] == 1:
        at = A._atoms[p.terms[0][0][0][0]]
        if at.kind == "app" and at.name == name:
            return at
    return None


def untransform(S):
    """(alpha, Gamma) of the original scheme from a_ij, c_ij, gamma"""
    n = len(S.a)
    g = S.gamma()
    Gi = [[(1 / g if i == j else Fr(0)) - S.cc[i].get(j, Fr(0)) for j in range(n)] for i in range(n)]
    G = inv(Gi)
    Am = [[S.a[i].get(j, Fr(0)) for j in range(n)] for i in range(n)]
    al = mul(Am, G)
    return al, G, g


def inv(M):
    n = len(M)
    R = [row[:] + [Fr(int(i == j)) for j in range(n)] for i, row in enumerate(M)]
    for i in range(n):
        p = next((r for r in range(i, n) if R[r][i] != 0), None)
        if p is None:
            raise NotRos("singular")
        R[i], R[p] = R[p], R[i]
        f = R[i][i]
        R[i] = [v / f for v in R[i]]
        for r in range(n):
            if r != i and R[r][i] != 0:
                f = R[r][i]
                R[r] = [v - f * w for v, w in zip(R[r], R[i])]
    return [r[n:] for r in R]


def mul(X, Y):
    n = len(Y)
    return [[sum((x[k] * Y[k][j] for k in range(n)), Fr(0)) for j in range(len(Y[0]))] for x in X]


def phi(al, be, t, memo):
    """Rosenbrock elementary weights: beta below a node with one child, alpha below branching nodes"""
    if t in memo:
        return memo[t]
    n = len(al)
    M = be if len(t) == 1 else al
    r = [Fr(1)] * n
    for s in t:
        e = phi(al, be, s, memo)
        v = [sum((M[i][j] * e[j] for j in range(n)), Fr(0)) for i in range(n)]
        r = [p * q for p, q in zip(r, v)]
    memo[t] = r
    return r


def weights(S, mrow, G):
    """b = m Gamma for y = x + sum m_j g_j"""
    n = len(G)
    return [sum((mrow.get(k, Fr(0)) * G[k][j] for k in range(n)), Fr(0)) for j in range(n)]


def continuous(r, comp, order):
    S = Scheme(comp, r["x"], r["t"], r["dt"])
    try:
        S.state(r["y"])
        v = A.p_add(r["out"][comp], r["x"][comp], -1)
        if not isinstance(v, A.Poly):
            return [], 0, "interpolant depends on a condition"
        rows = {}
        for d, q in cont.theta_coeffs(v, r["th"]).items():
            rows[d] = S.g_linear(q, 0)
        al, G, g = untransform(S)
    except NotRos as e:
        return [], 0, str(e)
    n = len(G)
    be = [[al[i][j] + G[i][j] for j in range(n)] for i in range(n)]
    bp = {j: {} for j in range(n)}
    for d, row in rows.items():
        w = weights(S, row, G)
        for j in range(n):
            bp[j][d] = w[j]
    memo = {}
    bad, nn = cont.continuous_defects(rk.trees, rk.gamma, rk.size, lambda tr: phi(al, be, tr, memo), bp, order, Fr(1, 10 ** 8))
    return bad, nn, None
