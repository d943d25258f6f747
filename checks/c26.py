"""C26: Rosenbrock order conditions and factorise-before-solve typestate; implicit Euler's Newton iteration."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, rk, ros
import absint as A
from absint import const
from fractions import Fraction as Fr
from interp import Interp
from rkset import sym

RULE = ("rosenbrock4 and implicit_euler are analysed with opaque right-hand side, Jacobian, LU factorisation and substitution on a two-component state. "
        "The scheme (a, c, alpha, gamma, weights) is read off the normal form of each component, transformed to the Rosenbrock form and must satisfy "
        "every order condition up to order 4 (embedded: 3), with stage times and time-derivative factors equal to the row sums. Every substitution must "
        "use factors and pivots of one factorisation, of exactly 1/(gamma dt) - J(x,t) (Newton: dt*J - 1), started from the identity permutation.")
TOL = Fr(1, 10 ** 9)

IE = """
typedef implicit_euler<double> Ie;
VP_W w_ie(double *px, double *py, double *pe, double *pz, double t, double dt) { Ie s; V x = ld(px); s.do_step(std::make_pair(RF(), RJ2()), x, t, dt); st(x, py); }
VP_W w_ie2(double *px, double *py, double *pe, double *pz, double t, double dt) { Ie s; V x = ld(pz); s.do_step(std::make_pair(RF(), RJ2()), x, t - dt, dt); x = ld(px); vp_mark(1); s.do_step(std::make_pair(RF(), RJ2()), x, t, dt); st(x, py); }
"""


def run(c):
    m = vp.build_ir(ros.witness_step() + IE, "c26", ros.FLAGS)
    c.analysed(m)
    for i, form in enumerate(ros.STEP_FORMS):
        it, B, xs = ros.setup(m)
        t, dt = sym("t"), sym("dt")
        it.run("w_s%d" % i, [B["PX"], B["PY"], B["PE"], B["PZ"], t, dt])
        c.analysed(m, "rosenbrock4 " + form, it)
        step(c, it, B, xs, t, dt, form)
    for w in ("w_ie", "w_ie2"):
        newton(c, m, w)


def step(c, it, B, xs, t, dt, form):
    y = ros.load2(it, B["PY"])
    e = ros.load2(it, B["PE"]) if "error" in form else None
    site = ros.site(it)
    for comp in range(ros.N):
        name = "rosenbrock4 %s, component %d" % (form, comp)
        S = ros.Scheme(comp, xs, t, dt)
        try:
            if not isinstance(y[comp], A.Poly):
                raise ros.NotRos("the result depends on a run-time condition")
            mrow = S.state(y)
            erow = S.g_linear(e[comp], 0) if e else None
            g = S.gamma()
            al, G, g = ros.untransform(S)
        except ros.NotRos as ex:
            c.check(name + ": linearly implicit scheme with the matrix 1/(gamma dt) - J of the step's beginning", False, str(ex), site)
            continue
        c.check(name + ": linearly implicit scheme with the matrix 1/(gamma dt) - J of the step's beginning", True)
        n = len(al)
        for j in range(n):
            c.check(name + ": time of stage %d is its row sum" % j, abs(sum(al[j]) - S.al[j]) < TOL, "%s versus %s" % (float(sum(al[j])), float(S.al[j])), site)
            c.check(name + ": time-derivative factor of stage %d is its row sum" % j, abs(sum(G[j]) - S.ga[j]) < TOL, "%s versus %s" % (float(sum(G[j])), float(S.ga[j])), site)
        be = [[al[i][j] + G[i][j] for j in range(n)] for i in range(n)]
        b = ros.weights(S, mrow, G)
        bad, nn = conditions(al, be, b, 4)
        c.count("order_conditions", nn)
        c.check(name + ": %d order conditions up to order 4" % nn, not bad, bad[:3], site)
        if e:
            eb = ros.weights(S, erow, G)
            emb = [p - q for p, q in zip(b, eb)]
            bad, nn = conditions(al, be, emb, 3)
            c.count("order_conditions", nn)
            c.check(name + ": %d order conditions of the embedded scheme up to order 3" % nn, not bad, bad[:3], site)
            bad, nn = conditions(al, be, emb, 4)
            c.check(name + ": error estimate is not trivial", bool(bad) and any(eb), "", site)


def conditions(al, be, b, p):
    memo, bad, n = {}, [], 0
    for q in range(1, p + 1):
        for tr in rk.trees(q):
            n += 1
            e = ros.phi(al, be, tr, memo)
            v = sum((x * y for x, y in zip(b, e)), Fr(0))
            if abs(v - Fr(1, rk.gamma(tr))) > TOL:
                bad.append("order %d tree %s: %s instead of 1/%d" % (q, rk.tree_str(tr), float(v), rk.gamma(tr)))
    return bad, n


def newton(c, m, w):
    """ghost cells: the state the next Newton iteration has to be evaluated at"""
    it, B, xs = ros.setup(m)
    GH = A.patom(A.atom("sym", "ghost", (), isbase=True, info="ghost"))
    t, dt = sym("t"), sym("dt")
    second = w == "w_ie2"
    recs = []

    def gcell(i):
        return A.op_add(GH, const(8 * i))

    def h_f(it, ev, args):
        ros.h_f(it, ev, args)
        recs.append(("f", ev, ev.info["x"], [it.load(gcell(i)) for i in range(2)], args[2]))
        for i in range(2):
            it.store(gcell(2 + i), ev.info["x"][i])

    def h_lus(it, ev, args):
        cur = [it.load(gcell(2 + i)) for i in range(2)]
        ros.h_lus(it, ev, args)
        recs.append(("s", ev, cur, ev.info, None))
        for i in range(2):
            g = it.load(A.op_add(args[2], const(8 * i)))
            it.store(gcell(i), A.op_sub(cur[i], g))

    def mark(it, ev, args):
        recs[:] = []
        for i in range(2):
            it.store(gcell(i), xs[i])
    for i in range(2):
        it.store(gcell(i), xs[i] if not second else sym("z%d" % i))
    it.handlers = dict(ros.HANDLERS, vp_f=h_f, vp_lus=h_lus, vp_mark=mark)
    it.run(w, [B["PX"], B["PY"], B["PE"], B["PZ"], t, dt])
    c.analysed(m, w, it)
    name = "implicit_euler" + (" (second step)" if second else "")
    tn = A.op_add(t, dt)
    last = {}
    for kind, ev, cur, info, tt in recs:          # later rounds of a fixpoint supersede earlier ones
        last[(kind, ev.instr)] = (kind, ev, cur, info, tt)
    ns = 0
    for kind, ev, cur, info, tt in last.values():
        where = ev.where()
        if kind == "f":
            ok = all(A.approx_equal(p, q) for p, q in zip(cur, info))
            c.check("%s: system evaluated at the current Newton iterate (%d)" % (name, ns), ok, "%r versus %r" % (cur, info), where)
            c.check("%s: system evaluated at the end of the step (%d)" % (name, ns), A.approx_equal(tt, tn), repr(tt), where)
            continue
        ns += 1
        res = None
        for i in range(2):
            want = A.op_add(A.op_sub(xs[i], cur[i]), A.op_mul(dt, A.app("F%d" % i, cur[0], cur[1], tn)))
            c.check("%s: solve %d right-hand side component %d is the residual" % (name, ns, i), A.approx_equal(info["rhs"][i], want), "%r\n versus %r" % (info["rhs"][i], want), where)
        bad = factor_defect(info, dt, tn)
        c.check("%s: solve %d uses a fresh factorisation of dt*J - 1" % (name, ns), bad is None, bad or "", where)
    c.check("%s: initial and repeated Newton solve found" % name, ns >= 2 or not it.events, "", "")
    y = ros.load2(it, B["PY"])
    fin = [it.load(gcell(i)) for i in range(2)]
    c.check("%s: result is the last Newton iterate" % name, all(A.approx_equal(p, q) for p, q in zip(y, fin)), "%r versus %r" % (y, fin), "")


def factor_defect(info, dt, tn):
    for q, p in enumerate(info["lu"]):
        at = ros.single(p, "LU%d" % q) if isinstance(p, A.Poly) else None
        if at is None:
            return "factor %r is not the result of a factorisation" % (p,)
        ms, ps = at.args[:4], at.args[4:]
        if [p for p in ps] != [const(0), const(1)]:
            return "factorisation starts from the pivots %r" % (ps,)
        for k in range(4):
            d = A.p_add(ms[k], const(1), 1) if k in (0, 3) else ms[k]
            js = [a for a in A.poly_atoms(d) if A._atoms[a].kind == "app" and A._atoms[a].name == "J%d" % k]
            if len(js) != 1 or A.op_mul(dt, A.patom(A._atoms[js[0]])) is not d:
                return "matrix element %r is not dt*J - 1" % (ms[k],)
            if A._atoms[js[0]].args[2] is not tn:
                return "Jacobian taken at another time"
    for q, p in enumerate(info["p"]):
        at = ros.single(p, "PIV%d" % q) if isinstance(p, A.Poly) else None
        if at is None or list(at.args) != list(ros.single(info["lu"][0], "LU0").args):
            return "pivots %r are not those of the factorisation" % (p,)
    return None


if __name__ == "__main__":
    sys.exit(vp.main("C26", RULE, run, minimum=60))
