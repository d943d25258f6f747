"""C04: symplectic splittings and velocity Verlet: structure, symplecticity and order conditions."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, rk
import absint as A
from absint import const, is_const, cval, Poly
from fractions import Fraction as Fr
from interp import Interp, changed
from rkset import sym, inc

RULE = ("One step of every symplectic stepper with opaque coordinate and momentum functions G(p), K(q) is brought to the normal form q + dt*sum a_i G(P_i), p + dt*sum b_j K(Q_j). "
        "The stage arguments must be shears (coordinate stages use only momentum evaluations and vice versa), the partitioned scheme must satisfy the symplecticity identity and all order "
        "conditions of partitioned Runge-Kutta methods (every rooted tree, both root colours) up to the reported order. All call forms, the momentum-function-only form with G = identity, "
        "later steps and copies must give the same normal form; velocity_verlet must equal its defining formula.")
TOL = Fr(1, 10 ** 9)
PRE = """#include <vp.hpp>
#include <boost/numeric/odeint/algebra/array_algebra.hpp>
%s
using namespace boost::numeric::odeint;
extern "C" { void vp_g(const double *p, double *dq) noexcept; void vp_k(const double *q, double *dp) noexcept; }
struct G { void operator()(const X1 &p, X1 &d) const { vp_g(&p[0], &d[0]); } };
struct K { void operator()(const X1 &q, X1 &d) const { vp_k(&q[0], &d[0]); } };
struct Ac { void operator()(const X1 &q, const X1 &p, X1 &a, double t) const { vp_sys2(&q[0], &p[0], &a[0], t); } };
typedef std::pair<X1, X1> PX;
typedef std::pair<boost::reference_wrapper<X1>, boost::reference_wrapper<X1> > PR;
inline PX mk(const X1 &q, const X1 &p) { return PX(q, p); }
""" % inc("stepper/symplectic_euler", "stepper/symplectic_rkn_sb3a_mclachlan", "stepper/symplectic_rkn_sb3a_m4_mclachlan", "stepper/velocity_verlet")
ST = ["symplectic_euler", "symplectic_rkn_sb3a_mclachlan", "symplectic_rkn_sb3a_m4_mclachlan"]
# SYS is replaced by the pair of functions or by the momentum function
FORMS = {
    "pair in place": "PX s = mk(q, p); st.do_step(SYS, s, t, dt); oq = s.first; op = s.second;",
    "pair of references": "oq = q; op = p; st.do_step(SYS, std::make_pair(boost::ref(oq), boost::ref(op)), t, dt);",
    "two states": "oq = q; op = p; st.do_step(SYS, oq, op, t, dt);",
    "out of place": "PX s = mk(q, p), r; st.do_step(SYS, s, t, r, dt); oq = r.first; op = r.second; q = s.first; p = s.second;",
    "out of place, same object": "PX s = mk(q, p); st.do_step(SYS, s, t, s, dt); oq = s.first; op = s.second;",
    "system by reference": "SYT sy = SYS; PX s = mk(q, p); st.do_step(boost::ref(sy), s, t, dt); oq = s.first; op = s.second;",
    "second step": "PX s0 = mk(z, z); st.do_step(SYS, s0, t - dt, dt); PX s = mk(q, p); st.do_step(SYS, s, t, dt); oq = s.first; op = s.second;",
    "copied stepper": "PX s0 = mk(z, z); st.do_step(SYS, s0, t - dt, dt); St st2(st); PX s = mk(q, p); st2.do_step(SYS, s, t, dt); oq = s.first; op = s.second;",
}
SYS = {"pair of functions": ("std::make_pair(G(), K())", "std::pair<G, K>"), "momentum function only": ("K()", "K")}
VV = {
    "pair in place": "PX s = mk(q, p); st.do_step(Ac(), s, t, dt); oq = s.first; op = s.second;",
    "pair of references": "oq = q; op = p; st.do_step(Ac(), std::make_pair(boost::ref(oq), boost::ref(op)), t, dt);",
    "explicit accelerations": "X1 a, b; Ac()(q, p, a, t); st.do_step(Ac(), q, p, a, oq, op, b, t, dt);",
    "explicit accelerations in place": "X1 a, b; oq = q; op = p; Ac()(q, p, a, t); st.do_step(Ac(), oq, op, a, oq, op, b, t, dt);",
    "initialised from the system": "st.initialize(Ac(), q, p, t); PX s = mk(q, p); st.do_step(Ac(), s, t, dt); oq = s.first; op = s.second;",
    "initialised with an acceleration": "X1 a; Ac()(q, p, a, t); st.initialize(a); PX s = mk(q, p); st.do_step(Ac(), s, t, dt); oq = s.first; op = s.second;",
    "after reset": "PX s0 = mk(z, z); st.do_step(Ac(), s0, t - dt, dt); st.reset(); PX s = mk(q, p); st.do_step(Ac(), s, t, dt); oq = s.first; op = s.second;",
    "after adjust_size": "st.adjust_size(q); PX s = mk(q, p); st.do_step(Ac(), s, t, dt); oq = s.first; op = s.second;",
}
VV2 = {
    "two steps": "PX s = mk(q, p); st.do_step(Ac(), s, t, dt); st.do_step(Ac(), s, t + dt, dt); oq = s.first; op = s.second;",
    "two steps, copied in between": "PX s = mk(q, p); st.do_step(Ac(), s, t, dt); St st2(st); st2.do_step(Ac(), s, t + dt, dt); oq = s.first; op = s.second;",
    "two steps, assigned in between": "PX s = mk(q, p); st.do_step(Ac(), s, t, dt); St st2; st2 = st; st2.do_step(Ac(), s, t + dt, dt); oq = s.first; op = s.second;",
    "two steps by reference": "oq = q; op = p; PR s(boost::ref(oq), boost::ref(op)); st.do_step(Ac(), s, t, dt); st.do_step(Ac(), s, t + dt, dt);",
}
ARGS = "X1 &q, X1 &p, X1 &z, X1 &oq, X1 &op, double t, double dt, unsigned long *o"


def witness(n):
    if n == "velocity_verlet":
        s = PRE + "typedef velocity_verlet<X1,X1,double,X1,double,double,array_algebra> St;\n"
        for i, b in enumerate(list(VV.values()) + list(VV2.values())):
            s += "VP_W w_%d(%s) { St st; vp_mark(0); %s *o = st.order(); }\n" % (i, ARGS, b)
        return s
    s = PRE + "typedef %s<X1,X1,double,X1,X1,double,array_algebra> St;\n" % n
    for k, (sn, (e, ty)) in enumerate(SYS.items()):
        for i, b in enumerate(FORMS.values()):
            s += "VP_W w_%d_%d(%s) { St st; typedef %s SYT; %s *o = st.order(); }\n" % (k, i, ARGS, ty, b.replace("SYS", e))
    return s


def handlers(identity):
    def h_g(it, ev, args):
        x = it.load(args[0])
        ev.info = {"arg": x}
        it.store(args[1], x if identity else A.app("G", x))
        it.emit(ev)

    def h_k(it, ev, args):
        x = it.load(args[0])
        ev.info = {"arg": x}
        it.store(args[1], A.app("K", x))
        it.emit(ev)

    def h_a(it, ev, args):
        q, v = it.load(args[0]), it.load(args[1])
        ev.info = {"q": q, "v": v, "t": args[3]}
        it.store(args[2], A.app("Acc", q, v, args[3]))
        it.emit(ev)
    return {"vp_g": h_g, "vp_k": h_k, "vp_sys2": h_a, "vp_mark": lambda it, ev, a: it.emit(ev)}


def evaluate(c, m, w, label, identity):
    it = Interp(m, handlers(identity))
    it.loopstack = []
    B = {k: Interp.base(k.upper()) for k in ("q", "p", "z", "oq", "op", "o")}
    for k in ("q", "p", "z"):
        it.store(B[k], sym(k))
    t, dt = sym("t"), sym("dt")
    it.run(w, [B[k] for k in ("q", "p", "z", "oq", "op")] + [t, dt, B["o"]])
    c.analysed(m, label, it)
    site = next((e.where() for e in reversed(it.events) if e.name != "vp_mark"), "?")
    return it, B, it.load(B["oq"]), it.load(B["op"]), it.load(B["o"], 8, "i64"), site


def run(c):
    names = ST + ["velocity_verlet"]
    mods = vp.build_many([(witness(n), "c04_" + n, ()) for n in names])
    for m in mods:
        if isinstance(m, Exception):
            raise m
    for n, m in zip(ST, mods):
        c.analysed(m)
        ref = {}
        for k, sn in enumerate(SYS):
            for i, fn in enumerate(FORMS):
                label = "%s %s, %s" % (n, sn, fn)
                it, B, q, p, o, site = evaluate(c, m, "w_%d_%d" % (k, i), label, False)
                c.check(label + ": inputs unchanged", it.load(B["q"]) is sym("q") and it.load(B["p"]) is sym("p"), "%r %r" % (it.load(B["q"]), it.load(B["p"])), site)
                if k not in ref:
                    ref[k] = (q, p)
                    if k == 0:
                        scheme(c, label, it, q, p, o, site)
                    else:
                        _, _, q1, p1, _, _ = evaluate(c, m, "w_0_0", label + " (reference)", True)
                        c.check(label + ": equals the pair form with dq/dt = p", A.approx_equal(q, q1) and A.approx_equal(p, p1), "%r, %r versus %r, %r" % (q, p, q1, p1), site)
                else:
                    c.check(label + ": same step as the first form", A.approx_equal(q, ref[k][0]) and A.approx_equal(p, ref[k][1]), "%r, %r versus %r, %r" % (q, p, *ref[k]), site)
    m = mods[-1]
    c.analysed(m)
    q, p, t, dt = sym("q"), sym("p"), sym("t"), sym("dt")

    def verlet(q, p, t, a0):
        q1 = A.op_add(A.op_add(q, A.op_mul(dt, p)), A.op_mul(const(Fr(1, 2)), A.op_mul(A.op_mul(dt, dt), a0)))
        a1 = A.app("Acc", q1, p, A.op_add(t, dt))
        p1 = A.op_add(p, A.op_mul(A.op_mul(const(Fr(1, 2)), dt), A.op_add(a0, a1)))
        return q1, p1, a1
    q1, p1, a1 = verlet(q, p, t, A.app("Acc", q, p, t))
    q2, p2, _ = verlet(q1, p1, A.op_add(t, dt), a1)
    for i, fn in enumerate(list(VV) + list(VV2)):
        label = "velocity_verlet " + fn
        it, B, gq, gp, o, site = evaluate(c, m, "w_%d" % i, label, False)
        wq, wp = (q1, p1) if i < len(VV) else (q2, p2)
        c.check(label + ": position", A.approx_equal(gq, wq), "%r expected %r" % (gq, wq), site)
        c.check(label + ": velocity", A.approx_equal(gp, wp), "%r expected %r" % (gp, wp), site)
        c.check(label + ": reported order is reached", is_const(o) and 1 <= cval(o) <= 2, repr(o), site)


def linear(poly, base, dt, fn):
    """base + dt*sum c_i fn(arg_i) -> {atom: c}, or None"""
    out = {}
    if not isinstance(poly, Poly):
        return None
    r = A.op_sub(poly, base)
    did = next(iter(A.poly_atoms(dt)))
    for mono, cf in r.terms:
        d = dict(mono)
        if d.pop(did, 0) != 1 or len(d) != 1:
            return None
        (aid, e), = d.items()
        a = A._atoms[aid]
        if e != 1 or a.kind != "app" or a.name != fn:
            return None
        out[aid] = out.get(aid, 0) + cf
    return out


def scheme(c, label, it, q, p, o, site):
    q0, p0, dt = sym("q"), sym("p"), sym("dt")
    qa = linear(q, q0, dt, "G")
    pb = linear(p, p0, dt, "K")
    c.check(label + ": coordinate update is a combination of coordinate-function values", qa is not None, repr(q), site)
    c.check(label + ": momentum update is a combination of momentum-function values", pb is not None, repr(p), site)
    if qa is None or pb is None:
        return
    # stages
    gs, ks = [], []

    def stage(aid, L):
        if aid in L:
            return True
        a = A._atoms[aid]
        other = ks if L is gs else gs
        inner = linear(a.args[0], p0 if L is gs else q0, dt, "K" if L is gs else "G")
        if inner is None:
            return False
        if not all(stage(b, other) for b in inner):
            return False
        L.append(aid)
        return True
    ok = all(stage(a, gs) for a in qa) and all(stage(a, ks) for a in pb)
    c.check(label + ": every stage is a shear of the other variable", ok, "", site)
    if not ok:
        return
    P = [linear(A._atoms[g].args[0], p0, dt, "K") for g in gs]
    Q = [linear(A._atoms[k].args[0], q0, dt, "G") for k in ks]
    a = [qa.get(g, Fr(0)) for g in gs]
    b = [pb.get(k, Fr(0)) for k in ks]
    for i, g in enumerate(gs):
        for j, k in enumerate(ks):
            v = a[i] * P[i].get(k, 0) + b[j] * Q[j].get(g, 0) - a[i] * b[j]
            c.check("%s: symplecticity identity (%d,%d)" % (label, i, j), abs(v) < TOL, str(float(v)), site)
    order = int(cval(o)) if is_const(o) else 99

    def phi(tree, col):
        n = len(gs) if col == 0 else len(ks)
        out = [Fr(1)] * n
        for ch in tree:
            v = phi(ch, 1 - col)
            for i in range(n):
                row = P[i] if col == 0 else Q[i]
                idx = ks if col == 0 else gs
                out[i] *= sum((row.get(idx[j], Fr(0)) * v[j] for j in range(len(idx))), Fr(0))
        return out
    for n in range(1, order + 1):
        for tr in rk.trees(n):
            for col, w in ((0, a), (1, b)):
                v = sum((x * y for x, y in zip(w, phi(tr, col))), Fr(0))
                c.count("order_conditions")
                c.check("%s: order %d, tree %s, root %s" % (label, n, rk.tree_str(tr), "qp"[col]), abs(v - Fr(1, rk.gamma(tr))) < TOL,
                        "%s instead of 1/%d" % (float(v), rk.gamma(tr)), site)


if __name__ == "__main__":
    sys.exit(vp.main("C04", RULE, run, minimum=150))
