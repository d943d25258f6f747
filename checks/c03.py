"""C03: Adams multistep steppers: quadrature weights, history indexing, start-up phase."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp
import absint as A
from absint import const, is_const, cval
from fractions import Fraction as Fr
from interp import Interp
from rkset import sys_handler, sym, inc

RULE = ("For every step number 1..8 a witness performs a history of steps with an independent symbolic state and time before each step (start-up, one and a half turns of the "
        "derivative buffer, then reset, initialize with the internal and with an external stepper, copies). The normal form of every step's result must be the initialising "
        "stepper's step while the history is short and x_n + dt*sum b_j F(x_{n-j}, t_{n-j}) afterwards, where b_j is computed here by exact integration of the "
        "interpolating polynomials; the corrector must use the derivative at the predicted state and new time. The number and arguments of the system evaluations must match.")
XA = "X1,double,X1,double,array_algebra"
PRE = "#include <vp.hpp>\n#include <boost/numeric/odeint/algebra/array_algebra.hpp>\n%s\nusing namespace boost::numeric::odeint;\n" % inc(
    "stepper/euler", "stepper/adams_bashforth", "stepper/adams_moulton", "stepper/adams_bashforth_moulton")


def weights(nodes):
    """exact weights of the interpolatory quadrature on [0,1]"""
    out = []
    for j, a in enumerate(nodes):
        p = [Fr(1)]
        for m, b in enumerate(nodes):
            if m != j:
                q = [Fr(0)] * (len(p) + 1)
                for i, c in enumerate(p):
                    q[i + 1] += c / (a - b)
                    q[i] -= c * b / (a - b)
                p = q
        out.append(sum(c / (i + 1) for i, c in enumerate(p)))
    return out


def ab(k):
    return weights([-j for j in range(k)])


def am(k):
    return weights([1] + [-j for j in range(k - 1)])


# history: list of ops; 's' step in place, 'o' step out of place, 'r' reset, 'i' initialize(), 'I' initialize(stepper), 'c' go on with a copy, 'a' go on with an assigned copy
def histories(k):
    return {
        "from the start": "s" * (2 * k + 1),
        "out of place": "o" * (k + 2),
        "after reset": "s" * (k + 1) + "r" + "s" * (k + 1),
        "reset during start-up": "s" * max(1, k - 2) + "r" + "s" * (k + 1),
        "initialize": "i" + "s" * (k + 1),
        "initialize with a stepper": "I" + "s" * (k + 1),
        "initialize again after a run": "s" * (k + 1) + "i" + "s" * (k + 1),
        "copied": "s" * (k + 1) + "c" + "ss",
        "assigned": "s" * (k + 1) + "a" + "ss",
    }


TYPES = {
    "adams_bashforth": "adams_bashforth<%d," + XA + ",default_operations,initially_resizer,Eu>",
    "adams_bashforth_moulton": "adams_bashforth_moulton<%d," + XA + ",default_operations,initially_resizer,Eu>",
}


def witness(name, k):
    s = PRE + "typedef euler<%s> Eu; typedef %s St;\n" % (XA, TYPES[name] % k)
    for hi, (hn, h) in enumerate(histories(k).items()):
        body, n, cur = "", 0, "s"
        for op in h:
            if op in "so":
                body += "vp_mark(%d); " % n
                body += ("%s.do_step(SysX(), x[%d], t[%d], dt);" if op == "s" else "%s.do_step(SysX(), x[%d], t[%d], y[" + str(n) + "], dt);") % (cur, n, n)
                n += 1
            elif op == "r":
                body += cur + ".reset(); "
            elif op in "iI":
                body += "vp_mark(-1); { Eu e; double tt = t[%d]; %s.initialize(%sSysX(), x[%d], tt, dt); t[%d] = tt; } vp_mark(-2); " % (n, cur, "e, " if op == "I" else "", n, n)
                n += 1
            elif op == "c":
                body += "St s2(s); "
                cur = "s2"
            elif op == "a":
                body += "vp_mark(-2); St s2; s2.do_step(SysX(), y[40], t[40], dt); s2 = s; "
                cur = "s2"
        s += "VP_W w_%d(X1 *x, double *t, X1 *y, double dt, unsigned long *o) { St s; %s *o = %s.order(); }\n" % (hi, body, cur)
    return s


def run(c):
    jobs = [(n, k) for n in TYPES for k in range(1, 9)]
    mods = vp.build_many([(witness(n, k), "c03_%s_%d" % (n, k), ()) for n, k in jobs] + [(moulton(), "c03_am", ())])
    for m in mods:
        if isinstance(m, Exception):
            raise m
    for (n, k), m in zip(jobs, mods):
        c.analysed(m)
        for hi, (hn, h) in enumerate(histories(k).items()):
            one(c, m, n, k, hi, hn, h)
    c.analysed(mods[-1])
    for k in range(1, 9):
        one_am(c, mods[-1], k)


def setup(m):
    it = Interp(m, {"vp_sys": sys_handler, "vp_mark": lambda it, ev, args: it.emit(ev)})
    it.loopstack = []
    X, T, Y, O = [Interp.base(b) for b in ("X", "T", "Y", "O")]
    for i in range(41):
        it.store(A.op_add(X, const(8 * i)), sym("x%d" % i))
        it.store(A.op_add(Y, const(8 * i)), sym("y%d" % i))
        it.store(A.op_add(T, const(8 * i)), sym("t%d" % i))
    return it, X, T, Y, O


def F(x, t):
    return A.app("F", x, t)


def lin(x, dt, ws):
    r = x
    for w, f in ws:
        r = A.op_add(r, A.op_mul(A.op_mul(const(w), dt), f))
    return r


def one(c, m, name, k, hi, hn, h):
    it, X, T, Y, O = setup(m)
    dt = sym("dt")
    it.run("w_%d" % hi, [X, T, Y, dt, O])
    label = "%s<%d> %s" % (name, k, hn)
    c.analysed(m, label, it)
    site = next((e.where() for e in reversed(it.events) if e.name == "vp_sys"), "?")
    o = it.load(O, 8, "i64")
    c.check(label + ": reported order", is_const(o) and cval(o) == k, repr(o), site)
    # split the events by marks
    groups, cur = [], None
    for e in it.events:
        if e.name == "vp_mark":
            cur = []
            if int(cval(e.args[0])) % 2 ** 32 != 2 ** 32 - 2:
                groups.append(cur)
        elif e.name == "vp_sys" and cur is not None:
            cur.append(e)
    hist, n, started = [], 0, 0           # newest first: derivative terms
    B, M = ab(k), am(k)
    ok_all = True
    for op in h:
        if op in "so":
            evs = groups[n]
            x, t = sym("x%d" % n), sym("t%d" % n)
            f = F(x, t)
            got = it.load(A.op_add(X if op == "s" else Y, const(8 * n)))
            hist = [f] + hist
            if started + 1 < k:
                want, we, kind = lin(x, dt, [(1, f)]), [(x, t)], "start-up step"
                started += 1
            else:
                pred = lin(x, dt, list(zip(B, hist)))
                want, we, kind = pred, [(x, t)], "step"
                if name == "adams_bashforth_moulton":
                    tn = A.op_add(t, dt)
                    we = we + [(pred, tn)]
                    want = lin(x, dt, [(M[0], F(pred, tn))] + list(zip(M[1:], hist)))
            site = evs[-1].where() if evs else site
            c.check("%s: %s %d result" % (label, kind, n), A.approx_equal(got, want), "%r\n expected %r" % (got, want), site)
            same = len(evs) == len(we) and all(A.approx_equal(e.info["x"], a) and A.approx_equal(e.info["t"], b) for e, (a, b) in zip(evs, we))
            c.check("%s: %s %d system evaluations" % (label, kind, n), same, "%r expected %r" % ([(e.info["x"], e.info["t"]) for e in evs], we), site)
            n += 1
        elif op == "r":
            hist, started = [], 0
        elif op in "iI":
            x, t = sym("x%d" % n), sym("t%d" % n)
            hist = []
            we = []
            for i in range(k - 1):
                f = F(x, t)
                we.append((x, t))
                hist = [f] + hist
                x, t = lin(x, dt, [(1, f)]), A.op_add(t, dt)
            started = k
            got, gt = it.load(A.op_add(X, const(8 * n))), it.load(A.op_add(T, const(8 * n)))
            c.check("%s: state and time after initialize" % label, A.approx_equal(got, x) and A.approx_equal(gt, t), "%r at %r" % (got, gt), site)
            evs = groups[n]
            same = len(evs) == len(we) and all(A.approx_equal(e.info["x"], a) and A.approx_equal(e.info["t"], b) for e, (a, b) in zip(evs, we))
            c.check("%s: system evaluations of initialize" % label, same, "%r expected %r" % ([(e.info["x"], e.info["t"]) for e in evs], we), site)
            n += 1


def moulton():
    s = PRE
    for k in range(1, 9):
        b = "Buf<%d> buf; for(int i = 0; i < %d; ++i) buf.b[i].m_v[0] = y[i][0]; St s; " % (k, k)
        ty = "typedef adams_moulton<%d,%s> St; " % (k, XA)
        s += "VP_W w_a%d(X1 *x, double *t, X1 *y, double dt, unsigned long *o) { %s %s s.do_step(SysX(), x[0], x[1], t[0], dt, buf); *o = s.order(); }\n" % (k, ty, b)
        s += "VP_W w_b%d(X1 *x, double *t, X1 *y, double dt, unsigned long *o) { %s %s s.do_step(SysX(), x[0], x[1], t[0], x[2], dt, buf); *o = s.order(); }\n" % (k, ty, b)
    return s.replace("VP_W w_a1(", "template<int N> struct Buf { struct W { X1 m_v; }; W b[N]; const W &operator[](int i) const { return b[i]; } };\nVP_W w_a1(", 1)


def one_am(c, m, k):
    for form, out in (("a", 0), ("b", 2)):
        it, X, T, Y, O = setup(m)
        dt = sym("dt")
        it.run("w_%s%d" % (form, k), [X, T, Y, dt, O])
        label = "adams_moulton<%d> %s" % (k, "in place" if form == "a" else "out of place")
        c.analysed(m, label, it)
        M = am(k)
        got = it.load(A.op_add(X, const(8 * out)))
        want = lin(sym("x0"), dt, [(M[0], F(sym("x1"), sym("t0")))] + [(M[j + 1], sym("y%d" % j)) for j in range(k - 1)])
        site = next((e.where() for e in reversed(it.events) if e.name == "vp_sys"), "?")
        c.check(label + ": corrector", A.approx_equal(got, want), "%r expected %r" % (got, want), site)
        o = it.load(O, 8, "i64")
        c.check(label + ": reported order is that of the quadrature", is_const(o) and cval(o) == k, repr(o), "stepper/adams_moulton.hpp order_value")


if __name__ == "__main__":
    sys.exit(vp.main("C03", RULE, run, minimum=800))
