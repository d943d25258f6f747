"""C14 beyond the steppers of objs: ODE iterators, Rosenbrock steppers over uBLAS, state wrappers that own memory"""
import vp, objs, ros
from objs import Obj, P, inc
from interp import Interp
from absint import const, op_add, is_const, cval
import absint as A
from fractions import Fraction as Fr
from rkset import sym

ST = {"stepper": "runge_kutta4<%s>" % (P % "initially_resizer"),
      "controlled": objs.typ("controlled_runge_kutta<dopri5>", "initially_resizer").replace("%s", "initially_resizer"),
      "dense": objs.typ("dense_output_runge_kutta<dopri5>", "initially_resizer").replace("%s", "initially_resizer")}
IT = [("const_step", "E.t, E.t + 100.0, E.dt", ("stepper", "dense")), ("n_step", "E.t, E.dt, 100", ("stepper", "dense")), ("adaptive", "E.t, E.t + 100.0, E.dt", ("controlled", "dense")),
      ("times", "times, times + 8, E.dt", ("stepper", "controlled", "dense"))]


def iterators():
    for n, args, cats in IT:
        for c in cats:
            for time in ("", "_time"):
                yield n + time, c, args


def kind(n, c):
    return "it_%s_%s" % (n, c)


def it_witness(n, c, args):
    k = kind(n, c)
    t = "%s_iterator<%s, Sy, RX%s>" % (n, ST[c], ", const double *" if n.startswith("times") else "")
    s = objs.PRE + inc("iterator/%s_iterator" % n) + "static const double times[8] = {0.0, 0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 1.75};\nnamespace %s { typedef %s T; typedef %s S;\n" % (k, t, ST[c])
    get = "(*s).first" if n.endswith("_time") else "*s"
    s += "VP_W %s(T &s, Env &E) { new (&s) T(S(), Sy(), E.x, %s); }\n" % (objs.wname(k, "i", "begin"), args)
    s += "VP_W %s(T &s, const T &o) { new (&s) T(o); }\nVP_W %s(T &s, const T &o) { s = o; }\n" % (objs.wname(k, "i", "copy"), objs.wname(k, "i", "assign"))
    s += "VP_W %s(T &s, Env &E) { ++s; E.y = %s; }\n" % (objs.wname(k, "i", "next"), get)
    return s + "}\n"


def it_job(a):
    n, c, args = a
    k = kind(n, c)
    m = vp.build_ir(it_witness(n, c, args), "z" + k)
    out = []

    def start(steps):
        o = Obj(m, k, "i", lambda i: const(Fr(7, 10)))
        o.numeric = True
        o.fill(objs.SIZES[0], "I")
        o.call("begin")
        for _ in range(steps):
            o.call("next")
        return o

    def see(o):
        return o.get("x"), o.get("y"), tuple(o.calls)
    for steps in (0, 1, 2, 3):
        ref = start(steps)
        ref.call("next")
        want = see(ref)
        for how in ("copy construction", "copy assignment"):
            o = start(steps)
            if how == "copy assignment":
                o.call("begin", "b")
                o.assign("a", "b")
            else:
                o.copy("a", "b")
            o.poison("a")
            o.call("next", "b")
            got = see(o)
            det = "" if got == want else "%s instead of %s" % next((str(g)[:300], str(w)[:300]) for g, w in zip(got, want) if g != w)
            out.append(("%s_iterator, %s: %d increments, %s, another increment" % (n, c, steps, how), got == want, det, ""))
    return out, m.headers


# -- Rosenbrock: the copy goes on after the original made another step and was destroyed
RB = {
    "rosenbrock4": ("Ros", "s.do_step(std::make_pair(RF(), RJ()), x, t, y, dt, e); s.prepare_dense_output();", "s.calc_state(t + th*dt, o, x, t, y, t + dt);"),
    "rosenbrock4, the next step": ("Ros", "s.do_step(std::make_pair(RF(), RJ()), x, t, y, dt, e);", "s.do_step(std::make_pair(RF(), RJ()), y, t + dt, o, dt, e);"),
    "rosenbrock4_dense_output": ("Rd", "s.initialize(x, t, dt); s.do_step(std::make_pair(RF(), RJ()));", "s.calc_state(t + th*dt, o);"),
    "rosenbrock4_dense_output, the next step": ("Rd", "s.initialize(x, t, dt); s.do_step(std::make_pair(RF(), RJ()));", "s.do_step(std::make_pair(RF(), RJ())); o = s.current_state();"),
}
OTHER = "{ T &q = *p; V x = ld(pz), y(2), e(2); %s } delete p;"
OTH = {"Ros": "q.do_step(std::make_pair(RF(), RJ()), x, t - dt, y, dt, e); q.prepare_dense_output();", "Rd": "q.initialize(x, t - dt, dt); q.do_step(std::make_pair(RF(), RJ()));",
       "implicit_euler<double>": "q.do_step(std::make_pair(RF(), RJ2()), x, t, dt);"}
HOW = {"the original itself": "T &s = *p; %(b)s", "copy construction": "T s(*p); " + OTHER + " %(b)s", "copy assignment": "T s; { T &q = s; V x = ld(pz), y(2), e(2); %(o)s } s = *p; " + OTHER + " %(b)s",
       "using the copy": "{ T *k = p; T *p = new T(*k); " + OTHER + " } T &s = *p; %(b)s"}


def ros_job(_):
    src = ros.PRE
    w = {}
    for i, (k, (t, pre, post)) in enumerate(RB.items()):
        for j, (h, code) in enumerate(HOW.items()):
            code = code.replace(OTHER, OTHER % "%(o)s") % {"o": OTH[t], "b": post}
            nm = "w_%d_%d" % (i, j)
            w[k, h] = nm
            src += "VP_W %s(double *px, double *pz, double *po, double t, double dt, double th) { typedef %s T; V x = ld(px), y(2), e(2), o(2); T *p = new T; { T &s = *p; %s } %s st(o, po); }\n" % (nm, t, pre, code)
    m = vp.build_ir(src, "zros")
    import absint
    out = []

    def run(nm):
        it = Interp(m, ros.HANDLERS)
        it.loopstack = []
        it.unroll_decided = True
        X, Z, O = Interp.base("X"), Interp.base("Z"), Interp.base("O")
        it.run(nm, [X, Z, O, sym("t"), sym("h", sign="+"), sym("th")])
        return [it.load(op_add(O, const(8 * i))) for i in range(2)]
    for k in RB:
        want = run(w[k, "the original itself"])
        for h in HOW:
            if h != "the original itself":
                got = run(w[k, h])
                out.append(("%s: %s" % (k, h), got == want, "" if got == want else "%s instead of %s" % (str(got[0])[:300], str(want[0])[:300]), ""))
    return out, m.headers


# -- gsl_vector: ownership
GSL = """#include <vp.hpp>
#include <new>
#include <boost/numeric/odeint/external/gsl/gsl_wrapper.hpp>
#include <boost/numeric/odeint/util/resize.hpp>
using namespace boost::numeric::odeint;
typedef gsl_vector *G; typedef state_wrapper<G> W;
VP_W w_new(W &a) { new (&a) W; }
VP_W w_copy(W &a, const W &o) { new (&a) W(o); }
VP_W w_assign(W &a, const W &o) { a = o; }
VP_W w_destroy(W &a) { a.~W(); }
VP_W w_odeint_copy(W &a, const W &o) { copy(o.m_v, a.m_v); }
VP_W w_resize(W &a, const W &o) { resize(a.m_v, o.m_v); }
"""


class Gsl:
    def __init__(self, m):
        self.it = Interp(m, {"gsl_vector_alloc": self.alloc, "gsl_vector_free": self.free, "gsl_vector_memcpy": self.cpy})
        self.it.loopstack = []
        self.live, self.bad, self.n = {}, [], 0
        self.content, self.names = {}, {}

    def alloc(self, it, ev, args):
        self.n += 1
        p = Interp.base("vec%d" % self.n)
        self.live[p] = True
        it.store(p, args[0], 8, "i64")
        self.content[p] = "unset%d" % self.n
        ev.ret = p
        it.emit(ev)
        return p

    def free(self, it, ev, args):
        if not self.live.get(args[0]):
            self.bad.append("%s is freed, which is not an allocated vector" % args[0])
        self.live[args[0]] = False
        it.emit(ev)

    def size(self, p):
        return self.it.load(p, 8, "i64")

    def cpy(self, it, ev, args):
        d, s = args[:2]
        if not (self.live.get(d) and self.live.get(s)):
            self.bad.append("copying %s to %s, which are not both allocated" % (s, d))
        elif self.size(d) != self.size(s):
            self.bad.append("copying a vector into one of another size")
        self.content[d] = self.content.get(s)
        it.emit(ev)
        return const(0)

    def call(self, f, *names):
        self.it.run("w_" + f, [self.names.setdefault(n, Interp.base("W" + n)) for n in names])

    def ptr(self, n):
        return self.it.load(self.names[n], 8, "ptr")


def gsl(out):
    m = vp.build_ir(GSL, "zgsl")

    def start(target):
        g = Gsl(m)
        g.call("new", "u")                      # the caller's vector
        g.it.store(g.ptr("u"), const(3), 8, "i64")
        g.call("new", "a")
        g.call("resize", "a", "u")
        g.content[g.ptr("a")] = "A"
        if target:
            g.call("new", "b")
            if target == "of the same size":
                g.call("resize", "b", "u")
        return g
    for how, target in (("copy construction", None), ("copy assignment", "of another size"), ("copy assignment", "of the same size"), ("odeint::copy", "of the same size")):
        g = start(target)
        if how == "copy construction":
            g.call("copy", "b", "a")
        elif how == "copy assignment":
            g.call("assign", "b", "a")
        else:
            g.call("odeint_copy", "b", "a")
        lab = "state_wrapper<gsl_vector *>, %s%s: " % (how, " over one " + target if target else "")
        a, b = g.ptr("a"), g.ptr("b")
        out.append((lab + "a vector of its own", a is not b and bool(g.live.get(b)), "both hold %s" % b, ""))
        out.append((lab + "same size and content", g.content.get(b) == "A" and g.content.get(a) == "A" and bool(g.live.get(b)) and g.size(b) == const(3), "content %s" % g.content.get(b), ""))
        g.call("destroy", "a")
        out.append((lab + "the copy outlives the original", bool(g.live.get(b)) and g.content.get(b) == "A", "", ""))
        g.call("destroy", "b")
        g.call("destroy", "u")
        out.append((lab + "every vector is freed exactly once", not g.bad and not any(g.live.values()), "; ".join(g.bad) or "leaked: %s" % [str(p) for p in g.live if g.live[p]], ""))
    return m.headers


def check(c):
    res = vp.pmap(it_job, list(iterators())) + vp.pmap(ros_job, [0])
    out = []
    res.append((out, gsl(out)))
    for r, headers in res:
        c.headers.update(h.split("/include/")[-1] for h in headers)
        for x in r:
            c.check(*x)
    # no member keeps a stepper from being copied or assigned
    for t in ("rosenbrock4<double>", "rosenbrock4_controller< rosenbrock4<double> >", "rosenbrock4_dense_output< rosenbrock4_controller< rosenbrock4<double> > >", "implicit_euler<double>"):
        for op, code in (("constructed", "%s f(const %s &o) { return %s(o); }" % (t, t, t)), ("assigned", "void f(%s &s, const %s &o) { s = o; }" % (t, t))):
            vp.compiles(c, "%s can be copy %s" % (t, op), ros.PRE + code + "\n")
