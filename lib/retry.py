"""the retry loop of controlled_adams_bashforth_moulton::initialize_controlled over an opaque controlled stepper"""
import vp
import absint as A
from absint import const, is_const, cval, op_add, op_sub
from interp import Interp
from rkset import sym, inc
import integ

PRE = """#include <vp.hpp>
%s
using namespace boost::numeric::odeint;
extern "C" bool vp_try(const void *st, double *x, double *t, double *dt) noexcept;
struct CS { typedef controlled_stepper_tag stepper_category; int id;
  template<class S> controlled_step_result try_step(S, X1 &x, double &t, double &dt) { return vp_try(this, &x[0], &t, &dt) ? success : fail; } };
typedef controlled_adams_bashforth_moulton<adaptive_adams_bashforth_moulton<3,X1,double,X1,double,array_algebra> > C;
VP_W w_init(CS &st, X1 &x, double &t, double &dt) { C c; c.initialize_controlled(st, SysX(), x, t, dt); }
""" % inc("algebra/array_algebra", "stepper/adaptive_adams_bashforth_moulton", "stepper/controlled_adams_bashforth_moulton")

OFF = {"f": 0, "fp": 8}


class Mon(integ.Mon):
    def __init__(self):
        self.G = Interp.base("GHOST")
        self.obl = []
        self.sgn = 1

    def g(self, f):
        return self.it.load(op_add(self.G, const(OFF[f])), 8, "i64")

    def set(self, f, v):
        self.it.store(op_add(self.G, const(OFF[f])), v, 8, "i64")

    def run(self, m):
        it = Interp(m, {"vp_try": self.h_try, "vp_sys": self.h_sys, "raise": self.h_raise})
        it.loopstack = []
        it.deco = it.doom = True
        A.INTEGRAL[0] = True
        A._sgcache.clear()
        A.SORTED.clear()
        A.SCALERS[:] = []
        it.itemplates, it.templates, self.common = [const(500)], [], set()
        self.it = it
        B = [Interp.base(b) for b in ("ST", "X", "T", "DT")]
        for b, n in zip(B[1:], ("x", "t", "dt")):
            it.store(b, sym(n))
        self.set("f", const(0))
        self.set("fp", const(0))
        it.run("w_init", B)
        return self

    def h_sys(self, it, ev, args):
        it.store(args[1], it.fresh_atom("f"))
        it.emit(ev)

    def h_try(self, it, ev, args):
        st, px, pt, pdt = args
        self.ob(ev, "C12", "at most 500 failures precede an attempt", [self.g("f")], lambda c, f: A.sign_in(c, A.p_add(const(501), f, -1)) == "+")
        ok = integ.A_bool(it, "ok")
        sel = lambda a, b: A.ite(ok, a, b)
        t, dt = it.load(pt), it.load(pdt)
        it.store(px, sel(it.fresh_atom("x"), it.load(px)))
        it.store(pt, sel(op_add(t, dt), t))
        it.store(pdt, it.fresh_atom("dt"))
        self.set("fp", self.g("f"))
        self.set("f", sel(const(0), op_add(self.g("f"), const(1))))
        ev.ret = ok
        it.emit(ev)
        return ok

    def h_raise(self, it, ev, args):
        n = ev.info["names"]
        k = any("step_adjustment_error" in x for x in n), any("no_progress_error" in x for x in n)
        self.ob(ev, "C12", "a step_adjustment_error is raised after 500 failures in a row only", [self.g("f"), self.g("fp")],
                lambda c, f, fp: k == (True, False) and "+" in (A.sign_in(c, A.p_add(f, const(499), -1)), A.sign_in(c, A.p_add(fp, const(499), -1))))
        it.emit(ev)


def check(c):
    m = vp.build_ir(PRE, "retry")
    c.analysed(module=m, func="w_init")
    mon = Mon().run(m)
    mon.evset = set(mon.it.events)
    for tag, text, site, bad, n in integ.evaluate(mon):
        c.count("cells", n)
        c.check("controlled_adams_bashforth_moulton::initialize_controlled: %s" % text, not bad, "; ".join(bad[:2])[:1500], site)
