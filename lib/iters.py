"""ODE iterators over opaque steppers: the monitor of lib/integ with the loop of a user"""
import vp, integ
import absint as A
from absint import const, op_add, op_sub, op_mul, is_const, cval, ZERO, ONE
from rkset import inc

PRE = integ.PRE + """%s
template<class P> const X1 &vp_st(const P &p) { return p.first; }
inline const X1 &vp_st(const X1 &x) { return x; }
template<class It, class O> void vp_loop(It it, It end, O &ob, const double &) { for (; it != end; ++it) { auto &&v = *it; vp_see(&ob, &v.first[0], v.second); } }
template<class It, class O> void vp_loop_st(It it, It end, O &ob, const double &t) { for (; it != end; ++it) vp_see(&ob, &(*it)[0], t); }
""" % inc(*["iterator/%s%s_iterator" % (n, t) for n in ("const_step", "adaptive", "n_step", "times") for t in ("", "_time")])

NAMES = {"const": ("const_step", "t0, t1, dt"), "adaptive": ("adaptive", "t0, t1, dt"), "n_steps": ("n_step", "t0, dt, n"), "times": ("times", "tb, te, dt")}


class ItJob(integ.Job):
    """time: the iterator delivers (state, time); pair: made by the range function"""
    def __init__(self, fn, cat, time=True, ref=0, pair=True):
        integ.Job.__init__(self, fn, cat, ref=ref)
        self.time, self.pair = time, pair
        self.w = "w_it_%s_%s_%s%s%s" % (fn, cat, "time" if time else "state", ["", "_bref", "_sref"][ref], "" if pair else "_be")

    def label(self):
        return "%s_%siterator, %s%s" % (NAMES[self.fn][0], "time_" if self.time else "", integ.CATN[self.cat],
                                       ["", ", arguments by boost::ref", ", arguments by std::ref"][self.ref])

    def code(self):
        T = integ.CATS[self.cat]
        s, r = "*static_cast<%s*>(sp)" % T, ["%s", "boost::ref(%s)", "std::ref(%s)"][self.ref]
        n, args = NAMES[self.fn]
        n += "_time" if self.time else ""
        a = "%s, %s, x" % (r % s, r % "*sy")
        loop = "vp_loop%s" % ("" if self.time else "_st")
        if self.pair:
            b = "auto p = make_%s_range(%s, %s); %s(p.first, p.second, *ob, rt);" % (n, a, args, loop)
        else:
            t = "<const double *>" if self.fn == "times" else ""
            b = "%s(make_%s_iterator_begin(%s, %s), make_%s_iterator_end%s(%s), *ob, rt);" % (loop, n, a, args, n, t, a)
        return "VP_W %s%s { %s }\n" % (self.w, integ.ARGS, b)


class ItMon(integ.Mon):
    LIMIT = 1000

    def end(self):
        # (the steppers of const_step and n_step iterators may step beyond the end to interpolate)
        return None if self.j.fn in ("const", "n_steps") else integ.Mon.end(self)

    def invariants(self):
        def at(f, mem):
            return self.it.load(op_add(self.G, const(integ.OFF[f])), 8, "i64" if f in integ.INTS else "f64", mem=mem)

        def target(mem):
            """the time never lies beyond the requested one that is observed next"""
            d = op_sub(at("t", mem), self.it.load(op_add(self.tb, op_mul(const(8), at("no", mem))), 8, "f64", mem=mem))
            return d if self.sgn > 0 else op_sub(ZERO, d)

        def nearly(mem):
            return op_sub(target(mem), const(integ.SLACK))
        return [target, nearly] if self.j.fn == "times" else []

    def reached(self, ev, t, tp):
        # (within the resolution of the time type; no attempt of a controlled stepper leads beyond the next
        # point, and a repeated one is shorter)
        (self.upto if self.j.cat == "ctrl" else self.about)(ev, "C10", "the observed time is the requested one", *(tp, t) if self.j.cat == "ctrl" else (t, tp))

    def stepfrom(self, ev, t):
        self.about(ev, "C10", "the time stepped from is the current one", t, self.g("t"))

    def h_try(self, it, ev, args):
        n = len(self.obl)
        r = integ.Mon.h_try(self, it, ev, args)
        new = self.obl[n:]
        del self.obl[n:]
        # (an iterator carries the step size last proposed; 1000 attempts)
        self.obl += [o for o in new if "carried step size" not in o[2]]
        return r

    def fcount(self, ev):
        self.ob(ev, "C12", "at most 999 failures precede an attempt", [self.g("f")], lambda c, f: A.sign_in(c, A.p_add(const(1000), f, -1)) == "+")

    def h_see(self, it, ev, args):
        if not self.j.time:
            k = self.j.fn
            t = self.g("tno") if k in ("const", "n_steps") else self.tpoint(self.g("no")) if k == "times" and self.j.cat == "dense" else self.g("t")
            args = [args[0], args[1], t]
        return integ.Mon.h_see(self, it, ev, args)

    def h_raise(self, it, ev, args):
        n = ev.info["names"]
        k = any("overflow_error" in x for x in n)
        ev.info = {"overflow": k}
        self.ob(ev, "C12", "an overflow_error is raised after 1000 failures in a row only", [self.g("f"), self.g("fp")],
                lambda c, f, fp: k and "+" in (A.sign_in(c, A.p_add(f, const(999), -1)), A.sign_in(c, A.p_add(fp, const(998), -1))))
        it.emit(ev)

    def ret(self):
        it, j = self.it, self.j

        class E:
            pass
        e = E()
        e.name, e.where = "return", lambda: "end of the loop over the iterator"
        g = ZERO
        for gg, v, m in it.rets:
            g = A.b_or(g, gg)
        e.guard = g
        k, no, t = self.g("k"), self.g("no"), self.g("t")
        if j.cat != "dense":
            self.same(e, "C11", "the caller's state is the last one", it.load(self.xcell), self.g("x"))
        if j.fn == "adaptive":
            self.ob(e, "C11", "the end is reached", [op_sub(self.t1, t)], lambda c, d: self.le(c, d))
            # (the range is empty if the end lies before the start)
            self.ob(e, "C10", "the final state is visited", [op_sub(op_add(k, const(1)), no), op_sub(self.t1, self.t0)],
                    lambda c, d, r: self.eq(c, d) or A.sign_in(c, A.p_scale(r, -self.sgn), 2) == "+")
        if j.fn == "const":
            self.ob(e, "C10", "no point inside the interval is left out", [op_sub(self.t1, self.g("tno"))], lambda c, d: self.le(c, d))
        if j.fn == "n_steps":
            self.ob(e, "C10", "there is one point more than steps asked for", [op_sub(op_add(self.n, const(1)), no)], self.eq)
            if j.cat == "plain":
                self.same(e, "C11", "exactly the given number of steps is made", k, self.n)
        if j.fn == "times":
            self.ob(e, "C10", "every requested time is visited", [op_sub(op_add(self.tb, op_mul(const(8), no)), self.te)], self.eq)


def jobs():
    out = []
    for fn, cats in (("const", ("plain", "dense")), ("n_steps", ("plain", "dense")), ("adaptive", ("ctrl", "dense")), ("times", ("plain", "ctrl", "dense"))):
        for c in cats:
            out += [ItJob(fn, c), ItJob(fn, c, pair=False), ItJob(fn, c, time=False), ItJob(fn, c, ref=1), ItJob(fn, c, time=False, ref=1), ItJob(fn, c, ref=2)]
    return out


def witness(js):
    return PRE + "".join(j.code() for j in js)
