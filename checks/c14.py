"""C14: copies of steppers and state wrappers are independent values"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, objs, c14x
from objs import Obj
from absint import const
from fractions import Fraction as Fr
import absint as A

RULE = ("Every stepper is brought into a state by some operations, then copied (constructed from, and assigned over an object with another history), and every cell of the original is overwritten with a mark. "
        "Whatever operation follows on the copy must call the system with the same arguments and give the same results as it would have on the original; and the original must give the same results "
        "when the copy was used for something else in between. Values are symbolic, so a shared or forgotten member shows as a mark or as a different expression.")

MAIN = ("in", "in, error", "try in", "initialize and two steps")


def ops(kind):
    names = list(objs.KINDS[kind][2])
    o = {n: (n,) for n in names if n != "adjust_size"}
    if "step" in o:
        o["initialize and two steps"] = ("initialize", "step", "step")
    return o


def result(o):
    e = o.env()
    return e[0], e[1], e[2], e[3], tuple(o.trace)


def run(o, kind, op, name="a"):
    for w in ops(kind)[op]:
        o.step()
        o.call(w, name)
        o.trace += o.calls


# kinds whose values grow with each step, or which have many forms that share their state
BIG = ("adaptive_adams_bashforth_moulton", "bulirsch_stoer", "bulirsch_stoer_dense_out", "extrapolation_stepper", "runge_kutta_fehlberg78", "runge_kutta_cash_karp54", "runge_kutta_cash_karp54_classic", "explicit_error_generic_rk")


def histories(kind):
    p = [x for x in ops(kind) if x != "step"]
    yield ()
    for x in p:
        if x in MAIN or kind not in BIG:
            yield (x,)
    for x in p:
        if x in MAIN:
            for n in ((2,) if kind in BIG else (2, 4)):
                yield (x,) * n
            for y in p:
                if y not in MAIN and (kind not in BIG or y in ("reset", "try out")):
                    yield (x, y)
                    if kind not in BIG:
                        yield (x, y, x)


def start(m, kind, pol, pre):
    o = Obj(m, kind, pol, lambda i: const(Fr(1, 2)))
    o.trace = []
    o.new()
    for op in pre:
        run(o, kind, op)
    return o


def elsewhere(o, kind, name):
    """use an object for something else"""
    saved = o.env()
    o.fill(objs.SIZES[1] if o.pol == "always_resizer" else objs.SIZES[0], "E")
    tr = o.trace
    o.trace = []
    for op in ops(kind):
        if op in MAIN and op not in ("initialize", "step"):
            run(o, kind, op, name)
    o.trace = tr
    o.env(saved)


def job(args):
    kind, pol = args
    m = vp.build_ir(objs.witness(kind, (pol,), assign=True), "y" + objs.ident(kind) + pol[0])
    out = []
    for pre in histories(kind):
        for op in ops(kind):
            if op == "step" and not any("initialize" in x for x in pre):
                continue
            ref = start(m, kind, pol, pre)
            run(ref, kind, op)
            want = result(ref)
            for how in ("copy construction", "copy assignment", "using the copy"):
                o = start(m, kind, pol, pre)
                if how == "copy assignment":
                    o.new("b")
                    elsewhere(o, kind, "b")
                    o.assign("a", "b")
                else:
                    o.copy("a", "b")
                if how == "using the copy":
                    elsewhere(o, kind, "b")
                    o.poison("b")
                    run(o, kind, op, "a")
                else:
                    elsewhere(o, kind, "a")
                    o.poison("a")
                    run(o, kind, op, "b")
                got = result(o)
                det = ""
                if got != want:
                    bad = next((g, w) for g, w in zip(got, want) if g != w)
                    det = "after %s: %s instead of %s" % (how, str(bad[0])[:300], str(bad[1])[:300])
                out.append(("%s, %s: %s, %s; %s" % (kind, pol, "; ".join(pre) or "new", how, op), got == want, det, ""))
    return out, m.headers


def fn(c):
    jobs = [(k, p) for k in objs.KINDS for p in ("initially_resizer", "always_resizer")]
    for (k, p), (res, headers) in zip(jobs, vp.pmap(job, jobs)):
        c.headers.update(h.split("/include/")[-1] for h in headers)
        c.functions.add(k)
        for r in res:
            c.check(*r)
    c14x.check(c)


if __name__ == "__main__":
    sys.exit(vp.main("C14", RULE, fn, 500))
