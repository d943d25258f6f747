"""C13: every internal buffer has the size of the state before it is used"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, objs
from absint import const
from fractions import Fraction as Fr

RULE = ("Every operation of every stepper is compiled over a state of which only the size is known to the analyser (three resizers: 'initially', 'always', 'never') and interpreted on one object, in every "
        "order of two operations (for the 'always' resizer with a new size at each). Each argument of the algebra, the error norm, the system and the copy routine must have the size of the caller's state at that "
        "point. Sizes are compared for equality only, so two different numbers stand for all. Error norms are scripted to accept and to reject.")

MODES = {"every error small": lambda i: const(Fr(1, 2)), "every error large": lambda i: const(3)}
DENSE = ("initialize", "step")


def ops(kind):
    """the operations as scripts of witnesses"""
    names = list(objs.KINDS[kind][2])
    o = {n: (n,) for n in names if n != "adjust_size"}
    if "step" in o:
        del o["step"]
        o["initialize and two steps"] = ("initialize", "step", "step")
    return o


def norms(kind):
    return "controlled" in kind or "bulirsch" in kind or "dopri5>" in kind


def scripts(kind):
    o = ops(kind)
    adj = "adjust_size" in objs.KINDS[kind][2]
    a, b = objs.SIZES
    # `always': a new size each time
    for x in o:
        for y in o:
            yield "initially_resizer", "%s; %s" % (x, y), [(a, x), (a, y)]
            yield "always_resizer", "%s; with another size: %s; with the first size: %s" % (x, y, x), [(a, x), (b, y), (a, x)]
            if adj:
                yield "never_resizer", "adjust_size; %s; %s" % (x, y), [(a, "adjust_size"), (a, x), (a, y)]
                yield "initially_resizer", "%s; adjust_size to another size; %s" % (x, y), [(a, x), (b, "adjust_size"), (b, y)]
        if adj:
            yield "never_resizer", "adjust_size; %s; adjust_size to another size; %s" % (x, x), [(a, "adjust_size"), (a, x), (b, "adjust_size"), (b, x)]


def large_ok(kind, script):
    # a dense-output step repeats until it is accepted
    return not any(op in ("step",) for _, x in script for op in ops(kind).get(x, (x,))) or "euler" in kind


def job(kind):
    m = vp.build_ir(objs.witness(kind), "o" + objs.ident(kind))
    out, funcs, uses = [], set(), 0
    for mode, nf in MODES.items():
        if mode.endswith("large") and not norms(kind):
            continue
        for pol, label, script in scripts(kind):
            if mode.endswith("large") and not large_ok(kind, script):
                continue
            o = objs.Obj(m, kind, pol, nf)
            o.new()
            if mode.endswith("large"):
                label += " (every error large)"
            size = None
            for i, (n, x) in enumerate(script):
                if n != size:
                    o.fill(n, str(i))
                    size = n
                for w in ops(kind).get(x, (x,)):
                    o.call(w)
            uses += o.uses
            det = "; ".join("%s: %s" % (op, what) for op, what, _ in o.bad[:2])
            out.append(("%s, %s: %s" % (kind, pol, label), not o.bad, det, o.bad[0][2] if o.bad else ""))
    return out, uses, m.headers


def fn(c):
    for kind, (out, uses, headers) in zip(objs.KINDS, vp.pmap(job, objs.KINDS)):
        c.headers.update(h.split("/include/")[-1] for h in headers)
        c.functions.add(kind)
        c.count("size comparisons", uses)
        for r in out:
            c.check(*r)


if __name__ == "__main__":
    sys.exit(vp.main("C13", RULE, fn, 500))
