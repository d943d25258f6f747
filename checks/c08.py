"""C08: a derivative kept between calls is used only for the state it belongs to"""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, objs, dense
import absint as A
from absint import const
from fractions import Fraction as Fr
from rkset import sym

RULE = ("Every sequence of three operations (step forms, rejected steps, reset, initialize, adjust_size, a change of the state's size) is interpreted on one runge_kutta_dopri5, controlled dopri5 and velocity_verlet "
        "object, over opaque states and an opaque system, the caller continuing from the state he was given. Each step must give exactly what a new stepper gives when it is handed the system's value at the "
        "caller's current state and time (or the derivative just handed to initialize), and may call the system once more than that only when no valid derivative is kept. The dense-output steppers are "
        "decided by the ghost variables of C23.")

# step forms without derivative -> the form of a new stepper which is given it
REF = {"runge_kutta_dopri5": {"in": "in, derivatives", "out": "out, derivatives", "in, error": "in, derivatives, error", "out, error": "out, derivatives, error"},
       "controlled_runge_kutta<dopri5>": {"try in": "try in, derivatives", "try out": "try out, derivatives"},
       "velocity_verlet": {"in": "accelerations given"}}
OUT = {"runge_kutta_dopri5": ("x", "e"), "controlled_runge_kutta<dopri5>": ("x",), "velocity_verlet": ("x", "p")}
ACC, REJ = const(Fr(1, 2)), const(3)


def events(kind, pol):
    e = []
    for op in objs.KINDS[kind][2]:
        if op == "adjust_size":
            e += [("adjust_size", None), ("adjust_size to another size", None)]
        elif op.startswith("try"):
            e += [(op, ACC), (op, REJ)]
        else:
            e.append((op, None))
    if pol == "always_resizer":
        e = [x for x in e if x[0] != "adjust_size to another size"] + [("a state of another size", None)]
    return e


def name(ev):
    return ev[0] + (" [rejected]" if ev[1] is REJ else "")


def deriv(o):
    x, t = o.get("x"), o.time()
    return A.app("F2", x, o.get("p"), t) if o.kind == "velocity_verlet" else A.app("F", x, t)


def result(o):
    r = {n: o.get(n) for n in OUT[o.kind]}
    r["t"] = o.time()
    if "controlled" in o.kind:
        r["dt"] = o.it.load(A.op_add(o.E, const(objs.DTOFF)))
        r["result"] = o.it.load(A.op_add(o.E, const(objs.ROFF)), 4, "i32")
    return r


def reference(m, kind, pol, ref, o, d, norm, cache):
    """what a new stepper makes of the same state with the derivative d"""
    k = (ref, o.get("x"), o.get("p"), o.time(), d, o.size, norm)
    if k not in cache:
        n = objs.Obj(m, kind, pol, lambda i: norm)
        n.new()
        n.fill(o.size, "R")
        for v in ("x", "p"):
            n.it.store(n.var(v), o.get(v))
        n.it.store(n.var("d"), d)
        n.time(o.time())
        n.call(ref)
        cache[k] = (result(n), len(n.calls))
    return cache[k]


FRESH = [(None, 1)]       # (kept derivative, further system calls); None: evaluated for the state given


def ended(o):
    """the derivative a step ended with: the last evaluation, which must be at the state and time handed back (velocity_verlet: at the new coordinates)"""
    a = o.calls[-1]
    at = a[0] is o.get("x") and a[-1] is o.time()
    return A.app("F2" if o.kind == "velocity_verlet" else "F", *a), at


def walk(m, kind, pol, seq, cache, out):
    norm = [ACC]
    o = objs.Obj(m, kind, pol, lambda i: norm[0])
    o.new()
    kept, label = FRESH, []
    for op, nm in seq:
        label.append(name((op, nm)))
        where = "%s, %s: %s" % (kind, pol, "; ".join(label))
        n = len(label)
        last = n == len(seq)
        norm[0] = nm
        if op in ("adjust_size to another size", "a state of another size"):
            o.fill(sum(objs.SIZES) - o.size, "n%d" % n)
            kept = FRESH
            if op.startswith("adjust"):
                o.call("adjust_size")
        elif op == "adjust_size":
            o.call(op)
            kept = kept + [k for k in FRESH if k not in kept]
        elif op == "reset":
            o.call(op)
            kept = FRESH
        elif op == "initialize(system)":
            d = deriv(o)
            o.call(op)
            kept = [(d, 0)]
            if last:
                a = o.calls
                out(where, len(a) == 1 and A.app("F2" if kind == "velocity_verlet" else "F", *a[0]) is d, "the system is called %d times, at %s" % (len(a), a[:1]), o)
        elif op == "initialize(derivative)":
            H = sym("H%d" % n)
            o.it.store(o.var("d"), H)
            o.call(op)
            kept = [(H, 0)]
            if last:
                out(where, len(o.calls) == 0, "the system is called %d times" % len(o.calls), o)
        elif op in REF[kind]:
            o.step()
            now = deriv(o)
            ds = [(now if d is None else d, e) for d, e in kept]
            refs = [reference(m, kind, pol, REF[kind][op], o, d, nm, cache) for d, _ in ds]
            o.call(op)
            got = result(o)
            if "error" not in op:
                got.pop("e", None)
            hit = [(d, e, r) for (d, e), r in zip(ds, refs) if all(r[0][k] == got[k] for k in got)]
            if last:
                if not hit:
                    bad = [k for k in got if got[k] != refs[0][0][k]]
                    out(where, False, "the step does not use the derivative of the state it is given (%s: %s, expected %s)" % (bad[0], str(got[bad[0]])[:200], str(refs[0][0][bad[0]])[:200]), o)
                else:
                    out(where, any(len(o.calls) - r[1] == e for d, e, r in hit), "the system is called %d times, %d of them for the step itself" % (len(o.calls), hit[0][2][1]), o)
            if nm is not REJ:
                d, at = ended(o)
                kept = [(d, 0)]
                if last and not at:
                    out(where, False, "the last evaluation is not at the state handed back", o)
            elif hit:
                kept = [(hit[0][0], 0)]
        else:
            o.step()
            G = sym("G%d" % n)
            o.it.store(o.var("d"), G)
            o.call(op)
            d, at = (G, True) if nm is REJ else ended(o)
            if last:
                out(where, at and o.get("d") is d, "the derivative handed back, %s, is not that of the state" % str(o.get("d"))[:200], o)
            # the object may have kept nothing, or what is still right
            kept = [(d, 0)] + FRESH if nm is not REJ else kept + [k for k in FRESH if k not in kept]
    return o


def job(args):
    kind, pol, first = args
    m = vp.build_ir(objs.witness(kind), "k" + objs.ident(kind) + objs.ident(first[0] + name(first)))
    res, cache = [], {}
    n = [0]

    def out(label, ok, det, o):
        res.append((label, ok, det, ""))
    evs = events(kind, pol)
    for length in (1, 2, 3):
        for rest in itertools.product(evs, repeat=length - 1):
            walk(m, kind, pol, (first,) + rest, cache, out)
            n[0] += 1
    return res, n[0], m.headers


def fn(c):
    jobs = [(k, p, f) for k in REF for p in ("initially_resizer", "always_resizer") for f in events(k, p)]
    c.assumptions.append("between two steps the caller either continues from the state the last step ended with, or resets, initialises or changes the size: a caller who moves the state otherwise has to reset, as documented")
    for (k, p, f), (res, n, headers) in zip(jobs, vp.pmap(job, jobs)):
        c.headers.update(h.split("/include/")[-1] for h in headers)
        c.functions.add(k)
        c.count("sequences of operations", n)
        for r in res:
            c.check(*r)
    dense.check(c, ("C08",))


if __name__ == "__main__":
    sys.exit(vp.main("C08", RULE, fn, 500))
