"""C01: tableau extraction by value-number dataflow, rooted-tree order conditions."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, rk
import absint as A
from absint import const, is_const, cval
from interp import Interp, loc_str
from rkset import *
from generic import gen_witness, generic

RULE = ("Each explicit Runge-Kutta stepper is compiled to IR with an opaque right-hand side; a value-number dataflow analysis expresses the "
        "state after do_step as x + dt*sum b_i F(x_i,t_i). The Butcher tableau read off that normal form must have row sums equal to the "
        "evaluation times, must satisfy every rooted-tree order condition up to the order the stepper reports, and must be the published "
        "tableau of the method it is named after (including the embedded error weights).")


def witness(name):
    hs, ty, err = STEPPERS[name]
    s = HDR % inc(*hs)
    s += "typedef %s St;\n" % ty
    s += "VP_W w_step(double &x, double t, double dt) { St s; s.do_step(Sys(), x, t, dt); }\n"
    s += "extern \"C\" int w_order() { St s; return s.%s(); }\n" % ("order" if not err else "order" if False else ("stepper_order" if err else "order"))
    if err:
        s += "VP_W w_err(double &x, double t, double dt, double &e) { St s; s.do_step(Sys(), x, t, dt, e); }\n"
        s += "extern \"C\" int w_eorder() { St s; return s.error_order(); }\n"
        s += "extern \"C\" int w_porder() { St s; return s.order(); }\n"
    return s


def simple(m, fn, args):
    it = Interp(m, {"vp_sys": sys_handler})
    it.run(fn, args)
    return it


def site_of(it):
    for e in reversed(it.events):
        if e.name == "vp_sys":
            return e.where()
    return "?"


def match_lit(a, b, lit):
    """the extracted scheme equals the published one up to the numbering of the stages"""
    la, lb = lit
    n = len(a)
    order = list(range(n))
    # stages are discovered depth first; sort by the c value / dependency by matching rows greedily
    pos = {}
    used = set()
    for li, row in enumerate(la):
        found = None
        for i in range(n):
            if i in used:
                continue
            want = {pos[j]: v for j, v in enumerate(row) if v != 0 and j in pos}
            if any(v != 0 and j not in pos for j, v in enumerate(row)):
                continue
            if set(want) == set(a[i]) and all(abs(want[j] - a[i][j]) < Fr(1, 10 ** 11) for j in want):
                found = i
                break
        if found is None:
            if all(li >= len(r) or r[li] == 0 for r in la) and (li >= len(lb) or lb[li] == 0):
                continue
            return "stage %d of the published scheme (row %s) is not computed" % (li + 1, [str(x) for x in row])
        used.add(found)
        pos[li] = found
    if len(used) != n:
        return "%d stages are computed that the published scheme does not have" % (n - len(used))
    want = {pos[j]: v for j, v in enumerate(lb) if v != 0}
    if set(want) != set(b):
        return "weights refer to other stages than the published scheme"
    for j in want:
        if abs(want[j] - b[j]) > Fr(1, 10 ** 11):
            return "weight %s differs from the published %s" % (A.num_str(b[j]), want[j])
    return None


def nums(d):
    for k, v in d.items():
        if not is_const(v):
            raise rk.NotRK("weight %r is not a constant" % (v,))
    return {k: Fr(cval(v)) for k, v in d.items() if v.terms}


def run(c):
    names = list(STEPPERS)
    mods = vp.build_many([(witness(n), n, ()) for n in names] + [(gen_witness(), "generic", ())])
    for m in mods:
        if isinstance(m, Exception):
            raise m
    for name, m in zip(names, mods):
        one(c, name, m)
    generic(c, mods[-1])


def one(c, name, m):
    err = STEPPERS[name][2]
    x, t, dt = sym("x"), sym("t"), sym("dt")
    X = Interp.base("X")
    io = Interp(m)
    io.run("w_order", [])
    order = int(cval(io.retval))
    c.analysed(m)
    for fn in ["w_step"] + (["w_err"] if err else []):
        it = Interp(m, {"vp_sys": sys_handler})
        it.loopstack = []
        it.store(X, x)
        EB = Interp.base("E")
        it.run(fn, [X, t, dt] + ([EB] if fn == "w_err" else []))
        c.analysed(m, name + ":" + fn, it)
        inst = "%s %s" % (name, "do_step with error" if fn == "w_err" else "do_step")
        T = rk.Tableau(x, t, dt)
        try:
            b = nums(T.linear(it.load(X)))
            eb = nums(T.lincomb(it.load(EB))) if fn == "w_err" else None
            a, cc = T.numeric()
        except rk.NotRK as e:
            c.check(inst + ": result is a Runge-Kutta combination", False, str(e), site_of(it))
            continue
        c.check(inst + ": result is a Runge-Kutta combination", True)
        for i in range(len(a)):
            rs = sum(a[i].values(), Fr(0))
            c.check(inst + ": node of stage %d equals its row sum" % i, abs(rs - cc[i]) < Fr(1, 10 ** 11),
                    "stage state has row sum %s but the system is evaluated at t + %s*dt" % (A.num_str(rs), A.num_str(cc[i])), site_of(it))
        bad, n = rk.order_defects(a, b, order)
        c.count("order_conditions", n)
        c.check(inst + ": %d order conditions up to the reported order %d" % (n, order), not bad and order > 0,
                "; ".join("order %d tree %s: %s instead of %s" % (q, rk.tree_str(tr), float(v), w) for q, tr, v, w in bad[:3]), site_of(it))
        lit = LIT[name]
        msg = match_lit(a, b, (lit[0], lit[1]))
        # without error estimate trailing unused stages are not computed
        if msg:
            used = len(a)
            msg = match_lit(a, b, (lit[0][:max(used, len([1 for r in lit[0]]))], lit[1]))
        c.check(inst + ": published tableau", msg is None, msg or "", site_of(it))
        if fn == "w_err":
            i2 = Interp(m)
            i2.run("w_eorder", [])
            eo = int(cval(i2.retval))
            emb = dict(b)
            for k, v in eb.items():
                emb[k] = emb.get(k, Fr(0)) - v
            emb = {k: v for k, v in emb.items() if abs(v) > Fr(1, 10 ** 13)}
            bad, n = rk.order_defects(a, emb, eo)
            c.count("order_conditions", n)
            c.check(inst + ": embedded scheme has the reported error order %d" % eo, not bad and eo > 0,
                    "; ".join("order %d tree %s: %s instead of %s" % (q, rk.tree_str(tr), float(v), w) for q, tr, v, w in bad[:3]), site_of(it))
            bad, n = rk.order_defects(a, emb, eo + 1)
            c.check(inst + ": error estimate is not trivial", bool(bad) and bool(eb), "the error estimate vanishes to order %d" % (eo + 1), site_of(it))
            emb2 = {k: 2 * b.get(k, Fr(0)) - v for k, v in emb.items()}
            emb2.update({k: 2 * b[k] for k in b if k not in emb})
            emb2 = {k: v for k, v in emb2.items() if abs(v) > Fr(1, 10 ** 13)}
            msg = match_lit(a, emb, (lit[0], lit[2])) and match_lit(a, emb2, (lit[0], lit[2]))
            c.check(inst + ": published embedded weights", msg is None, msg or "", site_of(it))


if __name__ == "__main__":
    sys.exit(vp.main("C01", RULE, run, minimum=60))
