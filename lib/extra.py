"""modified midpoint runs and their extrapolation: expected terms and extraction of the weights"""
from fractions import Fraction as Fr
import absint as A
from absint import const, is_const, cval, Poly


def F(x, t):
    return A.app("F", x, t)


class Midpoint:
    """modified midpoint with n substeps as a term"""
    def __init__(self, x, t, dt, n, f0=None, F=F):
        h = A.op_mul(const(Fr(1, n)), dt)
        self.n = n
        self.f = [f0 if f0 is not None else F(x, t)]
        self.x = [x, A.op_add(x, A.op_mul(h, self.f[0]))]
        for i in range(1, n + 1):
            ti = A.op_add(t, A.op_mul(const(Fr(i, n)), dt))
            self.f.append(F(self.x[i], ti))
            if i < n:
                self.x.append(A.op_add(self.x[i - 1], A.op_mul(A.op_mul(const(2), h), self.f[i])))
        s = A.op_add(A.op_add(self.x[n - 1], self.x[n]), A.op_mul(h, self.f[n]))
        self.out = A.op_mul(const(Fr(1, 2)), s)


def first_stage(x, t, dt, f0, ex, et):
    """substep count n if (ex, et) is the first interior point of a midpoint run from (x, t), else None"""
    if not isinstance(ex, Poly) or not isinstance(et, Poly):
        return None
    d = A.op_sub(et, t)
    did = next(iter(A.poly_atoms(dt)))
    if not isinstance(d, Poly) or len(d.terms) != 1:
        return None
    q = A.p_div(d, dt)
    if not isinstance(q, Poly) or not is_const(q) or cval(q) == 0:
        return None
    r = Fr(1) / Fr(cval(q))
    n = round(r)
    if n < 1 or abs(r - n) > Fr(1, 10 ** 9):
        return None
    if not A.approx_equal(ex, A.op_add(x, A.op_mul(d, f0))):
        return None
    return int(n)


def weights(term, x, runs, dt):
    """term = x-part + sum w_j*(midpoint result of run j); returns {n: w} or None"""
    if not isinstance(term, Poly):
        return None
    did = next(iter(A.poly_atoms(dt)))
    coef = {}
    for mono, cf in term.terms:
        d = dict(mono)
        e = d.pop(did, 0)
        if e == 1 and len(d) == 1:
            (aid, k), = d.items()
            if k == 1:
                coef[aid] = coef.get(aid, 0) + cf
    out = {}
    for r in runs:
        a = next(iter(A.poly_atoms(r.f[1])))
        own = None
        for aid in coef:
            if aid == a or A.atom_approx(aid, a, 1e-10, {}):
                own = coef[aid]
        # weight of f_1 within one run: coefficient of dt*f_1
        unit = None
        for mono, cf in r.out.terms:
            d = dict(mono)
            if d.pop(did, 0) == 1 and d == {a: 1}:
                unit = cf
        if own is not None:
            out[r.n] = Fr(own) / Fr(unit)
    return out


def combine(ws, runs):
    s = const(0)
    for r in runs:
        if r.n in ws:
            s = A.op_add(s, A.op_mul(const(ws[r.n]), r.out))
    return s


def defects(ws, degree, tol=Fr(1, 10 ** 8)):
    """sum w = 1 and sum w/n^(2m) = 0 for m = 1..degree"""
    bad = []
    if abs(sum(ws.values()) - 1) > tol:
        bad.append("weights sum to %s" % float(sum(ws.values())))
    for m in range(1, degree + 1):
        v = sum((w * Fr(1, n ** (2 * m)) for n, w in ws.items()), Fr(0))
        sc = max([abs(w) * Fr(1, n ** (2 * m)) for n, w in ws.items()] or [Fr(1)])
        if abs(v) > tol * sc:
            bad.append("error term h^%d is not eliminated: %s" % (2 * m, float(v)))
    return bad
