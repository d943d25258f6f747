"""polynomials in theta: helpers for continuous extensions"""
from fractions import Fraction as Fr
import absint as A


def theta_coeffs(p, th):
    """Poly -> {degree in th: Poly without th}"""
    out = {}
    for m, c in p.terms:
        d = dict(m)
        e = d.pop(th, 0)
        out.setdefault(e, {})[tuple(sorted(d.items()))] = c
    return {e: A.mkpoly(t) for e, t in out.items()}


def pmul(a, b):
    r = {}
    for i, x in a.items():
        for j, y in b.items():
            r[i + j] = r.get(i + j, Fr(0)) + x * y
    return r


def numeric_poly(p, th):
    """Poly in th only -> {deg: Fraction} or None"""
    out = {}
    for e, q in theta_coeffs(p, th).items():
        if not A.is_const(q):
            return None
        out[e] = Fr(A.cval(q))
    return out


def continuous_defects(trees, gamma, size, elem, bpoly, p, tol=Fr(1, 10 ** 10)):
    """bpoly: {stage: {deg: coef}}; elem(tree) -> list of Fractions; conditions sum b_i(th) Phi_i = th^q/gamma"""
    bad, n = [], 0
    for q in range(1, p + 1):
        for t in trees(q):
            n += 1
            e = elem(t)
            tot = {}
            for i, bp in bpoly.items():
                for d, c in bp.items():
                    tot[d] = tot.get(d, Fr(0)) + c * e[i]
            tot[q] = tot.get(q, Fr(0)) - Fr(1, gamma(t))
            w = {d: v for d, v in tot.items() if abs(v) > tol}
            if w:
                bad.append((q, t, w))
    return bad, n
