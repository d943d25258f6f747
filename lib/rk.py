"""Runge-Kutta theory: rooted trees, order conditions, tableau extraction from terms."""
from fractions import Fraction
from functools import lru_cache
import absint as A
from absint import Poly, is_const, cval


# ------------------------------------------------------------ rooted trees
@lru_cache(None)
def trees(n):
    """rooted trees with n nodes as sorted tuples of subtrees"""
    if n == 1:
        return ((),)
    out = []

    def parts(rem, mx, acc):
        if rem == 0:
            out.append(tuple(sorted(acc)))
            return
        for k in range(min(rem, mx), 0, -1):
            for t in trees(k):
                if acc and (k, t) > (size(acc[-1]), acc[-1]):
                    continue
                parts(rem - k, k, acc + [t])
    parts(n - 1, n - 1, [])
    return tuple(sorted(set(out)))


@lru_cache(None)
def size(t):
    return 1 + sum(size(s) for s in t)


@lru_cache(None)
def gamma(t):
    r = size(t)
    for s in t:
        r *= gamma(s)
    return r


def elementary(a, t, memo):
    """vector Phi_i(t) of a tableau matrix a (list of dicts)"""
    if t in memo:
        return memo[t]
    n = len(a)
    r = [Fraction(1)] * n
    for s in t:
        e = elementary(a, s, memo)
        v = [sum((c * e[j] for j, c in a[i].items()), Fraction(0)) for i in range(n)]
        r = [x * y for x, y in zip(r, v)]
    memo[t] = r
    return r


def order_defects(a, b, p, target=lambda t: Fraction(1, gamma(t)), tol=Fraction(1, 10 ** 11)):
    """order conditions of orders 1..p that fail: list of (order, tree, value, wanted)"""
    memo = {}
    bad, n = [], 0
    for q in range(1, p + 1):
        for t in trees(q):
            n += 1
            e = elementary(a, t, memo)
            v = sum((b[i] * e[i] for i in b), Fraction(0))
            w = target(t)
            if abs(v - w) > tol * max(1, abs(w)):
                bad.append((q, t, v, w))
    return bad, n


def tree_str(t):
    return "[" + "".join(tree_str(s) for s in t) + "]"


# ------------------------------------------------------------ extraction
class NotRK(Exception):
    pass


class Tableau:
    """collects stages F(x_i,t_i) reachable from values that are x + dt*sum b_i K_i"""

    def __init__(self, x, t, dt, fname="F"):
        self.x, self.t, self.dt = x, t, dt
        self.fname = fname
        self.stages = []
        self.index = {}
        self.a = []
        self.c = []

    def linear(self, v, with_x=True):
        """decompose v = [x] + dt*sum c_i K_i -> dict stage->coef"""
        if not isinstance(v, Poly):
            raise NotRK("the result depends on a run-time condition: %r" % (v,))
        rest = A.p_add(v, self.x, -1) if with_x else v
        return self.lincomb(rest)

    def lincomb(self, rest):
        out = {}
        (dtm, dtc), = self.dt.terms
        for m, c in rest.terms:
            d = dict(m)
            ok = True
            for aid, e in dtm:
                if d.get(aid, 0) < e:
                    ok = False
                    break
                d[aid] -= e
                if d[aid] == 0:
                    del d[aid]
            if not ok:
                raise NotRK("term %s*%s is not step size times a derivative" % (A.num_str(c), A.mono_str(m)))
            st = [aid for aid, e in d.items() if e == 1 and A._atoms[aid].kind == "app" and A._atoms[aid].name == self.fname]
            if len(st) != 1:
                raise NotRK("term %s*%s is not linear in one derivative evaluation" % (A.num_str(c), A.mono_str(m)))
            del d[st[0]]
            i = self.stage(st[0])
            coef = A.mkpoly({tuple(sorted(d.items())): A._norm(Fraction(c) / dtc)})
            out[i] = A.p_add(out[i], coef) if i in out else coef
        return {i: c for i, c in out.items() if c.terms}

    def stage(self, aid):
        if aid in self.index:
            return self.index[aid]
        at = A._atoms[aid]
        xs, ts = at.args[0], at.args[1]
        row = self.linear(xs)
        # time: t + c*dt
        d = A.p_add(ts, self.t, -1)
        (dtm, dtc), = self.dt.terms
        c = A.ZERO
        for m, k in d.terms:
            dd = dict(m)
            for q, e in dtm:
                if dd.get(q, 0) != e:
                    raise NotRK("system evaluated at time %r, not at t + c*dt" % (ts,))
                del dd[q]
            c = A.p_add(c, A.mkpoly({tuple(sorted(dd.items())): A._norm(Fraction(k) / dtc)}))
        i = len(self.stages)
        self.index[aid] = i
        self.stages.append(aid)
        self.a.append(row)
        self.c.append(c)
        return i

    def numeric(self):
        for i, row in enumerate(self.a):
            for j, c in row.items():
                if not is_const(c):
                    raise NotRK("coefficient a[%d][%d] = %r is not a constant" % (i, j, c))
            if not is_const(self.c[i]):
                raise NotRK("node c[%d] = %r is not a constant" % (i, self.c[i]))
        a = [{j: Fraction(cval(c)) for j, c in row.items()} for row in self.a]
        c = [Fraction(cval(x)) for x in self.c]
        return a, c
