"""interval bounds of normal forms inside a cell of a partition"""
import math
from fractions import Fraction as Fr
import absint as A
from absint import Poly, is_const, cval

INF = math.inf
W = 1e-13


class I:
    """interval with open/closed ends"""
    __slots__ = ("lo", "hi", "lc", "hc")

    def __init__(self, lo, hi, lc=True, hc=True):
        self.lo, self.hi, self.lc, self.hc = lo, hi, lc and lo != -INF, hc and hi != INF

    def __repr__(self):
        return "%s%s, %s%s" % ("[" if self.lc else "(", fl(self.lo), fl(self.hi), "]" if self.hc else ")")

    def meet(self, o):
        lo, lc = (self.lo, self.lc) if (self.lo, not self.lc) > (o.lo, not o.lc) else (o.lo, o.lc)
        hi, hc = (self.hi, self.hc) if (self.hi, self.hc) < (o.hi, o.hc) else (o.hi, o.hc)
        return I(lo, hi, lc, hc)

    def empty(self):
        return self.lo > self.hi or (self.lo == self.hi and not (self.lc and self.hc))

    def below(self, v, strict=True):
        return self.hi < v or (self.hi == v and (not strict or not self.hc))

    def above(self, v, strict=True):
        return self.lo > v or (self.lo == v and (not strict or not self.lc))


def fl(x):
    return "%.6g" % float(x)


ALL = I(-INF, INF)


def of_sign(s):
    return {"+": I(0, INF, False), "0+": I(0, INF), "-": I(-INF, 0, True, False), "0-": I(-INF, 0), "0": I(0, 0)}.get(s, ALL)


def _m(x, y):
    if x == 0 or y == 0:
        return 0
    if abs(x) == INF or abs(y) == INF:
        return INF if (x > 0) == (y > 0) else -INF
    return x * y


def mul(a, b):
    c = []
    for x, xc in ((a.lo, a.lc), (a.hi, a.hc)):
        for y, yc in ((b.lo, b.lc), (b.hi, b.hc)):
            cl = (xc and yc) or (x == 0 and xc) or (y == 0 and yc)
            c.append((_m(x, y), cl))
    lo = min(v for v, _ in c)
    hi = max(v for v, _ in c)
    return I(lo, hi, any(k for v, k in c if v == lo), any(k for v, k in c if v == hi))


def add(a, b):
    return I(a.lo + b.lo, a.hi + b.hi, a.lc and b.lc, a.hc and b.hc)


def inv(a):
    # 1/0 of a non-negative quantity is +infinity
    if a.lo > a.hi or (a.lo == 0 and a.hi == 0):
        return ALL
    if a.lo > 0 or (a.lo == 0 and a.hi > 0):
        return I(0 if a.hi == INF else Fr(1) / Fr(a.hi) if isinstance(a.hi, (int, Fr)) else 1 / a.hi,
                 INF if a.lo == 0 else Fr(1) / Fr(a.lo) if isinstance(a.lo, (int, Fr)) else 1 / a.lo, a.hc, a.lc)
    if a.hi < 0 or (a.hi == 0 and a.lo < 0):
        r = inv(I(-a.hi, -a.lo, a.hc, a.lc))
        return I(-r.hi, -r.lo, r.hc, r.lc)
    return ALL


def ipow(a, e):
    if e < 0:
        return inv(ipow(a, -e))
    r = I(1, 1)
    for _ in range(e):
        r = mul(r, a)
    if e % 2 == 0:
        r = r.meet(I(0, INF))
    return r


def mono(f, a, lo=-INF, hi=INF):
    """image under an increasing function, rounded outward (exact at 0 and 1 where f fixes them)"""
    def g(x, up):
        if x == -INF:
            return lo
        if x == INF:
            return hi
        v = f(float(x))
        if v in (0.0, 1.0):
            return int(v)
        return v + W * abs(v) if up else v - W * abs(v)
    return I(g(a.lo, False), g(a.hi, True), a.lc, a.hc)


def rpow(a, e):
    a = a.meet(I(0, INF))
    e = float(e)
    if e > 0:
        return mono(lambda x: x ** e, a, 0, INF)
    if e == 0:
        return I(1, 1)
    return inv(mono(lambda x: x ** (-e), a, 0, INF))


class Cell:
    """what the tests of a cell say about monomials and about ratios of monomials"""
    def __init__(self, cons, assume=None, deep=True):
        self.cons = cons
        self.assume = assume or {}
        self.memo = {}
        self.lin = {}
        for v, br in cons.items():
            if v.kind != "sgn":
                continue
            p = v.obj
            ms = [(m, c) for m, c in p.terms if m]
            if len(ms) == 1:
                # a*X + b with X a single monomial
                b = sum((Fr(c) for m, c in p.terms if not m), Fr(0))
                m, a = ms[0]
                self.rec(m, -b / Fr(a), (br - 1) * (1 if a > 0 else -1))
            elif len(ms) == 2 and len(p.terms) == 2:
                # a*X + b*Y ~ 0 with Y of known sign: X/Y ~ -b/a
                for (m, a), (n, b) in (ms, ms[::-1]):
                    s = A.mono_sign(n)
                    if s in ("+", "-"):
                        k = A.m_mul(m, tuple((x, -e) for x, e in n))
                        self.rec(k, -Fr(b) / Fr(a), (br - 1) * (1 if a > 0 else -1) * (1 if s == "+" else -1))

        for v, br in cons.items():
            if not deep or v.kind != "sgn" or not 3 <= len(v.obj.terms) <= 4:
                continue
            # p ~ 0 with p/n = c*k + rest: k ~ -rest/c
            for n, _ in v.obj.terms:
                sn = A.mono_sign(n)
                if not n or sn not in ("+", "-"):
                    continue
                ninv = tuple((x, -e) for x, e in n)
                q = [(A.m_mul(m, ninv), c) for m, c in v.obj.terms]
                s = (br - 1) * (1 if sn == "+" else -1)
                for k, c in q:
                    if not k or any(len(x) == 1 and A._atoms[x[0][0]].kind == "app" for x in (k,)):
                        continue
                    rest = A.mkpoly({m: d for m, d in q if m != k})
                    iv = self.poly(rest)
                    r = mul(iv, I(-Fr(1) / Fr(c), -Fr(1) / Fr(c)))
                    d = s * (1 if c > 0 else -1)
                    self.memo = {}
                    if d <= 0 and r.hi != INF:
                        self.meet(k, I(-INF, r.hi, True, d == 0 and r.hc))
                    if d >= 0 and r.lo != -INF:
                        self.meet(k, I(r.lo, INF, d == 0 and r.lc))

    def meet(self, m, iv):
        self.lin[m] = self.lin[m].meet(iv) if m in self.lin else iv

    def rec(self, m, x, s):
        iv = I(x, x) if s == 0 else (I(x, INF, False) if s > 0 else I(-INF, x, True, False))
        self.lin[m] = self.lin[m].meet(iv) if m in self.lin else iv

    def atom(self, aid):
        if aid in self.memo:
            return self.memo[aid]
        a = A._atoms[aid]
        s = a.sign
        if s is None and a.kind == "app" and a.name in ("pow", "exp", "fabs", "sqrt"):
            s = "+" if a.name in ("pow", "exp") else "0+"
        r = of_sign(s)
        self.memo[aid] = r
        if aid in A.RANGES:
            r = r.meet(A.RANGES[aid])
        if aid in self.assume:
            r = r.meet(self.assume[aid])
        m = ((aid, 1),)
        if m in self.lin:
            r = r.meet(self.lin[m])
        if a.kind == "app":
            if a.name == "pow" and is_const(a.args[1]):
                r = r.meet(rpow(self.poly(a.args[0]), cval(a.args[1])))
            elif a.name == "inv":
                r = r.meet(inv(self.poly(a.args[0])))
            elif a.name == "sqrt":
                r = r.meet(rpow(self.poly(a.args[0]), 0.5))
            elif a.name == "atan":
                r = r.meet(mono(math.atan, self.poly(a.args[0]), -math.pi / 2 - W, math.pi / 2 + W))
            elif a.name == "exp":
                r = r.meet(mono(math.exp, self.poly(a.args[0]), 0, INF))
            elif a.name == "fabs":
                q = self.poly(a.args[0])
                r = r.meet(I(0, max(abs(q.lo), abs(q.hi))))
            elif a.name == "mul":
                r = r.meet(mul(self.poly(a.args[0]), self.poly(a.args[1])))
        # a test on the inverse of this atom
        for mm, iv in self.lin.items():
            if len(mm) == 1 and mm[0] == (aid, -1):
                r = r.meet(inv(iv)) if r.lo >= 0 and iv.lo >= 0 else r
        self.memo[aid] = r
        return r

    def poly(self, p):
        tot = I(0, 0)
        for m, c in p.terms:
            tot = add(tot, mul(self.mono(m), I(c, c)))
        return tot

    def mono(self, m):
        if not m:
            return I(1, 1)
        t = self.mono0(m)
        for k, iv in self.lin.items():
            if k == m:
                t = t.meet(iv)
            elif len(k) > 1:
                # m = k * rest
                rest = A.m_mul(m, tuple((x, -e) for x, e in k))
                if len(rest) < len(m) or sum(abs(e) for _, e in rest) < sum(abs(e) for _, e in m):
                    t = t.meet(mul(iv, self.mono0(rest)))
                # m = rest / k
                rest = A.m_mul(m, k)
                if len(rest) < len(m) or sum(abs(e) for _, e in rest) < sum(abs(e) for _, e in m):
                    t = t.meet(mul(inv(iv), self.mono0(rest)))
        return t

    def mono0(self, m):
        t = I(1, 1)
        for aid, e in m:
            t = mul(t, ipow(self.atom(aid), e))
        return t

    def sign(self, p):
        """interval sign of p, also after division by one of its monomials"""
        q = self.poly(p)
        if q.above(0) or q.below(0):
            return q
        for m, c in p.terms:
            s = A.mono_sign(m)
            if m and s in ("+", "-"):
                inv_m = tuple((x, -e) for x, e in m)
                r = self.poly(A.mkpoly({A.m_mul(n, inv_m): k for n, k in p.terms}))
                if s == "-":
                    r = I(-r.hi, -r.lo, r.hc, r.lc)
                # only the sign of the quotient carries over
                if r.above(0):
                    return I(0, INF, False)
                if r.below(0):
                    return I(-INF, 0, True, False)
        return q

    def contradictory(self, last=False):
        """the cell's own tests cannot all hold under the bounds (last: look at the test added last only)"""
        if any(iv.empty() for iv in self.lin.values()):
            return True
        for v, br in (list(self.cons.items())[-1:] if last else self.cons.items()):
            if v.kind != "sgn":
                continue
            cons = {x: y for x, y in self.cons.items() if x is not v}
            q = Cell(cons, self.assume, False).sign(v.obj)
            if br == 0 and q.above(0, strict=False):
                return True
            if br == 2 and q.below(0, strict=False):
                return True
            if br == 1 and (q.above(0) or q.below(0)):
                return True
        return False


def _range_sign(p):
    q = Cell({}).sign(p)
    if q.above(0):
        return "+"
    if q.below(0):
        return "-"
    if q.lo == 0 and q.hi == 0:
        return "0"
    if q.above(0, strict=False):
        return "0+"
    if q.below(0, strict=False):
        return "0-"
    return None


A.range_sign = _range_sign
