"""Abstract interpreter over normalised LLVM IR (JSON produced by irdump).

Forward dataflow analysis, no execution and no solver.  The abstract domain is
 * values   : decision diagrams whose leaves are polynomials over value numbers
              (atoms: initial contents of memory cells, arguments, applications of
              uninterpreted functions) and whose inner nodes are sign tests /
              boolean value numbers -> a gated value-numbering domain;
 * pointers : base object + polynomial offset (same polynomials);
 * memory   : a store of cells, joined at control-flow merges;
 * loops    : fixpoint over header variables with the lattice
              invariant < linear in the trip count < congruence class < unknown.
Arithmetic is interpreted over the reals (no rounding).
"""
import json, math, re, sys
from fractions import Fraction

sys.setrecursionlimit(100000)

# ---------------------------------------------------------------- constants
_const_cache = {}

def _simplest_between(lo, hi):
    """simplest fraction in [lo,hi], 0<lo<=hi"""
    fl = lo.numerator // lo.denominator
    if fl == lo:
        return Fraction(fl)
    if fl + 1 <= hi:
        return Fraction(fl + 1)
    r = _simplest_between(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / r


def const_from_double(d):
    """the real number a double constant stands for: the simplest rational within
    2 ulp when that is clearly simpler, otherwise the shortest decimal"""
    if d in _const_cache:
        return _const_cache[d]
    if d == int(d) and abs(d) < 2 ** 53:
        r = Fraction(int(d))
    else:
        x = Fraction(abs(d))
        ulp = Fraction(math.ulp(abs(d)))
        s = _simplest_between(x - 2 * ulp, x + 2 * ulp)
        dec = Fraction(repr(abs(d)))
        if s.denominator > 10 ** 7 and dec.denominator < s.denominator * 10 ** 6:
            s = dec
        elif dec.denominator <= s.denominator:
            s = dec
        r = s if d > 0 else -s
    if r.denominator == 1:
        r = int(r)
    _const_cache[d] = r
    return r


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


# ---------------------------------------------------------------- atoms / polys
class Atom:
    __slots__ = ("id", "kind", "name", "args", "tags", "sign", "isbase", "info")

    def __repr__(self):
        return atom_str(self)


class Poly:
    __slots__ = ("terms", "_h", "key", "_atoms")

    def __repr__(self):
        return poly_str(self)


class Node:
    __slots__ = ("var", "kids", "id", "_vars")

    def __repr__(self):
        return "<%r? %s>" % (self.var, " | ".join(map(repr, self.kids)))


class Var:
    __slots__ = ("id", "kind", "obj", "arity")

    def __repr__(self):
        if self.kind == "sgn":
            return "sgn(%r)" % (self.obj,)
        return "bool(%r)" % (self.obj,)


class _Bot:
    def __repr__(self):
        return "BOT"


BOT = _Bot()

_atoms = []
_atom_tab = {}
_poly_tab = {}
_node_tab = {}
_vars = []
_var_tab = {}


def reset_tables():
    for t in (_atoms, _atom_tab, _poly_tab, _node_tab, _vars, _var_tab, _sgcache):
        t.clear()
    _memo.clear()
    global ZERO, ONE
    ZERO = const(0)
    ONE = const(1)


def atom(kind, name, args=(), tags=frozenset(), sign=None, isbase=False, info=None):
    key = (kind, name, args)
    a = _atom_tab.get(key)
    if a is None:
        a = Atom()
        a.id = len(_atoms)
        a.kind = kind
        a.name = name
        a.args = args
        a.tags = tags
        a.sign = sign  # None unknown, '+' positive, '0+' nonneg
        a.isbase = isbase
        a.info = info
        _atoms.append(a)
        _atom_tab[key] = a
    return a


_depth = [0]
MAXDEPTH = 3


def atom_str(a):
    if a.kind == "app":
        if _depth[0] >= MAXDEPTH and a.args and not a.args[0].__class__ is int and a.name not in ("init", "uninit", "loopmem"):
            return "%s#%d" % (a.name, a.id)
        _depth[0] += 1
        try:
            return "%s(%s)" % (a.name, ", ".join(map(repr, a.args)))
        finally:
            _depth[0] -= 1
    return str(a.name)


def mkpoly(d):
    t = tuple(sorted(d.items()))
    p = _poly_tab.get(t)
    if p is None:
        p = Poly()
        p.terms = t
        p._atoms = None
        p.key = len(_poly_tab)
        _poly_tab[t] = p
    return p


def const(c):
    c = _norm(c)
    if c == 0:
        return mkpoly({})
    return mkpoly({(): c})


def patom(a, e=1):
    return mkpoly({((a.id, e),): 1})


def is_const(p):
    return isinstance(p, Poly) and (not p.terms or (len(p.terms) == 1 and p.terms[0][0] == ()))


def cval(p):
    return p.terms[0][1] if p.terms else 0


def mono_str(m):
    return "*".join(("%r" % _atoms[a]) + ("" if e == 1 else "^%d" % e) for a, e in m)


def num_str(c):
    if isinstance(c, int):
        return str(c)
    if c.denominator < 10 ** 7:
        return "%s" % c
    return "%.17g" % float(c)


def poly_str(p):
    if not p.terms:
        return "0"
    out = []
    for m, c in p.terms:
        if m == ():
            out.append(num_str(c))
        elif c == 1:
            out.append(mono_str(m))
        else:
            out.append("%s*%s" % (num_str(c), mono_str(m)))
    return " + ".join(out)


def p_add(a, b, sb=1):
    if not b.terms:
        return a
    if not a.terms and sb == 1:
        return b
    d = dict(a.terms)
    for m, c in b.terms:
        v = d.get(m, 0) + sb * c
        if v == 0:
            d.pop(m, None)
        else:
            d[m] = _norm(v)
    return mkpoly(d)


def m_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v == 0:
            d.pop(a, None)
        else:
            d[a] = v
    return tuple(sorted(d.items()))


MAXTERMS = 4000


class TooBig(Exception):
    pass


def p_mul(a, b):
    if is_const(a):
        a, b = b, a
    if is_const(b):
        c = cval(b)
        if c == 0:
            return ZERO
        if c == 1:
            return a
        return mkpoly({m: _norm(k * c) for m, k in a.terms})
    if len(a.terms) * len(b.terms) > MAXTERMS:
        return patom(atom("app", "mul", tuple(sorted((a, b), key=lambda p: p.key))))
    d = {}
    for m1, c1 in a.terms:
        for m2, c2 in b.terms:
            m = m_mul(m1, m2)
            v = d.get(m, 0) + c1 * c2
            if v == 0:
                d.pop(m, None)
            else:
                d[m] = _norm(v)
    return mkpoly(d)


def p_scale(a, c):
    return mkpoly({m: _norm(k * c) for m, k in a.terms}) if c else ZERO


def p_inv(b):
    if is_const(b):
        if cval(b) == 0:
            return patom(atom("sym", "div0"))
        return const(Fraction(1) / cval(b))
    if len(b.terms) == 1:
        m, c = b.terms[0]
        return mkpoly({tuple((a, -e) for a, e in m): _norm(Fraction(1) / c)})
    # canonical: normalise leading coeff
    lead = b.terms[0][1]
    bb = p_scale(b, Fraction(1) / lead)
    return p_scale(patom(atom("app", "inv", (bb,))), Fraction(1) / lead)


def p_div(a, b):
    return p_mul(a, p_inv(b))


def poly_atoms(p):
    if p._atoms is None:
        p._atoms = frozenset(a for m, _ in p.terms for a, _ in m)
    return p._atoms


def val_atoms(v):
    """all atoms ids (shallow) in a value"""
    if v is BOT:
        return frozenset()
    if isinstance(v, Poly):
        return poly_atoms(v)
    if isinstance(v, tuple):
        r = frozenset()
        for x in v:
            r |= val_atoms(x)
        return r
    s = set()
    seen = set()

    def go(n):
        if n is BOT or id(n) in seen:
            return
        seen.add(id(n))
        if isinstance(n, Poly):
            s.update(poly_atoms(n))
        else:
            o = n.var.obj
            if isinstance(o, Poly):
                s.update(poly_atoms(o))
            else:
                s.add(o.id)
            for k in n.kids:
                go(k)

    go(v)
    return frozenset(s)


_deep = {}


def deep_tags(aid):
    """loops in which this atom varies"""
    r = _deep.get(aid)
    if r is None:
        a = _atoms[aid]
        r = a.tags
        for x in a.args:
            if isinstance(x, (Poly, Node, tuple)):
                for b in val_atoms(x):
                    r = r | deep_tags(b)
        _deep[aid] = r
    return r


def varies_in(v, loop):
    return any(loop in deep_tags(a) for a in val_atoms(v))


def deep_atoms(v, acc=None):
    if acc is None:
        acc = set()
    for aid in val_atoms(v):
        if aid in acc:
            continue
        acc.add(aid)
        for x in _atoms[aid].args:
            if isinstance(x, (Poly, Node, tuple)):
                deep_atoms(x, acc)
    return acc


# ---------------------------------------------------------------- decision diagrams
def mkvar(kind, obj):
    key = (kind, obj)
    v = _var_tab.get(key)
    if v is None:
        v = Var()
        v.id = len(_vars)
        v.kind = kind
        v.obj = obj
        v.arity = 3 if kind == "sgn" else 2
        _vars.append(v)
        _var_tab[key] = v
    return v


def mknode(var, kids):
    live = [k for k in kids if k is not BOT]
    if not live:
        return BOT
    if all(k is live[0] for k in live):
        return live[0]
    if var.kind == "sgn" and kids[0] is kids[2] and isinstance(kids[0], Poly) and isinstance(kids[1], Poly):
        # the values differ by a multiple of the tested polynomial, which is zero in the middle cell
        d = p_add(kids[0], kids[1], -1)
        if len(d.terms) == len(var.obj.terms) and d is p_scale(var.obj, _norm(Fraction(d.terms[0][1]) / var.obj.terms[0][1])):
            return kids[0]
    key = (var.id, tuple(id(k) for k in kids))
    n = _node_tab.get(key)
    if n is None:
        n = Node()
        n.var = var
        n.kids = tuple(kids)
        n.id = len(_node_tab)
        n._vars = None
        _node_tab[key] = n
    return n


_memo = {}
NODE_LIMIT = 400000


def apply(name, f, *vs):
    """apply f to the leaves of the values, memoised under name"""
    if all(isinstance(v, Poly) for v in vs):
        return f(*vs)
    if any(v is BOT for v in vs):
        return BOT
    key = (name,) + tuple(id(v) for v in vs)
    r = _memo.get(key)
    if r is not None:
        return r[0]
    top = None
    for v in vs:
        if isinstance(v, Node) and (top is None or v.var.id < top.id):
            top = v.var
    kids = []
    for i in range(top.arity):
        kids.append(apply(name, f, *[(v.kids[i] if isinstance(v, Node) and v.var is top else v) for v in vs]))
    r = ite_var(top, kids)
    _memo[key] = (r, vs)
    if len(_memo) > NODE_LIMIT:
        raise TooBig("decision diagram limit")
    return r


def top_of(vs):
    top = None
    for v in vs:
        if isinstance(v, Node) and (top is None or v.var.id < top.id):
            top = v.var
    return top


def ite_var(var, kids):
    """node test on var with kids that may contain smaller variables"""
    top = top_of(kids)
    if top is None or top.id > var.id:
        return mknode(var, kids)
    key = ("itev", var.id) + tuple(id(k) for k in kids)
    r = _memo.get(key)
    if r is not None:
        return r[0]
    if top is var:
        r = mknode(var, [k.kids[i] if isinstance(k, Node) and k.var is var else k for i, k in enumerate(kids)])
    else:
        out = []
        for i in range(top.arity):
            out.append(ite_var(var, [k.kids[i] if isinstance(k, Node) and k.var is top else k for k in kids]))
        r = mknode(top, out)
    _memo[key] = (r, kids)
    return r


def ite(c, a, b):
    """c boolean value"""
    if c is BOT:
        return BOT
    if isinstance(c, Poly):
        if is_const(c):
            return a if cval(c) != 0 else b
        return ite(truth(c), a, b)
    if a is b:
        return a
    if isinstance(a, tuple) or isinstance(b, tuple):
        n = len(a) if isinstance(a, tuple) else len(b)
        ga = a if isinstance(a, tuple) else (BOT,) * n
        gb = b if isinstance(b, tuple) else (BOT,) * n
        return tuple(ite(c, x, y) for x, y in zip(ga, gb))
    key = ("ite", id(c), id(a), id(b))
    r = _memo.get(key)
    if r is not None:
        return r[0]
    top = top_of([c, a, b])
    out = []
    for i in range(top.arity):
        out.append(ite(*[(v.kids[i] if isinstance(v, Node) and v.var is top else v) for v in (c, a, b)]))
    r = mknode(top, out)
    _memo[key] = (r, (c, a, b))
    return r


FALSE_TRUE = None


def b_and(a, b):
    if a is ZERO or b is ZERO:
        return ZERO
    return ite(a, b, ZERO)


def b_or(a, b):
    if a is ONE or b is ONE:
        return ONE
    return ite(a, ONE, b)


def b_not(a):
    return ite(a, ZERO, ONE)


def restrict(v, g):
    """simplify v under the assumption g (boolean)"""
    if g is ONE or isinstance(v, Poly) or v is BOT:
        return v
    if isinstance(v, tuple):
        return tuple(restrict(x, g) for x in v)
    if g is ZERO:
        return BOT
    if not isinstance(g, Node):
        return v
    key = ("restr", id(v), id(g))
    r = _memo.get(key)
    if r is not None:
        return r[0]
    if g.var.id < v.var.id:
        gg = ZERO
        for k in g.kids:
            if k is not BOT:
                gg = b_or(gg, k)
        r = restrict(v, gg)
    elif g.var is v.var:
        r = mknode(v.var, [BOT if (gk is ZERO or gk is BOT) else restrict(vk, gk) for vk, gk in zip(v.kids, g.kids)])
    else:
        r = mknode(v.var, [restrict(k, g) for k in v.kids])
    _memo[key] = (r, (v, g))
    return r


# ---------------------------------------------------------------- signs
_facts = {}


def atom_sign(aid):
    a = _atoms[aid]
    if a.sign is not None:
        return a.sign
    if a.kind == "app":
        if a.name in ("pow", "exp"):
            return "+"
        if a.name in ("fabs", "sqrt"):
            return "0+"
        if a.name == "inv":
            s = known_sign(a.args[0])
            if s in ("+", "-"):
                return s
        if a.name == "mul":
            s1, s2 = known_sign(a.args[0]), known_sign(a.args[1])
            return _smul(s1, s2)
    return None


def _smul(s, t):
    if s is None or t is None:
        return None
    if s == "0" or t == "0":
        return "0"
    neg = (s in ("-", "0-")) != (t in ("-", "0-"))
    weak = "0" in s or "0" in t
    return ("0" if weak else "") + ("-" if neg else "+")


def mono_sign(m):
    s = "+"
    for aid, e in m:
        t = atom_sign(aid)
        if e % 2 == 0:
            if t in ("+", "-"):
                t = "+"
            else:
                t = "0+" if e > 0 else "+"
        elif e < 0 and t in ("0+", "0-"):
            t = t[1]        # 1/0 is infinite
        s = _smul(s, t)
        if s is None:
            return None
    return s


RANGES = {}         # atom id -> interval (lib/bounds.py) assumed for it
_rcache = {}
range_sign = None   # set by lib/bounds.py


def set_range(p, iv):
    """assume an interval for a symbol"""
    RANGES[p.terms[0][0][0][0]] = iv
    _rcache.clear()
    _sgcache.clear()


def known_sign(p):
    """sign of a polynomial from atom signs and ranges only: '+','-','0','0+','0-' or None"""
    s = known_sign0(p)
    if s is None and RANGES and range_sign is not None:
        if p not in _rcache:
            _rcache[p] = None          # (recursion through atom signs)
            _rcache[p] = range_sign(p)
        s = _rcache[p]
    return s


def known_sign0(p):
    if not p.terms:
        return "0"
    tot = None
    for m, c in p.terms:
        s = mono_sign(m)
        if s is None:
            return None
        if c < 0:
            s = _smul(s, "-")
        if tot is None:
            tot = s
        else:
            tot = _sadd(tot, s)
        if tot is None:
            return None
    return tot


def _sadd(s, t):
    if s is None or t is None:
        return None
    if s == "0":
        return t
    if t == "0":
        return s
    if ("-" in s) != ("-" in t):
        return None
    d = "-" if "-" in s else "+"
    return d if (s == d or t == d) else "0" + d


def canon_sign(p):
    """(canonical poly D, flip) with sign(p) = flip * sign(D)"""
    # drop common monomial factors of positive sign
    lead = p.terms[-1][1]
    flip = 1
    if lead < 0:
        flip = -1
    q = p_scale(p, Fraction(1) / lead) if lead != 1 else p
    # cancel strictly positive atoms that occur in all terms (e.g. 1/eps)
    if len(q.terms) >= 1:
        common = None
        for m, c in q.terms:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {a: (min(e, d[a]) if (e > 0) == (d[a] > 0) and e > 0 else (max(e, d[a]) if e < 0 and d[a] < 0 else 0))
                          for a, e in common.items() if a in d}
                common = {a: e for a, e in common.items() if e}
            if not common:
                break
        if common:
            div = tuple(sorted((a, -e) for a, e in common.items() if atom_sign(a) == "+"))
            if div:
                q = mkpoly({m_mul(m, div): c for m, c in q.terms})
                lead = q.terms[-1][1] if q.terms else 1
                if lead < 0:
                    flip = -flip
                    q = p_scale(q, -1)
    return q, flip


def sign_value(p, neg, zero, pos):
    """value: neg/zero/pos according to sign of leaf polynomial p"""
    s = known_sign(p)
    if s == "0":
        return zero
    if s == "+":
        return pos
    if s == "-":
        return neg
    D, flip = canon_sign(p)
    if is_const(D):
        return pos if cval(D) * flip > 0 else neg
    kids = [neg, zero, pos] if flip > 0 else [pos, zero, neg]
    s2 = known_sign(D)
    if s2 == "+":
        return kids[2]
    if s2 == "-":
        return kids[0]
    if s2 == "0+":
        kids[0] = BOT
    elif s2 == "0-":
        kids[2] = BOT
    return ite_var(mkvar("sgn", D), kids)


def truth(v):
    """boolean of a numeric value (v != 0)"""
    def f(p):
        if is_const(p):
            return ONE if cval(p) != 0 else ZERO
        return sign_value(p, ONE, ZERO, ONE)
    return apply("truth", f, v)


def mkbool(a):
    """a fresh 0/1 value"""
    return ite_var(mkvar("bool", a), [ZERO, ONE])


ZERO = const(0)
ONE = const(1)


def op_add(a, b):
    return apply("add", p_add, a, b)


def op_sub(a, b):
    return apply("sub", lambda x, y: p_add(x, y, -1), a, b)


def op_mul(a, b):
    return apply("mul", p_mul, a, b)


def op_div(a, b):
    return apply("div", p_div, a, b)


def op_neg(a):
    return apply("neg", lambda x: p_scale(x, -1), a)


def fabs_poly(p):
    s = known_sign(p)
    if s in ("+", "0+", "0"):
        return p
    if s in ("-", "0-"):
        return p_scale(p, -1)
    if len(p.terms) == 1:
        m, c = p.terms[0]
        r = const(abs(c))
        for a, e in m:
            t = atom_sign(a)
            if t in ("+", "0+"):
                r = p_mul(r, mkpoly({((a, e),): 1}))
            elif e % 2 == 0:
                r = p_mul(r, mkpoly({((a, e),): 1}))
            else:
                r = p_mul(r, mkpoly({((atom("app", "fabs", (patom(_atoms[a]),)).id, e),): 1}))
        return r
    lead = p.terms[-1][1]
    return p_scale(patom(atom("app", "fabs", (p_scale(p, Fraction(1) / lead),))), abs(lead))


def op_fabs(a):
    return apply("fabs", fabs_poly, a)


def app(name, *vals, sign=None, isbase=False):
    """uninterpreted function applied leafwise"""
    if not vals:
        return patom(atom("app", name, (), sign=sign))

    def f(*ps):
        return patom(atom("app", name, ps, sign=sign, isbase=isbase))
    return apply("app:" + name, f, *vals)


def pow_poly(x, y):
    if is_const(y):
        e = cval(y)
        if isinstance(e, int) and 0 <= e <= 8:
            r = ONE
            for _ in range(e):
                r = p_mul(r, x)
            return r
        if isinstance(e, int) and -8 <= e < 0:
            return p_inv(pow_poly(x, const(-e)))
    if is_const(x) and is_const(y):
        try:
            v = float(cval(x)) ** float(cval(y))
            if not isinstance(v, complex):
                return const(const_from_double(v))
        except Exception:
            pass
    return patom(atom("app", "pow", (x, y)))


# ---------------------------------------------------------------- cells of a partition
def stable_str(p):
    """a text of a normal form that does not depend on the order in which atoms were made"""
    if isinstance(p, Node):
        return "node"
    if not isinstance(p, Poly):
        return str(p)

    def at(aid):
        a = _atoms[aid]
        if a.kind == "app":
            return "%s(%s)" % (a.name, ",".join(stable_str(x) if isinstance(x, Poly) else str(x) for x in a.args))
        return str(a.name)
    return "+".join(sorted("%s*%s" % (c, "*".join(sorted("%s^%d" % (at(a), e) for a, e in m))) for m, c in p.terms)) or "0"


def cells(guard, vals, limit=20000, prune=None):
    """enumerate the partition of a guarded tuple of values:
    yields (constraints {Var: branch}, leaf tuple), guard true."""
    out = []

    def go(g, vs, cons):
        if g is ZERO or g is BOT:
            return
        top = top_of([g] + [v for v in vs if isinstance(v, Node)])
        if top is None:
            if any(v is BOT for v in vs):
                return
            out.append((dict(cons), tuple(vs)))
            if len(out) > limit:
                raise TooBig("cells")
            return
        for i in range(top.arity):
            c2 = cons + ((top, i),)
            if prune is not None and prune(dict(c2)):
                continue
            go(g.kids[i] if isinstance(g, Node) and g.var is top else g,
               [(v.kids[i] if isinstance(v, Node) and v.var is top else v) for v in vs], c2)

    go(guard, list(vals), ())
    return [c for c in out if feasible(c[0])]


def support(v, acc=None, seen=None):
    """the tests a value depends on"""
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if isinstance(v, tuple):
        for x in v:
            support(x, acc, seen)
    elif isinstance(v, Node) and id(v) not in seen:
        seen.add(id(v))
        acc.add(v.var)
        for k in v.kids:
            support(k, acc, seen)
    return acc


def exists(g, keep):
    """g with every test outside of keep forgotten (weaker)"""
    memo = {}

    def go(x):
        if not isinstance(x, Node):
            return ZERO if x is BOT else x
        r = memo.get(id(x))
        if r is None:
            ks = [go(k) for k in x.kids]
            if x.var in keep:
                r = mknode(x.var, ks)
            else:
                r = ZERO
                for k in ks:
                    r = b_or(r, k)
            memo[id(x)] = r
        return r
    return go(g)


def relevant(g, vals, rounds=2, common=()):
    """the tests of g that may say something about the values: those connected to them by shared atoms"""
    keep = set()
    for v in vals:
        support(v, keep)
    R = set()
    for v in vals:
        for a in val_atoms(v):
            R.add(a)
    vs = [v for v in support(g) if v.kind == "sgn"]
    at = {v: set(poly_atoms(v.obj)) for v in vs}
    com = set(common)
    for _ in range(rounds):
        new = [v for v in vs if v not in keep and ((at[v] & R) - com or at[v] <= R | com)]
        if not new:
            break
        keep.update(new)
        for v in new:
            R |= at[v]
    return keep


def wcells(guard, vals, limit=2000, rounds=2, common=()):
    """cells under the part of the guard that matters for the values"""
    return cells(exists(guard, relevant(guard, vals, rounds, common)), vals, limit, prune_last)


def prune_last(cons):
    """does the test added last contradict the earlier ones?"""
    v, b = list(cons.items())[-1]
    if v.kind != "sgn":
        return False
    s = sign_in({x: y for x, y in cons.items() if x is not v}, v.obj, 1)
    if s is None:
        return False
    w = _SG[b]
    return s in ("+", "-", "0") and s != w or s == "0+" and w == "-" or s == "0-" and w == "+"


_SG = {0: "-", 1: "0", 2: "+"}


def tidy(g, limit=3000, by=None):
    """g without the branches that integers cannot take (by: those compared in that test only)"""
    ints = {v for v in support(g) if v.kind == "sgn" and is_intpoly(v.obj)}
    if by is not None:
        at = {a for v in support(by) if v in ints for a in poly_atoms(v.obj)}
        ints = {v for v in ints if at & set(poly_atoms(v.obj))}
    if len(ints) < 2:
        return g
    memo = {}

    def go(x, cons):
        if not isinstance(x, Node):
            return x
        k = (id(x), frozenset((v.id, i) for v, i in cons.items()))
        r = memo.get(k)
        if r is not None:
            return r
        if len(memo) > limit:
            raise TooBig("tidy")
        ks = []
        for i, y in enumerate(x.kids):
            c2 = cons
            if x.var in ints and y is not ZERO:
                c2 = dict(cons)
                c2[x.var] = i
                if cons and prune_last(c2):
                    ks.append(ZERO)
                    continue
            ks.append(go(y, c2))
        r = memo[k] = mknode(x.var, ks)
        return r
    try:
        return go(g, {})
    except TooBig:
        return g


def is_intpoly(p):
    """an integer whatever the values of its atoms?"""
    for m, c in p.terms:
        if not isinstance(c, int):
            return False
        for a, e in m:
            if e < 0:
                return False
            at = _atoms[a]
            if at.kind == "sym" and at.name.startswith("n#"):
                continue
            if at.kind == "app" and at.name in ("trunc", "idiv", "irem", "idiv2"):
                continue
            if at.info == "int" or (isinstance(at.info, tuple) and at.info[0] in ("i32", "i64")):
                continue
            return False
    return True


_sgcache = {}
SCALERS = []          # positive values an inequality between integers may be multiplied by
INTEGRAL = [False]    # use that integers beyond a bound are at least one beyond it


def sign_in(cons, p, depth=2, wide=False):
    """sign of polynomial p in a cell: '+','-','0','0+','0-' or None"""
    s = known_sign(p)
    if s is not None and s in "+-0":
        return s
    D, flip = canon_sign(p)
    if is_const(D):
        return "+" if cval(D) * flip > 0 else "-"
    v = _var_tab.get(("sgn", D))
    if v is not None and v in cons:
        r = _SG[cons[v]]
        return _smul(r, "+" if flip > 0 else "-") if r != "0" else "0"
    facts = frozenset((v.id, b) for v, b in cons.items() if v.kind == "sgn")
    key = (facts, p.key, depth, wide, INTEGRAL[0])
    if key in _sgcache:
        return _sgcache[key]
    _sgcache[key] = s
    r = _sign_in(facts, p, depth, wide, s)
    if r is None and depth > 0 and INTEGRAL[0] and is_intpoly(p):
        for q, (lo, hi) in ((p, ("+", "-")), (p_add(p, ONE), ("+", None)), (p_add(p, ONE, -1), (None, "-"))):
            for h in [ONE] + SCALERS:
                t = sign_in(cons, p_mul(q, h), depth - 1) if h is not ONE or q is not p else None
                if t == lo and lo:
                    r = "+" if q is p else "0+"
                if t == hi and hi:
                    r = "-" if q is p else "0-"
                if r is not None and (h is ONE or known_sign(h) == "+"):
                    break
                r = None
            if r is not None:
                break
    _sgcache[key] = r
    if len(_sgcache) > 2000000:
        _sgcache.clear()
    return r


SORTED = {}           # base -> "+" / "-": the memory behind it is strictly ascending / descending


def ordered(facts, p):
    """differences of elements of sorted sequences in p, with their signs: [(part of p, sign)]"""
    el = []
    for m, c in p.terms:
        if len(m) == 1 and m[0][1] == 1:
            a = _atoms[m[0][0]]
            if a.kind == "app" and a.name == "init" and a.args[0] in SORTED:
                el.append((a, c))
    out = []
    for i, (a, c) in enumerate(el):
        for b, d in el[i + 1:]:
            if a.args[0] is b.args[0] and (c > 0) != (d > 0):
                off = p_add(a.args[1], b.args[1], -1)
                off = mkpoly({m: _norm(Fraction(k) / 8) for m, k in off.terms})
                t = sign_in({_vars[i]: b for i, b in facts}, off, 1)
                if t is None:
                    continue
                k = c if abs(c) <= abs(d) else -d
                t = _smul(_smul(t, SORTED[a.args[0]]), "+" if c > 0 else "-")
                out.append((p_add(p_scale(patom(a), k), p_scale(patom(b), -k)), t))
    return out


def _sign_in(facts, p, depth, wide, s):
    # factor signs: common monomial
    if len(p.terms) == 1:
        m, c = p.terms[0]
        tot = "+" if c > 0 else "-"
        for a, e in m:
            t = atom_sign(a)
            if t is None or "0" in t:
                va = _var_tab.get(("sgn", patom(_atoms[a])))
                if va is not None:
                    for b in (0, 1, 2):
                        if (va.id, b) in facts:
                            t = _SG[b]
            if e % 2 == 0:
                t = "+" if t in ("+", "-") else "0+"
            tot = _smul(tot, t)
            if tot is None:
                break
        if tot in ("+", "-", "0"):
            return tot
        s = tot or s
    if depth > 0:
        best = s
        pd = dict(p.terms)
        for D1, sd in ordered(facts, p) if SORTED else ():
            rest = p_add(p, D1, -1)
            if not rest.terms:
                return sd
            t = _sadd(sd, sign_in({_vars[i]: b for i, b in facts}, rest, depth - 1))
            if t in ("+", "-", "0"):
                return t
            best = t or best
        # p = k*D1 + rest with D1 of known sign in the cell, rest of compatible sign
        for f in sorted(facts):
            D1 = _vars[f[0]].obj
            alts = [(D1, _SG[f[1]])]
            if INTEGRAL[0] and f[1] != 1 and is_intpoly(D1):
                alts = [(p_add(D1, ONE, f[1] == 0 or -1), "0" + _SG[f[1]])]
            elif f[1] == 1 and SCALERS:
                alts += [(p_mul(D1, h), "0") for h in SCALERS if len(D1.terms) < 6]
            for D1, sd in alts:
                # try the multiplier that cancels a monomial
                tried = set()
                for m, c in D1.terms:
                    pc = pd.get(m)
                    if pc is None or m == () and len(D1.terms) > 1 and len(pd) > 1 and not wide:
                        continue
                    k = pc if c == 1 else -pc if c == -1 else _norm(Fraction(pc) / c)
                    if k in tried:
                        continue
                    tried.add(k)
                    rest = p_add(p, p_scale(D1, k), -1)
                    sk = "0" if sd == "0" else _smul(sd, "+" if k > 0 else "-")
                    if not rest.terms:
                        if sk in ("+", "-", "0"):
                            return sk
                        if sk is not None and best in ("0+", "0-") and best != sk:
                            return "0"
                        best = sk
                        continue
                    if len(rest.terms) > len(p.terms) + 1 and not (wide and depth > 1):
                        continue
                    sr = sign_in({_vars[i]: b for i, b in facts if i != f[0]}, rest, depth - 1)
                    t = _sadd(sk, sr)
                    if t in ("+", "-", "0"):
                        return t
                    if t is not None:
                        if best in ("0+", "0-") and best != t:
                            return "0"
                        best = t
        if best is not None:
            return best
    return s


def feasible(cons):
    items = [(v, b) for v, b in cons.items() if v.kind == "sgn"]
    if len(items) > 14:
        return True
    for v, b in items:
        others = {x: y for x, y in cons.items() if x is not v}
        s = sign_in(others, v.obj, 1)
        if s is None:
            continue
        want = _SG[b]
        if s in ("+", "-", "0"):
            if s != want:
                return False
        elif s == "0+" and want == "-":
            return False
        elif s == "0-" and want == "+":
            return False
    return True


def cons_str(cons):
    out = []
    for v, b in cons.items():
        if v.kind == "sgn":
            out.append("%r %s 0" % (v.obj, "<=>"[b] if b != 1 else "=="))
        else:
            out.append(("" if b else "!") + repr(v.obj))
    return " && ".join(out) or "always"


# ---------------------------------------------------------------- substitution
def subst(v, amap, memo=None):
    """replace atoms (id->value) everywhere, including inside applications and tests"""
    if memo is None:
        memo = {}
    if v is BOT:
        return v
    if isinstance(v, tuple):
        return tuple(subst(x, amap, memo) for x in v)
    k = id(v)
    if k in memo:
        return memo[k][0]
    if isinstance(v, Poly):
        touched = False
        for aid in poly_atoms(v):
            if _subst_atom(aid, amap, memo) is not None:
                touched = True
                break
        if not touched:
            r = v
        else:
            r = ZERO
            for m, c in v.terms:
                t = const(c)
                for aid, e in m:
                    s = _subst_atom(aid, amap, memo)
                    if s is None:
                        s = patom(_atoms[aid])
                    if e < 0:
                        s = op_div(ONE, s)
                    for _ in range(abs(e)):
                        t = op_mul(t, s)
                r = op_add(r, t)
    else:
        kids = [subst(x, amap, memo) for x in v.kids]
        o = v.var.obj
        if v.var.kind == "sgn":
            no = subst(o, amap, memo)
            if no is o:
                r = ite_var(v.var, kids)
            else:
                r = apply("sgnsub:%d:%d:%d" % tuple(id(x) for x in kids),
                          lambda p: sign_value(p, *kids), no)
                _keep.append(kids)
        else:
            s = _subst_atom(o.id, amap, memo)
            if s is None:
                r = ite_var(v.var, kids)
            else:
                r = ite(truth(s), kids[1], kids[0])
    memo[k] = (r, v)
    return r


_keep = []


def _subst_atom(aid, amap, memo):
    if aid in amap:
        return amap[aid]
    a = _atoms[aid]
    if a.kind != "app" or not a.args:
        return None
    k = ("a", aid)
    if k in memo:
        return memo[k]
    na = tuple(subst(x, amap, memo) if isinstance(x, (Poly, Node, tuple)) else x for x in a.args)
    if all(x is y for x, y in zip(na, a.args)):
        r = None
    else:
        r = reapply(a, na)
    memo[k] = r
    return r


def reapply(a, na):
    if a.name == "fabs":
        return op_fabs(na[0])
    if a.name == "inv":
        return op_div(ONE, na[0])
    if a.name == "mul":
        return op_mul(na[0], na[1])
    if a.name == "pow":
        return apply("pow", pow_poly, *na)
    if any(isinstance(x, tuple) for x in na):
        return patom(atom("app", a.name, na, sign=a.sign, isbase=a.isbase))
    return app(a.name, *na, sign=a.sign, isbase=a.isbase)


# ---------------------------------------------------------------- approximate equality
def approx_equal(a, b, tol=1e-10, memo=None):
    """equal up to rounding of constants (coefficients compared with relative tolerance)"""
    if a is b:
        return True
    if memo is None:
        memo = {}
    k = (id(a), id(b))
    if k in memo:
        return memo[k]
    memo[k] = True  # coinductive (no cycles in practice)
    r = _approx(a, b, tol, memo)
    memo[k] = r
    return r


def _approx(a, b, tol, memo):
    if a is BOT or b is BOT:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(approx_equal(x, y, tol, memo) for x, y in zip(a, b))
    if isinstance(a, Poly) and isinstance(b, Poly):
        d = p_add(a, b, -1)
        if not d.terms:
            return True
        sc = max([abs(c) for m, c in a.terms] + [abs(c) for m, c in b.terms] + [0])
        rest_a = dict(a.terms)
        rest_b = dict(b.terms)
        la, lb = {}, {}
        for m, c in d.terms:
            if abs(c) <= tol * max(sc, Fraction(1, 10 ** 6)):
                continue
            if m in rest_a:
                la[m] = rest_a[m]
            if m in rest_b:
                lb[m] = rest_b[m]
        if not la and not lb:
            return True
        if len(la) != len(lb):
            return False
        # match monomials with approximately equal atoms
        used = set()
        for m, c in la.items():
            ok = False
            for m2, c2 in lb.items():
                if m2 in used:
                    continue
                if abs(c - c2) > tol * max(sc, Fraction(1, 10 ** 6)):
                    continue
                if mono_approx(m, m2, tol, memo):
                    used.add(m2)
                    ok = True
                    break
            if not ok:
                return False
        return True
    # decision diagrams: compare cell by cell
    try:
        for cons, (x, y) in cells(ONE, [a, b], limit=3000):
            if not approx_equal(x, y, tol, memo):
                return False
        return True
    except TooBig:
        return False


def mono_approx(m1, m2, tol, memo):
    if len(m1) != len(m2):
        return False
    used = set()
    for a, e in m1:
        ok = False
        for b, f in m2:
            if (b, f) in used or e != f:
                continue
            if atom_approx(a, b, tol, memo):
                used.add((b, f))
                ok = True
                break
        if not ok:
            return False
    return True


def atom_approx(a, b, tol, memo):
    if a == b:
        return True
    A, B = _atoms[a], _atoms[b]
    if A.kind != "app" or B.kind != "app" or A.name != B.name or len(A.args) != len(B.args):
        return False
    return all((x is y) or (isinstance(x, (Poly, Node, tuple)) and isinstance(y, (Poly, Node, tuple)) and approx_equal(x, y, tol, memo))
               for x, y in zip(A.args, B.args))
