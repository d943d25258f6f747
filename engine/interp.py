"""Dataflow interpretation of irdump JSON functions in the domain of absint."""
import json, os
from fractions import Fraction
import absint as A
from absint import (Poly, Node, BOT, ZERO, ONE, const, patom, atom, apply, ite, b_and, b_or, b_not, op_add, op_sub,
                    op_mul, op_div, op_neg, op_fabs, app, is_const, cval, sign_value, restrict, TooBig)


class AnalysisError(Exception):
    pass


# ---------------------------------------------------------------- memory
class Mem:
    __slots__ = ("kind", "parent", "cells", "data", "bykey", "bases")


def m_seg(parent):
    m = Mem()
    m.kind = "seg"
    m.parent = parent
    m.cells = {}
    m.bases = {}
    m.data = None
    return m


class Event:
    __slots__ = ("name", "args", "guard", "mem", "loc", "loops", "ret", "info", "seq", "instr", "ghost")

    def where(self):
        return loc_str(self.loc)

    def __repr__(self):
        return "%s(%s) [%s]" % (self.name, ", ".join(map(repr, self.args)), self.where())


def loc_str(loc, all_=False):
    if not loc:
        return "?"
    out = []
    for f, l, fn in loc:
        f2 = f
        if "/boost/numeric/odeint/" in f:
            f2 = "odeint/" + f.split("/boost/numeric/odeint/")[1]
            out.append("%s:%d (%s)" % (f2, l, fn))
            if not all_:
                return out[0]
    if out:
        return " < ".join(out)
    f, l, fn = loc[0]
    return "%s:%d (%s)" % (os.path.basename(f), l, fn)


def odeint_loc(loc):
    for f, l, fn in loc or []:
        if "/boost/numeric/odeint/" in f:
            return f, l, fn
    return None


class Loop:
    __slots__ = ("header", "blocks", "latches", "parent", "children", "id")


class Func:
    def __init__(self, name, js):
        self.name = name
        self.args = js["args"]
        self.blocks = {b["id"]: b["ins"] for b in js["blocks"]}
        self.order = [b["id"] for b in js["blocks"]]
        self.entry = self.order[0]
        self.succ = {}
        self.pred = {b: [] for b in self.order}
        for b in self.order:
            t = self.blocks[b][-1]
            s = list(t.get("succ", []))
            if t["op"] == "invoke":
                s = [t["normal"]]
            self.succ[b] = s
            for x in dict.fromkeys(s):
                self.pred[x].append(b)
        self.ninstr = sum(len(i) for i in self.blocks.values())
        self._loops()
        # blocks from which the function cannot return
        live = [b for b in self.order if self.blocks[b][-1]["op"] == "ret"]
        ok = set(live)
        while live:
            for p in self.pred[live.pop()]:
                if p not in ok:
                    ok.add(p)
                    live.append(p)
        self.doomed = set(self.order) - ok

    def doom_names(self, b):
        """names of the globals (functions, tables) used from block b on"""
        seen, st, out = {b}, [b], set()

        def ops(x):
            if isinstance(x, list):
                if len(x) > 1 and x[0] == "g" and isinstance(x[1], str):
                    out.add(x[1])
                for y in x:
                    ops(y)
        while st:
            x = st.pop()
            for i in self.blocks[x]:
                ops(i.get("ops"))
                ops(i.get("callee"))
            for s in self.succ[x]:
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return out

    def _loops(self):
        # rpo
        seen, post = set(), []
        stack = [(self.entry, iter(self.succ[self.entry]))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    adv = True
                    break
            if not adv:
                post.append(b)
                stack.pop()
        self.rpo = post[::-1]
        idx = {b: i for i, b in enumerate(self.rpo)}
        self.rpoidx = idx
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    x, y = p, n
                    while x != y:
                        while idx[x] > idx[y]:
                            x = idom[x]
                        while idx[y] > idx[x]:
                            y = idom[y]
                    n = x
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        self.idom = idom

        def dom(a, b):
            while b != a and b != self.entry:
                b = idom[b]
            return a == b
        loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if s in idx and dom(s, b):
                    L = loops.setdefault(s, None)
                    if L is None:
                        L = Loop()
                        L.header = s
                        L.blocks = {s}
                        L.latches = []
                        L.children = []
                        L.parent = None
                        loops[s] = L
                    L.latches.append(b)
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in L.blocks:
                            continue
                        L.blocks.add(x)
                        st.extend(self.pred[x])
        ls = sorted(loops.values(), key=lambda l: len(l.blocks))
        for i, l in enumerate(ls):
            for m in ls[i + 1:]:
                if l.header in m.blocks and l is not m:
                    l.parent = m
                    m.children.append(l)
                    break
        self.loops = loops
        self.toploops = [l for l in ls if l.parent is None]


class Module:
    def __init__(self, path):
        js = json.load(open(path))
        self.globals = js["globals"]
        self.dem = js["demangle"]
        self.funcs = {}
        self._js = js["functions"]
        for n, f in js["functions"].items():
            self.funcs[n] = None

    def func(self, n):
        if self.funcs[n] is None:
            self.funcs[n] = Func(n, self._js[n])
        return self.funcs[n]


class Edge:
    __slots__ = ("src", "dst", "guard", "mem", "phis")


class Interp:
    """one analysis of one witness function"""

    MAXUNROLL = 64
    unroll_decided = False

    def __init__(self, module, handlers=None, default=None, unroll=True):
        self.mod = module
        self.handlers = handlers or {}
        self.default = default
        self.events = []
        self.mem = None
        self.guard = ONE
        self.loopctx = []          # stack of (loop key) for symbolic loops
        self.iterctx = []          # concrete unroll counters
        self.itemplates = []       # integers loop counters are compared with
        self.candidates = []       # functions of the memory: values that may never be positive at a loop header
        self.templates = []        # values loop variables are compared with (for their signs), or functions of the memory giving them
        self.fresh = {}
        self.seq = 0
        self.exits = []
        self.stats = {"instr": 0, "loops": 0, "rounds": 0, "calls": 0, "unrolled": 0}
        self.loopinfo = {}
        self.cells_seen = {}
        self.allow_unroll = unroll
        self.no_unroll = False
        self.runs = 0
        self.callpath = []
        self.cmpdist = {}
        self.doom = False          # collapse the code that leads to an exception only
        self.deco = False          # tell the first iteration of a loop from the later ones

    # ---------------------------------------------------------- naming
    def tags(self):
        return frozenset(self.loopctx)

    def fresh_atom(self, name, sign=None, isbase=False, info=None):
        """fresh value number tied to the current program point and loop context"""
        key = (name, self.cur_key())
        return patom(atom("sym", "%s@%s" % key, (), tags=self.tags(), sign=sign, isbase=isbase, info=info))

    def cur_key(self):
        return ("%d:" % self.runs if self.runs > 1 else "") + ".".join(map(str, self.callpath + [self.cur_id])) + ("|" + ",".join(map(str, self.iterctx)) if self.iterctx else "") + \
            ("|" + "/".join(self.loopctx) if self.loopctx else "")

    @staticmethod
    def base(name, sign=None):
        return patom(atom("sym", name, (), isbase=True, info="object"))

    # ---------------------------------------------------------- pointers
    @staticmethod
    def split_ptr(p):
        """(base atom, offset poly) of a pointer polynomial"""
        b = None
        for m, c in p.terms:
            if len(m) == 1 and m[0][1] == 1 and A._atoms[m[0][0]].isbase and c == 1:
                if b is not None:
                    return None, p
                b = m
        if b is None:
            return None, p
        off = A.mkpoly({m: c for m, c in p.terms if m != b})
        return A._atoms[b[0][0]], off

    # ---------------------------------------------------------- memory ops
    def load(self, ptr, size=8, ty="f64", mem=None):
        mem = self.mem if mem is None else mem
        if isinstance(ptr, Poly):
            return self._load1(mem, ptr, size, ty)
        if ptr is BOT:
            return BOT

        def f(p):
            return self._load1(mem, p, size, ty)
        return self._leafwise(f, ptr)

    def _leafwise(self, f, v):
        if v is BOT:
            return BOT
        if isinstance(v, Poly):
            return f(v)
        return A.ite_var(v.var, [self._leafwise(f, k) for k in v.kids])

    def _load1(self, mem, p, size, ty):
        b, off = self.split_ptr(p)
        if b is None:
            if is_const(p):
                return patom(atom("sym", "nullderef"))
            # pointer of unknown provenance: make it a base of its own
            return self.initcell(atom("app", "obj", (p,), isbase=True), ZERO, size, ty)
        return self.lookup(mem, b, off, size, ty)

    def initcell(self, b, off, size, ty):
        if b.info and isinstance(b.info, tuple) and b.info[0] == "global":
            g = self.mod.globals.get(b.info[1])
            if g is not None and is_const(off):
                o = cval(off)
                for c in g["init"]:
                    if c[0] == o and (c[2] == size):
                        return self.const_val(c[1], ty)
                if g["init"] or ty in ("i8", "i64", "i32"):
                    if not any(c[0] <= o < c[0] + c[2] for c in g["init"]):
                        if g["size"] and not g["init"]:
                            return patom(atom("app", "init", (patom(b), off), isbase=(ty == "ptr")))
                        return ZERO
        nm = "init"
        if b.info == "alloca" or b.info == "heap":
            nm = "uninit"
        # a bool / char cell
        a = atom("app", nm, (patom(b), off), sign=self.cell_sign(b, off), isbase=(ty == "ptr"),
                 info=(ty, size))
        if ty == "i8" and size == 1:
            return A.mkbool(a)
        return patom(a)

    def cell_sign(self, b, off):
        return None

    def lookup(self, mem, b, off, size, ty):
        while True:
            if mem is None:
                return self.initcell(b, off, size, ty)
            k = mem.kind
            if k == "seg":
                offs = mem.bases.get(b)
                if offs is not None and is_const(off):
                    o = cval(off)
                    r = mem.cells.get((b, o))
                    if r is not None:
                        if r[1] == size:
                            return self.conv(r[0], r[2], ty)
                        v = self.partial(mem, b, o, size, ty, r)
                        if v is not None:
                            return v
                        return self.clobbered(b, off, ty)
                    for oo in offs:
                        if oo < o + size and o < oo + mem.cells[(b, oo)][1]:
                            v = self.partial(mem, b, o, size, ty, None)
                            if v is not None:
                                return v
                            return self.clobbered(b, off, ty)
                mem = mem.parent
                continue
            if k == "sym":   # store at symbolic offset
                sb, soff, ssize, v, t = mem.data
                if sb is b:
                    d = A.p_add(off, soff, -1)
                    if not d.terms:
                        return v if ssize == size else self.clobbered(b, off, ty)
                    if is_const(d) and (cval(d) >= ssize or cval(d) <= -size):
                        mem = mem.parent
                        continue
                    if is_const(d):
                        return self.clobbered(b, off, ty)
                    # maybe aliased
                    return self.mayalias(mem, b, off, size, ty)
                mem = mem.parent
                continue
            if k == "wild":
                if b.info in ("alloca", "heap") and not mem.data:
                    mem = mem.parent
                    continue
                if b.info == "ghost" or b.info == "object" or b.info in ("alloca", "heap"):
                    mem = mem.parent
                    continue
                return self.clobbered(b, off, ty)
            if k == "copy":
                db, doff, n, smem, sb, soff = mem.data
                if db is b:
                    rel = A.p_add(off, doff, -1)
                    if is_const(rel) and is_const(n):
                        r = cval(rel)
                        if 0 <= r and r + size <= cval(n):
                            b, off, mem = sb, A.p_add(soff, rel), smem
                            continue
                        if r + size <= 0 or r >= cval(n):
                            mem = mem.parent
                            continue
                        return self.clobbered(b, off, ty)
                    # symbolic extent: in-range if 0<=rel and rel+size<=n provable, out if provable
                    lo = A.known_sign(rel)
                    hi = A.known_sign(A.p_add(n, A.p_add(rel, const(size)), -1))
                    if lo in ("+", "0+", "0") and (hi in ("+", "0+", "0") or not is_const(n)):
                        b, off, mem = sb, A.p_add(soff, rel), smem
                        continue
                    if lo == "-" and is_const(rel):
                        mem = mem.parent
                        continue
                    return self.clobbered(b, off, ty)
                mem = mem.parent
                continue
            if k == "fill":
                db, doff, n, v = mem.data
                if db is b:
                    rel = A.p_add(off, doff, -1)
                    if is_const(rel) and is_const(n) and (cval(rel) >= cval(n) or cval(rel) + size <= 0):
                        mem = mem.parent
                        continue
                    if is_const(rel) and cval(rel) < 0:
                        mem = mem.parent
                        continue
                    if is_const(v) and cval(v) == 0:
                        return ZERO
                    return self.clobbered(b, off, ty)
                mem = mem.parent
                continue
            if k == "join":
                key = (b, off, size)
                if mem.cells is None:
                    mem.cells = {}
                r = mem.cells.get(key)
                if r is None:
                    vs = [(g, self.lookup(m2, b, off, size, ty)) for g, m2 in mem.data]
                    if ty == "ptr" or True:
                        r = join_values(vs)
                    mem.cells[key] = r
                return r
            if k == "loop":
                st = mem.data
                if is_const(off):
                    ck = (b, cval(off))
                    v = st.cellvals.get(ck)
                    if v is not None:
                        return self.conv(v[0], v[1], ty)
                else:
                    ck = (b, off)
                    v = st.cellvals.get(ck)
                    if v is not None:
                        return self.conv(v[0], v[1], ty)
                if b in st.symbases or (st.wild and b.info not in ("ghost", "object", "alloca", "heap")):
                    return patom(atom("app", "loopmem:%s" % st.key, (patom(b), off), tags=frozenset([st.key]),
                                      isbase=(ty == "ptr")))
                mem = mem.parent
                continue
            raise AnalysisError("mem kind " + k)

    def partial(self, mem, b, o, size, ty, r):
        # an i64 load over two i32 constants etc. are not needed; zero is zero
        if r is not None and isinstance(r[0], Poly) and is_const(r[0]) and cval(r[0]) == 0 and size <= r[1]:
            return ZERO
        return None

    def conv(self, v, t0, t1):
        return v

    def clobbered(self, b, off, ty):
        return patom(atom("app", "clobber", (patom(b), off, self.fresh_atom("cl")), isbase=(ty == "ptr")))

    def mayalias(self, mem, b, off, size, ty):
        return patom(atom("app", "select_mem", (patom(b), off, self.fresh_atom("sm")), isbase=(ty == "ptr")))

    def store(self, ptr, val, size=8, ty="f64"):
        if ptr is BOT:
            return
        if isinstance(ptr, Poly):
            self._store1(ptr, val, size, ty)
        else:
            # several possible targets: store to each under its condition
            for p in leaves(ptr):
                c = self._leafwise(lambda q: ONE if q is p else ZERO, ptr)
                old = self._load1(self.mem, p, size, ty)
                self._store1(p, ite(c, val, old), size, ty)

    def _store1(self, p, val, size, ty):
        b, off = self.split_ptr(p)
        if b is None:
            m = Mem()
            m.kind = "wild"
            m.parent = self.mem
            m.cells = None
            m.data = None
            if not is_const(p):
                b = atom("app", "obj", (p,), isbase=True)
                off = ZERO
            else:
                return
        self.note_mod(b, off, size, ty)
        if is_const(off):
            o = cval(off)
            if self.mem is None or self.mem.kind != "seg" or self.mem.data == "frozen":
                self.mem = m_seg(self.mem)
            c = self.mem.cells
            offs = self.mem.bases.setdefault(b, set())
            if (b, o) not in c or c[(b, o)][1] != size:
                for oo in [q for q in offs if q < o + size and o < q + c[(b, q)][1]]:
                    del c[(b, oo)]
                    offs.discard(oo)
            offs.add(o)
            c[(b, o)] = (val, size, ty)
        else:
            m = Mem()
            m.kind = "sym"
            m.parent = self.freeze()
            m.cells = None
            m.data = (b, off, size, val, ty)
            self.mem = m

    def freeze(self):
        if self.mem is not None and self.mem.kind == "seg":
            self.mem.data = "frozen"
        return self.mem

    def note_mod(self, b, off, size, ty):
        for st in self.loopstack:
            if is_const(off):
                st.mods.setdefault((b, cval(off)), (size, ty))
            else:
                st.mods_sym.setdefault((b, off), (size, ty))

    def memcpy(self, d, s, n):
        if d is BOT or s is BOT or n is BOT:
            return
        if isinstance(n, Poly) and is_const(n) and cval(n) == 0:
            return
        if not (isinstance(d, Poly) and isinstance(s, Poly) and isinstance(n, Poly)):
            # enumerate joint leaves
            cs = A.cells(ONE, [d, s, n])
            if len(cs) == 1 or len({c[1] for c in cs}) == 1:
                d, s, n = cs[0][1]
            else:
                base = self.freeze()
                res = []
                for cons, (dd, ss, nn) in cs:
                    self.mem = base
                    self.memcpy(dd, ss, nn)
                    res.append((cons_bool(cons), self.freeze()))
                m = Mem()
                m.kind = "join"
                m.parent = None
                m.cells = None
                m.data = res
                self.mem = m
                return
        db, doff = self.split_ptr(d)
        sb, soff = self.split_ptr(s)
        if db is None or sb is None:
            if db is None and is_const(d):
                return
            if db is None:
                db, doff = atom("app", "obj", (d,), isbase=True), ZERO
            if sb is None:
                sb, soff = atom("app", "obj", (s,), isbase=True), ZERO
        m = Mem()
        m.kind = "copy"
        m.parent = self.freeze()
        m.cells = None
        m.data = (db, doff, n, m.parent, sb, soff)
        self.mem = m
        for st in self.loopstack:
            st.symbases_new.add(db)

    def memset(self, d, v, n):
        if not isinstance(d, Poly) or not isinstance(n, Poly):
            raise AnalysisError("memset on joined pointer")
        if is_const(n) and cval(n) == 0:
            return
        db, doff = self.split_ptr(d)
        if db is None:
            return
        m = Mem()
        m.kind = "fill"
        m.parent = self.freeze()
        m.cells = None
        m.data = (db, doff, n, v if isinstance(v, Poly) else ONE)
        self.mem = m
        for st in self.loopstack:
            st.symbases_new.add(db)

    # ---------------------------------------------------------- values
    def const_val(self, o, ty):
        k = o[0]
        if k == "c":
            return const(int(o[1]))
        if k == "f":
            s = o[1]
            if s in ("nan", "inf", "-inf"):
                a = patom(atom("sym", "INF", sign="+")) if "inf" in s else patom(atom("sym", "NAN"))
                return op_neg(a) if s[0] == "-" else a
            return const(A.const_from_double(float.fromhex(s)))
        if k == "g":
            return patom(atom("sym", "@" + o[1], (), isbase=True, info=("global", o[1])))
        if k == "off":
            return op_add(self.const_val(o[1], "ptr"), const(o[2]))
        if k == "u":
            return patom(atom("sym", "undef"))
        if k == "z":
            return ZERO
        if k == "agg":
            return tuple(self.const_val(x, None) for x in o[1])
        raise AnalysisError("const " + str(o))

    def val(self, o):
        if o[0] == "v":
            return self.env[o[1]]
        return self.const_val(o, None)

    # ---------------------------------------------------------- run
    def run(self, fname, args):
        self.loopstack = []
        self.runs += 1
        self.fname = fname
        f = self.mod.func(fname)
        self.cur_id = 0
        return self.call_function(f, args)

    def call_function(self, f, args):
        self.f = f
        self.env = {}
        for i, a in enumerate(args):
            self.env[i] = a
        e = Edge()
        e.src = None
        e.dst = f.entry
        e.guard = self.guard
        e.mem = self.mem
        e.phis = {}
        self.rets = []
        self.exec_region(set(f.rpo), f.entry, [e], f.toploops, None)
        if not self.rets:
            self.retval = None
            self.endguard = ZERO
            return None
        vs = [(g, v) for g, v, m in self.rets]
        self.mem = self.join_mem([(g, m) for g, v, m in self.rets])
        self.endguard = ZERO
        for g, _, _ in self.rets:
            self.endguard = b_or(self.endguard, g)
        self.retval = join_values(vs) if vs[0][1] is not None else None
        return self.retval

    def call_nested(self, f, args):
        """interpret another function at the current point (used by models of callbacks)"""
        keep = {k: getattr(self, k) for k in ("f", "env", "rets", "guard", "cur_ins", "cur_id", "loopstack")}
        self.nested = getattr(self, "nested", 0) + 1
        self.callpath.append("n%d" % self.nested)
        self.loopstack = []
        r = self.call_function(f, args)
        self.callpath.pop()
        g = self.endguard
        for k, v in keep.items():
            setattr(self, k, v)
        self.guard = b_and(self.guard, g)
        return r

    def join_mem(self, gm):
        gm = [(g, m) for g, m in gm if g is not ZERO and g is not BOT]
        if not gm:
            return None
        m0 = gm[0][1]
        if all(m is m0 for _, m in gm):
            return m0
        if len(gm) == 1:
            return m0
        m = Mem()
        m.kind = "join"
        m.parent = None
        m.cells = None
        m.data = gm
        return m

    # region execution ------------------------------------------------------
    def exec_region(self, blocks, header, in_edges, subloops, loop):
        """run the acyclic region; returns list of edges leaving it (incl. back edges to header)"""
        inc = {b: [] for b in blocks}
        inc[header] = list(in_edges)
        out = []
        sub_header = {l.header: l for l in subloops}
        inner = {}
        for l in subloops:
            for b in l.blocks:
                inner[b] = l
        for b in self.f.rpo:
            if b not in blocks:
                continue
            if b in inner and b not in sub_header:
                continue
            es = [e for e in inc[b] if e.guard is not ZERO and e.guard is not BOT]
            if not es:
                continue
            if self.doom and b in self.f.doomed and b != header:
                self.raise_event(b, es)
                continue
            if b in sub_header and not (loop is not None and b == loop.header):
                oes = self.exec_loop(sub_header[b], es)
            else:
                oes = self.exec_block(b, es)
            for e in oes:
                if e.dst in blocks and e.dst != header:
                    inc[e.dst].append(e)
                else:
                    out.append(e)
        return out

    def raise_event(self, b, es):
        """one event stands for everything between the decision to give up and the end of the program"""
        m = self.merge_edges(es, b)
        self.guard, self.mem = m.guard, m.mem
        self.cur_block = b
        ins = self.f.blocks[b]
        self.cur_ins = next((i for i in ins if i.get("loc")), ins[-1])
        self.cur_id = self.cur_ins["id"]
        ev = self.mkevent("raise", [])
        ev.info = {"names": self.f.doom_names(b)}
        h = self.handlers.get("raise")
        if h:
            h(self, ev, [])
        else:
            self.emit(ev)

    def exec_block(self, b, es):
        g = ZERO
        for e in es:
            g = b_or(g, e.guard)
        if g is ZERO:
            return []
        if len(es) == 1:
            self.mem = es[0].mem
            for k, v in es[0].phis.items():
                self.env[k] = v
        else:
            self.mem = self.join_mem([(e.guard, e.mem) for e in es])
            keys = set()
            for e in es:
                keys |= set(e.phis)
            for k in keys:
                self.env[k] = restrict(join_values([(e.guard, e.phis[k]) for e in es if k in e.phis]), g)
        self.guard = g
        self.cur_block = b
        for ins in self.f.blocks[b]:
            op = ins["op"]
            if op == "phi":
                continue
            self.stats["instr"] += 1
            self.cur_id = ins["id"]
            self.cur_ins = ins
            if op == "br":
                ops = ins["ops"]
                s = ins["succ"]
                if not ops:
                    return [self.mkedge(b, s[0], self.guard)]
                c = A.truth(self.val(ops[0]))
                if s[0] == s[1]:
                    return [self.mkedge(b, s[0], self.guard)]
                self.note_branch(b, ins, c)
                g1 = b_and(self.guard, c)
                g2 = b_and(self.guard, b_not(c))
                if self.itemplates and g1 not in (ZERO, BOT) and g2 not in (ZERO, BOT):
                    g1, g2 = A.tidy(g1, 2000, c), A.tidy(g2, 2000, c)
                r = []
                if g1 is not ZERO and g1 is not BOT:
                    r.append(self.mkedge(b, s[0], g1))
                if g2 is not ZERO and g2 is not BOT:
                    r.append(self.mkedge(b, s[1], g2))
                return r
            if op == "ret":
                v = self.val(ins["ops"][0]) if ins["ops"] else None
                self.rets.append((self.guard, v, self.freeze()))
                return []
            if op == "unreachable":
                return []
            if op == "switch":
                raise AnalysisError("switch not lowered")
            r = self.exec_ins(ins)
            if r is not None:
                self.env[ins["id"]] = r
            if self.guard is ZERO:
                return []
        raise AnalysisError("no terminator")

    def note_branch(self, b, ins, c):
        pass

    def mkedge(self, src, dst, g):
        e = Edge()
        e.src = src
        e.dst = dst
        e.guard = g
        e.mem = self.freeze()
        e.phis = {}
        for ins in self.f.blocks[dst]:
            if ins["op"] != "phi":
                break
            for v, pb in ins["ops"]:
                if pb == src:
                    e.phis[ins["id"]] = restrict(self.val(v), g)
                    break
        return e

    # loops -------------------------------------------------------------------
    def exec_loop(self, L, es):
        self.stats["loops"] += 1
        if self.allow_unroll:
            r = self.try_unroll(L, es)
            if r is not None:
                return r
        return self.symbolic_loop(L, es)

    def merge_edges(self, es, dst):
        g = ZERO
        for e in es:
            g = b_or(g, e.guard)
        m = Edge()
        m.src = es[0].src
        m.dst = dst
        m.guard = g
        m.mem = self.join_mem([(e.guard, e.mem) for e in es])
        m.phis = {}
        keys = set()
        for e in es:
            keys |= set(e.phis)
        for k in keys:
            m.phis[k] = restrict(join_values([(e.guard, e.phis[k]) for e in es if k in e.phis]), g) if len(es) > 1 else es[0].phis[k]
        return m

    def exit_conditions(self, L):
        """evaluated branch conditions of exiting branches of the last body execution"""

    def try_unroll(self, L, es):
        ev0 = len(self.events)
        seq0 = self.seq
        rets0 = len(self.rets)
        env0 = dict(self.env)
        mods0 = [(dict(s.mods), dict(s.mods_sym), set(s.symbases_new)) for s in self.loopstack]
        outs = []
        cur = [self.merge_edges(es, L.header)]
        decided_consts = {}

        def exiting(b):
            return any(s not in L.blocks for s in self.f.succ[b])
        it = 0
        limit = self.MAXUNROLL
        hist = []
        ok = False
        try:
            while True:
                self.iterctx.append("%d:%d" % (L.header, it))
                conds = {}
                self._cond_record = (L, conds)
                old = self.note_branch

                def nb(b, ins, c, conds=conds, old=old):
                    old(b, ins, c)
                    if b in L.blocks and exiting(b):
                        conds[b] = self.cond_distance(ins, c)
                self.note_branch = nb
                try:
                    res = self.exec_region(L.blocks, L.header, cur, L.children, L)
                finally:
                    self.note_branch = old
                    self.iterctx.pop()
                back = [e for e in res if e.dst == L.header]
                outs += [e for e in res if e.dst != L.header]
                hist.append(conds)
                it += 1
                if not back:
                    ok = True
                    break
                if it == 1:
                    # is there at all an exit decided by constants, staying inside?
                    cand = [b for b, d in conds.items() if d is not None]
                    if not cand:
                        break
                if it == 2:
                    # (a loop whose every exit is decided by constants is run as it is, where asked for)
                    good = self.unroll_decided and all(d is not None for h in hist for d in h.values())
                    for b, d in hist[1].items():
                        d0 = hist[0].get(b)
                        if d is None or d0 is None or d == "decided" or d0 == "decided":
                            continue
                        step = d0 - d
                        if step == 0:
                            continue
                        n = d0 / step
                        if 0 <= n <= limit + 2:
                            good = True
                    if not good:
                        break
                if it > limit:
                    break
                cur = [self.merge_edges(back, L.header)]
        except TooBig:
            ok = False
        if ok:
            self.stats["unrolled"] += 1
            return outs
        del self.events[ev0:]
        self.seq = seq0
        del self.rets[rets0:]
        self.env = env0
        for s, (a, b, c) in zip(self.loopstack, mods0):
            s.mods, s.mods_sym, s.symbases_new = a, b, c
        return None

    def cond_distance(self, ins, c):
        """if the branch condition is an integer/pointer comparison whose difference is a
        constant: that constant"""
        o = ins["ops"][0]
        d = self.cmpdist.get(o[1]) if o[0] == "v" else None
        if d is not None and isinstance(d, Poly) and is_const(d):
            return Fraction(cval(d))
        if isinstance(c, Poly) and is_const(c):
            return "decided"
        return None

    def symbolic_loop(self, L, es):
        ent = self.merge_edges(es, L.header)
        key = "%s%s#%d" % ("/".join(self.loopctx[-1:]) + "/" if self.loopctx else "", ".".join(self.callpath), L.header)
        if self.iterctx:
            key += "(" + ",".join(self.iterctx) + ")"
        st = LoopState(self, L, key, ent)
        deco, self.deco = self.deco, False
        n_atom = atom("sym", "n#" + key, (), tags=frozenset([key]) | self.tags(), sign="0+")
        st.n = patom(n_atom)
        ev0 = len(self.events)
        seq0 = self.seq
        rets0 = len(self.rets)
        env0 = dict(self.env)
        rounds = 0
        while True:
            rounds += 1
            self.stats["rounds"] += 1
            if rounds > 60:
                raise AnalysisError("loop fixpoint does not converge at %s" % key)
            del self.events[ev0:]
            self.seq = seq0
            del self.rets[rets0:]
            self.env = dict(env0)
            st.mods = dict(st.allmods)
            st.mods_sym = dict(st.allmods_sym)
            st.symbases_new = set(st.symbases)
            e = Edge()
            e.src = ent.src
            e.dst = L.header
            e.guard = b_and(ent.guard, st.known)
            m = Mem()
            m.kind = "loop"
            m.parent = ent.mem
            m.cells = None
            m.data = st.snapshot()
            e.mem = m
            e.phis = {k: st.value(("phi", k)) for k in st.phis}
            for f in st.assumed:
                e.guard = b_and(e.guard, apply("le0", lambda d: A.sign_value(d, ONE, ONE, ZERO), f(m)))
            self.loopctx.append(key)
            self.loopstack.append(st)
            try:
                res = self.exec_region(L.blocks, L.header, [e], L.children, L)
            finally:
                self.loopctx.pop()
                self.loopstack.pop()
            for s in self.loopstack:
                for k, v in st.mods.items():
                    s.mods.setdefault(k, v)
                for k, v in st.mods_sym.items():
                    s.mods_sym.setdefault(k, v)
                s.symbases_new |= st.symbases_new
            back = [x for x in res if x.dst == L.header]
            outs = [x for x in res if x.dst != L.header]
            changed = False
            # newly modified cells
            for k, v in st.mods.items():
                if k not in st.allmods:
                    st.allmods[k] = v
                    st.add_cell(k, v)
                    changed = True
            newb = set(st.symbases_new)
            for (b, off), v in st.mods_sym.items():
                if (b, off) not in st.allmods_sym:
                    st.allmods_sym[(b, off)] = v
                    if A.varies_in(off, key):
                        newb.add(b)
                    else:
                        st.add_cell((b, off), v)
                    changed = True
            if newb - st.symbases:
                st.symbases |= newb
                changed = True
            if back:
                be = self.merge_edges(back, L.header)
                if self.itemplates:
                    be.guard = A.tidy(be.guard)
                if st.update(be):
                    changed = True
            if not changed and back and self.itemplates:
                changed = st.bound_counters(be)
            if not changed and back and self.candidates:
                changed = st.drop_values(be)
            if not changed:
                break
        st.backguard = be.guard if back else ZERO
        st.rounds = rounds
        self.loopinfo[key] = st
        self.deco = deco
        if self.deco and back:
            top = not self.iterctx and not self.loopctx
            env1, rets1, ev1 = dict(self.env), list(self.rets), len(self.events)
            o2 = self.decorated(L, ent, st, key, e, ev0, rets0, env0)
            if top:
                return o2
            # inside of another loop: precise events, but one way out of any iteration
            self.env = env1
            self.rets[:] = rets1
        return outs

    def decorated(self, L, ent, st, key, e, ev0, rets0, env0):
        """events and exits of a loop told apart by iteration: the first one from the entry state, any
        later one after an execution of the body from the header invariant (so that what the previous
        iteration has established is known in it)"""
        del self.events[ev0:]
        del self.rets[rets0:]
        self.env = dict(env0)

        def body(tag, edges, inside):
            self.iterctx.append("%d:%s" % (L.header, tag))
            if inside:
                self.loopctx.append(key)
                self.loopstack.append(st)
            try:
                res = self.exec_region(L.blocks, L.header, edges, L.children, L)
            finally:
                self.iterctx.pop()
                if inside:
                    self.loopctx.pop()
                    self.loopstack.pop()
            return [x for x in res if x.dst == L.header], [x for x in res if x.dst != L.header]
        back, outs = body("p", [ent], False)
        if not back:
            return outs
        g = ZERO
        for b in back:
            g = b_or(g, b.guard)
        ev1, rets1 = len(self.events), len(self.rets)
        e2 = Edge()
        e2.src, e2.dst, e2.mem, e2.phis = e.src, e.dst, e.mem, e.phis
        e2.guard = b_and(e.guard, g)
        self.env = dict(env0)
        self.deco = False
        back, _ = body("g", [e2], True)
        self.deco = True
        del self.events[ev1:]
        del self.rets[rets1:]
        if not back:
            return outs
        be = self.merge_edges(back, L.header)
        if self.itemplates:
            be.guard = A.tidy(be.guard)
        _, o2 = body("s", [be], True)
        return outs + o2

    # instructions ------------------------------------------------------------


    def exec_ins(self, ins):
        op = ins["op"]
        h = getattr(self, "i_" + op.replace(".", "_"), None)
        if h is None:
            raise AnalysisError("instruction %s" % op)
        return h(ins)

    def _ops(self, ins):
        return [self.val(o) for o in ins["ops"]]

    def i_fadd(self, i):
        a, b = self._ops(i)
        return op_add(a, b)
    i_add = i_fadd

    def i_fsub(self, i):
        a, b = self._ops(i)
        return op_sub(a, b)
    i_sub = i_fsub

    def i_fmul(self, i):
        a, b = self._ops(i)
        return op_mul(a, b)
    i_mul = i_fmul

    def i_fdiv(self, i):
        a, b = self._ops(i)
        return op_div(a, b)

    def i_fneg(self, i):
        return op_neg(self._ops(i)[0])

    def i_frem(self, i):
        return app("frem", *self._ops(i))

    def i_sdiv(self, i):
        a, b = self._ops(i)
        ex = i.get("exact")

        def f(x, y):
            if is_const(y) and cval(y) != 0:
                if is_const(x):
                    q = abs(cval(x)) // abs(cval(y))
                    return const(q if (cval(x) >= 0) == (cval(y) > 0) else -q)
                if ex or all((c / Fraction(cval(y))).denominator == 1 for m, c in x.terms):
                    return A.p_scale(x, Fraction(1) / cval(y))
                qr = divided(x, cval(y))
                if qr is not None:
                    return qr[0]
            return patom(atom("app", "idiv", (x, y), sign="0+" if A.known_sign(x) in ("+", "0+", "0") and A.known_sign(y) == "+" else None))
        return apply("sdiv%s" % bool(ex), f, a, b)
    i_udiv = i_sdiv

    def i_srem(self, i):
        a, b = self._ops(i)

        def f(x, y):
            if is_const(x) and is_const(y) and cval(y):
                return const(int(math_fmod(cval(x), cval(y))))
            if is_const(y) and cval(y):
                qr = divided(x, cval(y))
                if qr is not None:
                    return const(qr[1])
            return patom(atom("app", "irem", (x, y), sign="0+" if A.known_sign(x) in ("+", "0+", "0") else None))
        return apply("srem", f, a, b)
    i_urem = i_srem

    def i_shl(self, i):
        a, b = self._ops(i)

        def f(x, y):
            if is_const(y):
                return A.p_scale(x, 2 ** int(cval(y)))
            return patom(atom("app", "shl", (x, y)))
        return apply("shl", f, a, b)

    def i_ashr(self, i):
        a, b = self._ops(i)
        ex = i.get("exact")

        def f(x, y):
            if is_const(y):
                d = 2 ** int(cval(y))
                if is_const(x):
                    return const(cval(x) // d)
                if ex or all((Fraction(c) / d).denominator == 1 for m, c in x.terms):
                    return A.p_scale(x, Fraction(1, d))
            return patom(atom("app", "idiv2", (x, y), sign="0+" if A.known_sign(x) in ("+", "0+", "0") else None))
        return apply("ashr%s" % bool(ex), f, a, b)
    i_lshr = i_ashr

    def i_and(self, i):
        a, b = self._ops(i)
        if i["ty"] == "i1":
            return b_and(A.truth(a), A.truth(b))

        def f(x, y):
            if is_const(x) and not is_const(y):
                x, y = y, x
            if is_const(x) and is_const(y):
                return const(int(cval(x)) & int(cval(y)))
            if is_const(y):
                c = int(cval(y))
                if c == 0:
                    return ZERO
                if c == -1 or c in (255, 65535, 4294967295, 2 ** 63 - 1):
                    return x
                if c < 0 and c & (-c) == -c:     # round down to multiple of -c
                    d = -c
                    if all(k % d == 0 for m, k in x.terms if m != () or True):
                        return x
                if 0 < c < 16:                   # allocated storage is aligned
                    b, off = self.split_ptr(x)
                    if b is not None and b.info == "heap" and is_const(off):
                        return const(int(cval(off)) & c)
            return patom(atom("app", "and", (x, y), sign="0+"))
        return apply("and", f, a, b)

    def i_or(self, i):
        a, b = self._ops(i)
        if i["ty"] == "i1":
            return b_or(A.truth(a), A.truth(b))
        if i.get("disjoint"):
            return op_add(a, b)

        def f(x, y):
            if is_const(x) and is_const(y):
                return const(int(cval(x)) | int(cval(y)))
            if not x.terms:
                return y
            if not y.terms:
                return x
            return patom(atom("app", "or", (x, y)))
        return apply("or", f, a, b)

    def i_xor(self, i):
        a, b = self._ops(i)
        if i["ty"] == "i1":
            a, b = A.truth(a), A.truth(b)
            return ite(a, b_not(b), b)

        def f(x, y):
            if is_const(x) and is_const(y):
                return const(int(cval(x)) ^ int(cval(y)))
            if is_const(y) and cval(y) == -1:
                return A.p_add(const(-1), x, -1)
            if is_const(y) and cval(y) == 1 and i["ty"] == "i8":
                return A.p_add(ONE, x, -1)
            return patom(atom("app", "xor", (x, y)))
        return apply("xor:" + i["ty"], f, a, b)

    def i_select(self, i):
        c, a, b = self._ops(i)
        c = A.truth(c)
        return ite(c, a, b)

    def i_freeze(self, i):
        return self._ops(i)[0]

    def i_alloca(self, i):
        nm = "alloca:%s" % self.cur_key()
        a = atom("sym", nm, (), tags=self.tags(), isbase=True, info="alloca")
        return patom(a)

    def i_load(self, i):
        p = self.val(i["ops"][0])
        v = self.load(p, i["size"], i["ty"])
        if i["ty"] == "i1":
            v = A.truth(v)
        return v

    def i_store(self, i):
        v, p = self._ops(i)
        if i["sty"] == "i8" and i["size"] == 1:
            pass
        self.store(p, v, i["size"], i["sty"])
        return None

    def i_getelementptr(self, i):
        p = self.val(i["ops"][0])
        if i["coff"]:
            p = op_add(p, const(i["coff"]))
        for v, s in i["vars"]:
            p = op_add(p, op_mul(self.val(v), const(s)))
        return p

    def i_extractvalue(self, i):
        v = self.val(i["ops"][0])
        for k in i["idx"]:
            if isinstance(v, tuple):
                v = v[k]
            else:
                v = app("extract%d" % k, v)
        return v

    def i_insertvalue(self, i):
        v, x = self._ops(i)

        def ins(v, idx, x):
            if not idx:
                return x
            if not isinstance(v, tuple):
                v = ()
            v = list(v) + [ZERO] * (idx[0] + 1 - len(v))
            v[idx[0]] = ins(v[idx[0]], idx[1:], x)
            return tuple(v)
        return ins(v, i["idx"], x)

    def _cast(self, i):
        return self._ops(i)[0]
    i_ptrtoint = i_inttoptr = i_bitcast = i_fpext = _cast

    def i_sitofp(self, i):
        v = self._ops(i)[0]
        if i["from"] == "i1":
            return op_neg(v)
        return v

    def i_uitofp(self, i):
        v = self._ops(i)[0]
        return v

    def i_fptosi(self, i):
        def f(p):
            if is_const(p):
                c = cval(p)
                return const(int(c))
            if is_intpoly(p):
                return p
            return patom(atom("app", "trunc", (p,)))
        return apply("fptosi", f, self._ops(i)[0])
    i_fptoui = i_fptosi

    def i_fptrunc(self, i):
        v = self._ops(i)[0]

        def f(p):
            if is_const(p):
                return p
            return patom(atom("app", "fptrunc_%s_%s" % (i["from"], i["ty"]), (p,)))
        return apply("fptrunc" + i["from"] + i["ty"], f, v)

    def i_zext(self, i):
        return self._ops(i)[0]

    def i_sext(self, i):
        v = self._ops(i)[0]
        return op_neg(v) if i["from"] == "i1" else v

    def i_trunc(self, i):
        v = self._ops(i)[0]
        if i["ty"] == "i1":
            return A.truth(v)
        w = int(i["ty"][1:])

        def f(p):
            if is_const(p):
                c = int(cval(p)) & ((1 << w) - 1)
                if c >= 1 << (w - 1):
                    c -= 1 << w
                return const(c)
            return p
        return apply("trunc%d" % w, f, v)

    def i_icmp(self, i):
        a, b = self._ops(i)
        pr = i["pred"]
        oty = i["oty"]
        d = op_sub(a, b)
        if self.cmpdist is None:
            self.cmpdist = {}
        self.cmpdist[i["id"]] = d
        if pr in ("eq", "ne"):
            z, nz = (ONE, ZERO) if pr == "eq" else (ZERO, ONE)

            def f(p):
                if is_const(p):
                    return nz if cval(p) else z
                if oty == "ptr" or any(A._atoms[x].isbase for x in A.poly_atoms(p)):
                    bs = [(m, c) for m, c in p.terms if len(m) == 1 and A._atoms[m[0][0]].isbase and m[0][1] == 1]
                    rest = [m for m, c in p.terms if (m, c) not in bs and m != ()]
                    real = [m for m, c in bs if A._atoms[m[0][0]].info in ("object", "alloca", "heap") or isinstance(A._atoms[m[0][0]].info, tuple) and A._atoms[m[0][0]].info[0] == "global"]
                    if len(bs) == len(real) and bs:
                        return nz
                return sign_value(p, nz, z, nz)
            return apply("icmpeq:%s:%s" % (pr, oty), f, d)
        if pr[0] == "u":
            if all(isinstance(x, Poly) and is_const(x) for x in (a, b)):
                w = 64 if oty == "ptr" else int(oty[1:])
                x, y = int(cval(a)) % (1 << w), int(cval(b)) % (1 << w)
                d = const(x - y)
            else:
                neg = False
                for x in leaves(a):
                    if isinstance(x, Poly) and not is_const(x) and any(m == () and c < 0 for m, c in x.terms):
                        neg = True
                if neg and oty != "ptr" and all(is_const(y) and cval(y) >= 0 for y in leaves(b) if isinstance(y, Poly)):
                    nonneg = apply("sgn>=0", lambda p: sign_value(p, ZERO, ONE, ONE), a)
                    t = self.rel(pr[1:], d)
                    if pr in ("ult", "ule"):
                        return b_and(nonneg, t)
                    return b_or(b_not(nonneg), t)
                # huge constants (max_size checks, -1): unsigned maximum
                if all(is_const(y) and (cval(y) < 0 or cval(y) >= 2 ** 57) for y in leaves(b) if isinstance(y, Poly)):
                    return ONE if pr in ("ult", "ule") else ZERO
            pr = "s" + pr[1:]
        return self.rel(pr[1:], d)

    def rel(self, r, d):
        t = {"lt": (ONE, ZERO, ZERO), "le": (ONE, ONE, ZERO), "gt": (ZERO, ZERO, ONE), "ge": (ZERO, ONE, ONE),
             "eq": (ZERO, ONE, ZERO), "ne": (ONE, ZERO, ONE)}[r]
        return apply("rel:" + r, lambda p: sign_value(p, *t), d)

    def i_fcmp(self, i):
        a, b = self._ops(i)
        pr = i["pred"]
        if pr in ("true", "false"):
            return ONE if pr == "true" else ZERO
        if pr == "ord":
            return ONE
        if pr == "uno":
            return ZERO
        return self.rel(pr[1:], op_sub(a, b))

    def i_fence(self, i):
        return None

    # calls -------------------------------------------------------------------
    def i_call(self, i):
        self.stats["calls"] += 1
        c = i["callee"]
        if c[0] == "g":
            name = c[1]
        else:
            v = self.val(c)
            name = None
            if isinstance(v, Poly):
                b, off = self.split_ptr(v)
                if b is not None and isinstance(b.info, tuple) and b.info[0] == "global":
                    name = b.info[1]
            if name is None:
                name = "<indirect>"
        args = self._ops(i)
        if name == "<indirect>":
            return self.opaque(i, "<indirect:%r>" % (self.val(c),), args)
        if name.startswith("llvm."):
            return self.intrinsic(i, name, args)
        h = self.handlers.get(name)
        if h is None:
            for k in self.handlers:
                if k.endswith("*") and name.startswith(k[:-1]) or k.startswith("::") and k in self.mod.dem.get(name, ""):
                    h = self.handlers[k]
                    break
        if h is not None:
            ev = self.mkevent(name, args)
            r = h(self, ev, args)
            ev.ret = r
            if i.get("noreturn"):
                self.guard = ZERO
            return r if i["ty"] != "void" else None
        bi = BUILTINS.get(name)
        if bi is not None:
            return bi(self, i, args)
        if i.get("noreturn") or name.startswith("_ZSt") and "throw" in name:
            ev = self.mkevent("noreturn:" + name, args)
            self.events.append(ev)
            self.guard = ZERO
            return None
        return self.opaque(i, name, args)

    def mkevent(self, name, args):
        ev = Event()
        ev.name = name
        ev.args = args
        ev.guard = self.guard
        ev.mem = self.mem
        ev.loc = self.cur_ins.get("loc")
        ev.loops = tuple(self.loopctx)
        ev.ret = None
        ev.info = {}
        ev.instr = self.cur_key()
        self.seq += 1
        ev.seq = self.seq
        ev.ghost = None
        return ev

    def emit(self, ev):
        self.freeze()
        ev.mem = self.mem
        self.events.append(ev)
        return ev

    def opaque(self, i, name, args):
        if self.default is not None:
            r = self.default(self, i, name, args)
            if r is not NotImplemented:
                return r
        raise AnalysisError("call of unknown function %s (%s) at %s" % (name, self.mod.dem.get(name, ""), loc_str(i.get("loc"), True)))

    def intrinsic(self, i, name, args):
        n = name.split(".")[1]
        if n in ("memcpy", "memmove"):
            self.memcpy(args[0], args[1], args[2])
            return None
        if n == "memset":
            self.memset(args[0], args[1], args[2])
            return None
        if n == "fabs":
            return op_fabs(args[0])
        if n in ("maxnum", "smax", "umax", "maximum"):
            return ite(self.rel("lt", op_sub(args[0], args[1])), args[1], args[0])
        if n in ("minnum", "smin", "umin", "minimum"):
            return ite(self.rel("lt", op_sub(args[1], args[0])), args[1], args[0])
        if n == "abs":
            return op_fabs(args[0])
        if n in ("pow", "powi"):
            return apply("pow", A.pow_poly, args[0], args[1])
        if n in ("fmuladd", "fma"):
            return op_add(op_mul(args[0], args[1]), args[2])
        if n in ("sqrt", "floor", "ceil", "trunc", "rint", "round", "exp", "log", "sin", "cos", "log10", "log2", "exp2"):
            return fold_fn(n, args[0])
        if n == "trap" or n == "ubsantrap":
            ev = self.mkevent("trap", args)
            self.events.append(ev)
            self.guard = ZERO
            return None
        if n in ("stacksave",):
            return ZERO
        if n in ("stackrestore", "lifetime", "dbg", "donothing", "prefetch", "var_annotation"):
            return None
        if n in ("expect", "launder", "strip"):
            return args[0]
        if n == "copysign":
            return app("copysign", *args)
        if name.startswith("llvm.is.constant"):
            return ZERO
        if name.startswith("llvm.objectsize"):
            return const(-1)
        if name.startswith("llvm.umul.with.overflow"):
            return (op_mul(*args), ZERO)
        if name.startswith("llvm.uadd.with.overflow"):
            return (op_add(*args), ZERO)
        if name.startswith("llvm.usub.sat"):
            d = op_sub(*args)
            return ite(self.rel("gt", d), d, ZERO)
        if name.startswith("llvm.uadd.sat"):
            return op_add(*args)
        if name.startswith("llvm.ptrmask"):
            return args[0]
        return self.opaque(i, name, args)


def divided(x, y):
    """quotient and remainder of a non-negative integer x = y*q + r with r a constant, or None"""
    if y <= 0 or not all((c / Fraction(y)).denominator == 1 for m, c in x.terms if m):
        return None
    k = sum(c for m, c in x.terms if not m)
    if Fraction(k).denominator != 1:
        return None
    r = int(k) % int(y) if Fraction(y).denominator == 1 else None
    if r is None:
        return None
    q = A.p_scale(A.p_add(x, const(r), -1), Fraction(1) / y)
    return (q, r) if A.known_sign(q) in ("+", "0+", "0") else None


def math_fmod(a, b):
    q = abs(a) % abs(b)
    return q if a >= 0 else -q


is_intpoly = A.is_intpoly


def leaves(v):
    out = []
    seen = set()

    def go(x):
        if x is BOT or id(x) in seen:
            return
        seen.add(id(x))
        if isinstance(x, Node):
            for k in x.kids:
                go(k)
        else:
            out.append(x)
    go(v)
    return out


def join_values(gv):
    gv = [(g, v) for g, v in gv if g is not ZERO and v is not BOT]
    if not gv:
        return BOT
    r = gv[-1][1]
    if all(v is r for _, v in gv):
        return r
    if isinstance(r, tuple):
        n = len(r)
        return tuple(join_values([(g, v[k]) for g, v in gv]) for k in range(n))
    r = restrict_bot(r, gv[-1][0])
    for g, v in gv[-2::-1]:
        r = ite(g, v, r)
    return r


def same_under(g, a, b):
    """equal wherever g holds"""
    if a is b:
        return True
    if isinstance(a, tuple) or isinstance(b, tuple) or a is BOT or b is BOT:
        return False
    return b_and(g, apply("nz", lambda p: ONE if p.terms else ZERO, op_sub(a, b))) in (ZERO, BOT)


def restrict_bot(v, g):
    return ite(g, v, BOT)


def cons_bool(cons):
    g = ONE
    for v, b in cons.items():
        kids = [ZERO] * v.arity
        kids[b] = ONE
        g = b_and(g, A.ite_var(v, kids))
    return g


def sign_of(g, v):
    """sign of a guarded value, None if unknown"""
    if v is BOT or isinstance(v, tuple):
        return None
    if all(isinstance(x, Poly) and A.known_sign(x) for x in leaves(v)):
        cs = [({}, (x,)) for x in leaves(v)]
    else:
        try:
            cs = A.wcells(g, [v], 400, 1)
        except TooBig:
            return None
    r = "none"
    for cons, (x,) in cs:
        if not isinstance(x, Poly):
            return None
        s = A.sign_in(cons, x)
        if s is None:
            return None
        r = s if r == "none" else sign_join(r, s)
        if r is None:
            return None
    return None if r == "none" else r


def sign_join(a, b):
    if a is None or b is None:
        return None
    if a == b:
        return a
    ab = {a.strip("0") or "0", b.strip("0") or "0"}
    if ab == {"+", "-"}:
        return None
    return "0" + ("+" if "+" in ab else "-" if "-" in ab else "")


class LoopState:
    def __init__(self, it, L, key, ent):
        self.it = it
        self.L = L
        self.key = key
        self.ent = ent
        self.phis = list(ent.phis)
        self.allmods = {}
        self.allmods_sym = {}
        self.symbases = set()
        self.wild = False
        self.cells = {}
        self.status = {}    # var -> ('inv',) | ('lin', step) | ('top', atom, diff)
        self.init = {}
        for k in self.phis:
            self.init[("phi", k)] = ent.phis[k]
            self.status[("phi", k)] = ("inv",)
        self.mods = {}
        self.mods_sym = {}
        self.symbases_new = set()
        self.ntop = 0
        self.templates = [t for t in (t(ent.mem) if callable(t) else t for t in it.templates) if isinstance(t, Poly)]
        self.known = ONE    # facts that hold whenever the header is reached
        self.bounded = set()
        # facts about the memory that hold on entry, assumed to be kept by the body (checked in the end)
        self.assumed = []
        for f in it.candidates:
            v = restrict(f(ent.mem), ent.guard)
            if v is not BOT and sign_of(ent.guard, v) in ("-", "0", "0-"):
                self.assumed.append(f)

    def add_cell(self, k, szty):
        b, off = k
        offp = const(off) if not isinstance(off, Poly) else off
        v = restrict(self.it.lookup(self.ent.mem, b, offp, szty[0], szty[1]), self.ent.guard)
        self.cells[k] = szty
        self.init[("cell", k)] = v
        self.status[("cell", k)] = ("inv",)

    def snapshot(self):
        s = LoopSnap()
        s.key = self.key
        s.symbases = set(self.symbases)
        s.wild = self.wild
        s.cellvals = {k: (self.value(("cell", k)), t[1]) for k, t in self.cells.items()}
        return s

    def value(self, var):
        st = self.status[var]
        if st[0] == "inv":
            return self.init[var]
        if st[0] == "lin":
            return op_add(self.init[var], op_mul(self.n, st[1]))
        if st[0] == "top":
            v = patom(st[1])
            if len(st) > 4:
                v = op_mul(v, st[4])
            if st[2] is not None:
                v = op_add(v, st[2])
            if len(st) > 3 and st[3] == "bool":
                v = A.mkbool(st[1])
            return v
        raise AnalysisError("status")

    def invariant(self, v):
        return not A.varies_in(v, self.key)

    def is_boolish(self, var, nxt):
        ini = self.init[var]
        try:
            return all(isinstance(x, Poly) and (is_const(x) and cval(x) in (0, 1)) for x in leaves(ini) + leaves(nxt)) and \
                self.var_ty(var) in ("i8", "i1")
        except Exception:
            return False

    def update(self, be):
        it = self.it
        nxt = {}
        for k in self.phis:
            nxt[("phi", k)] = be.phis.get(k, BOT)
        for k, szty in self.cells.items():
            b, off = k
            offp = const(off) if not isinstance(off, Poly) else off
            nxt[("cell", k)] = restrict(it.lookup(be.mem, b, offp, szty[0], szty[1]), be.guard)
        demoted = []
        changed = False
        groups = {}
        for var, nv in nxt.items():
            if nv is BOT:
                continue
            st = self.status[var]
            cur = restrict(self.value(var), be.guard)
            if st[0] == "inv":
                if nv is cur or A.approx_equal(nv, cur, 1e-14):
                    continue
                changed = True
                d = None
                if not isinstance(nv, tuple) and not isinstance(cur, tuple):
                    d = op_sub(nv, cur)
                if d is not None and isinstance(d, Poly) and self.invariant(d) and not self.has_undef(d) and isinstance(self.init[var], Poly):
                    self.status[var] = ("lin", d)
                else:
                    demoted.append((var, nv))
            elif st[0] == "lin":
                d = op_sub(nv, cur)
                if d is st[1] or (isinstance(d, Poly) and A.approx_equal(d, st[1], 1e-14)):
                    continue
                changed = True
                if isinstance(d, Poly) and self.invariant(d) and self.invariant(st[1]) and not st[-1] == "re":
                    self.status[var] = ("lin", d, "re")
                    continue
                demoted.append((var, nv))
            else:
                groups.setdefault(st[1].id, []).append((var, nv, st))
        # the signs assumed for the unknown values have to be kept by the loop
        for aid, mem in list(groups.items()):
            at = A._atoms[aid]
            if at.sign is None:
                continue
            rep = [m for m in mem if self.is_rep(m[2])]
            sg = sign_join(at.sign, sign_of(be.guard, self.minus(rep[0][1], rep[0][2]))) if rep else None
            if sg != at.sign:
                changed = True
                self.ntop += 1
                shift = ZERO
                if sg is None and rep and len(rep[0][2]) == 4 and rep[0][2][3] == "tpl":
                    # another template may do
                    v0, nv0, st0 = rep[0]
                    ts = self.templates if self.var_ty(v0) in ("double", "f64") else it.itemplates
                    for t in ts[ts.index(st0[2]) + 1:]:
                        if self.invariant(t):
                            sg = sign_join(sign_of(self.ent.guard, op_sub(self.init[v0], t)), sign_of(be.guard, op_sub(nv0, t)))
                            if sg is not None:
                                shift = op_sub(t, st0[2])
                                break
                a = atom("sym", "%s.%d" % (at.name, self.ntop), (), tags=at.tags, isbase=at.isbase, sign=sg, info=at.info)
                for var, q in list(self.status.items()):
                    if q[0] == "top" and q[1] is at:
                        d = q[2]
                        if shift.terms:
                            d = op_add(d if d is not None else ZERO, op_mul(shift, q[4]) if len(q) > 4 else shift)
                        self.status[var] = (q[0], a, d) + q[3:]
                return True
        # existing congruence classes: the others are the representative times a factor plus a difference
        for aid, mem in groups.items():
            rep = [m for m in mem if self.is_rep(m[2])]
            rep = rep[0] if rep else mem[0]
            rn = self.minus(rep[1], rep[2])
            for var, nv, st in mem:
                if var == rep[0]:
                    continue
                want = op_mul(rn, st[4]) if len(st) > 4 else rn
                if st[2] is not None:
                    want = op_add(want, restrict(st[2], be.guard))
                if nv is want or A.approx_equal(nv, want, 1e-14) or same_under(be.guard, nv, want):
                    continue
                changed = True
                demoted.append((var, nv))
        reps = {}
        dem = {d[0] for d in demoted}
        for var, st in self.status.items():
            if st[0] == "top" and self.is_rep(st) and var not in dem:
                reps[var] = st[1]
        isint = lambda v: self.var_ty(v) in ("i64", "i32")
        demoted.sort(key=lambda d: (self.is_ptr(d[0]), not isint(d[0])))
        for var, nv in demoted:
            placed = False
            ini = self.init[var]
            ptr = self.is_ptr(var)
            if not isinstance(ini, tuple):
                for r, ra in reps.items():
                    rn = nxt.get(r)
                    if rn is None or rn is BOT or isinstance(self.init[r], tuple) or ra.isbase and not ptr:
                        continue
                    rs = self.status[r]
                    rn, ri = self.minus(rn, rs), self.minus(self.init[r], rs)
                    d0 = op_sub(ini, ri)
                    if ra.isbase == ptr and isinstance(d0, Poly) and self.invariant(d0) and not self.has_undef(d0) and same_under(be.guard, op_sub(nv, rn), d0):
                        self.status[var] = ("top", ra, None if not d0.terms else d0)
                        if len(rs) == 4 and rs[3] == "bool":
                            self.status[var] = self.status[var] + (rs[3],)
                        placed = True
                        break
                    for c in [] if ra.isbase else self.scales(ini, nv) + ([const(8)] if ptr else [const(-1)] if isint(var) and isint(r) else []):
                        d0 = op_sub(ini, op_mul(c, ri))
                        if not isinstance(d0, Poly) or not self.invariant(d0) or self.has_undef(d0):
                            continue
                        if same_under(be.guard, op_sub(nv, op_mul(c, rn)), d0):
                            self.status[var] = ("top", ra, d0 if d0.terms else None, "", c)
                            placed = True
                            break
                    if placed:
                        break
            if not placed:
                self.ntop += 1
                bo = self.is_boolish(var, nv)
                if isinstance(ini, tuple):
                    raise AnalysisError("aggregate loop variable")
                sg = tpl = None
                if not ptr and not bo:
                    sg = sign_join(sign_of(self.ent.guard, ini), sign_of(be.guard, nv))
                    ty = self.var_ty(var)
                    if ty in ("double", "f64", "i32", "i64"):
                        for t in self.templates if ty in ("double", "f64") else it.itemplates:
                            ts = sign_join(sign_of(self.ent.guard, op_sub(ini, t)), sign_of(be.guard, op_sub(nv, t))) if self.invariant(t) else None
                            if ts is not None:
                                sg, tpl = ts, t
                                break
                a = atom("sym", "phi#%s:%s.%d" % (self.key, self.vname(var), self.ntop), (),
                         tags=frozenset([self.key]) | it.tags(), isbase=ptr, sign=sg,
                         info="int" if not ptr and self.var_ty(var) in ("i64", "i32") else None)
                self.status[var] = ("top", a, tpl) + (("bool",) if bo else ("tpl",) if tpl is not None else ())
                reps[var] = a
                if isint(var) and not ptr:
                    self.regroup(var, reps, nxt, be.guard)
        return changed

    def regroup(self, var, reps, nxt, g):
        """unknown variables that are a multiple of the new counter plus an invariant"""
        vs = self.status[var]
        rn, ri = self.minus(nxt[var], vs), self.minus(self.init[var], vs)
        for r in list(reps):
            st = self.status[r]
            if r == var or self.var_ty(r) not in ("double", "f64") or isinstance(self.init[r], tuple) or nxt.get(r, BOT) is BOT:
                continue
            if any(q[0] == "top" and q[1] is st[1] for v, q in self.status.items() if v != r):
                continue
            for c in self.scales(self.init[r], nxt[r]):
                d0 = op_sub(self.init[r], op_mul(c, ri))
                if not isinstance(d0, Poly) or not self.invariant(d0) or self.has_undef(d0):
                    continue
                if same_under(g, op_sub(nxt[r], op_mul(c, rn)), d0):
                    self.status[r] = ("top", vs[1], d0 if d0.terms else None, "", c)
                    del reps[r]
                    break

    def bound_counters(self, be):
        """facts about the counters of the loop: not beyond a template on entry and after the body"""
        it = self.it
        new = False
        for var, st in self.status.items():
            if st[0] == "inv" or self.var_ty(var) not in ("i64", "i32")  or (var, "b") in self.bounded or st[0] == "top" and len(st) == 4 and st[3] == "tpl":
                continue
            nv = be.phis.get(var[1], BOT) if var[0] == "phi" else None
            if nv is None:
                b, off = var[1]
                nv = restrict(it.lookup(be.mem, b, const(off) if not isinstance(off, Poly) else off, *self.cells[var[1]]), be.guard)
            if nv is BOT:
                continue
            for t in it.itemplates:
                if not self.invariant(t) or sign_of(self.ent.guard, op_sub(self.init[var], t)) not in ("0", "-", "0-"):
                    continue
                # strictly below if it starts there and stays there
                for top in (ZERO, ONE):
                    if top is ZERO and sign_of(self.ent.guard, op_sub(self.init[var], t)) != "-":
                        continue
                    hyp = apply("lt0" if top is ZERO else "le0", lambda d: A.sign_value(d, ONE, top, ZERO), op_sub(self.value(var), t))
                    s = sign_of(b_and(be.guard, hyp), op_sub(nv, t))
                    if s == "-" or top is ONE and (s is not None and "-" in s or s == "0"):
                        self.bounded.add((var, "b"))
                        self.known = b_and(self.known, hyp)
                        new = True
                        break
        return new

    def drop_values(self, be):
        """forget the assumed facts the body does not keep"""
        bad = []
        for f in self.assumed:
            v = restrict(f(be.mem), be.guard)
            if v is not BOT and sign_of(be.guard, v) not in ("-", "0", "0-"):
                bad.append(f)
        if bad:
            self.assumed = [f for f in self.assumed if f not in bad]
            self.known = ONE
            self.bounded = set()
        return bool(bad)

    @staticmethod
    def is_rep(st):
        """is this loop variable the one its class is named after (up to a template)?"""
        return len(st) < 5 and (st[2] is None or len(st) > 3 and st[3] == "tpl")

    @staticmethod
    def minus(v, st):
        return op_sub(v, st[2]) if st[2] is not None else v

    def var_ty(self, var):
        if var[0] == "cell":
            return self.cells[var[1]][1]
        for ins in self.it.f.blocks[self.L.header]:
            if ins["id"] == var[1]:
                return ins["ty"]
        return None

    def scales(self, ini, nv):
        """factors a loop variable may be a multiple of a counter by: the invariant atoms of its next value"""
        out = []
        for x in leaves(nv):
            if not isinstance(x, Poly):
                return []
            for a in A.poly_atoms(x):
                p = patom(A._atoms[a])
                if p not in out and not A._atoms[a].isbase and self.invariant(p):
                    out.append(p)
        return out if len(out) < 8 else []

    def has_undef(self, p):
        for a in A.poly_atoms(p):
            if A._atoms[a].name == "undef":
                return True
        return False

    def is_ptr(self, var):
        if var[0] == "cell":
            return self.cells[var[1]][1] == "ptr"
        for ins in self.it.f.blocks[self.L.header]:
            if ins["id"] == var[1]:
                return ins["ty"] == "ptr"
        return False

    def vname(self, var):
        if var[0] == "phi":
            return "p%d" % var[1]
        b, off = var[1]
        return "%s+%s" % (A.atom_str(b), off)


class LoopSnap:
    __slots__ = ("key", "symbases", "wild", "cellvals")


# ---------------------------------------------------------------- builtins
def bi_new(it, i, args):
    a = atom("sym", "heap:%s" % it.cur_key(), (), tags=it.tags(), isbase=True, info="heap")
    ev = it.mkevent("new", args)
    ev.ret = patom(a)
    it.events.append(ev)
    return patom(a)


def bi_delete(it, i, args):
    ev = it.mkevent("delete", args)
    it.events.append(ev)
    return None


def bi_pow(it, i, args):
    return apply("pow", A.pow_poly, *args)


def fold_fn(name, v):
    """elementary function of one value, folded on constants (floor, ceil, trunc exactly)"""
    import math
    if A.is_const(v):
        x = A.cval(v)
        try:
            if name in ("sqrt", "exp", "log", "sin", "cos", "atan", "tan"):
                return A.const(A.const_from_double(getattr(math, name)(float(x))))
            if name in ("floor", "ceil", "trunc"):
                return A.const(getattr(math, name)(x))
        except ValueError:
            pass
    return app(name, v)


def bi_fn(name):
    def f(it, i, args):
        if len(args) == 1:
            return fold_fn(name, args[0])
        return app(name, *args)
    return f


def bi_nop(it, i, args):
    return None


def bi_one(it, i, args):
    return ONE


def bi_copysign(it, i, args):
    return app("copysign", *args)


BUILTINS = {
    "_Znwm": bi_new, "_Znam": bi_new, "malloc": bi_new, "_ZnwmSt11align_val_t": bi_new,
    "_ZdlPv": bi_delete, "_ZdlPvm": bi_delete, "_ZdaPv": bi_delete, "_ZdaPvm": bi_delete, "free": bi_delete,
    "pow": bi_pow, "powf": bi_pow, "powl": bi_pow,
    "sqrt": bi_fn("sqrt"), "exp": bi_fn("exp"), "log": bi_fn("log"), "log10": bi_fn("log10"), "floor": bi_fn("floor"),
    "ceil": bi_fn("ceil"), "sin": bi_fn("sin"), "cos": bi_fn("cos"), "atan": bi_fn("atan"), "tan": bi_fn("tan"), "ldexp": bi_fn("ldexp"), "fmod": bi_fn("frem"),
    "fabs": lambda it, i, a: op_fabs(a[0]),
    "sqrtf": bi_fn("sqrtf"), "expf": bi_fn("expf"), "logf": bi_fn("logf"), "fabsf": bi_fn("fabsf"),
    "__cxa_guard_acquire": bi_one, "__cxa_guard_release": bi_nop, "__cxa_atexit": bi_nop,
    "_ZNSt8ios_base4InitC1Ev": bi_nop,
}


# ---------------------------------------------------------------- differences between memories
def touched(end, start, bases=("object",)):
    """(base, off, size, ty) of cells possibly written between two memory snapshots;
    off None = an unknown part of the base"""
    out = {}
    seen = set()
    st = [end]
    while st:
        m = st.pop()
        if m is None or m is start or id(m) in seen:
            continue
        seen.add(id(m))
        if m.kind == "seg":
            for (b, o), (v, s, t) in m.cells.items():
                if b.info in bases:
                    out[(b, o)] = (s, t)
            st.append(m.parent)
        elif m.kind == "sym":
            b, off, s, v, t = m.data
            if b.info in bases:
                out[(b, off)] = (s, t)
            st.append(m.parent)
        elif m.kind in ("copy", "fill"):
            b, off, n = m.data[:3]
            if b.info in bases:
                if is_const(off) and is_const(n):
                    for k in range(0, int(cval(n)), 8):
                        out[(b, cval(off) + k)] = (8, "f64")
                else:
                    out[(b, None)] = (8, "f64")
            st.append(m.parent)
        elif m.kind == "join":
            for g, p in m.data:
                st.append(p)
        elif m.kind == "loop":
            for (b, o), (v, t) in m.data.cellvals.items():
                if b.info in bases:
                    out[(b, o)] = (8 if t in ("f64", "i64", "ptr") else 4, t)
            for b in m.data.symbases:
                if b.info in bases:
                    out[(b, None)] = (8, "f64")
            st.append(m.parent)
        else:
            st.append(m.parent)
    return out


def changed(it, end, start, bases=("object",)):
    """cells whose value differs between the snapshots: [(base, off, before, after)]"""
    r = []
    for (b, o), (s, t) in touched(end, start, bases).items():
        if o is None:
            r.append((b, o, None, None))
            continue
        off = o if isinstance(o, Poly) else const(o)
        v0 = it.lookup(start, b, off, s, t)
        v1 = it.lookup(end, b, off, s, t)
        if v0 is not v1 and not A.approx_equal(v0, v1, 1e-12):
            r.append((b, o, v0, v1))
    return r
