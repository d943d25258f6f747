"""C24: splitting a state over workers loses and duplicates nothing"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, alg
import absint as A
from absint import const, is_const, cval
from interp import Interp
from rkset import sym

RULE = ("The range splitter is interpreted for 1 to 9 parts and every remainder, the number of whole slices being a symbol, so that every length is covered: the slices must be consecutive, begin at the first and "
        "end at the last element and differ in length by at most one. split and unsplit of the OpenMP and MPI states are interpreted over containers of symbolic elements (0 to 13 of them, up to 5 parts, also "
        "parts of unequal lengths for unsplit; OpenMP under a model of a team of two threads, MPI with a stand-in for the message passing library): every element must be found exactly once, in order.")

SRC = alg.PRE.replace("using namespace", alg.inc("util/split_adaptor") + "#include <vector>\nusing namespace") + """
extern "C" void vp_part(double *b, double *e) noexcept;
extern "C" void w_function(double *p, long n, long i, long k) { R r(p, p + n); auto s = detail::make_split_range(r, i, k); vp_part(s.begin(), s.end()); }
extern "C" void w_const(double *p, long n, long i, long k) { const R r(p, p + n); auto s = detail::make_split_range(r, i, k); vp_part(s.begin(), s.end()); }
extern "C" void w_adaptor(double *p, long n, long i, long k) { R r(p, p + n); auto s = r | detail::split(i, k); vp_part(s.begin(), s.end()); }
extern "C" void w_const_adaptor(double *p, long n, long i, long k) { const R r(p, p + n); auto s = r | detail::split(i, k); vp_part(s.begin(), s.end()); }
"""
OMP = alg.PRE.replace("using namespace", alg.inc("external/openmp/openmp") + "#include <vector>\nusing namespace") + """
extern "C" void vp_show(int i, const double *p, long n) noexcept;
extern "C" double vp_in(int) noexcept;
extern "C" long vp_len(int) noexcept;
extern "C" void w_split(long n, long k, long old) { std::vector<double> v(n); for (long i = 0; i < n; ++i) v[i] = vp_in(i); openmp_state<double> s(k, std::vector<double>(old)); split(v, s);
  vp_show(-2, v.data(), v.size()); for (size_t i = 0; i < s.size(); ++i) vp_show(i, s[i].data(), s[i].size()); }
extern "C" void w_unsplit(long k, long old) { openmp_state<double> s(k); int c = 0; for (long i = 0; i < k; ++i) { s[i].resize(vp_len(i)); for (size_t j = 0; j < s[i].size(); ++j) s[i][j] = vp_in(c++); }
  std::vector<double> v(old); unsplit(s, v); vp_show(-2, v.data(), v.size()); for (size_t i = 0; i < s.size(); ++i) vp_show(i, s[i].data(), s[i].size()); }
"""
MPI = alg.PRE.replace("using namespace", alg.inc("external/mpi/mpi") + "#include <vector>\nusing namespace") + """
extern "C" void vp_show(int i, const double *p, long n) noexcept;
extern "C" double vp_in(int) noexcept;
extern "C" void w_split(long n) { std::vector<double> v(n); for (long i = 0; i < n; ++i) v[i] = vp_in(i); mpi_state< std::vector<double> > s; split(v, s); vp_show(-2, v.data(), v.size()); vp_show(0, s().data(), s().size()); }
extern "C" void w_unsplit(long own, long n) { mpi_state< std::vector<double> > s; s().resize(own); for (long i = 0; i < own; ++i) s()[i] = vp_in(i); std::vector<double> v(n); unsplit(s, v); vp_show(-2, v.data(), v.size()); vp_show(0, s().data(), s().size()); }
"""


def new(m, h):
    it = Interp(m, h)
    it.loopstack = []
    it.deco = it.doom = True
    return it


def vals(it, p, n):
    return [it.load(A.op_add(p, const(8 * i))) for i in range(int(cval(n)))]


def ranges(c):
    m = vp.build_ir(SRC, "split")
    c.analysed(m)
    n = 0
    q = sym("q", sign="0+")
    P = Interp.base("P")
    for w in ("function", "const", "adaptor", "const_adaptor"):
        c.functions.add(w)
        for k in range(1, 10):
            for r in range(k):
                for sy in (True, False):
                    if sy:
                        total = A.op_add(A.op_mul(q, const(k)), const(r))
                    else:
                        total = const(r)
                    got, site = [], ""
                    for i in range(k):
                        it = new(m, {"vp_part": lambda it, ev, a: it.emit(ev) and None})
                        it.run("w_" + w, [P, total, const(i), const(k)])
                        ev = it.events
                        site = site or (ev[0].where() if ev else "")
                        got.append([(e.args, e.guard) for e in ev])
                    bad = []
                    pos, lens = P, []
                    for i, e in enumerate(got):
                        if len(e) != 1 or e[0][1] != A.ONE:
                            bad.append("part %d of %d is not decided: %s" % (i, k, e))
                            break
                        b, f = e[0][0]
                        if b != pos:
                            bad.append("part %d begins at %r instead of %r" % (i, b, pos))
                        pos = f
                        lens.append(A.op_sub(f, b))
                    if not bad:
                        end = A.op_add(P, A.op_mul(const(8), total))
                        if pos != end:
                            bad.append("the last part ends at %r instead of %r" % (pos, end))
                        d = [A.op_sub(x, lens[0]) for x in lens]
                        if not all(is_const(x) for x in d) or max(map(cval, d)) - min(map(cval, d)) > 8:
                            bad.append("the lengths %s differ by more than one" % lens)
                    c.check("%s: %s elements in %d parts" % (w.replace("_", " "), "%d q + %d" % (k, r) if sy else r, k), not bad, "; ".join(bad)[:500], "boost/numeric/odeint/util/split_adaptor.hpp (make_split_range)")


def shows(it):
    out = {}
    for ev in it.events:
        if ev.name == "vp_show":
            out.setdefault(int(cval(ev.args[0])), []).append(ev.info["v"])
    return out


def show(it, ev, a):
    ev.info["v"] = vals(it, a[1], a[2]) if is_const(a[2]) else None
    it.emit(ev)


def flat(l):
    return [x for y in l for x in y]


def x(i):
    return sym("x%d" % i)


def parts_of(out):
    return [out[i][0] for i in sorted(k for k in out if k >= 0)]


def openmp(c):
    m = vp.build_ir(OMP, "split_omp", alg.omp_flags())
    c.analysed(m)
    for threads in (1, 2, 3):
        for n in range(14):
            for k in range(6):
                for old in (0, 4):
                    it = new(m, dict(alg.Omp(threads).handlers(), vp_show=show, vp_in=lambda it, ev, a: x(int(cval(a[0])))))
                    it.run("w_split", [const(n), const(k), const(old)])
                    o = shows(it)
                    want = [x(i) for i in range(n)]
                    ps = parts_of(o)
                    bad = ""
                    if o[-2][0] != want:
                        bad = "the source was changed to %s" % o[-2][0]
                    elif flat(ps) != want:
                        bad = "the parts hold %s" % ps
                    elif len(ps) != (k or threads):
                        bad = "%d parts" % len(ps)
                    c.check("OpenMP split: %d elements in %d parts%s, %d threads" % (n, k or threads, " (number of parts not set)" if not k else "", threads) + (", parts had %d elements" % old if old else ""), not bad, bad,
                            "boost/numeric/odeint/external/openmp/openmp_state.hpp (split)")
    for lens in LENS:
        for old in (0, 3, 20):
            it = new(m, dict(alg.Omp().handlers(), vp_show=show, vp_in=lambda it, ev, a: x(int(cval(a[0]))), vp_len=lambda it, ev, a: const(lens[int(cval(a[0]))])))
            it.run("w_unsplit", [const(len(lens)), const(old)])
            o = shows(it)
            want = [x(i) for i in range(sum(lens))]
            bad = ""
            if flat(parts_of(o)) != want:
                bad = "the parts were changed to %s" % parts_of(o)
            elif o[-2][0] != want:
                bad = "the target holds %s" % o[-2][0]
            c.check("OpenMP unsplit: parts of %s elements into a vector of %d" % (list(lens), old), not bad, bad, "boost/numeric/odeint/external/openmp/openmp_state.hpp (unsplit)")


LENS = [(), (0,), (3,), (1, 2), (2, 1), (0, 2), (2, 0), (1, 1, 1), (3, 0, 2), (0, 0, 4), (4, 1, 1, 2), (1, 5, 2)]


def mpi(c):
    m = vp.build_ir(MPI, "split_mpi", ["-I" + os.path.join(vp.ROOT, "witness", "stubmpi")])
    c.analysed(m)

    def handlers(rank, world, lens=None):
        off = [sum((lens or [])[:i]) for i in range(len(lens or []))]
        return {"vp_rank": lambda it, ev, a: const(rank), "vp_world": lambda it, ev, a: const(world), "vp_show": show, "vp_in": lambda it, ev, a: x(int(cval(a[0]))),
                "vp_scatter": show, "vp_sent": lambda it, ev, a: it.emit(ev) and None, "vp_gather_size": lambda it, ev, a: const(lens[int(cval(a[0]))]),
                "vp_gather": lambda it, ev, a: x(off[int(cval(a[0]))] + int(cval(a[1])))}
    for world in range(1, 6):
        for n in range(12):
            it = new(m, handlers(0, world))
            it.run("w_split", [const(n)])
            o = shows(it)
            want = [x(i) for i in range(n)]
            sc = [ev for ev in it.events if ev.name == "vp_scatter"]
            ps = [ev.info["v"] for ev in sc]
            bad = ""
            if o[-2][0] != want:
                bad = "the source was changed to %s" % o[-2][0]
            elif [int(cval(ev.args[0])) for ev in sc] != list(range(world)) or flat(ps) != want:
                bad = "the pieces %s are sent" % ps
            elif max(map(len, ps)) - min(map(len, ps)) > 1:
                bad = "the lengths %s differ by more than one" % list(map(len, ps))
            elif o[0][0] != ps[0]:
                bad = "process 0 keeps %s" % o[0][0]
            c.check("MPI split: %d elements over %d processes" % (n, world), not bad, bad, "boost/numeric/odeint/external/mpi/mpi_vector_state.hpp (split)")
    # another process only receives
    it = new(m, handlers(1, 3, [2, 2, 1]))
    it.run("w_split", [const(4)])
    o = shows(it)
    c.check("MPI split: a process other than 0 takes what it is sent", o[0][0] == [x(2), x(3)], repr(o), "boost/numeric/odeint/external/mpi/mpi_vector_state.hpp (split)")
    for lens in LENS:
        if not lens:
            continue
        for more in (0, 2):
            it = new(m, handlers(0, len(lens), lens))
            it.run("w_unsplit", [const(lens[0]), const(sum(lens) + more)])
            o = shows(it)
            want = [x(i) for i in range(sum(lens))] + [A.ZERO] * more
            c.check("MPI unsplit: parts of %s elements into a vector of %d" % (list(lens), sum(lens) + more), o[-2][0] == want and o[0][0] == want[:lens[0]], "the target holds %s, the part %s" % (o[-2][0], o[0][0]),
                    "boost/numeric/odeint/external/mpi/mpi_vector_state.hpp (unsplit)")
    it = new(m, handlers(1, 3, [2, 2, 1]))
    it.run("w_unsplit", [const(2), const(4)])
    o = shows(it)
    c.check("MPI unsplit: a process other than 0 keeps its own target", o[-2][0] == [A.ZERO] * 4, repr(o), "boost/numeric/odeint/external/mpi/mpi_vector_state.hpp (unsplit)")


def run(c):
    ranges(c)
    openmp(c)
    mpi(c)
    c.assumptions += ["Boost.MPI's scatter and gather deliver piece i to process i and back, as documented (replaced by a stand-in).",
                      "OpenMP: a work-shared loop runs each iteration once, in any thread; races between iterations are not modelled."]


if __name__ == "__main__":
    sys.exit(vp.main("C24", RULE, run, 800))
