"""C16: every algebra applies the operation to each tuple of corresponding elements exactly once, arguments in order"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, alg
import absint as A
from absint import const, is_const, cval
from interp import Interp
from rkset import sym

RULE = ("for_each1 to for_each15 (8 for Thrust) of every algebra are compiled with an operation of which only the addresses it is given are observed, and interpreted over states of 0 to 5 elements (and, "
        "for ranges, of a symbolic number): the recorded applications must be exactly the tuples of corresponding elements, each once, unconditionally. norm_inf is interpreted over symbolic elements: on "
        "every path the value returned is the absolute value of an element that the path's conditions show to be no smaller than any other, and nothing outside the range is read. OpenMP code is run under a "
        "model of the runtime with a team of two threads that share the iterations.")

MA = 15
# name: (headers, preamble, state definition for argument i, algebra, greatest arity, sizes, flags, elements)
NESTED = "R q%d[3] = { R(p%d, p%d + n), R(p%d + n, p%d + n), R(p%d + n, p%d + n + 2) }; boost::iterator_range<R*> s%d(q%d, q%d + 3);"
OLD = ("algebra/range_algebra", "util/n_ary_helper", "algebra/norm_result_type", "<pre-C++11>")
DECL = {
    "range_algebra": (("algebra/range_algebra",), "", "R s%d(p%d, p%d + n);", "range_algebra", MA, (0, 1, 2, 5, "n")),
    "array_algebra, 3 elements": (("algebra/array_algebra",), "typedef boost::array<double,3> A3;", "A3 &s%d = *(A3*)p%d;", "array_algebra", MA, (3,)),
    "array_algebra, 1 element": (("algebra/array_algebra",), "typedef boost::array<double,1> A1;", "A1 &s%d = *(A1*)p%d;", "array_algebra", MA, (1,)),
    "vector_space_algebra": (("algebra/vector_space_algebra",), "struct V { double a, b; };\nnamespace boost { namespace numeric { namespace odeint { template<> struct vector_space_norm_inf<V> { typedef double result_type; double operator()(const V &v) const { using std::abs; return abs(v.a) < abs(v.b) ? abs(v.b) : abs(v.a); } }; } } }",
                             "V &s%d = *(V*)p%d;", "vector_space_algebra", MA, ("whole",)),
    "vector_space_algebra, double": (("algebra/vector_space_algebra",), "", "double &s%d = *p%d;", "vector_space_algebra", MA, (1,)),
    "fusion_algebra, 3 elements": (("algebra/fusion_algebra",), "typedef boost::fusion::vector<double,double,double> F;", "F &s%d = *(F*)p%d;", "fusion_algebra", MA, (3,)),
    "multi_array_algebra, 2 dimensions": (("algebra/multi_array_algebra",), "", "boost::multi_array_ref<double,2> s%d(p%d, boost::extents[n][2]);", "multi_array_algebra", MA, (0, 1, 2)),
    "multi_array_algebra, 1 dimension": (("algebra/multi_array_algebra",), "", "boost::multi_array_ref<double,1> s%d(p%d, boost::extents[n]);", "multi_array_algebra", MA, (0, 1, 3)),
    "openmp_range_algebra": (("external/openmp/openmp",), "", "R s%d(p%d, p%d + n);", "openmp_range_algebra", MA, (0, 1, 2, 5)),
    "openmp_range_algebra without OpenMP": (("external/openmp/openmp_range_algebra",), "", "R s%d(p%d, p%d + n);", "openmp_range_algebra", MA, (0, 1, 2, 5)),
    "openmp_range_algebra before C++11": (OLD + ("external/openmp/openmp_range_algebra",), "", "R s%d(p%d, p%d + n);", "openmp_range_algebra", MA, (0, 1, 2, 5)),
    "openmp_nested_algebra before C++11": (OLD + ("external/openmp/openmp_nested_algebra",), "", NESTED, "openmp_nested_algebra<range_algebra>", MA, (0, 1, 3)),
    "openmp_nested_algebra": (("algebra/range_algebra", "external/openmp/openmp"), "", NESTED,
                              "openmp_nested_algebra<range_algebra>", MA, (0, 1, 3)),
    "mpi_nested_algebra": (("algebra/range_algebra", "external/mpi/mpi_nested_algebra"), "struct M { typedef R value_type; R r; boost::mpi::communicator &world; M(double *a, double *b, boost::mpi::communicator &w = *(boost::mpi::communicator*)0) : r(a, b), world(w) {} R &operator()() { return r; } const R &operator()() const { return r; } };",
                           "M s%d(p%d, p%d + n);", "mpi_nested_algebra<range_algebra>", MA, (0, 1, 2, 5)),
    "eigen, 3 elements": (("external/eigen/eigen_algebra",), "typedef Eigen::Matrix<double,3,1> E;", "E &s%d = *(E*)p%d;", "vector_space_algebra", 0, (3,)),
    "thrust_algebra": (("external/thrust/thrust_algebra",), "", "R s%d(p%d, p%d + n);", "thrust_algebra", 8, (0, 1, 2, 3)),
}
FL = {"openmp": None, "mpi": None, "fusion": ["-DFUSION_MAX_VECTOR_SIZE=15", "-DBOOST_FUSION_INVOKE_MAX_ARITY=15", "-DBOOST_RESULT_OF_NUM_ARGS=15", "-DBOOST_FUSION_UNFUSED_MAX_ARITY=15"],
      "thrust": ["-DTHRUST_DEVICE_SYSTEM=THRUST_DEVICE_SYSTEM_CPP"], "eigen": ["-I/usr/include/eigen3", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_NO_DEBUG"]}


def flags(name):
    if name.startswith("openmp") and "without" not in name:
        return alg.omp_flags()
    if name.startswith("mpi"):
        return vp.sh(["mpic++", "--showme:compile"]).stdout.split()
    return FL.get(name.split("_")[0].split(",")[0]) or []


def fill(t, i):
    return t.replace("%d", str(i))


# (the operations for Thrust take one tuple of references)
TUPLE = """#include <utility>
template<int K> struct OpT {
  template<class T, std::size_t... I> static void call(const T &t, std::index_sequence<I...>) { vp_op(K, &static_cast<double &>(thrust::get<I>(t))...); }
  void operator()(double &x) const { vp_op(K, &x); }
  template<class T> void operator()(T t) const { call(t, std::make_index_sequence<K>()); }
};
"""


def witness(name):
    hs, pre, decl, al, ma, sizes = DECL[name]
    old = alg.inc("<pre-C++11>"), "#include <boost/assert.hpp>\n#include <boost/range.hpp>\n#undef __cplusplus\n#define __cplusplus 199711L\n"
    s = alg.PRE.replace("using namespace", alg.inc(*hs).replace(*old) + "using namespace") + pre + "\n"
    tup = name.startswith("thrust")
    if tup:
        s += TUPLE
    for k in range(1, ma + 1):
        s += 'extern "C" void w_%d(%s, long n) { %s %s::for_each%d(%s, %s()); }\n' % (
            k, ", ".join("double *p%d" % i for i in range(k)), " ".join(fill(decl, i) for i in range(k)), al, k, ", ".join("s%d" % i for i in range(k)), "OpT<%d>" % k if tup else "Op")
    if True:
        s += 'extern "C" double w_norm(double *p0, long n) { %s return %s::norm_inf(s0); }\n' % (fill(decl, 0), al)
    return s


class Reads(Interp):
    """remembers what was read of the caller's states"""
    reads = None

    def initcell(self, b, off, size, ty):
        if self.reads is not None:
            self.reads.append((b, off, size))
        return Interp.initcell(self, b, off, size, ty)


def allreduce(it, ev, a):
    """the other processes contribute the value `other'"""
    op = repr(a[4])
    for i in range(int(cval(a[2]))):
        v, o = it.load(A.op_add(a[0], const(8 * i))), sym("other", sign="0+")
        d = A.op_sub(v, o)
        r = A.apply("max", lambda p, x, y: A.sign_value(p, y, x, x), d, v, o) if "mpi_op_max" in op else \
            A.apply("min", lambda p, x, y: A.sign_value(p, x, x, y), d, v, o) if "mpi_op_min" in op else A.op_add(v, o)
        it.store(A.op_add(a[1], const(8 * i)), r)
    return A.ZERO


def interp(m, name):
    h = {"vp_op": lambda it, ev, a: it.emit(ev) and None}
    omp = alg.Omp()
    if name.startswith("openmp"):
        h.update(omp.handlers())
    if name.startswith("mpi"):
        h["MPI_Allreduce"] = allreduce
        h["::communicator::operator "] = lambda it, ev, a: Interp.base("communicator")
    it = Reads(m, h)
    it.omp = omp
    it.loopstack = []
    it.deco = it.doom = True
    it.reads = []
    return it


def count(name, n):
    if "nested" in name and name.startswith("openmp"):
        return n + 2
    if "2 dim" in name:
        return 2 * n
    return n


def job(name):
    m = vp.build_ir(witness(name), "alg" + "".join(x if x.isalnum() else "_" for x in name), flags(name))
    hs, pre, decl, al, ma, sizes = DECL[name]
    out = []
    for k in range(1, ma + 1):
        for n in sizes:
            it = interp(m, name)
            bases = [Interp.base("S%d" % i) for i in range(k)]
            w = "%s::for_each%d, %s elements" % (name, k, n)
            symbolic = n == "n"
            arg = sym("n", sign="+") if symbolic else const(n if isinstance(n, int) else 0)
            it.run("w_%d" % k, bases + [arg])
            bad, site = [], ""
            if symbolic:
                seen = 0
                for ev in it.events:
                    site = ev.where()
                    offs = [A.op_sub(a, b) for a, b in zip(ev.args[1:], bases)]
                    if len(ev.args) != k + 1 or any(o != offs[0] for o in offs):
                        bad.append("applied to elements that do not correspond: (%s)" % ", ".join(map(repr, ev.args[1:])))
                    seen += 1
                if not seen:
                    bad.append("never applied")
            else:
                cnt = 1 if n == "whole" else count(name, n)
                want = [tuple(A.op_add(b, const(8 * i)) for b in bases) for i in range(cnt)]
                got = {}
                for ev in it.events:
                    site = ev.where()
                    if ev.guard != A.ONE:
                        bad.append("applied only under a condition: %r" % (ev.guard,))
                    t = tuple(ev.args[1:])
                    got[t] = got.get(t, 0) + 1
                for t in want:
                    if got.get(t, 0) != 1:
                        bad.append("applied %d times to the elements (%s)" % (got.get(t, 0), ", ".join(map(repr, t))))
                for t in got:
                    if t not in want:
                        bad.append("applied to (%s), which are not corresponding elements" % ", ".join(map(repr, t)))
            out.append((w, not bad, "; ".join(bad)[:600], site))
    if True:
        for n in sizes:
            if n == "n" or n == 5:
                continue
            out += norm(m, name, n)
    return out, sorted(m.headers)


def norm(m, name, n):
    it = interp(m, name)
    X = Interp.base("X")
    r = it.run("w_norm", [X, const(n if isinstance(n, int) else 0)])
    cnt = 2 if n == "whole" else count(name, n)
    w = "%s::norm_inf, %s elements" % (name, n)
    bad = []
    reads, it.reads = it.reads, None
    xs = [A.op_fabs(it.load(A.op_add(X, const(8 * i)))) for i in range(cnt)]
    if name.startswith("mpi"):
        xs.append(sym("other", sign="0+"))
    if it.omp.regions and cnt and not it.omp.shared:
        bad.append("the threads do not combine their maxima in a reduction or critical section")
    for b, off, size in reads:
        if b is A.poly_atoms(X) or getattr(b, "name", None) == "X":
            if not (is_const(off) and 0 <= cval(off) and cval(off) + size <= 8 * cnt):
                bad.append("reads %s bytes at offset %s" % (size, off))
    cells = 0
    for cons, (v,) in A.cells(A.ONE, [r]):
        if v is A.BOT:
            continue
        cells += 1
        if not xs:
            if not (is_const(v) and cval(v) == 0):
                bad.append("%r for an empty state" % (v,))
            continue
        if not any(A.sign_in(cons, A.op_sub(v, x)) == "0" for x in xs):
            bad.append("when %s: returns %r, which is no element's absolute value" % (A.cons_str(cons), v))
        for x in xs:
            s = A.sign_in(cons, A.op_sub(v, x), wide=True)
            if s not in ("+", "0", "0+"):
                bad.append("when %s: returns %r although %r may be greater" % (A.cons_str(cons), v, x))
    if not cells:
        bad.append("no value")
    return [(w, not bad, "; ".join(bad)[:700], "boost/numeric/odeint: %s::norm_inf" % name)]


def run(c):
    jobs = list(DECL)
    for name, (out, hs) in zip(jobs, vp.pmap(job, jobs)):
        c.headers.update(h.split("/include/")[-1] for h in hs)
        c.count("algebras")
        for w, ok, detail, site in out:
            c.check(w, ok, detail, site)
            c.functions.add("%s/%s" % (name, w.split(",")[0]))
    c.assumptions += ["The values of an operation are opaque: what it does with its arguments is not part of the property.",
                      "Concrete sizes stand for all sizes; that the arguments stay in step is also shown for a symbolic number of elements."]


if __name__ == "__main__":
    if len(sys.argv) > 1:
        for x in job(sys.argv[1])[0]:
            if not x[1] or "-v" in sys.argv:
                print(x)
        sys.exit()
    sys.exit(vp.main("C16", RULE, run, 600))
