"""C22: same_size, resize and copy act on whole states, for every supported state type"""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp, alg
import absint as A
from absint import const, is_const, cval
from interp import Interp
from rkset import sym

RULE = ("same_size, resize and copy are interpreted, with the containers' own code, on two states of every supported type with symbolic elements, for all pairs of shapes from a list (empty, one, and different "
        "extents in each dimension): same_size must be decided and true exactly for equal shapes; after resize the target must have the source's shape and the source its shape and elements; after copy every "
        "element of the target equals the source's, and writing to the target afterwards leaves the source alone. is_resizeable is read off the type system for a list of types.")

# a type: (headers, declarations [T, make(T&, a, b), set(T&), show(int, T&)], shapes, resizable, flags)
FILL1 = "void set(T &x) { long n = 0; for (auto &e : x) e = vp_in(n++); }\nvoid show(int id, const T &x) { vp_shape(id, std::distance(x.begin(), x.end()), 0, 0, 0); for (const auto &e : x) vp_el(id, e); }\n"
SEQ = "void make(T &x, long a, long, long, long) { x.resize(a); }\n" + FILL1
S1 = [(n, 0, 0, 0) for n in (0, 1, 2, 3, 5)]
S2 = [(a, b, 0, 0) for a in (0, 1, 2, 3) for b in (1, 2, 3)]
TYPES = {
    "std::vector": (("util/same_size", "util/resize", "util/copy"), "#include <vector>\ntypedef std::vector<double> T;\n" + SEQ, S1, True, ()),
    "std::vector of vectors": (("util/same_size", "util/resize", "util/copy"), "#include <vector>\ntypedef std::vector< std::vector<double> > T;\nvoid make(T &x, long a, long, long, long) { x.resize(a); for (auto &e : x) e.resize(2); }\n"
                               "void set(T &x) { long n = 0; for (auto &e : x) for (auto &d : e) d = vp_in(n++); }\nvoid show(int id, const T &x) { vp_shape(id, x.size(), 0, 0, 0); for (const auto &e : x) for (double d : e) vp_el(id, d); }\n", S1[:4], True, ("plain",)),
    "std::deque": (("util/same_size", "util/resize", "util/copy"), "#include <deque>\ntypedef std::deque<double> T;\n" + SEQ, S1[:4], True, ("plain",)),
    "boost::array": (("util/same_size", "util/copy"), "#include <boost/array.hpp>\ntypedef boost::array<double,3> T;\nvoid make(T &, long, long, long, long) {}\n" + FILL1, [(3, 0, 0, 0)], False, ()),
    "double array": (("util/same_size", "util/copy"), "typedef double T[3];\nvoid make(T &, long, long, long, long) {}\n" + FILL1.replace("x.begin()", "std::begin(x)").replace("x.end()", "std::end(x)"), [(3, 0, 0, 0)], False, ("plain",)),
    "double": (("util/copy",), "typedef double T;\nvoid make(T &, long, long, long, long) {}\nvoid set(T &x) { x = vp_in(0); }\nvoid show(int id, const T &x) { vp_shape(id, 1, 0, 0, 0); vp_el(id, x); }\n", [(1, 0, 0, 0)], False, ("nosize",)),
    "fusion sequence": (("util/same_size", "util/resize", "util/copy"), "#include <vector>\n#include <boost/fusion/container.hpp>\n#include <boost/fusion/sequence.hpp>\ntypedef boost::fusion::vector<double, std::vector<double>, std::vector<double> > T;\n"
                        "void make(T &x, long a, long b, long, long) { boost::fusion::at_c<1>(x).resize(a); boost::fusion::at_c<2>(x).resize(b); }\n"
                        "void set(T &x) { long n = 0; boost::fusion::at_c<0>(x) = vp_in(n++); for (auto &e : boost::fusion::at_c<1>(x)) e = vp_in(n++); for (auto &e : boost::fusion::at_c<2>(x)) e = vp_in(n++); }\n"
                        "void show(int id, const T &x) { vp_shape(id, boost::fusion::at_c<1>(x).size(), boost::fusion::at_c<2>(x).size(), 0, 0); vp_el(id, boost::fusion::at_c<0>(x)); for (double e : boost::fusion::at_c<1>(x)) vp_el(id, e); for (double e : boost::fusion::at_c<2>(x)) vp_el(id, e); }\n",
                        S2, True, ("resize keeps",)),
    "fusion sequence of numbers": (("util/copy",), "#include <boost/fusion/container.hpp>\n#include <boost/fusion/sequence.hpp>\ntypedef boost::fusion::vector<double, double> T;\nvoid make(T &, long, long, long, long) {}\n"
                                   "void set(T &x) { boost::fusion::at_c<0>(x) = vp_in(0); boost::fusion::at_c<1>(x) = vp_in(1); }\nvoid show(int id, const T &x) { vp_shape(id, 2, 0, 0, 0); vp_el(id, boost::fusion::at_c<0>(x)); vp_el(id, boost::fusion::at_c<1>(x)); }\n",
                                   [(2, 0, 0, 0)], False, ("nosize",)),
    "multi_array, 1 dimension": (("util/multi_array_adaption", "util/copy"), "#include <boost/multi_array.hpp>\ntypedef boost::multi_array<double,1> T;\n"
                                 "void make(T &x, long a, long, long o, long) { x.resize(boost::extents[a]); boost::array<long,1> i = {{o}}; x.reindex(i); }\n"
                                 "void set(T &x) { for (size_t n = 0; n < x.num_elements(); ++n) x.data()[n] = vp_in(n); }\nvoid show(int id, const T &x) { vp_shape(id, x.shape()[0], 0, x.index_bases()[0], 0); for (size_t n = 0; n < x.num_elements(); ++n) vp_el(id, x.data()[n]); }\n",
                                 [(0, 0, 0, 0), (1, 0, 0, 0), (2, 0, 0, 0), (3, 0, 0, 0), (2, 0, 1, 0), (3, 0, -1, 0)], True, ()),
    "multi_array, 2 dimensions": (("util/multi_array_adaption", "util/copy"), "#include <boost/multi_array.hpp>\ntypedef boost::multi_array<double,2> T;\n"
                                  "void make(T &x, long a, long b, long o, long p) { x.resize(boost::extents[a][b]); boost::array<long,2> i = {{o, p}}; x.reindex(i); }\n"
                                  "void set(T &x) { for (size_t n = 0; n < x.num_elements(); ++n) x.data()[n] = vp_in(n); }\nvoid show(int id, const T &x) { vp_shape(id, x.shape()[0], x.shape()[1], x.index_bases()[0], x.index_bases()[1]); for (size_t n = 0; n < x.num_elements(); ++n) vp_el(id, x.data()[n]); }\n",
                                  [(1, 2, 0, 0), (2, 1, 0, 0), (2, 2, 0, 0), (2, 2, 1, 0), (2, 2, 0, -1), (2, 3, 0, 0), (3, 2, 2, 1)], True, ()),
    "ublas::vector": (("util/ublas_wrapper", "util/same_size", "util/resize", "util/copy"), "#include <boost/numeric/ublas/vector.hpp>\ntypedef boost::numeric::ublas::vector<double> T;\nvoid make(T &x, long a, long, long, long) { x.resize(a, false); }\n"
                      "void set(T &x) { for (size_t n = 0; n < x.size(); ++n) x[n] = vp_in(n); }\nvoid show(int id, const T &x) { vp_shape(id, x.size(), 0, 0, 0); for (size_t n = 0; n < x.size(); ++n) vp_el(id, x[n]); }\n", S1, True, ()),
    "ublas::matrix": (("util/ublas_wrapper", "util/same_size", "util/resize", "util/copy"), "#include <boost/numeric/ublas/matrix.hpp>\ntypedef boost::numeric::ublas::matrix<double> T;\nvoid make(T &x, long a, long b, long, long) { x.resize(a, b, false); }\n"
                      "void set(T &x) { long n = 0; for (size_t i = 0; i < x.size1(); ++i) for (size_t j = 0; j < x.size2(); ++j) x(i, j) = vp_in(n++); }\n"
                      "void show(int id, const T &x) { vp_shape(id, x.size1(), x.size2(), 0, 0); for (size_t i = 0; i < x.size1(); ++i) for (size_t j = 0; j < x.size2(); ++j) vp_el(id, x(i, j)); }\n", S2, True, ("nocopy",)),
    "Eigen vector": (("external/eigen/eigen", "util/copy"), "typedef Eigen::VectorXd T;\nvoid make(T &x, long a, long, long, long) { x.resize(a); }\nvoid set(T &x) { for (long n = 0; n < x.size(); ++n) x[n] = vp_in(n); }\n"
                     "void show(int id, const T &x) { vp_shape(id, x.size(), 0, 0, 0); for (long n = 0; n < x.size(); ++n) vp_el(id, x[n]); }\n", S1, True, ("eigen",)),
    "Eigen matrix": (("external/eigen/eigen", "util/copy"), "typedef Eigen::MatrixXd T;\nvoid make(T &x, long a, long b, long, long) { x.resize(a, b); }\nvoid set(T &x) { for (long n = 0; n < x.size(); ++n) x.data()[n] = vp_in(n); }\n"
                     "void show(int id, const T &x) { vp_shape(id, x.rows(), x.cols(), 0, 0); for (long n = 0; n < x.size(); ++n) vp_el(id, x.data()[n]); }\n", S2[3:], True, ("eigen",)),
    "Eigen array": (("external/eigen/eigen", "util/copy"), "typedef Eigen::ArrayXXd T;\nvoid make(T &x, long a, long b, long, long) { x.resize(a, b); }\nvoid set(T &x) { for (long n = 0; n < x.size(); ++n) x.data()[n] = vp_in(n); }\n"
                    "void show(int id, const T &x) { vp_shape(id, x.rows(), x.cols(), 0, 0); for (long n = 0; n < x.size(); ++n) vp_el(id, x.data()[n]); }\n", S2[3:], True, ("eigen",)),
    "gsl_vector": (("external/gsl/gsl_wrapper",), "extern \"C\" void *vp_alloc(long) noexcept;\nextern \"C\" { gsl_vector *gsl_vector_alloc(size_t n) { gsl_vector *v = new gsl_vector; v->size = n; v->stride = 1; v->data = new double[n]; v->block = 0; v->owner = 1; return v; }\n"
                   "void gsl_vector_free(gsl_vector *v) { delete[] v->data; delete v; }\nint gsl_vector_memcpy(gsl_vector *a, const gsl_vector *b) { for (size_t i = 0; i < b->size; ++i) a->data[i] = b->data[i]; return 0; } }\n"
                   "typedef gsl_vector *T0; struct T { T0 p; T() : p(gsl_vector_alloc(1)) {} operator T0 &() { return p; } };\n"
                   "void make(T &x, long a, long, long, long) { gsl_vector_free(x.p); x.p = gsl_vector_alloc(a); }\nvoid set(T &x) { for (size_t n = 0; n < x.p->size; ++n) x.p->data[n] = vp_in(n); }\n"
                   "void show(int id, const T &x) { vp_shape(id, x.p->size, 0, 0, 0); for (size_t n = 0; n < x.p->size; ++n) vp_el(id, x.p->data[n]); }\n", S1, True, ("raw",)),
    "openmp_state": (("external/openmp/openmp",), "#include <vector>\ntypedef openmp_state<double> T;\nvoid make(T &x, long a, long b, long c, long d) { x.resize(d); if (d > 0) x[0].resize(a); if (d > 1) x[1].resize(b); if (d > 2) x[2].resize(c); }\n"
                     "void set(T &x) { long n = 0; for (auto &p : x) for (auto &e : p) e = vp_in(n++); }\n"
                     "void show(int id, const T &x) { vp_shape(id, x.size() > 0 ? x[0].size() : 0, x.size() > 1 ? x[1].size() : 0, x.size() > 2 ? x[2].size() : 0, x.size()); for (auto &p : x) for (double e : p) vp_el(id, e); }\n",
                     [(0, 0, 0, 0), (2, 0, 0, 1), (2, 1, 0, 2), (1, 2, 0, 2), (2, 1, 0, 3), (2, 1, 2, 3), (0, 3, 1, 3)], True, ("omp",)),
    "mpi_state": (("external/mpi/mpi",), "#include <vector>\ntypedef mpi_state< std::vector<double> > T;\nvoid make(T &x, long a, long, long, long) { x().resize(a); }\n"
                  "void set(T &x) { long n = 0; for (auto &e : x()) e = vp_in(n++); }\nvoid show(int id, const T &x) { vp_shape(id, x().size(), 0, 0, 0); for (double e : x()) vp_el(id, e); }\n", S1, True, ("mpi",)),
    "thrust::device_vector": (("external/thrust/thrust",), "#include <thrust/device_vector.h>\ntypedef thrust::device_vector<double> T;\nvoid make(T &x, long a, long, long, long) { x.resize(a); }\n"
                              "void set(T &x) { for (size_t n = 0; n < x.size(); ++n) x[n] = vp_in(n); }\nvoid show(int id, const T &x) { vp_shape(id, x.size(), 0, 0, 0); for (size_t n = 0; n < x.size(); ++n) vp_el(id, x[n]); }\n", S1[:4], True, ("thrust",)),
    "thrust::host_vector": (("external/thrust/thrust",), "#include <thrust/host_vector.h>\n#include <thrust/device_vector.h>\ntypedef thrust::host_vector<double> T;\nvoid make(T &x, long a, long, long, long) { x.resize(a); }\n"
                            "void set(T &x) { for (size_t n = 0; n < x.size(); ++n) x[n] = vp_in(n); }\nvoid show(int id, const T &x) { vp_shape(id, x.size(), 0, 0, 0); for (size_t n = 0; n < x.size(); ++n) vp_el(id, x[n]); }\n", S1[:4], True, ("thrust",)),
}
PRE = """#include <vp.hpp>
#include <boost/range.hpp>
#include <iterator>
extern "C" void vp_shape(int id, long a, long b, long c, long d) noexcept;
extern "C" void vp_el(int id, double x) noexcept;
extern "C" double vp_in(long n) noexcept;
extern "C" void vp_same(bool r) noexcept;
%s
using namespace boost::numeric::odeint;
%s
#define SH long a, long b, long c, long d
"""
OPS = """
extern "C" void w_same(SH, long e, long f, long g, long h) { T x; make(x, a, b, c, d); T y; make(y, e, f, g, h); set(x); set(y); vp_same(boost::numeric::odeint::same_size(x, y)); show(0, x); show(1, y); }
extern "C" void w_resize(SH, long e, long f, long g, long h) { T x; make(x, a, b, c, d); T y; make(y, e, f, g, h); set(x); set(y); boost::numeric::odeint::resize(x, y); show(0, x); show(1, y); }
"""
COPY = """
extern "C" void w_copy(SH) { T x; make(x, a, b, c, d); T y; make(y, a, b, c, d); set(x); set(y); boost::numeric::odeint::copy(x, y); show(0, x); show(1, y); set(y); show(2, x); }
"""
# pairs of different types
PAIRS = {
    "ublas::matrix like a ublas::vector": (("util/ublas_wrapper", "util/same_size", "util/resize"), """typedef boost::numeric::ublas::matrix<double> M; typedef boost::numeric::ublas::vector<double> V;
extern "C" void w_p(long a, long b, long n) { M x(a, b); V v(n); vp_same(same_size(x, v)); resize(x, v); vp_shape(0, x.size1(), x.size2(), 0, 0); vp_shape(1, v.size(), 0, 0, 0); }""",
                                           lambda a, b, n: (a == n and b == n, (n, n), (n, 0)), [(a, b, n) for a in (1, 2, 3) for b in (1, 2, 3) for n in (1, 2, 3)], ()),
    "ublas::permutation_matrix like a ublas::vector": (("util/ublas_wrapper", "util/same_size", "util/resize"), """typedef boost::numeric::ublas::permutation_matrix<size_t> M; typedef boost::numeric::ublas::vector<double> V;
extern "C" void w_p(long a, long b, long n) { M x(a); V v(n); vp_same(same_size(x, v)); resize(x, v); vp_shape(0, x.size(), 0, 0, 0); vp_shape(1, v.size(), 0, 0, 0); }""",
                                                       lambda a, b, n: (a == n, (n, 0), (n, 0)), [(a, 0, n) for a in (1, 2, 3) for n in (1, 2, 3)], ()),
    "device_vector like a range": (("external/thrust/thrust",), """typedef thrust::device_vector<double> D;
extern "C" void w_p(long a, long b, long n) { D x(a); std::vector<double> v(n); for (long i = 0; i < n; ++i) v[i] = vp_in(i); vp_same(same_size(x, v)); resize(x, v); copy(v, x); std::vector<double> w(n); copy(x, w);
  vp_shape(0, x.size(), 0, 0, 0); vp_shape(1, v.size(), 0, 0, 0); for (long i = 0; i < n; ++i) { vp_el(0, x[i]); vp_el(1, w[i]); } }""",
                                   lambda a, b, n: (a == n, (n, 0), (n, 0)), [(a, 0, n) for a in (0, 1, 2, 3) for n in (0, 1, 2, 3)], ("thrust",)),
}
RESIZE = {  # is_resizeable
    True: (("util/is_resizeable", "util/ublas_wrapper", "util/multi_array_adaption", "external/eigen/eigen", "external/gsl/gsl_wrapper", "external/openmp/openmp_state"),
           ["std::vector<double>", "std::vector<int>", "std::vector< std::vector<double> >", "boost::numeric::ublas::vector<double>", "boost::numeric::ublas::matrix<double>", "boost::numeric::ublas::permutation_matrix<size_t>",
            "boost::multi_array<double,1>", "boost::multi_array<double,3>", "Eigen::VectorXd", "Eigen::MatrixXd", "Eigen::ArrayXd", "gsl_vector*", "openmp_state<double>",
            "boost::fusion::vector<double,std::vector<double> >", "boost::fusion::vector<std::vector<double>,double>"]),
    False: (("util/is_resizeable", "util/multi_array_adaption", "util/ublas_wrapper", "external/eigen/eigen"),
            ["double", "boost::array<double,3>", "std::array<double,3>", "double[3]", "std::complex<double>", "boost::fusion::vector<double,double>", "boost::fusion::vector<double,boost::array<double,2> >"]),
}
INCL = "#include <complex>\n#include <array>\n#include <boost/array.hpp>\n#include <boost/fusion/container.hpp>\n#include <boost/fusion/sequence.hpp>\n#include <boost/fusion/algorithm.hpp>\n"
FL = {"eigen": ["-I/usr/include/eigen3", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_NO_DEBUG"], "thrust": ["-DTHRUST_DEVICE_SYSTEM=THRUST_DEVICE_SYSTEM_CPP"],
      "mpi": ["-I" + os.path.join(vp.ROOT, "witness", "stubmpi")]}


def flags(opts):
    out = []
    for o in opts:
        out += alg.omp_flags() if o == "omp" else FL.get(o, [])
    return out


def new(m):
    h = dict(alg.Omp().handlers(), vp_in=vin, vp_shape=keep, vp_el=keep, vp_same=keep, vp_reduce=reduce_, vp_rank=lambda it, ev, a: A.ZERO, vp_world=lambda it, ev, a: const(3))
    it = Interp(m, h)
    it.loopstack = []
    it.deco = it.doom = True
    it.serial = 0
    return it


def vin(it, ev, a):
    it.serial += 1
    return sym("e%d" % it.serial)


def keep(it, ev, a):
    it.emit(ev)


def reduce_(it, ev, a):
    it.emit(ev)
    return a[0]


def observed(it):
    """{id: [(shape, elements), ...]} and the answers of same_size"""
    out, same, bad = {}, [], None
    for ev in it.events:
        if ev.guard != A.ONE:
            bad = "decided only under the condition %r" % (ev.guard,)
        if ev.name == "vp_shape":
            out.setdefault(int(cval(ev.args[0])), []).append((tuple(int(cval(x)) for x in ev.args[1:]), []))
        elif ev.name == "vp_el":
            out[int(cval(ev.args[0]))][-1][1].append(ev.args[1])
        elif ev.name == "vp_same":
            same.append(bool(cval(ev.args[0])) if is_const(ev.args[0]) else repr(ev.args[0]))
    return out, same, bad


def job(name):
    hs, decl, shapes, resizable, opts = TYPES[name]
    src = PRE % (INCL + alg.inc(*hs), decl)
    ops = "" if "nosize" in opts else OPS if resizable else OPS[:OPS.index('extern "C" void w_resize')]
    cop = "" if "nocopy" in opts else COPY
    if "raw" in opts:
        ops, cop = [t.replace("same_size(x, y)", "same_size(x.p, y.p)").replace("resize(x, y)", "resize(x.p, y.p)").replace("copy(x, y)", "copy(x.p, y.p)") for t in (ops, cop)]
    m = vp.build_ir(src + ops + cop, "ad" + "".join(x if x.isalnum() else "_" for x in name), flags(opts))
    out = []
    site = "boost/numeric/odeint/%s.hpp" % hs[0]

    def elems(n, first):
        return [sym("e%d" % (first + i)) for i in range(n)]
    pairs = list(itertools.product(shapes, shapes)) if ops else []
    for p, q in pairs:
        it = new(m)
        it.run("w_same", [const(x) for x in p + q])
        o, same, bad = observed(it)
        if not bad and same != [p == q]:
            bad = "returns %s" % same
        nx, ny = len(o[0][0][1]), len(o[1][0][1])
        if not bad and (o[0][0] != (p, elems(nx, 1)) or o[1][0] != (q, elems(ny, nx + 1))):
            bad = "changes its arguments to %s and %s" % (o[0][0], o[1][0])
        if not bad and name == "mpi_state" and not any(ev.name == "vp_reduce" and is_const(ev.args[1]) and cval(ev.args[1]) == 3 for ev in it.events):
            bad = "does not ask the other processes whether their parts agree too"
        out.append(("%s: same_size of %s and %s" % (name, p, q), not bad, bad or "", site))
        if not resizable:
            continue
        it = new(m)
        it.run("w_resize", [const(x) for x in p + q])
        o, same, bad = observed(it)
        ny = len(o[1][0][1])
        src_first = it.serial - ny + 1
        if not bad and o[0][0][0] != q:
            bad = "the target has shape %s" % (o[0][0][0],)
        if not bad and o[1][0] != (q, elems(ny, src_first)):
            bad = "the source was changed to %s" % (o[1][0],)
        out.append(("%s: resize of %s to %s" % (name, p, q), not bad, bad or "", site))
    for p in shapes if cop else []:
        it = new(m)
        it.run("w_copy", [const(x) for x in p])
        o, same, bad = observed(it)
        n = len(o[0][0][1])
        want = (p, elems(n, 1))
        if not bad and o[0][0] != want:
            bad = "the source was changed to %s" % (o[0][0],)
        elif not bad and o[1][0] != want:
            bad = "the target holds %s" % (o[1][0],)
        elif not bad and o[2][0] != want:
            bad = "the source changed with the target, to %s" % (o[2][0],)
        out.append(("%s: copy of %s" % (name, p), not bad, bad or "", site))
    return out, sorted(m.headers)


def pair(name):
    hs, decl, spec, cases, opts = PAIRS[name]
    m = vp.build_ir((PRE % (INCL + "#include <vector>\n" + alg.inc(*hs), "")) + decl, "pr" + "".join(x if x.isalnum() else "_" for x in name), flags(opts))
    out = []
    for case in cases:
        it = new(m)
        it.run("w_p", [const(x) for x in case])
        o, same, bad = observed(it)
        s, p, q = spec(*case)
        if not bad and same != [s]:
            bad = "same_size returns %s" % same
        if not bad and o[0][0][0][:2] != p:
            bad = "the target has shape %s after resize" % (o[0][0][0],)
        if not bad and o[1][0][0][:2] != q:
            bad = "the source has shape %s after resize" % (o[1][0][0],)
        if not bad and o[1][0][1]:
            pass
        els = o[0][-1][1] + o[1][-1][1]
        if not bad and els and o[1][-1][1][0::1] != o[0][-1][1]:
            bad = "copied elements differ: %s" % els
        if not bad and els and sorted(map(repr, o[0][-1][1])) != sorted(repr(sym("e%d" % (i + 1))) for i in range(case[2])):
            bad = "copied elements are %s" % o[0][-1][1]
        out.append(("%s: sizes %s" % (name, case), not bad, bad or "", "boost/numeric/odeint/%s.hpp" % hs[0]))
    return out, sorted(m.headers)


def work(j):
    kind, name = j
    try:
        return (job if kind == "t" else pair)(name)
    except vp.WitnessError as e:
        err = [l for l in e.log.splitlines() if "error" in l][:2]
        return [("%s: same_size, resize and copy can be used" % name, False, " | ".join(err)[:600], err[0].split(": error")[0] if err else "")], []


def run(c):
    jobs = [("t", n) for n in TYPES] + [("p", n) for n in PAIRS]
    for j, (out, hs) in zip(jobs, vp.pmap(work, jobs)):
        c.headers.update(h.split("/include/")[-1] for h in hs)
        c.count("state types")
        c.functions.add(j[1])
        for w, ok, detail, site in out:
            c.check(w, ok, detail, site)
    for val, (hs, types) in RESIZE.items():
        head = INCL + "#include <vector>\n" + alg.inc(*hs) + "using namespace boost::numeric::odeint;\n"
        v = str(val).lower()
        one = {t: "static_assert(is_resizeable< %s >::value == %s, \"is_resizeable\");\nstatic_assert(is_resizeable< %s >::type::value == %s, \"is_resizeable type\");\n" % (t, v, t, v) for t in types}
        ok, _ = vp.syntax(head + "".join(one.values()), "resizeable", FL["eigen"] + alg.omp_flags())
        for t in types:
            w, site = "is_resizeable< %s > is %s" % (t, v), "boost/numeric/odeint/util/is_resizeable.hpp"
            if ok:
                c.check(w, True)
            else:
                vp.compiles(c, w, head + one[t], site, FL["eigen"] + alg.omp_flags(), tag="resizeable1")
    c.assumptions += ["Copying is between states of the same size, as the steppers do it.", "gsl_vector_alloc, _free and _memcpy and Boost.MPI are replaced by stand-ins written from their documentation."]


if __name__ == "__main__":
    if len(sys.argv) > 1:
        for x in work(("t" if sys.argv[1] in TYPES else "p", sys.argv[1]))[0]:
            if not x[1]:
                print(x)
        sys.exit()
    sys.exit(vp.main("C22", RULE, run, 700))
