"""C18: every public header stands alone, compiles in either order with every other one and defines nothing twice at link time."""
import sys, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vp

RULE = ("Every public header found in the include tree (implementation directories detail and impl excepted, headers of absent third-party libraries skipped) is compiled as the only "
        "include of a translation unit, included twice, and its intermediate code is searched for definitions with ordinary external linkage, which would clash at link time. For every "
        "header that defines something to use, a program including nothing else instantiates it in the way the documentation shows. All public headers are compiled in one unit in "
        "alphabetical and in reverse order, so that each pair is seen in both orders, and no two headers may share an include guard. The type checker is the decision procedure; a program "
        "that does not compile is the violation.")
PUB = "boost/numeric/odeint"
BASE = "#include <%s>\n"
ST = "typedef std::vector<double> V; struct Sy { void operator()(const V &x, V &d, double t) const { d[0] = -x[0]; } }; using namespace boost::numeric::odeint;\n"
V0 = "V x(1), y(1), e(1), d(1), d2(1); double t = 0, dt = 0.1;"


def step(ty, *forms):
    """a stepper used in the given forms"""
    F = {"in": "s.do_step(Sy(), x, t, dt);", "out": "s.do_step(Sy(), x, t, y, dt);", "err": "s.do_step(Sy(), x, t, dt, e);", "errout": "s.do_step(Sy(), x, t, y, dt, e);",
         "d": "s.do_step(Sy(), x, d, t, dt);", "dout": "s.do_step(Sy(), x, d, t, y, dt);", "dd": "s.do_step(Sy(), x, d, t, y, d2, dt);", "adj": "s.adjust_size(x);", "ord": "s.order();",
         "try": "s.try_step(Sy(), x, t, dt);", "tryout": "s.try_step(Sy(), x, t, y, dt);", "tryd": "s.try_step(Sy(), x, d, t, dt);", "trydout": "s.try_step(Sy(), x, d, t, y, dt);",
         "trydd": "s.try_step(Sy(), x, d, t, y, d2, dt);", "init": "s.initialize(Sy(), x, t);", "init4": "s.initialize(Sy(), x, t, dt);", "reset": "s.reset();", "initd": "s.initialize(d);", "dense": "s.initialize(x, t, dt); s.do_step(Sy()); s.calc_state(t, y); s.current_state(); s.current_time(); s.previous_state(); s.previous_time(); s.current_time_step();"}
    return "#include <vector>\n@" + ST + "void use() { %s %s s; %s }" % (V0, ty, " ".join(F[f] for f in forms))


B3 = ("in", "out", "d", "dout", "adj", "ord")
E5 = B3 + ("err", "errout")
SEP = ("#include <boost/array.hpp>\n#include <utility>\n@typedef boost::array<double,1> Q; typedef std::pair<Q,Q> P; struct M { void operator()(const Q &x, Q &y) const { y = x; } };\n"
       "using namespace boost::numeric::odeint; void use() { P x; P y; %s<Q> s; s.do_step(std::make_pair(M(), M()), x, 0.0, 0.1); s.do_step(M(), x, 0.0, 0.1); s.do_step(M(), x, 0.0, y, 0.1); s.adjust_size(x.first); }")
UBL = ("#include <boost/numeric/ublas/vector.hpp>\n#include <boost/numeric/ublas/matrix.hpp>\n#include <utility>\n@using namespace boost::numeric::odeint; typedef boost::numeric::ublas::vector<double> S; typedef boost::numeric::ublas::matrix<double> M;\n"
       "struct F { void operator()(const S &x, S &d, double) const { d = x; } }; struct J { void operator()(const S &x, M &m, double, S &d) const { m(0,0) = 1; d[0] = 0; } void operator()(const S &x, M &m, double) const { m(0,0) = 1; } };\n"
       "void use() { S x(1), y(1), e(1); double t = 0, dt = 0.1; std::pair<F, J> sy; %s }")
INT = ("#include <vector>\n#include <utility>\n@typedef std::vector<double> V; using namespace boost::numeric::odeint; struct Sy { void operator()(const V &x, V &d, double t) const {} }; struct Ob { void operator()(const V &, double) const {} };\n"
       "template<class C> struct St { typedef V state_type; typedef V deriv_type; typedef double value_type; typedef double time_type; typedef C stepper_category; typedef unsigned short order_type;\n"
       " template<class S> void do_step(S, V &, double, double) {} template<class S> controlled_step_result try_step(S, V &, double &t, double &dt) { t += dt; return success; } };\n"
       "template<class C> struct De : St<C> { V v; template<class S> std::pair<double,double> do_step(S) { return std::make_pair(0., 1.); } void initialize(const V &, double, double) {} const V &current_state() const { return v; } double current_time() const { return 0; } double current_time_step() const { return 1; } template<class X> void calc_state(double, X &) const {} };\n"
       "void use() { V x(1); std::vector<double> ts(3); St<stepper_tag> a; St<controlled_stepper_tag> b; De<dense_output_stepper_tag> c; %s }")


def integ(call):
    return INT % "".join(call % k + " " for k in "abc")


def iters(name, args, kinds="abc", st=True):
    s = ""
    for k in kinds:
        s += "{ auto i = make_%s_begin(%s, Sy(), x, %s), e = make_%s_end(%s, Sy(), x); for(; i != e; ++i) (void)*i; } make_%s_range(%s, Sy(), x, %s); " % (name, k, args, name, k, name.replace("_iterator", ""), k, args)
    t = INT % s
    return t if "b" in kinds else re.sub(r" template<class S> controlled_step_result try_step.*?return success; }", "", t).replace("St<controlled_stepper_tag> b; ", "")


CTL = "controlled_runge_kutta< runge_kutta_%s<V> >"
USE = {
    "stepper/euler": step("euler<V>", *B3), "stepper/runge_kutta4": step("runge_kutta4<V>", *B3), "stepper/runge_kutta4_classic": step("runge_kutta4_classic<V>", *B3),
    "stepper/runge_kutta_cash_karp54": step("runge_kutta_cash_karp54<V>", *E5), "stepper/runge_kutta_cash_karp54_classic": step("runge_kutta_cash_karp54_classic<V>", *E5),
    "stepper/runge_kutta_fehlberg78": step("runge_kutta_fehlberg78<V>", *E5), "stepper/runge_kutta_dopri5": step("runge_kutta_dopri5<V>", "in", "out", "d", "dd", "err", "errout", "adj", "ord", "init", "reset", "initd"),
    "stepper/modified_midpoint": step("modified_midpoint<V>", *B3), "stepper/extrapolation_stepper": step("extrapolation_stepper<6,V>", *E5),
    "stepper/adams_bashforth": step("adams_bashforth<3,V>", "in", "out", "adj", "init4", "reset"), "stepper/adams_bashforth_moulton": step("adams_bashforth_moulton<3,V>", "in", "out", "adj", "init4"),
    "stepper/adams_moulton": "#include <vector>\n@" + ST + "void use() { " + V0 + " adams_moulton<2,V> s; adams_moulton<2,V>::step_storage_type b; s.do_step(Sy(), x, y, t, dt, b); s.adjust_size(x); s.order(); }",
    "stepper/adaptive_adams_bashforth_moulton": step("adaptive_adams_bashforth_moulton<3,V>", "in", "out", "err", "errout", "reset"),
    "stepper/controlled_adams_bashforth_moulton": "#include <vector>\n@" + ST + "void use() { " + V0 + " controlled_adams_bashforth_moulton< adaptive_adams_bashforth_moulton<3,V> > s; s.try_step(Sy(), x, t, dt); s.reset(); }",
    "stepper/bulirsch_stoer": step("bulirsch_stoer<V>", "try", "tryout", "tryd", "trydout", "reset", "adj"),
    "stepper/bulirsch_stoer_dense_out": step("bulirsch_stoer_dense_out<V>", "dense", "trydd", "reset", "adj"),
    "stepper/explicit_generic_rk": "#include <vector>\n#include <boost/array.hpp>\n#include <boost/fusion/container.hpp>\n@" + ST + "void use() { " + V0 + " typedef explicit_generic_rk<2,2,V> G; boost::array<double,1> a; boost::array<double,2> b, c; G s(boost::fusion::make_vector(a), b, c); s.do_step(Sy(), x, t, dt); s.do_step(Sy(), x, t, y, dt); s.adjust_size(x); }",
    "stepper/explicit_error_generic_rk": "#include <vector>\n#include <boost/array.hpp>\n#include <boost/fusion/container.hpp>\n@" + ST + "void use() { " + V0 + " typedef explicit_error_generic_rk<2,2,2,1,V> G; boost::array<double,1> a; boost::array<double,2> b, c; G s(boost::fusion::make_vector(a), b, b, c); s.do_step(Sy(), x, t, dt); s.do_step(Sy(), x, t, y, dt); s.do_step(Sy(), x, t, dt, e); s.adjust_size(x); }",
    "stepper/symplectic_euler": SEP % "symplectic_euler", "stepper/symplectic_rkn_sb3a_mclachlan": SEP % "symplectic_rkn_sb3a_mclachlan", "stepper/symplectic_rkn_sb3a_m4_mclachlan": SEP % "symplectic_rkn_sb3a_m4_mclachlan",
    "stepper/velocity_verlet": "#include <boost/array.hpp>\n#include <utility>\n@typedef boost::array<double,1> Q; using namespace boost::numeric::odeint; struct A { void operator()(const Q &, const Q &, Q &, double) const {} };\nvoid use() { std::pair<Q,Q> x; velocity_verlet<Q> s; s.do_step(A(), x, 0.0, 0.1); s.initialize(A(), x.first, x.second, 0.0); s.initialize(x.first); s.reset(); s.adjust_size(x.first); }",
    "stepper/rosenbrock4": UBL % "rosenbrock4<double> s; s.do_step(sy, x, t, dt); s.do_step(sy, x, t, y, dt); s.do_step(sy, x, t, dt, e); s.do_step(sy, x, t, y, dt, e); s.prepare_dense_output(); s.calc_state(t, x, y, t, e, t); s.adjust_size(x);",
    "stepper/implicit_euler": UBL % "implicit_euler<double> s; s.do_step(sy, x, t, dt); s.adjust_size(x);",
    "stepper/generation/generation_rosenbrock4": UBL % "auto c = make_controlled(1e-6, 1e-6, rosenbrock4<double>()); c.try_step(sy, x, t, dt); auto d = make_dense_output(1e-6, 1e-6, rosenbrock4<double>()); d.initialize(x, t, dt); d.do_step(sy);",
    "util/ublas_wrapper": "@using namespace boost::numeric::odeint; typedef boost::numeric::ublas::vector<double> S; typedef boost::numeric::ublas::matrix<double> M; typedef boost::numeric::ublas::permutation_matrix<size_t> P;\nvoid use() { S x(2), y; M m; P p(2); resize(y, x); same_size(x, y); resize(m, x); same_size(m, x); resize(p, x); same_size(p, x); static_assert(is_resizeable<S>::type::value && is_resizeable<M>::type::value, \"\"); }",
    "stepper/generation/make_controlled": "@", "stepper/generation/make_dense_output": "@",
    "stepper/generation": "#include <vector>\n#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>\n@" + ST + "void use() { " + V0 + " auto c = make_controlled(1e-6, 1e-6, runge_kutta_dopri5<V>()); c.try_step(Sy(), x, t, dt); auto c2 = make_controlled(1e-6, 1e-6, 0.5, runge_kutta_dopri5<V>()); auto e2 = make_dense_output(1e-6, 1e-6, runge_kutta_dopri5<V>()); e2.initialize(x, t, dt); e2.do_step(Sy()); auto e3 = make_dense_output(1e-6, 1e-6, 0.5, runge_kutta_dopri5<V>()); }",
    "integrate/integrate": "#include <vector>\n@" + ST + "struct Ob { void operator()(const V &, double) const {} }; void use() { " + V0 + " integrate(Sy(), x, 0.0, 1.0, 0.1); integrate(Sy(), x, 0.0, 1.0, 0.1, Ob()); }",
    "integrate/integrate_const": integ("integrate_const(%s, Sy(), x, 0.0, 1.0, 0.1, Ob());") , "integrate/integrate_adaptive": integ("integrate_adaptive(%s, Sy(), x, 0.0, 1.0, 0.1, Ob());"),
    "integrate/integrate_n_steps": integ("integrate_n_steps(%s, Sy(), x, 0.0, 0.1, 5, Ob());"), "integrate/integrate_times": integ("integrate_times(%s, Sy(), x, ts.begin(), ts.end(), 0.1, Ob());"),
    "integrate/observer_collection": "@struct S {}; void f(const S &, double); void use() { boost::numeric::odeint::observer_collection<S, double> o; o.observers().push_back(f); o(S(), 0.0); }",
    "integrate/max_step_checker": "@void use() { boost::numeric::odeint::max_step_checker c(5); c(); c.reset(); boost::numeric::odeint::failed_step_checker f(5); f(); f.reset(); }",
    "integrate/null_observer": "@void use() { boost::numeric::odeint::null_observer o; o(1, 2.0); }",
    "iterator/const_step_iterator": iters("const_step_iterator", "0.0, 1.0, 0.1", "ac"), "iterator/const_step_time_iterator": iters("const_step_time_iterator", "0.0, 1.0, 0.1", "ac"),
    "iterator/adaptive_iterator": iters("adaptive_iterator", "0.0, 1.0, 0.1", "bc"), "iterator/adaptive_time_iterator": iters("adaptive_time_iterator", "0.0, 1.0, 0.1", "bc"),
    "iterator/n_step_iterator": iters("n_step_iterator", "0.0, 0.1, 5", "ac"), "iterator/n_step_time_iterator": iters("n_step_time_iterator", "0.0, 0.1, 5", "ac"),
    "iterator/times_iterator": INT % "".join("{ auto i = make_times_iterator_begin(%s, Sy(), x, ts.begin(), ts.end(), 0.1); auto e = make_times_iterator_end<std::vector<double>::iterator>(%s, Sy(), x); for(; i != e; ++i) (void)*i; } " % (k, k) for k in "abc"),
    "iterator/times_time_iterator": INT % "".join("{ auto i = make_times_time_iterator_begin(%s, Sy(), x, ts.begin(), ts.end(), 0.1); auto e = make_times_time_iterator_end<std::vector<double>::iterator>(%s, Sy(), x); for(; i != e; ++i) (void)*i; } " % (k, k) for k in "abc"),
    "algebra/range_algebra": "#include <vector>\n@void use() { std::vector<double> a(2), b(2); boost::numeric::odeint::range_algebra r; r.for_each2(a, b, [](double &x, double y) { x = y; }); r.norm_inf(a); }",
    "algebra/array_algebra": "#include <boost/array.hpp>\n@void use() { boost::array<double,2> a, b; boost::numeric::odeint::array_algebra r; r.for_each2(a, b, [](double &x, double y) { x = y; }); r.norm_inf(a); }",
    "algebra/vector_space_algebra": "@void use() { double a = 1, b = 2; boost::numeric::odeint::vector_space_algebra r; r.for_each2(a, b, [](double &x, double y) { x = y; }); }",
    "algebra/multi_array_algebra": "#include <boost/multi_array.hpp>\n@void use() { boost::multi_array<double,2> a(boost::extents[2][3]), b(boost::extents[2][3]); boost::numeric::odeint::multi_array_algebra r; r.for_each2(a, b, [](double &x, double y) { x = y; }); r.norm_inf(a); }",
    "algebra/fusion_algebra": "#include <boost/fusion/container.hpp>\n@struct O { template<class A, class B> void operator()(A &a, const B &b) const { a = b; } typedef void result_type; }; void use() { boost::fusion::vector<double, float> a, b; boost::numeric::odeint::fusion_algebra r; r.for_each2(a, b, O()); }",
    "util/resize": "#include <vector>\n@void use() { std::vector<double> a, b(2); boost::numeric::odeint::resize(a, b); }", "util/same_size": "#include <vector>\n@void use() { std::vector<double> a, b(2); boost::numeric::odeint::same_size(a, b); }",
    "util/copy": "#include <vector>\n@void use() { std::vector<double> a(2), b(2); boost::numeric::odeint::copy(a, b); }",
    "util/multi_array_adaption": "#include <boost/multi_array.hpp>\n@void use() { boost::multi_array<double,2> a(boost::extents[2][3]), b; boost::numeric::odeint::resize(b, a); boost::numeric::odeint::same_size(a, b); }",
    "external/eigen/eigen": "#include <Eigen/Dense>\n@#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>\n#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>\nusing namespace boost::numeric::odeint; typedef Eigen::VectorXd E; struct Sy { void operator()(const E &x, E &d, double) const { d = x; } };\nvoid use() { E x(2); double t = 0, dt = 0.1; controlled_runge_kutta< runge_kutta_dopri5<E> > s; s.try_step(Sy(), x, t, dt); }",
    "external/openmp/openmp": "#include <vector>\n@using namespace boost::numeric::odeint; void use() { std::vector<double> v(9); openmp_state<double> s; split(v, s); unsplit(s, v); openmp_range_algebra a; openmp_nested_algebra<range_algebra> n; n.for_each1(s, [](double &x) { x = 1; }); }",
    "external/mpi/mpi": "#include <vector>\n@#include <boost/serialization/vector.hpp>\nusing namespace boost::numeric::odeint; void use() { std::vector<double> v(9); mpi_state< std::vector<double> > s; split(v, s); unsplit(s, v); mpi_nested_algebra<range_algebra> n; n.for_each1(s, [](double &x) { x = 1; }); n.norm_inf(s); }",
    "external/gsl/gsl_wrapper": "#include <gsl/gsl_vector.h>\n@using namespace boost::numeric::odeint; void use() { gsl_vector *a = gsl_vector_alloc(2); gsl_vector *b = gsl_vector_alloc(3); resize(a, b); same_size(a, b); for(gsl_vector_iterator i(a); i != end_iterator(a); ++i) *i = 1.0; }",
    "external/thrust/thrust": "#include <thrust/device_vector.h>\n#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>\n@using namespace boost::numeric::odeint; typedef thrust::device_vector<double> T; struct Sy { void operator()(const T &, T &, double) const {} }; void use() { T x(2); runge_kutta4<T> s; s.do_step(Sy(), x, 0.0, 0.1); }",
}
FLAGS = {"thrust": ["-DTHRUST_DEVICE_SYSTEM=THRUST_DEVICE_SYSTEM_CPP"], "mkl": ["-I" + os.path.join(vp.ROOT, "witness", "stub")], "eigen": ["-I/usr/include/eigen3"]}


def flags(h):
    out = []
    for k, f in FLAGS.items():
        if "/%s" % k in h or h is None:
            out += f
    if "/mpi" in h:
        out += vp.sh(["mpic++", "--showme:compile"]).stdout.split()
    if "/openmp" in h:
        out += OMP
    return out


def omp():
    """where the compiler that has OpenMP keeps its header"""
    p = vp.sh(["g++", "-print-file-name=include/omp.h"]).stdout.strip()
    if not os.path.isabs(p):
        return []
    d = os.path.join(vp.scratch(), "omp")
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(d + "/omp.h"):
        os.symlink(p, d + "/omp.h")
    return ["-fopenmp", "-I" + d, "-D__malloc__(...)=__malloc__"]


def compile_ir(text, tag, extra):
    d = vp.scratch()
    cpp, ll = os.path.join(d, tag + ".cpp"), os.path.join(d, tag + ".ll")
    with open(cpp, "w") as f:
        f.write(text)
    r = vp.sh([vp.CLANG, "-std=gnu++14", "-w", "-DBOOST_ALL_NO_LIB=1", "-O0", "-ferror-limit=3", "-S", "-emit-llvm", "-Xclang", "-disable-llvm-passes", "-MD", "-MF", ll + ".d"] + vp.INC[:1] + extra + [cpp, "-o", ll])
    return r.returncode == 0, r.stdout, ll, ll + ".d"


def strong(ll):
    """names with ordinary external linkage defined in a unit that consists of headers only"""
    out = []
    with open(ll) as f:
        for l in f:
            if l.startswith("define ") and "@_Z3usev(" not in l:
                head = l.split("@", 1)[0]
                if not re.search(r"\b(linkonce_odr|weak_odr|linkonce|weak|internal|private|available_externally)\b", head):
                    out.append(l.split("@", 1)[1].split("(")[0])
            elif l.startswith("@") and " = " in l:
                head = l.split(" = ", 1)[1]
                if re.match(r"(dso_local |protected |hidden )*(thread_local )?(constant|global)\b", head):
                    out.append(l[1:].split(" ")[0])
    return out


def absent(log):
    m = re.search(r"fatal error: '([^']+)' file not found", log)
    return m and not m.group(1).startswith(PUB) and m.group(1)


def guard(path):
    """macro whose definition makes the preprocessor skip the whole file"""
    t = re.sub(r"/\*.*?\*/", "", open(path, errors="replace").read(), flags=re.S)
    t = re.sub(r"//.*", "", t)
    m = re.match(r"\s*#\s*ifndef\s+(\w+)", t) or re.match(r"\s*#\s*if\s+!\s*defined\s*\(?\s*(\w+)", t)
    return m and m.group(1) if m and re.search(r"#\s*define\s+%s\b" % m.group(1), t) else None


def errs(log):
    return " | ".join([l for l in log.splitlines() if "error" in l][:2])[:700]


def run(c):
    global OMP
    OMP = omp()
    root = os.path.join(vp.REPO, "include")
    heads = []
    for d, _, fs in os.walk(os.path.join(root, PUB)):
        heads += [os.path.relpath(os.path.join(d, f), root) for f in fs if f.endswith(".hpp")]
    if os.path.exists(os.path.join(root, PUB + ".hpp")):
        heads.append(PUB + ".hpp")
    heads.sort()
    guards = {}
    for h in heads:
        g = guard(os.path.join(root, h))
        if g and "/iterator/integrate/" not in h:
            guards.setdefault(g, []).append(h)
    pub = [h for h in heads if not re.search(r"/(detail|impl|integrate/detail)/", h) and "/iterator/integrate/" not in h]

    def one(h):
        n = re.sub(r"\W", "_", h)
        return compile_ir((BASE % h) * 2, "h_" + n, flags(h))

    def use(u):
        h = "%s/%s.hpp" % (PUB, u)
        t = USE[u].replace("@", BASE % h, 1)
        return compile_ir(t, "u_" + re.sub(r"\W", "_", u), flags(h))
    with ThreadPoolExecutor(max_workers=8) as ex:
        alone = list(ex.map(one, pub))
        used = list(ex.map(use, sorted(USE)))
    usable = []
    for h, (ok, log, ll, dep) in zip(pub, alone):
        c.analysed(func=h)
        a = not ok and absent(log)
        if a:
            c.count("headers skipped (third-party library absent)")
            continue
        c.headers.add(h)
        if c.check("%s compiles as the only include, twice" % h, ok, errs(log), h):
            usable.append(h)
            s = strong(ll)
            c.check("%s defines nothing with external linkage" % h, not s, ", ".join(demangle(s)[:4]), h)
    for u, (ok, log, ll, dep) in zip(sorted(USE), used):
        h = "%s/%s.hpp" % (PUB, u)
        if not os.path.exists(os.path.join(root, h)):
            continue
        if not ok and absent(log):
            c.count("uses skipped (third-party library absent)")
            continue
        c.check("%s can be used when it is the only odeint header included" % h, ok, errs(log), h)
        if ok:
            s = strong(ll)
            c.check("using %s defines nothing else with external linkage" % h, not s, ", ".join(demangle(s)[:4]), h)
    for g, l in sorted(guards.items()):
        if any(h in usable for h in l):
            c.check("include guard of %s is its own" % l[0], len(l) == 1, "%s is shared by %s" % (g, ", ".join(l)), l[0])
    # (each pair of headers in both orders)
    fl = []
    for h in usable:
        fl += [f for f in flags(h) if f not in fl]
    th = [h for h in usable if "/thrust" in h]
    ok, log, ll, dep = compile_ir("".join(BASE % h for h in th), "thrust_omp", fl)
    c.check("the Thrust headers compile with OpenMP enabled", ok, errs(log), "boost/numeric/odeint/external/thrust/thrust_resize.hpp")
    if not ok:
        # (already reported: the remaining headers are compiled together without them)
        usable = [h for h in usable if h not in th]
    for nm, l in (("alphabetical", usable), ("reverse", usable[::-1])):
        ok, log, ll, dep = compile_ir("".join(BASE % h for h in l), "all_" + nm, fl)
        c.check("all public headers in one unit, in %s order" % nm, ok, errs(log), errs(log).split(": error")[0])


def demangle(l):
    return vp.sh([vp.LLVM + "/llvm-cxxfilt"] + l).stdout.split("\n") if l else []


if __name__ == "__main__":
    sys.exit(vp.main("C18", RULE, run, minimum=150))
