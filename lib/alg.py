"""algebras applied to an opaque operation: witnesses, and a model of the OpenMP runtime for the interpreter"""
import re
import vp
import absint as A
from absint import const, is_const, cval, ZERO, ONE
from interp import Interp, AnalysisError

PRE = """#include <vp.hpp>
#include <boost/range/iterator_range.hpp>
#include <boost/array.hpp>
typedef boost::iterator_range<double*> R;
extern "C" void vp_op(int n, ...) noexcept;
struct Op { template<class... T> void operator()(T&&... x) const { vp_op(sizeof...(T), &x...); } };
using namespace boost::numeric::odeint;
"""


def inc(*h):
    return "".join("#include <boost/numeric/odeint/%s.hpp>\n" % x for x in h)


# ------------------------------------------------------------ OpenMP runtime: a team of two threads, one after the other
class Omp:
    def __init__(self, threads=2):
        self.n = threads
        self.tid = 0
        self.disp = None       # the current loop of a thread: (lb, ub, ptr...)
        self.regions = 0
        self.shared = 0
        self.stores = []

    def handlers(self):
        h = {}
        for n in dir(self):
            if n.startswith("k_"):
                h["__kmpc_" + n[2:]] = getattr(self, n)
        h["omp_get_max_threads"] = lambda it, ev, a: const(self.n)
        h["omp_get_num_threads"] = lambda it, ev, a: const(self.n)
        h["omp_get_thread_num"] = lambda it, ev, a: const(self.tid)
        return h

    def k_global_thread_num(self, it, ev, a):
        return const(self.tid)

    def k_fork_call(self, it, ev, a):
        f = it.split_ptr(a[2])[0]
        name = f.info[1]
        self.regions += 1
        for t in range(self.n):
            self.tid = t
            gt, bt = Interp.base("gtid"), Interp.base("btid")
            it.store(gt, const(t), 4, "i32")
            it.store(bt, const(t), 4, "i32")
            it.call_nested(it.mod.func(name), [gt, bt] + list(a[3:]))
        self.tid = 0

    def part(self, it, lb, ub):
        if not (is_const(lb) and is_const(ub)):
            raise AnalysisError("parallel loop over a symbolic range")
        lb, ub = int(cval(lb)), int(cval(ub))
        if ub >= 2 ** 62:
            ub = -1            # an unsigned bound of -1
        n = ub - lb + 1
        if n <= 0:
            return None
        k = -(-n // self.n)
        a, b = lb + self.tid * k, min(lb + (self.tid + 1) * k - 1, ub)
        return (a, b) if a <= b else None

    # work sharing with a schedule decided at run time
    def dispatch_init(self, it, ev, a):
        self.disp = self.part(it, a[3], a[4])

    def dispatch_next(self, it, ev, a, size, ty):
        if self.disp is None:
            return ZERO
        lb, ub = self.disp
        self.disp = None
        it.store(a[2], const(0), 4, "i32")
        it.store(a[3], const(lb), size, ty)
        it.store(a[4], const(ub), size, ty)
        it.store(a[5], const(1), size, ty)
        return ONE

    def static_init(self, it, ev, a, size, ty):
        lb, ub = it.load(a[4], size, ty), it.load(a[5], size, ty)
        p = self.part(it, lb, ub)
        if p is None:
            p = (1, 0) if int(cval(ub)) < 2 ** 62 else (1, 0)
        it.store(a[4], const(p[0]), size, ty)
        it.store(a[5], const(p[1]), size, ty)

    def k_for_static_fini(self, it, ev, a):
        pass

    def k_barrier(self, it, ev, a):
        pass

    def k_push_num_threads(self, it, ev, a):
        pass

    def k_serialized_parallel(self, it, ev, a):
        pass

    def k_end_serialized_parallel(self, it, ev, a):
        pass

    def k_critical(self, it, ev, a):
        self.shared += 1

    def k_end_critical(self, it, ev, a):
        pass

    def k_single(self, it, ev, a):
        return ONE if self.tid == 0 else ZERO

    def k_end_single(self, it, ev, a):
        pass

    k_master, k_end_master = k_single, k_end_single

    def k_reduce_nowait(self, it, ev, a):
        self.shared += 1
        return ONE

    def k_end_reduce_nowait(self, it, ev, a):
        pass

    k_reduce, k_end_reduce = k_reduce_nowait, k_end_reduce_nowait


for _s, _z, _t in (("4", 4, "i32"), ("4u", 4, "i32"), ("8", 8, "i64"), ("8u", 8, "i64")):
    setattr(Omp, "k_dispatch_init_" + _s, lambda self, it, ev, a: self.dispatch_init(it, ev, a))
    setattr(Omp, "k_dispatch_next_" + _s, lambda self, it, ev, a, z=_z, t=_t: self.dispatch_next(it, ev, a, z, t))
    setattr(Omp, "k_for_static_init_" + _s, lambda self, it, ev, a, z=_z, t=_t: self.static_init(it, ev, a, z, t))
    setattr(Omp, "k_dispatch_fini_" + _s, lambda self, it, ev, a: None)


_omp = None


def omp_flags():
    """the compiler that has OpenMP keeps its header where clang does not look"""
    global _omp
    if _omp is None:
        d = vp.sh(["g++", "-print-file-name=include"]).stdout.strip()
        w = vp.scratch() + "/omp"
        import os, shutil
        os.makedirs(w, exist_ok=True)
        shutil.copy(d + "/omp.h", w)
        _omp = ["-fopenmp", "-I" + w, "-D__malloc__(...)=__malloc__"]
    return _omp
