// common opaque environment of the witnesses
#pragma once
#include <exception>
#include <boost/config.hpp>
#include <boost/assert/source_location.hpp>
extern "C" {
void vp_throw(const void *) noexcept __attribute__((noreturn));
// derivative of the system: dxdt := F(x,t)
void vp_sys(const double *x, double *dxdt, double t) noexcept;
void vp_sys2(const double *x, const double *v, double *a, double t) noexcept;
void vp_obs(const double *x, double t) noexcept;
void vp_mark(int) noexcept;
void vp_out(const double *) noexcept;
double vp_real() noexcept;
bool vp_bool() noexcept;
int vp_int() noexcept;
}
namespace boost {
inline BOOST_NORETURN void throw_exception(std::exception const &e) { vp_throw(&e); }
inline BOOST_NORETURN void throw_exception(std::exception const &e, boost::source_location const &) { vp_throw(&e); }
}
struct Sys {
    void operator()(const double &x, double &dxdt, double t) const { vp_sys(&x, &dxdt, t); }
};
struct Obs {
    void operator()(const double &x, double t) const { vp_obs(&x, t); }
};
#define VP_W extern "C" void
#include <boost/array.hpp>
typedef boost::array<double, 1> X1;
struct SysX {
    void operator()(const X1 &x, X1 &dxdt, double t) const { vp_sys(&x[0], &dxdt[0], t); }
};
struct ObsX {
    void operator()(const X1 &x, double t) const { vp_obs(&x[0], t); }
};
