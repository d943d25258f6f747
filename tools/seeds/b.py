H = "#include <cstdio>\n#include <cmath>\n#include <vector>\n#include <utility>\n#include <boost/array.hpp>\n"
MIR = """
// run forward, and mirrored in time; the step sizes and results must mirror each other
"""
SEEDS = [
dict(id="c09-bs-reject-twice", property="C09",
 edits=[("stepper/bulirsch_stoer.hpp", "boost::numeric::odeint::detail::less_with_sign(new_h, dt, dt)", "new_h < dt")],
 demo=H+"""#include <boost/numeric/odeint/stepper/bulirsch_stoer.hpp>
#include <boost/numeric/odeint/algebra/range_algebra.hpp>
using namespace boost::numeric::odeint; typedef boost::array<double,1> S;
static double run(int sg) { double r = 0; for(double h0 = 0.5; h0 < 20; h0 *= 1.3) { S x; x[0] = 1.0; double t = 0, dt = sg*h0; bulirsch_stoer<S> s(1e-8, 1e-8);
 auto f = [sg](const S &x, S &d, double t) { double u = sg*t; d[0] = sg*( -30*x[0] + 10*std::cos(13*u) ); };
 for(int i = 0; i < 12; ++i) { s.try_step(f, x, t, dt); double q = sg*dt; if( q == q && std::fabs(q) < 1e100 ) r = r*0.5 + q; } } return r; }
int main() { double a = run(1), b = run(-1); std::printf("%.15g %.15g\\n", a, b); return std::fabs(a-b) > 1e-6*std::fabs(a); }
""", needs="two rejected steps in a row while integrating backward in time", breaks="after a rejected backward step the reduced step size is not taken over when the step is rejected again"),
dict(id="c09-rosenbrock-limit-after-reject", property="C09",
 edits=[("stepper/rosenbrock4_controller.hpp", "                dt_new = ( dt >= 0.0 ?\n                min BOOST_PREVENT_MACRO_SUBSTITUTION ( dt_new , dt ) :\n                max BOOST_PREVENT_MACRO_SUBSTITUTION ( dt_new , dt ) );",
   "                dt_new = min BOOST_PREVENT_MACRO_SUBSTITUTION ( dt_new , dt );")],
 demo=H+"""#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/ublas/matrix.hpp>
#include <boost/numeric/odeint/integrate/null_observer.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4.hpp>
#include <boost/numeric/odeint/util/bind.hpp>
#include <boost/numeric/odeint/algebra/default_operations.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_controller.hpp>
using namespace boost::numeric::odeint; typedef boost::numeric::ublas::vector<double> S; typedef boost::numeric::ublas::matrix<double> M;
static double run(int sg) { double r = 0; for(double h0 = 0.5; h0 < 20; h0 *= 1.3) { S x(1); x[0] = 1.0; double t = 0, dt = sg*h0; rosenbrock4_controller<rosenbrock4<double> > s(1e-6, 1e-6);
 auto f = [sg](const S &x, S &d, double t) { double u = sg*t; d[0] = sg*( -20*x[0]*x[0]*(1+std::sin(7*u)) + std::cos(3*u) ); };
 auto j = [sg](const S &x, M &m, double t, S &dt) { double u = sg*t; m(0,0) = sg*( -40*x[0]*(1+std::sin(7*u)) ); dt[0] = -140*x[0]*x[0]*std::cos(7*u) - 3*std::sin(3*u); };
 for(int i = 0; i < 12; ++i) { s.try_step(std::make_pair(f, j), x, t, dt); double q = sg*dt; if( q == q && std::fabs(q) < 1e100 ) r = r*0.5 + q; } } return r; }
int main() { double a = run(1), b = run(-1); std::printf("%.15g %.15g\\n", a, b); return std::fabs(a-b) > 1e-6*std::fabs(a); }
""", needs="a backward step accepted directly after a rejection", breaks="going backward the step size may grow, and cannot shrink, right after a rejection"),
dict(id="c10-const-controlled-accumulates", property="C10",
 edits=[("integrate/detail/integrate_const.hpp", "time = start_time + static_cast< typename unit_value_type<Time>::type >(step) * time_step;", "time += time_step;")],
 demo=H+"""#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/generation.hpp>
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
using namespace boost::numeric::odeint; typedef boost::array<double,1> S;
int main() { S x; x[0] = 1; int n = 0, bad = 0; auto f = [](const S &x, S &d, double) { d[0] = -x[0]; };
 integrate_const(make_controlled(1e-6, 1e-6, runge_kutta_dopri5<S>()), f, x, 0.0, 100.0, 0.1, [&](const S&, double t) { bad += t != n*0.1; ++n; });
 std::printf("%d %d\\n", n, bad); return bad != 0; }
""", needs="many observation intervals whose length has no exact binary representation", breaks="observation times of controlled steppers drift away from start + n*dt"),
dict(id="c12-times-failures-add-up", property="C12",
 edits=[("integrate/detail/integrate_times.hpp", "                fail_checker.reset();\n", "                if( current_dt == dt ) fail_checker.reset();\n")],
 demo=H+"""#include <boost/numeric/odeint/stepper/stepper_categories.hpp>
#include <boost/numeric/odeint/stepper/controlled_step_result.hpp>
#include <boost/numeric/odeint/integrate/integrate_times.hpp>
using namespace boost::numeric::odeint;
struct st { typedef double state_type; typedef double deriv_type; typedef double value_type; typedef double time_type; typedef controlled_stepper_tag stepper_category; int n;
 st() : n(0) {}
 template<class Sys> controlled_step_result try_step(Sys, double &x, double &t, double &dt) { if(++n % 2) { return fail; } t += dt; dt *= 1.5; if( dt > 4 ) dt = 4; return success; } };
int main() { double x = 0; std::vector<double> ts; for(int i = 0; i < 2000; ++i) ts.push_back(i);
 try { integrate_times(st(), 0, x, ts.begin(), ts.end(), 0.25, [](double, double){}); } catch(std::exception &e) { std::puts(e.what()); return 1; } return 0; }
""", needs="more than 500 rejected steps spread over a long run, with every step in between succeeding", breaks="failures that are not consecutive are counted together and end the integration"),
dict(id="c12-adaptive-checker-per-run", property="C12",
 edits=[("integrate/detail/integrate_adaptive.hpp", "        fail_checker.reset();  // if we reach here, the step was successful -> reset fail checker\n", "        if( count == 0 ) fail_checker.reset();  // if we reach here, the step was successful -> reset fail checker\n")],
 demo=H+"""#include <boost/numeric/odeint/stepper/stepper_categories.hpp>
#include <boost/numeric/odeint/stepper/controlled_step_result.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
using namespace boost::numeric::odeint;
struct st { typedef double state_type; typedef double deriv_type; typedef double value_type; typedef double time_type; typedef controlled_stepper_tag stepper_category;
 template<class Sys> controlled_step_result try_step(Sys, double &x, double &t, double &dt) { t += dt; return success; } };
int main() { double x = 0; try { integrate_adaptive(st(), 0, x, 0.0, 10.0, 0.001); } catch(std::exception &e) { std::puts(e.what()); return 1; } return 0; }
""", needs="an adaptive run of more than 500 steps", breaks="long adaptive runs are ended although every step succeeds"),
dict(id="c23-reinitialize-same-time", property="C23",
 edits=[("stepper/dense_output_runge_kutta.hpp", "        m_t = t0;\n        m_dt = dt0;\n        m_is_deriv_initialized = false;", "        m_is_deriv_initialized = m_is_deriv_initialized && ( m_t == t0 );\n        m_t = t0;\n        m_dt = dt0;")],
 demo=H+"""#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/generation.hpp>
using namespace boost::numeric::odeint; typedef boost::array<double,1> S;
int main() { S x, y; x[0] = 1; auto f = [](const S &x, S &d, double) { d[0] = -x[0]; };
 auto s = make_dense_output(1e-6, 1e-6, runge_kutta_dopri5<S>()), r = s; s.initialize(x, 0.0, 0.01); s.do_step(f); double t = s.current_time();
 y[0] = 5; s.initialize(y, t, 0.01); r.initialize(y, t, 0.01); s.do_step(f); r.do_step(f);
 std::printf("%.15g %.15g\\n", s.current_state()[0], r.current_state()[0]); return s.current_state()[0] != r.current_state()[0]; }
""", needs="initialising again with a different state at the time reached", breaks="the derivative of the old state is used for the new one"),
dict(id="c25-extrapolation-third-column", property="C25",
 edits=[("stepper/extrapolation_stepper.hpp", "static_cast< value_type >( m_interval_sequence[k] );", "static_cast< value_type >( m_interval_sequence[k] + ( k > 2 ? 1 : 0 ) );")],
 demo=H+"""#include <boost/numeric/odeint/stepper/extrapolation_stepper.hpp>
#include <boost/numeric/odeint/algebra/range_algebra.hpp>
using namespace boost::numeric::odeint; typedef boost::array<double,1> S;
int main() { auto f = [](const S &x, S &d, double t) { d[0] = x[0]; }; extrapolation_stepper<10, S> s; S x; x[0] = 1; s.do_step(f, x, 0.0, 0.5);
 std::printf("%g\\n", std::fabs(x[0]-std::exp(0.5))); return std::fabs(x[0]-std::exp(0.5)) > 1e-9; }
""", needs="an extrapolation order of ten or more", breaks="the coefficients of the fourth and later columns of the extrapolation table are wrong"),
dict(id="c26-rosenbrock-time-derivative", property="C26",
 edits=[("stepper/rosenbrock4.hpp", "m_dxdtnew.m_v[i] + dt * m_coef.d4 * m_dfdt.m_v[i]", "m_dxdtnew.m_v[i] + dt * m_coef.d3 * m_dfdt.m_v[i]")],
 demo=H+"""#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/ublas/matrix.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4.hpp>
using namespace boost::numeric::odeint; typedef boost::numeric::ublas::vector<double> S; typedef boost::numeric::ublas::matrix<double> M;
int main() { auto f = [](const S &x, S &d, double t) { d[0] = t*t*t*x[0]; }; auto j = [](const S &x, M &m, double t, S &dt) { m(0,0) = t*t*t; dt[0] = 3*t*t*x[0]; };
 double e[2]; for(int k = 0; k < 2; ++k) { int n = 20 << k; S x(1); x[0] = 1; rosenbrock4<double> s; for(int i = 0; i < n; ++i) s.do_step(std::make_pair(f, j), x, 1.0 + i*1.0/n, 1.0/n); e[k] = std::fabs(x[0] - std::exp(15./4)); }
 std::printf("%g %g\\n", e[0], e[1]); return e[0]/e[1] < 12; }
""", needs="a system that depends explicitly on time", breaks="the fourth stage uses the wrong weight for df/dt and the order drops for non-autonomous systems"),
dict(id="c03-adams-bashforth-seven", property="C03",
 edits=[("stepper/detail/adams_bashforth_coefficients.hpp", "(*this)[4] = static_cast< Value >( 135713 ) / static_cast< Value >( 20160 );", "(*this)[4] = static_cast< Value >( 135731 ) / static_cast< Value >( 20160 );")],
 demo=H+"""#include <boost/numeric/odeint/stepper/adams_bashforth.hpp>
#include <boost/numeric/odeint/algebra/range_algebra.hpp>
using namespace boost::numeric::odeint; typedef boost::array<double,1> S;
int main() { auto f = [](const S &x, S &d, double t) { d[0] = 1; }; adams_bashforth<7, S> s; S x; x[0] = 0; for(int i = 0; i < 50; ++i) s.do_step(f, x, i*0.1, 0.1);
 std::printf("%.15g\\n", x[0]); return std::fabs(x[0]-5) > 1e-10; }
""", needs="seven steps", breaks="the weights of the seven-step formula do not sum to one"),
dict(id="c04-rkn-momentum-in", property="C04",
 edits=[("stepper/base/symplectic_rkn_stepper_base.hpp", "            else\n            {\n                coor_func( momentum_out , m_dqdt.m_v );", "            else\n            {\n                if( m_coef_b[l-1] > 0 ) coor_func( momentum_out , m_dqdt.m_v ); else coor_func( momentum_in , m_dqdt.m_v );")],
 demo=H+"""#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
#include <boost/numeric/odeint/algebra/range_algebra.hpp>
using namespace boost::numeric::odeint; typedef boost::array<double,1> S;
int main() { auto f = [](const S &p, S &d) { d[0] = p[0]; }; auto g = [](const S &q, S &d) { d[0] = -q[0]; };
 symplectic_rkn_sb3a_m4_mclachlan<S> s, r; S q0, p0, q1, p1, q2, p2; q0[0] = q2[0] = 1; p0[0] = p2[0] = 0.5;
 std::pair<S, S> a(q0, p0), b, c(q2, p2); s.do_step(std::make_pair(f, g), a, 0.0, b, 0.1); r.do_step(std::make_pair(f, g), c, 0.0, 0.1);
 std::printf("%.15g %.15g\\n", b.first[0], c.first[0]); return std::fabs(b.first[0]-c.first[0]) > 1e-12 || std::fabs(b.second[0]-c.second[0]) > 1e-12; }
""", needs="an out-of-place step with separate functions for coordinates and momenta and a kick with a coefficient that is not positive", breaks="a drift uses the momentum at the beginning of the step"),
dict(id="c17-thrust-scale-sum7", property="C17",
 edits=[("external/thrust/thrust_operations.hpp", "                    m_alpha5 * thrust::get<5>(t) +\n                    m_alpha6 * thrust::get<6>(t) +\n                    m_alpha7 * thrust::get<7>(t) ;", "                    m_alpha5 * thrust::get<5>(t) +\n                    m_alpha6 * thrust::get<7>(t) +\n                    m_alpha7 * thrust::get<6>(t) ;")],
 demo="#define THRUST_DEVICE_SYSTEM THRUST_DEVICE_SYSTEM_CPP\n"+H+"""#include <thrust/tuple.h>
#include <boost/numeric/odeint/external/thrust/thrust_operations.hpp>
using namespace boost::numeric::odeint;
int main() { double v[8] = {0,1,2,3,5,7,11,13}; thrust_operations::scale_sum7<> op(1., 10., 100., 1e3, 1e4, 1e5, 1e6);
 op(thrust::tie(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7])); double e = 1+20+300+5000+7e4+11e5+13e6; std::printf("%.15g %.15g\\n", v[0], e); return v[0] != e; }
""", needs="the Thrust back end and a method of six stages or more", breaks="the last two factors of a seven-term sum are applied to each other's argument"),
dict(id="c02-rosenbrock-backward-interpolation", property="C02",
 edits=[("stepper/rosenbrock4.hpp", "time_type s = ( t - t_old ) / dt;", "time_type s = ( t - t_old ) / std::abs( dt );")],
 demo=H+"""#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/ublas/matrix.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4.hpp>
using namespace boost::numeric::odeint; typedef boost::numeric::ublas::vector<double> S; typedef boost::numeric::ublas::matrix<double> M;
int main() { auto f = [](const S &x, S &d, double t) { d[0] = x[0]; }; auto j = [](const S &x, M &m, double t, S &dt) { m(0,0) = 1; dt[0] = 0; };
 S x(1), y(1), z(1); x[0] = 1; rosenbrock4<double> s; s.do_step(std::make_pair(f, j), x, 1.0, y, -0.1); s.prepare_dense_output(); s.calc_state(0.95, z, x, 1.0, y, 0.9);
 std::printf("%.15g %.15g\\n", z[0], std::exp(-0.05)); return std::fabs(z[0]-std::exp(-0.05)) > 1e-4; }
""", needs="dense output of a backward step", breaks="the interpolation runs in the wrong direction"),
dict(id="c06-fsal-derivative-on-reject", property="C06",
 edits=[("stepper/controlled_runge_kutta.hpp", "            boost::numeric::odeint::copy( m_xnew.m_v , x );\n            boost::numeric::odeint::copy( m_dxdtnew.m_v , dxdt );\n        }\n", "            boost::numeric::odeint::copy( m_xnew.m_v , x );\n        }\n        if( res == success || dt < static_cast< time_type >( 0 ) )\n            boost::numeric::odeint::copy( m_dxdtnew.m_v , dxdt );\n")],
 demo=H+"""#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/generation.hpp>
using namespace boost::numeric::odeint; typedef boost::array<double,1> S;
int main() { S x, d, d0; x[0] = 1; auto f = [](const S &x, S &d, double) { d[0] = -50*x[0]*x[0]; }; f(x, d, 0); d0 = d;
 auto s = make_controlled(1e-8, 1e-8, runge_kutta_dopri5<S>()); double t = 0, dt = -0.01; auto r = s.try_step(f, x, d, t, dt);
 std::printf("%d %g %g\\n", (int)r, d[0], d0[0]); return r == fail && d[0] != d0[0]; }
""", needs="a rejected backward step", breaks="a rejected step leaves the derivative of the discarded state behind"),
dict(id="c07-increase-limit", property="C07",
 edits=[("stepper/controlled_runge_kutta.hpp", "static_cast<value_type>( pow( static_cast<value_type>(5.0) , -static_cast<value_type>(stepper_order) ) ) ,", "static_cast<value_type>( pow( static_cast<value_type>(5.0) , -static_cast<value_type>(stepper_order + 1) ) ) ,")],
 demo=H+"""#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/generation.hpp>
using namespace boost::numeric::odeint; typedef boost::array<double,1> S;
int main() { S x; x[0] = 1; auto f = [](const S &x, S &d, double) { d[0] = 0; }; auto s = make_controlled(1e-8, 1e-8, runge_kutta_dopri5<S>()); double t = 0, dt = 0.1; s.try_step(f, x, t, dt);
 std::printf("%g\\n", dt); return dt > 0.5; }
""", needs="an error estimate of nearly zero", breaks="the step size grows by more than the documented factor five"),
dict(id="c19-times-iterator-carried-step", property="C19",
 edits=[("iterator/impl/n_step_iterator_impl.hpp", "                while( detail::less_with_sign( stepper.current_time() , this->m_t ,\n                       stepper.current_time_step() ) )", "                while( detail::less_with_sign( static_cast< time_type >( stepper.current_time() + stepper.current_time_step() ) , this->m_t ,\n                       stepper.current_time_step() ) )")],
 demo=H+"""#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/generation.hpp>
#include <boost/numeric/odeint/iterator/n_step_time_iterator.hpp>
using namespace boost::numeric::odeint; typedef boost::array<double,1> S;
int main() { S x; x[0] = 1; auto f = [](const S &x, S &d, double t) { d[0] = std::cos(t)*x[0]; }; auto st = make_dense_output(1e-8, 1e-8, runge_kutta_dopri5<S>()); double e = 0;
 auto b = make_n_step_time_iterator_begin(st, f, x, 0.0, 0.37, 40), n = make_n_step_time_iterator_end(st, f, x);
 for(; b != n; ++b) e = std::max(e, std::fabs((*b).first[0] - std::exp(std::sin((*b).second)))); std::printf("%g\\n", e); return !(e < 2e-6); }
""", needs="a dense-output stepper whose step is not yet past the next point", breaks="a point of the sequence is extrapolated from a step that does not reach it"),
dict(id="c11-times-controlled-carry", property="C11",
 edits=[("integrate/detail/integrate_times.hpp", "                dt = max_abs( dt , current_dt );", "                dt = ( steps % 2 ) ? max_abs( dt , current_dt ) : current_dt;")],
 demo=H+"""#include <boost/numeric/odeint/stepper/stepper_categories.hpp>
#include <boost/numeric/odeint/stepper/controlled_step_result.hpp>
#include <boost/numeric/odeint/integrate/integrate_times.hpp>
using namespace boost::numeric::odeint;
struct st { typedef double state_type; typedef double deriv_type; typedef double value_type; typedef double time_type; typedef controlled_stepper_tag stepper_category;
 template<class Sys> controlled_step_result try_step(Sys, double &x, double &t, double &dt) { t += dt; return success; } };
int main() { double x = 0; std::vector<double> ts = {0, 1, 1.01, 1.02, 1.03, 10}; size_t n = integrate_times(st(), 0, x, ts.begin(), ts.end(), 2.0, [](double, double){}); std::printf("%d\\n", (int)n); return n > 12; }
""", needs="time points closer together than the step size, followed by a wide gap", breaks="a step shortened to hit a time point becomes the step size carried on"),
dict(id="c11-dense-last-step-over-end", property="C11",
 edits=[("integrate/detail/integrate_adaptive.hpp", "        st.do_step( system , start_state , end , end_time - end );", "        st.do_step( system , start_state , end , dt < end_time - start_time ? end_time - end : dt );")],
 demo=H+"""#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/integrate/null_observer.hpp>
using namespace boost::numeric::odeint; typedef boost::array<double,1> S;
int main() { S x; x[0] = 0; auto f = [](const S &x, S &d, double t) { d[0] = 1; }; integrate_adaptive(runge_kutta4<S>(), f, x, 0.0, 0.3, 1.0); std::printf("%.15g\\n", x[0]); return std::fabs(x[0]-0.3) > 1e-9; }
""", needs="an interval shorter than one step", breaks="the only step leads past the end time"),
]
