H = "#include <cstdio>\n#include <cmath>\n#include <vector>\n#include <boost/array.hpp>\n"
SEEDS = [
dict(id="c01-ck54-classic-stage-time", property="C01",
 edits=[("stepper/runge_kutta_cash_karp54_classic.hpp", "const value_type a3 = static_cast<value_type> ( 3 ) / static_cast<value_type> ( 10 );",
         "const value_type a3 = static_cast<value_type> ( 3 ) / static_cast<value_type> ( 11 );")],
 demo=H+"""#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54_classic.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
using namespace boost::numeric::odeint; typedef boost::array<double,1> S;
int main() { S x, y; x[0] = y[0] = 1.0; auto f = [](const S &x, S &d, double t) { d[0] = t*t*x[0]; };
 runge_kutta_cash_karp54_classic<S> a; runge_kutta_cash_karp54<S> b; a.do_step(f, x, 1.0, 0.1); b.do_step(f, y, 1.0, 0.1);
 std::printf("%.15g %.15g\\n", x[0], y[0]); return std::fabs(x[0]-y[0]) > 1e-12; }
""", needs="a non-autonomous system", breaks="stage 4 of the classic Cash-Karp stepper is evaluated at a time that is not the row sum of its tableau, so the order drops for systems that depend on time"),
dict(id="c05-fsal-outofplace-derivative", property="C05",
 edits=[("stepper/base/explicit_error_stepper_fsal_base.hpp", "        this->stepper().do_step_impl( system, in, dxdt_in, t, out, dxdt_out,\n",
  "        if( dt < static_cast< time_type >( 0 ) ) { this->stepper().do_step_impl( system, in, dxdt_in, t, out, m_dxdt.m_v, dt ); return; }\n        this->stepper().do_step_impl( system, in, dxdt_in, t, out, dxdt_out,\n")],
 demo=H+"""#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
using namespace boost::numeric::odeint; typedef boost::array<double,1> S;
int main() { S x, y, d, dn; x[0] = 1.0; auto f = [](const S &x, S &d, double t) { d[0] = x[0]; };
 f(x, d, 0.0); runge_kutta_dopri5<S> a; a.do_step(f, x, d, 0.0, y, dn, -0.1);
 std::printf("%.15g %.15g\\n", y[0], dn[0]); return std::fabs(y[0]-dn[0]) > 1e-6; }
""", needs="the derivative-supplied out-of-place form called with a negative step", breaks="the returned derivative of the new state is that of the old state for backward steps"),
dict(id="c05-error-stepper-inplace-time", property="C05",
 edits=[("stepper/base/explicit_error_stepper_base.hpp", "sys( x , m_dxdt.m_v ,t );\n        this->stepper().do_step_impl( system , x , m_dxdt.m_v , t , x , dt , xerr );",
  "sys( x , m_dxdt.m_v ,t + dt );\n        this->stepper().do_step_impl( system , x , m_dxdt.m_v , t , x , dt , xerr );")],
 demo=H+"""#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
using namespace boost::numeric::odeint; typedef boost::array<double,1> S;
int main() { S x, y, e, e2; x[0] = y[0] = 1.0; S z; auto f = [](const S &x, S &d, double t) { d[0] = t*x[0]; };
 runge_kutta_cash_karp54<S> a; a.do_step(f, x, 0.0, 0.1, e); a.do_step(f, y, 0.0, z, 0.1, e2);
 std::printf("%.15g %.15g\\n", x[0], z[0]); return std::fabs(x[0]-z[0]) > 1e-12; }
""", needs="the in-place error-returning form with a system that depends on time", breaks="in-place and out-of-place error forms give different steps"),
]
