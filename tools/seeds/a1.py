exec(open('/verif/tools/seeds/a.py').read())
SEEDS=[s for s in SEEDS if s["id"]!="c01-ck54-classic-stage-time"]
SEEDS += [dict(id="c01-generic-err4-weights", property="C01",
 edits=[("stepper/detail/generic_rk_operations.hpp", "scale_sum4< Time >( a[0]*dt , a[1]*dt , a[2]*dt , a[3]*dt )", "scale_sum4< Time >( a[0]*dt , a[2]*dt , a[1]*dt , a[3]*dt )")],
 demo=H+"""#include <boost/fusion/container.hpp>
#include <boost/numeric/odeint/stepper/explicit_error_generic_rk.hpp>
#include <boost/numeric/odeint/algebra/range_algebra.hpp>
using namespace boost::numeric::odeint; typedef boost::array<double,1> S;
typedef explicit_error_generic_rk<4,3,3,2,S> St;
// Bogacki-Shampine 3(2)
int main() { boost::array<double,1> a1={{0.5}}; boost::array<double,2> a2={{0.0,0.75}}; boost::array<double,3> a3={{2./9,1./3,4./9}};
 boost::array<double,4> b={{2./9,1./3,4./9,0}}, b2={{7./24,1./4,1./3,1./8}}, c={{0,0.5,0.75,1.0}};
 St s(St::coef_a_type(a1,a2,a3), b, b2, c); S x, e; auto f=[](const S&x,S&d,double t){d[0]=3*t*t;}; x[0]=0; s.do_step(f,x,0.0,1.0,e);
 double q=0; for(int i=0;i<4;++i) q+=b2[i]*3*c[i]*c[i];
 std::printf("%.15g %.15g\\n", e[0], q); return std::fabs(e[0]-q) > 1e-12; }
""", needs="a user-supplied tableau with four stages and an embedded scheme", breaks="the error estimate of a four-stage embedded scheme uses the weights of stages 2 and 3 exchanged")]
