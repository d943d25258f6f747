From f52f716b010ed6e91f3ec882a6307ce99ee51fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:36 +0000
Subject: [PATCH 01/33] fix: extrapolation_stepper gave a wrong result when
 input and output state are the same object

---
 .../numeric/odeint/stepper/extrapolation_stepper.hpp      | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
index 3b688e9..dc86508 100644
--- a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
+++ b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
@@ -176,12 +176,16 @@ class extrapolation_stepper : public explicit_error_stepper_base
             in, detail::bind( &stepper_type::template resize_impl< StateIn >,
                               detail::ref( *this ), detail::_1 ) );
         size_t k = 0;
-        m_midpoint.set_steps( m_interval_sequence[k] );
-        m_midpoint.do_step( system, in, dxdt, t, out, dt );
+        // in and out may be the same object, so out is written last
         for ( k = 1; k <= m_k_max; ++k )
         {
             m_midpoint.set_steps( m_interval_sequence[k] );
             m_midpoint.do_step( system, in, dxdt, t, m_table[k - 1].m_v, dt );
+        }
+        m_midpoint.set_steps( m_interval_sequence[0] );
+        m_midpoint.do_step( system, in, dxdt, t, out, dt );
+        for ( k = 1; k <= m_k_max; ++k )
+        {
             extrapolate( k, m_table, m_coeff, out );
         }
     }
-- 
2.43.0


From f0bce01564a957a14fcf3c848f4b6b61abba325b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:39 +0000
Subject: [PATCH 02/33] fix: implicit_euler factorized its already factorized
 matrix again in every further Newton iteration

---
 include/boost/numeric/odeint/stepper/implicit_euler.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/implicit_euler.hpp b/include/boost/numeric/odeint/stepper/implicit_euler.hpp
index f301988..d0242eb 100644
--- a/include/boost/numeric/odeint/stepper/implicit_euler.hpp
+++ b/include/boost/numeric/odeint/stepper/implicit_euler.hpp
@@ -112,7 +112,8 @@ public:
             //            m_jacobi *= dt;
             //            m_jacobi -= boost::numeric::ublas::identity_matrix< value_type >( x.size() );
 
-            solve( m_b.m_v , m_jacobi.m_v );
+            // m_jacobi already holds the factorization made by solve
+            boost::numeric::ublas::lu_substitute( m_jacobi.m_v , m_pm.m_v , m_b.m_v );
 
             m_x.m_v -= m_b.m_v;
         }
-- 
2.43.0


From 99f16e48954e12845e91d7fa926f52f9f861e5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:51 +0000
Subject: [PATCH 03/33] fix: sign of the Rosenbrock coefficient d4, which
 reduced non-autonomous systems to first order

---
 include/boost/numeric/odeint/stepper/rosenbrock4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/rosenbrock4.hpp b/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
index 8613698..7f475d0 100644
--- a/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
+++ b/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
@@ -63,7 +63,7 @@ struct default_rosenbrock_coefficients
       d1 ( static_cast< value_type >( 0.25 ) ) ,
       d2 ( static_cast< value_type >( -0.1043 ) ) ,
       d3 ( static_cast< value_type >( 0.1035 ) ) ,
-      d4 ( static_cast< value_type >( 0.3620000000000023e-01 ) ) ,
+      d4 ( static_cast< value_type >( -0.3620000000000023e-01 ) ) ,
       c2 ( static_cast< value_type >( 0.386 ) ) ,
       c3 ( static_cast< value_type >( 0.21 ) ) ,
       c4 ( static_cast< value_type >( 0.63 ) ) ,
-- 
2.43.0


From 38123ada631a941e58876d43a46d1def8ab69800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:52 +0000
Subject: [PATCH 04/33] fix: adams_moulton reports the order of its quadrature
 formula

adams_moulton<Steps> combines the derivative at the new point with Steps-1
old ones, which is exact for polynomials of degree below Steps (Steps=1 is
the backward Euler corrector): its order is Steps, not Steps+1.
---
 include/boost/numeric/odeint/stepper/adams_moulton.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/adams_moulton.hpp b/include/boost/numeric/odeint/stepper/adams_moulton.hpp
index 05b4277..6e20a63 100644
--- a/include/boost/numeric/odeint/stepper/adams_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_moulton.hpp
@@ -83,7 +83,7 @@ public :
     static const size_t steps = Steps;
 
     typedef unsigned short order_type;
-    static const order_type order_value = steps + 1;
+    static const order_type order_value = steps;
 
     typedef detail::rotating_buffer< wrapped_deriv_type , steps > step_storage_type;
 
-- 
2.43.0


From fa4745ba79284515511e321b88afc033e94165fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:43 +0000
Subject: [PATCH 05/33] fix: parenthesise the Thrust and Compute rel_error
 operations as the default one

|x| and a_dxdt*|dxdt| were added inside one absolute value that also was
scaled by a_x, so the error weights differed from default_operations and
from the documentation.
---
 .../numeric/odeint/external/compute/compute_operations.hpp      | 2 +-
 .../boost/numeric/odeint/external/thrust/thrust_operations.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/external/compute/compute_operations.hpp b/include/boost/numeric/odeint/external/compute/compute_operations.hpp
index 58d5f69..d819e7a 100644
--- a/include/boost/numeric/odeint/external/compute/compute_operations.hpp
+++ b/include/boost/numeric/odeint/external/compute/compute_operations.hpp
@@ -185,7 +185,7 @@ BOOST_PP_REPEAT_FROM_TO(2, 8, BOOST_ODEINT_COMPUTE_OPERATIONS, ~)
                             )
                         ),
                     get<0>(_1) = abs( get<0>(_1) ) /
-                        (m_eps_abs + m_eps_rel * (m_a_x * abs(get<1>(_1) + m_a_dxdt * abs(get<2>(_1)))))
+                        (m_eps_abs + m_eps_rel * (m_a_x * abs(get<1>(_1)) + m_a_dxdt * abs(get<2>(_1))))
                     );
         }
     };
diff --git a/include/boost/numeric/odeint/external/thrust/thrust_operations.hpp b/include/boost/numeric/odeint/external/thrust/thrust_operations.hpp
index ce2d372..d1046d1 100644
--- a/include/boost/numeric/odeint/external/thrust/thrust_operations.hpp
+++ b/include/boost/numeric/odeint/external/thrust/thrust_operations.hpp
@@ -216,7 +216,7 @@ struct thrust_operations
         {
             using std::abs;
             thrust::get< 0 >( t ) = abs( thrust::get< 0 >( t ) ) /
-                    ( m_eps_abs + m_eps_rel * ( m_a_x * abs( thrust::get< 1 >( t ) + m_a_dxdt * abs( thrust::get< 2 >( t ) ) ) ) );
+                    ( m_eps_abs + m_eps_rel * ( m_a_x * abs( thrust::get< 1 >( t ) ) + m_a_dxdt * abs( thrust::get< 2 >( t ) ) ) );
         }
 
         typedef void result_type;
-- 
2.43.0


From 851cdeca790c3c59ed3c8d35617a784e16ea5b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:56 +0000
Subject: [PATCH 06/33] fix: include the Thrust headers of
 thrust_operations.hpp outside of namespace odeint

As the first Thrust header included, they declared everything in
boost::numeric::odeint::thrust and broke every later use of Thrust.
---
 .../numeric/odeint/external/thrust/thrust_operations.hpp    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/numeric/odeint/external/thrust/thrust_operations.hpp b/include/boost/numeric/odeint/external/thrust/thrust_operations.hpp
index d1046d1..190b038 100644
--- a/include/boost/numeric/odeint/external/thrust/thrust_operations.hpp
+++ b/include/boost/numeric/odeint/external/thrust/thrust_operations.hpp
@@ -18,13 +18,13 @@
 #ifndef BOOST_NUMERIC_ODEINT_EXTERNAL_THRUST_THRUST_OPERATIONS_HPP_INCLUDED
 #define BOOST_NUMERIC_ODEINT_EXTERNAL_THRUST_THRUST_OPERATIONS_HPP_INCLUDED
 
+#include <thrust/tuple.h>
+#include <thrust/iterator/zip_iterator.h>
+
 namespace boost {
 namespace numeric {
 namespace odeint {
 
-#include <thrust/tuple.h>
-#include <thrust/iterator/zip_iterator.h>
-
 /**ToDo extend to scale_sum13 for rk78 */
 
 struct thrust_operations
-- 
2.43.0


From c77889d7df8e13fdf7c4711870727dfffec020eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:57 +0000
Subject: [PATCH 07/33] fix: let the Thrust scale_sum_swap2 keep the old value

tuple_element is a reference type for zipped iterators, so the temporary
was an alias of the element that is overwritten and the swap was lost.
---
 .../external/thrust/thrust_operations.hpp     | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/boost/numeric/odeint/external/thrust/thrust_operations.hpp b/include/boost/numeric/odeint/external/thrust/thrust_operations.hpp
index 190b038..682bf3c 100644
--- a/include/boost/numeric/odeint/external/thrust/thrust_operations.hpp
+++ b/include/boost/numeric/odeint/external/thrust/thrust_operations.hpp
@@ -19,6 +19,7 @@
 #define BOOST_NUMERIC_ODEINT_EXTERNAL_THRUST_THRUST_OPERATIONS_HPP_INCLUDED
 
 #include <thrust/tuple.h>
+#include <thrust/memory.h>
 #include <thrust/iterator/zip_iterator.h>
 
 namespace boost {
@@ -59,9 +60,21 @@ struct thrust_operations
         __host__ __device__
         void operator()( Tuple t ) const
         {
-            typename thrust::tuple_element<0,Tuple>::type tmp = thrust::get<0>(t);
-            thrust::get<0>(t) = m_alpha1 * thrust::get<1>(t) + m_alpha2 * thrust::get<2>(t);
-            thrust::get<1>(t) = tmp;
+            // the elements of the tuple are references, so the type of the temporary has to be deduced
+            swap_sum( thrust::raw_reference_cast( thrust::get<0>(t) ) ,
+                      thrust::raw_reference_cast( thrust::get<1>(t) ) ,
+                      thrust::raw_reference_cast( thrust::get<2>(t) ) );
+        }
+
+    private:
+
+        template< class T0 , class T1 , class T2 >
+        __host__ __device__
+        void swap_sum( T0 &t0 , T1 &t1 , const T2 &t2 ) const
+        {
+            const T0 tmp( t0 );
+            t0 = m_alpha1 * t1 + m_alpha2 * t2;
+            t1 = tmp;
         }
     };
 
-- 
2.43.0


From 325fbc1f6c1795f30018c6753ace62439bf232e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:38 +0000
Subject: [PATCH 08/33] fix: compare step sizes with regard to their sign in
 bulirsch_stoer_dense_out

After a rejected step new_h < dt kept the longer step when integrating
backward, so that the step was repeated with the same size until
step_adjustment_error was thrown.
---
 .../boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
index 22eb373..eb5e029 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
@@ -291,7 +291,7 @@ public:
             }
         }
         //set next stepsize
-        if( !m_last_step_rejected || (new_h < dt) )
+        if( !m_last_step_rejected || boost::numeric::odeint::detail::less_with_sign(new_h, dt, dt) )
         {
             // limit step size
             if( m_max_dt != static_cast<time_type>(0) )
-- 
2.43.0


From 0d4f97514182137a24b53993b9d485741e8edbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:43 +0000
Subject: [PATCH 09/33] fix: apply the maximal step of the Adams step adjuster
 to backward steps too

ratio*dt >= m_dtmax ignores the sign of dt: a negative maximal step size
accepted every step whatever its error, a positive one set no limit.
---
 .../boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp b/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
index 7c0f258..1451f8e 100644
--- a/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
+++ b/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
@@ -157,9 +157,9 @@ public:
         value_type kappa = 1.0;
         ratio = 1.0 + kappa*atan((ratio - 1) / kappa);
 
-        if(ratio*dt >= m_dtmax)
+        if(abs(ratio*dt) >= abs(m_dtmax))
         {
-            ratio = m_dtmax / dt;
+            ratio = abs(m_dtmax / dt);
         }
 
         if(ratio >= threshold())
-- 
2.43.0


From 3c8141a05cc8dced5998e4f8ea15b139bfe47444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:03 +0000
Subject: [PATCH 10/33] fix: integrate_const with dense output reaches the last
 observation point before interpolating it

---
 .../odeint/integrate/detail/integrate_const.hpp        | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
index 7a86b32..41589bf 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
@@ -154,6 +154,16 @@ size_t integrate_const(
     // might happen due to finite precision problems when computing the the time
     if( less_eq_with_sign( time , end_time , dt ) )
     {
+        // make sure the last observation point is reached
+        while( less_with_sign( st.current_time() , time , dt ) )
+        {
+            if( less_with_sign( end_time ,
+                                static_cast<Time>(st.current_time()+st.current_time_step()) ,
+                                st.current_time_step() ) )
+                st.initialize( st.current_state() , st.current_time() , static_cast<Time>(end_time - st.current_time()) );
+            st.do_step( system );
+            ++real_step;
+        }
         st.calc_state( time , start_state );
         obs( start_state , time );
     }
-- 
2.43.0


From 8e6e9e5727dbf74dc3d362cd8989d69dfac7a561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:46 +0000
Subject: [PATCH 11/33] fix: integrate_n_steps with dense output makes the
 remaining steps in both directions

The last loop compared the times with <, so a backward integration could
leave it before the end and observe an earlier state at the end time.
---
 .../boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
index 2ef490d..49c257a 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
@@ -137,7 +137,7 @@ Time integrate_n_steps(
     }
 
     // make sure we really end exactly where we should end
-    while( st.current_time() < end_time )
+    while( less_with_sign( st.current_time() , end_time , st.current_time_step() ) )
     {
         if( less_with_sign( end_time ,
                             static_cast<Time>(st.current_time()+st.current_time_step()) ,
-- 
2.43.0


From 0e02b582e430e4440f8b22fe1f84fdafbee12780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:33 +0000
Subject: [PATCH 12/33] fix: integrate_times does nothing for an empty range of
 times

The versions for plain and controlled steppers dereferenced the first
time point before comparing it with the end of the range.
---
 .../numeric/odeint/integrate/detail/integrate_times.hpp     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
index 2e27990..bdef9c1 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
@@ -53,6 +53,9 @@ size_t integrate_times(
     observer_type &obs = observer;
     typedef typename unit_value_type<Time>::type time_type;
 
+    if( start_time == end_time )
+        return 0;
+
     size_t steps = 0;
     Time current_dt = dt;
     while( true )
@@ -86,6 +89,9 @@ size_t integrate_times(
     typename odeint::unwrap_reference< Stepper >::type &st = stepper;
     typedef typename unit_value_type<Time>::type time_type;
 
+    if( start_time == end_time )
+        return 0;
+
     failed_step_checker fail_checker;  // to throw a runtime_error if step size adjustment fails
     size_t steps = 0;
     while( true )
-- 
2.43.0


From ade8d1eb8be340c7c84e46b01a872a52eb3292d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:49 +0000
Subject: [PATCH 13/33] fix: initialize_controlled gives up after too many
 failures and uses the steps made

controlled_adams_bashforth_moulton::initialize_controlled repeated a failing
step for ever, and took the size proposed for the next step as that of the
step just made, so that the node times were wrong.
---
 .../stepper/controlled_adams_bashforth_moulton.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index 85ee4d0..1f17329 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -18,6 +18,8 @@
 #include <boost/numeric/odeint/stepper/stepper_categories.hpp>
 #include <boost/numeric/odeint/stepper/controlled_step_result.hpp>
 
+#include <boost/numeric/odeint/integrate/max_step_checker.hpp>
+
 #include <boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp>
 #include <boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp>
 
@@ -180,19 +182,21 @@ public:
 
         m_dxdt_resizer.adjust_size( inOut , detail::bind( &controlled_stepper_type::template resize_dxdt_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
 
-        controlled_step_result res = fail;
+        failed_step_checker fail_checker;  // to throw a runtime_error if step size adjustment fails
 
         for( size_t i=0 ; i<order_value; ++i )
         {
-            do
+            // a successful step replaces dt by the size proposed for the next one
+            const time_type t_prev = t;
+            while( stepper.try_step( system, inOut, t, dt ) != success )
             {
-                res = stepper.try_step( system, inOut, t, dt );
+                fail_checker();  // check for overflow of failed steps
             }
-            while(res != success);
+            fail_checker.reset();
 
             system( inOut , m_dxdt.m_v , t );
             
-            coeff.predict(t-dt, dt);
+            coeff.predict(t_prev, t-t_prev);
             coeff.do_step(m_dxdt.m_v);
             coeff.confirm();
 
-- 
2.43.0


From 868cf96f8a534c5cd53a58c6bb13730fa5e53574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:21 +0000
Subject: [PATCH 14/33] fix: adaptive Adams steppers accept a system wrapped in
 boost::ref

They called the wrapper itself, which is not callable for boost::ref.
---
 .../stepper/adaptive_adams_bashforth_moulton.hpp    | 13 ++++++++-----
 .../stepper/controlled_adams_bashforth_moulton.hpp  |  6 ++++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
index 0d3d0c1..b2366fc 100644
--- a/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
@@ -110,9 +110,10 @@ public:
     template< class System >
     void do_step(System system, const state_type &in, time_type t, state_type &out, time_type dt , state_type &xerr)
     {
+        typename odeint::unwrap_reference< System >::type &sys = system;
         do_step_impl(system, in, t, out, dt, xerr);
         
-        system(out, m_dxdt.m_v, t+dt);
+        sys(out, m_dxdt.m_v, t+dt);
         m_coeff.do_step(m_dxdt.m_v);
         m_coeff.confirm();
 
@@ -125,17 +126,18 @@ public:
     template< class ExplicitStepper, class System >
     void initialize(ExplicitStepper stepper, System system, state_type &inOut, time_type &t, time_type dt)
     {
+        typename odeint::unwrap_reference< System >::type &sys = system;
         reset();
         dt = dt/static_cast< time_type >(order_value);
 
         m_dxdt_resizer.adjust_size( inOut , detail::bind( &stepper_type::template resize_dxdt_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
 
-        system( inOut , m_dxdt.m_v , t );
+        sys( inOut , m_dxdt.m_v , t );
         for( size_t i=0 ; i<order_value; ++i )
         {
             stepper.do_step_dxdt_impl( system, inOut, m_dxdt.m_v, t, dt );
             
-            system( inOut , m_dxdt.m_v , t + dt);
+            sys( inOut , m_dxdt.m_v , t + dt);
             
             m_coeff.predict(t, dt);
             m_coeff.do_step(m_dxdt.m_v);
@@ -166,6 +168,7 @@ public:
     template< class System >
     void do_step_impl(System system, const state_type & in, time_type t, state_type & out, time_type &dt, state_type &xerr)
     {
+        typename odeint::unwrap_reference< System >::type &sys = system;
         size_t eO = m_coeff.m_eo;
 
         m_xerr_resizer.adjust_size( in , detail::bind( &stepper_type::template resize_xerr_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
@@ -174,7 +177,7 @@ public:
         m_coeff.predict(t, dt);
         if (m_coeff.m_steps_init == 1)
         {
-            system(in, m_dxdt.m_v, t);
+            sys(in, m_dxdt.m_v, t);
             m_coeff.do_step(m_dxdt.m_v, 1);
         }
 
@@ -185,7 +188,7 @@ public:
                 typename Operations::template scale_sum2<double, double>(1.0, dt*m_coeff.g[i]*m_coeff.beta[0][i]));
         }
 
-        system(out, m_dxdt.m_v, t+dt);
+        sys(out, m_dxdt.m_v, t+dt);
         m_coeff.do_step(m_dxdt.m_v);
 
         this->m_algebra.for_each3(out, out, m_coeff.phi[0][eO].m_v,
diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index 1f17329..9d93e8f 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -177,6 +177,7 @@ public:
     template< class ExplicitStepper, class System >
     void initialize_controlled(ExplicitStepper stepper, System system, state_type &inOut, time_type &t, time_type &dt)
     {
+        typename odeint::unwrap_reference< System >::type &sys = system;
         reset();
         coeff_type &coeff = m_stepper.coeff();
 
@@ -194,7 +195,7 @@ public:
             }
             fail_checker.reset();
 
-            system( inOut , m_dxdt.m_v , t );
+            sys( inOut , m_dxdt.m_v , t );
             
             coeff.predict(t_prev, t-t_prev);
             coeff.do_step(m_dxdt.m_v);
@@ -225,6 +226,7 @@ public:
     template< class System >
     controlled_step_result try_step(System system, const state_type & in, time_type &t, state_type & out, time_type &dt)
     {
+        typename odeint::unwrap_reference< System >::type &sys = system;
         m_xerr_resizer.adjust_size( in , detail::bind( &controlled_stepper_type::template resize_xerr_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
         m_dxdt_resizer.adjust_size( in , detail::bind( &controlled_stepper_type::template resize_dxdt_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
 
@@ -237,7 +239,7 @@ public:
 
         if(dt / dtPrev >= step_adjuster_type::threshold())
         {
-            system(out, m_dxdt.m_v, t+dtPrev);
+            sys(out, m_dxdt.m_v, t+dtPrev);
 
             coeff.do_step(m_dxdt.m_v);
             coeff.confirm();
-- 
2.43.0


From 088286ceaa03f3591a861d7a32d6eb11914ff181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:05 +0000
Subject: [PATCH 15/33] fix: times_iterator constructed from an empty range of
 times does not dereference it

---
 .../numeric/odeint/iterator/impl/times_iterator_impl.hpp  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp b/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
index 7a2b48d..df3ef6a 100644
--- a/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
+++ b/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
@@ -83,7 +83,7 @@ namespace odeint {
          */
         times_iterator_impl( stepper_type stepper , system_type sys , state_type &s ,
                              time_iterator_type t_start , time_iterator_type t_end , time_type dt )
-            : base_type( stepper , sys , *t_start , dt ) ,
+            : base_type( stepper , sys , t_start != t_end ? static_cast<time_type>(*t_start) : time_type() , dt ) ,
               m_t_start( t_start ) , m_t_end( t_end ) , m_state( &s )
         {
             if( t_start == t_end )
@@ -181,7 +181,7 @@ namespace odeint {
          */
         times_iterator_impl( stepper_type stepper , system_type sys , state_type &s ,
                              time_iterator_type t_start , time_iterator_type t_end , time_type dt )
-            : base_type( stepper , sys , *t_start , dt ) ,
+            : base_type( stepper , sys , t_start != t_end ? static_cast<time_type>(*t_start) : time_type() , dt ) ,
               m_t_start( t_start ) , m_t_end( t_end ) , m_state( &s )
         {
             if( t_start == t_end )
@@ -301,8 +301,8 @@ namespace odeint {
          */
         times_iterator_impl( stepper_type stepper , system_type sys , state_type &s ,
                              time_iterator_type t_start , time_iterator_type t_end , time_type dt )
-            : base_type( stepper , sys , *t_start , dt ) ,
-              m_t_start( t_start ) , m_t_end( t_end ) , m_final_time( *(t_end-1) ) ,
+            : base_type( stepper , sys , t_start != t_end ? static_cast<time_type>(*t_start) : time_type() , dt ) ,
+              m_t_start( t_start ) , m_t_end( t_end ) , m_final_time( t_start != t_end ? static_cast<time_type>(*(t_end-1)) : time_type() ) ,
               m_state( &s )
         {
             if( t_start != t_end )
-- 
2.43.0


From 7a6ed265c5fb056f94c3e81fb4783c022f7277b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:52 +0000
Subject: [PATCH 16/33] fix: Bulirsch-Stoer steppers select order and step size
 backward in time as they do forward

---
 include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp        | 3 ++-
 .../boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp
index 02c3749..47f1ffa 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp
@@ -234,7 +234,8 @@ public:
                                      typename operations_type::template scale_sum2< value_type , value_type >( val1 , -val1 ) );
                 const value_type error = m_error_checker.error( m_algebra , in , dxdt , m_err.m_v , dt );
                 h_opt[k] = calc_h_opt( dt , error , k );
-                work[k] = static_cast<value_type>( m_cost[k] ) / h_opt[k];
+                // work per unit step, for either direction of integration
+                work[k] = static_cast<value_type>( m_cost[k] ) / ( get_unit_value( dt ) < 0 ? -h_opt[k] : h_opt[k] );
 
                 if( (k == m_current_k_opt-1) || m_first )
                 { // convergence before k_opt ?
diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
index eb5e029..e665cce 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
@@ -198,7 +198,8 @@ public:
                                      typename operations_type::template scale_sum2< value_type , value_type >( val1 , -val1 ) );
                 const value_type error = m_error_checker.error( m_algebra , in , dxdt , m_err.m_v , dt );
                 h_opt[k] = calc_h_opt( dt , error , k );
-                work[k] = static_cast<value_type>( m_cost[k] ) / h_opt[k];
+                // work per unit step, for either direction of integration
+                work[k] = static_cast<value_type>( m_cost[k] ) / ( get_unit_value( dt ) < 0 ? -h_opt[k] : h_opt[k] );
 
                 m_k_final = k;
 
-- 
2.43.0


From fea676c88ea5a24e0669bc1454a4fea9fa144353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:52 +0000
Subject: [PATCH 17/33] fix: functions defined in gsl_wrapper.hpp are inline

---
 include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp b/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
index a856f6e..092a39b 100644
--- a/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
+++ b/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
@@ -91,17 +91,17 @@ private :
 };
 
 
-bool gsl_vector_iterator::equal( const const_gsl_vector_iterator &other ) const { return this->m_p == other.m_p; }
+inline bool gsl_vector_iterator::equal( const const_gsl_vector_iterator &other ) const { return this->m_p == other.m_p; }
 
 
-gsl_vector_iterator end_iterator( gsl_vector *x )
+inline gsl_vector_iterator end_iterator( gsl_vector *x )
 {
     gsl_vector_iterator iter( x );
     iter.m_p += iter.m_stride * x->size;
     return iter;
 }
 
-const_gsl_vector_iterator end_iterator( const gsl_vector *x )
+inline const_gsl_vector_iterator end_iterator( const gsl_vector *x )
 {
     const_gsl_vector_iterator iter( x );
     iter.m_p += iter.m_stride * x->size;
-- 
2.43.0


From fa105942c886aea56f6b0b0b58de4725a24731a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:52 +0000
Subject: [PATCH 18/33] fix: headers include what they use

---
 .../odeint/external/eigen/eigen_algebra_dispatcher.hpp     | 7 +++++++
 .../numeric/odeint/external/mpi/mpi_nested_algebra.hpp     | 1 +
 .../boost/numeric/odeint/external/openmp/openmp_state.hpp  | 4 ++++
 include/boost/numeric/odeint/integrate/check_adapter.hpp   | 2 ++
 .../numeric/odeint/stepper/dense_output_runge_kutta.hpp    | 1 +
 .../odeint/stepper/generation/generation_rosenbrock4.hpp   | 2 ++
 .../odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp    | 2 ++
 7 files changed, 19 insertions(+)

diff --git a/include/boost/numeric/odeint/external/eigen/eigen_algebra_dispatcher.hpp b/include/boost/numeric/odeint/external/eigen/eigen_algebra_dispatcher.hpp
index 6c8a3a2..7d04126 100644
--- a/include/boost/numeric/odeint/external/eigen/eigen_algebra_dispatcher.hpp
+++ b/include/boost/numeric/odeint/external/eigen/eigen_algebra_dispatcher.hpp
@@ -18,6 +18,13 @@
 #ifndef BOOST_NUMERIC_ODEINT_EXTERNAL_EIGEN_EIGEN_ALGEBRA_DISPATCHER_HPP_INCLUDED
 #define BOOST_NUMERIC_ODEINT_EXTERNAL_EIGEN_EIGEN_ALGEBRA_DISPATCHER_HPP_INCLUDED
 
+#include <Eigen/Dense>
+
+#include <boost/utility/enable_if.hpp>
+#include <boost/type_traits/is_base_of.hpp>
+
+#include <boost/numeric/odeint/algebra/vector_space_algebra.hpp>
+#include <boost/numeric/odeint/algebra/algebra_dispatcher.hpp>
 
 namespace boost {
 namespace numeric {
diff --git a/include/boost/numeric/odeint/external/mpi/mpi_nested_algebra.hpp b/include/boost/numeric/odeint/external/mpi/mpi_nested_algebra.hpp
index 5d90225..76a8dba 100644
--- a/include/boost/numeric/odeint/external/mpi/mpi_nested_algebra.hpp
+++ b/include/boost/numeric/odeint/external/mpi/mpi_nested_algebra.hpp
@@ -19,6 +19,7 @@
 #ifndef BOOST_NUMERIC_ODEINT_EXTERNAL_MPI_MPI_NESTED_ALGEBRA_HPP_INCLUDED
 #define BOOST_NUMERIC_ODEINT_EXTERNAL_MPI_MPI_NESTED_ALGEBRA_HPP_INCLUDED
 
+#include <boost/mpi.hpp>
 #include <boost/numeric/odeint/algebra/norm_result_type.hpp>
 #include <boost/numeric/odeint/util/n_ary_helper.hpp>
 
diff --git a/include/boost/numeric/odeint/external/openmp/openmp_state.hpp b/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
index 83bbc19..20e453f 100644
--- a/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
+++ b/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
@@ -26,6 +26,10 @@
 #include <boost/numeric/odeint/util/copy.hpp>
 #include <boost/numeric/odeint/util/split.hpp>
 #include <boost/numeric/odeint/util/resize.hpp>
+#include <boost/numeric/odeint/util/same_size.hpp>
+#include <boost/numeric/odeint/util/state_wrapper.hpp>
+#include <boost/numeric/odeint/util/is_resizeable.hpp>
+#include <boost/numeric/odeint/algebra/algebra_dispatcher.hpp>
 #include <boost/numeric/odeint/external/openmp/openmp_nested_algebra.hpp>
 
 namespace boost {
diff --git a/include/boost/numeric/odeint/integrate/check_adapter.hpp b/include/boost/numeric/odeint/integrate/check_adapter.hpp
index 3d3ebd6..959bf74 100644
--- a/include/boost/numeric/odeint/integrate/check_adapter.hpp
+++ b/include/boost/numeric/odeint/integrate/check_adapter.hpp
@@ -16,6 +16,8 @@
 #ifndef BOOST_NUMERIC_ODEINT_INTEGRATE_CHECK_ADAPTER_HPP_INCLUDED
 #define BOOST_NUMERIC_ODEINT_INTEGRATE_CHECK_ADAPTER_HPP_INCLUDED
 
+#include <utility>
+
 #include <boost/numeric/odeint/stepper/stepper_categories.hpp>
 #include <boost/numeric/odeint/stepper/controlled_step_result.hpp>
 
diff --git a/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
index 83982dc..87b4cb3 100644
--- a/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
@@ -27,6 +27,7 @@
 #include <boost/throw_exception.hpp>
 
 #include <boost/numeric/odeint/util/bind.hpp>
+#include <boost/numeric/odeint/util/unwrap_reference.hpp>
 
 #include <boost/numeric/odeint/util/copy.hpp>
 
diff --git a/include/boost/numeric/odeint/stepper/generation/generation_rosenbrock4.hpp b/include/boost/numeric/odeint/stepper/generation/generation_rosenbrock4.hpp
index 366cb5e..98b9266 100644
--- a/include/boost/numeric/odeint/stepper/generation/generation_rosenbrock4.hpp
+++ b/include/boost/numeric/odeint/stepper/generation/generation_rosenbrock4.hpp
@@ -21,6 +21,8 @@
 #include <boost/numeric/odeint/stepper/rosenbrock4.hpp>
 #include <boost/numeric/odeint/stepper/rosenbrock4_controller.hpp>
 #include <boost/numeric/odeint/stepper/rosenbrock4_dense_output.hpp>
+#include <boost/numeric/odeint/stepper/generation/make_controlled.hpp>
+#include <boost/numeric/odeint/stepper/generation/make_dense_output.hpp>
 
 
 namespace boost {
diff --git a/include/boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp b/include/boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp
index b33773e..88e8667 100644
--- a/include/boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp
+++ b/include/boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp
@@ -18,6 +18,8 @@
 #ifndef BOOST_NUMERIC_ODEINT_STEPPER_SYMPLECTIC_RKN_SB3A_M4_MCLACHLAN_HPP_DEFINED
 #define BOOST_NUMERIC_ODEINT_STEPPER_SYMPLECTIC_RKN_SB3A_M4_MCLACHLAN_HPP_DEFINED
 
+#include <boost/numeric/odeint/stepper/base/symplectic_rkn_stepper_base.hpp>
+
 #include <boost/numeric/odeint/algebra/default_operations.hpp>
 #include <boost/numeric/odeint/algebra/algebra_dispatcher.hpp>
 #include <boost/numeric/odeint/algebra/operations_dispatcher.hpp>
-- 
2.43.0


From 6bb5791b04f2c801bb346be2d8abcfeaaee5c4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:50 +0000
Subject: [PATCH 19/33] fix: FSAL steppers and velocity_verlet never step with
 a derivative that is not that of the given state

---
 .../base/explicit_error_stepper_fsal_base.hpp |  5 ++++-
 .../odeint/stepper/controlled_runge_kutta.hpp | 20 ++++++++++++++++---
 .../odeint/stepper/velocity_verlet.hpp        |  3 +++
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
index b1d751a..f871219 100644
--- a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
+++ b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
@@ -275,7 +275,8 @@ public:
     template< class StateIn >
     void adjust_size( const StateIn &x )
     {
-        resize_impl( x );
+        if( resize_impl( x ) )
+            m_first_call = true;
     }
 
     void reset( void )
@@ -286,6 +287,7 @@ public:
     template< class DerivIn >
     void initialize( const DerivIn &deriv )
     {
+        m_resizer.adjust_size( deriv , detail::bind( &internal_stepper_base_type::template resize_impl< DerivIn > , detail::ref( *this ) , detail::_1 ) );
         boost::numeric::odeint::copy( deriv , m_dxdt.m_v );
         m_first_call = false;
     }
@@ -293,6 +295,7 @@ public:
     template< class System , class StateIn >
     void initialize( System system , const StateIn &x , time_type t )
     {
+        m_resizer.adjust_size( x , detail::bind( &internal_stepper_base_type::template resize_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
         typename odeint::unwrap_reference< System >::type &sys = system;
         sys( x , m_dxdt.m_v , t );
         m_first_call = false;
diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index be00827..d1a3e80 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -682,7 +682,14 @@ public:
         {
             initialize( system , in , t );
         }
-        return try_step( system , in , m_dxdt.m_v , t , out , dt );
+        m_dxdt_new_resizer.adjust_size( in , detail::bind( &controlled_runge_kutta::template resize_m_dxdt_new_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
+        controlled_step_result res = try_step( system , in , m_dxdt.m_v , t , out , m_dxdtnew.m_v , dt );
+        if( res == success )
+        {
+            boost::numeric::odeint::copy( m_dxdtnew.m_v , m_dxdt.m_v );
+        }
+        m_first_call = false; // m_dxdt is the derivative of the current state
+        return res;
     }
 
 
@@ -753,6 +760,7 @@ public:
     controlled_step_result try_step( System system , const StateIn &in , const DerivIn &dxdt_in , time_type &t ,
             StateOut &out , DerivOut &dxdt_out , time_type &dt )
     {
+        m_first_call = true; // the derivative is kept by the caller
         unwrapped_step_adjuster &step_adjuster = m_step_adjuster;
         if( !step_adjuster.check_step_size_limit(dt) )
         {
@@ -799,6 +807,7 @@ public:
     template< class DerivIn >
     void initialize( const DerivIn &deriv )
     {
+        m_dxdt_resizer.adjust_size( deriv , detail::bind( &controlled_runge_kutta::template resize_m_dxdt_impl< DerivIn > , detail::ref( *this ) , detail::_1 ) );
         boost::numeric::odeint::copy( deriv , m_dxdt.m_v );
         m_first_call = false;
     }
@@ -814,6 +823,7 @@ public:
     template< class System , class StateIn >
     void initialize( System system , const StateIn &x , time_type t )
     {
+        m_dxdt_resizer.adjust_size( x , detail::bind( &controlled_runge_kutta::template resize_m_dxdt_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
         typename odeint::unwrap_reference< System >::type &sys = system;
         sys( x , m_dxdt.m_v , t );
         m_first_call = false;
@@ -838,9 +848,11 @@ public:
     void adjust_size( const StateType &x )
     {
         resize_m_xerr_impl( x );
-        resize_m_dxdt_impl( x );
+        if( resize_m_dxdt_impl( x ) )
+            m_first_call = true;
         resize_m_dxdt_new_impl( x );
         resize_m_xnew_impl( x );
+        m_stepper.adjust_size( x );
     }
 
 
@@ -899,7 +911,9 @@ private:
         {
             initialize( system , x , t );
         }
-        return try_step( system , x , m_dxdt.m_v , t , dt );
+        controlled_step_result res = try_step( system , x , m_dxdt.m_v , t , dt );
+        m_first_call = false; // m_dxdt is the derivative of the current state
+        return res;
     }
 
 
diff --git a/include/boost/numeric/odeint/stepper/velocity_verlet.hpp b/include/boost/numeric/odeint/stepper/velocity_verlet.hpp
index 3a20fc2..d284397 100644
--- a/include/boost/numeric/odeint/stepper/velocity_verlet.hpp
+++ b/include/boost/numeric/odeint/stepper/velocity_verlet.hpp
@@ -109,6 +109,8 @@ public:
     void do_step( System system , CoorIn const & qin , VelocityIn const & pin , AccelerationIn const & ain ,
                   CoorOut & qout , VelocityOut & pout , AccelerationOut & aout , time_type t , time_type dt )
     {
+        m_first_call = true; // the acceleration is kept by the caller
+
         const value_type one = static_cast< value_type >( 1.0 );
         const value_type one_half = static_cast< value_type >( 0.5 );
 
@@ -206,6 +208,7 @@ private:
         // check first
         do_step( system , qinout , pinout , get_current_acc() , qinout , pinout , get_old_acc() , t , dt );
         toggle_current_acc();
+        m_first_call = false; // the current acceleration is that of the new state
     }
 
     template< class StateIn >
-- 
2.43.0


From 5938d21e9c974fb4759f0638f2e5a248a679d985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:51 +0000
Subject: [PATCH 20/33] fix: adjust_size sizes every temporary of
 extrapolation_stepper and rosenbrock4_controller

---
 include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp  | 2 ++
 include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
index dc86508..143ddd6 100644
--- a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
+++ b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
@@ -222,7 +222,9 @@ class extrapolation_stepper : public explicit_error_stepper_base
     template < class StateIn > void adjust_size( const StateIn &x )
     {
         resize_impl( x );
+        resize_m_xout( x );
         m_midpoint.adjust_size( x );
+        stepper_base_type::adjust_size( x );
     }
 
   private:
diff --git a/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp b/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp
index 5ad1600..d4adcfd 100644
--- a/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp
+++ b/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp
@@ -181,6 +181,7 @@ public:
     template< class StateType >
     void adjust_size( const StateType &x )
     {
+        m_stepper.adjust_size( x );
         resize_m_xerr( x );
         resize_m_xnew( x );
     }
-- 
2.43.0


From 520b5016ad8474a5ae12eba59c5c6c0caca110f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:51 +0000
Subject: [PATCH 21/33] fix: dense_output_runge_kutta::adjust_size compiles

---
 .../boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
index 87b4cb3..7c2c8f5 100644
--- a/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
@@ -170,7 +170,7 @@ public:
     void adjust_size( const StateType &x )
     {
         resize_impl( x );
-        m_stepper.stepper().resize( x );
+        m_stepper.adjust_size( x );
     }
 
     /**
@@ -380,7 +380,7 @@ public:
     void adjust_size( const StateType &x )
     {
         resize( x );
-        m_stepper.stepper().resize( x );
+        m_stepper.adjust_size( x );
     }
 
     const state_type& current_state( void ) const
-- 
2.43.0


From a651295375ded050e9c740b53e298c5a1998699e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:14 +0000
Subject: [PATCH 22/33] fix: adams_bashforth::adjust_size sizes the
 initialising stepper

---
 include/boost/numeric/odeint/stepper/adams_bashforth.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/numeric/odeint/stepper/adams_bashforth.hpp b/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
index 5ff1e83..ba60657 100644
--- a/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
@@ -177,6 +177,7 @@ public :
     void adjust_size( const StateType &x )
     {
         resize_impl( x );
+        m_initializing_stepper.adjust_size( x );
     }
 
     const step_storage_type& step_storage( void ) const
-- 
2.43.0


From 2530c4d18af9ba3bb54694332597d0176cffce7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:14 +0000
Subject: [PATCH 23/33] fix: adaptive Adams-Bashforth-Moulton steppers follow a
 change of the state's size

---
 .../adaptive_adams_bashforth_moulton.hpp        |  7 +++++--
 .../controlled_adams_bashforth_moulton.hpp      |  2 +-
 .../odeint/stepper/detail/pid_step_adjuster.hpp | 17 +++++++++++++++++
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
index b2366fc..de797d2 100644
--- a/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
@@ -169,10 +169,13 @@ public:
     void do_step_impl(System system, const state_type & in, time_type t, state_type & out, time_type &dt, state_type &xerr)
     {
         typename odeint::unwrap_reference< System >::type &sys = system;
-        size_t eO = m_coeff.m_eo;
 
         m_xerr_resizer.adjust_size( in , detail::bind( &stepper_type::template resize_xerr_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
-        m_dxdt_resizer.adjust_size( in , detail::bind( &stepper_type::template resize_dxdt_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
+        if( m_dxdt_resizer.adjust_size( in , detail::bind( &stepper_type::template resize_dxdt_impl< state_type > , detail::ref( *this ) , detail::_1 ) ) )
+        {
+            reset();  // the history belongs to a state of another size
+        }
+        size_t eO = m_coeff.m_eo;
 
         m_coeff.predict(t, dt);
         if (m_coeff.m_steps_init == 1)
diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index 9d93e8f..ed441cb 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -127,7 +127,7 @@ class OrderAdjuster = default_order_adjuster< ErrorStepper::order_value,
     typename ErrorStepper::value_type,
     typename ErrorStepper::algebra_type
     >,
-class Resizer = initially_resizer
+class Resizer = typename ErrorStepper::resizer_type
 >
 class controlled_adams_bashforth_moulton
 {
diff --git a/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp b/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
index 1451f8e..dfbc587 100644
--- a/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
+++ b/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
@@ -21,6 +21,9 @@
 #include <boost/numeric/odeint/algebra/algebra_dispatcher.hpp>
 #include <boost/numeric/odeint/algebra/operations_dispatcher.hpp>
 
+#include <boost/numeric/odeint/util/is_resizeable.hpp>
+#include <boost/numeric/odeint/util/same_size.hpp>
+
 #include <math.h>
 
 namespace boost {
@@ -134,6 +137,11 @@ public:
     time_type adjust_stepsize(const size_t steps, time_type dt, state_type &err, const state_type &x, const deriv_type &dxdt)
     {
         using std::abs;
+        if(m_init > 0 && differ_in_size( m_error_storage[1] , err , typename is_resizeable< state_type >::type() ))
+        {
+            m_init = 0;  // the stored errors belong to a state of another size
+        }
+
         m_algebra.for_each3( err , x , dxdt ,
                 typename operations_type::template rel_error< value_type >( m_abs_tol , m_rel_tol , 1.0 , 1.0 * abs(get_unit_value( dt )) ) );
 
@@ -178,6 +186,15 @@ public:
     };
 
 private:
+    static bool differ_in_size( const state_type &x1 , const state_type &x2 , boost::true_type )
+    {
+        return !same_size( x1 , x2 );
+    };
+    static bool differ_in_size( const state_type & /* x1 */ , const state_type & /* x2 */ , boost::false_type )
+    {
+        return false;
+    };
+
     algebra_type m_algebra;
 
     time_type m_dtmax;
-- 
2.43.0


From a2300b3e8eff275e6d325cd704b005f8847c5812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:08 +0000
Subject: [PATCH 24/33] fix: adams_moulton keeps a copy of its algebra

---
 include/boost/numeric/odeint/stepper/adams_moulton.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/adams_moulton.hpp b/include/boost/numeric/odeint/stepper/adams_moulton.hpp
index 6e20a63..0ef5942 100644
--- a/include/boost/numeric/odeint/stepper/adams_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_moulton.hpp
@@ -89,12 +89,12 @@ public :
 
     adams_moulton( )
     : m_coefficients() , m_dxdt() , m_resizer() ,
-      m_algebra_instance() , m_algebra( m_algebra_instance )
+      m_algebra()
     { }
 
-    adams_moulton( algebra_type &algebra )
+    adams_moulton( const algebra_type &algebra )
     : m_coefficients() , m_dxdt() , m_resizer() ,
-      m_algebra_instance() , m_algebra( algebra )
+      m_algebra( algebra )
     { }
 
     adams_moulton& operator=( const adams_moulton &stepper )
@@ -185,8 +185,7 @@ private:
 
 protected:
 
-    algebra_type m_algebra_instance;
-    algebra_type &m_algebra;
+    algebra_type m_algebra;
 };
 
 
-- 
2.43.0


From f9664a9c8a7370d9eac6d23ee8f76d847fcbcc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:08 +0000
Subject: [PATCH 25/33] fix: symplectic and rosenbrock4 steppers can be
 assigned

---
 .../base/symplectic_rkn_stepper_base.hpp      |  4 +--
 .../numeric/odeint/stepper/rosenbrock4.hpp    | 30 +++++++++----------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/base/symplectic_rkn_stepper_base.hpp b/include/boost/numeric/odeint/stepper/base/symplectic_rkn_stepper_base.hpp
index eb09aef..684e8c4 100644
--- a/include/boost/numeric/odeint/stepper/base/symplectic_rkn_stepper_base.hpp
+++ b/include/boost/numeric/odeint/stepper/base/symplectic_rkn_stepper_base.hpp
@@ -293,8 +293,8 @@ private:
     }
 
 
-    const coef_type m_coef_a;
-    const coef_type m_coef_b;
+    coef_type m_coef_a;
+    coef_type m_coef_b;
 
     resizer_type m_dqdt_resizer;
     resizer_type m_dpdt_resizer;
diff --git a/include/boost/numeric/odeint/stepper/rosenbrock4.hpp b/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
index 7f475d0..e00764f 100644
--- a/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
+++ b/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
@@ -104,20 +104,20 @@ struct default_rosenbrock_coefficients
       d35 ( static_cast< value_type >( -0.6594389125716872e+01 ) )
     {}
 
-    const value_type gamma;
-    const value_type d1 , d2 , d3 , d4;
-    const value_type c2 , c3 , c4;
-    const value_type c21 ;
-    const value_type a21;
-    const value_type c31 , c32;
-    const value_type a31 , a32;
-    const value_type c41 , c42 , c43;
-    const value_type a41 , a42 , a43;
-    const value_type c51 , c52 , c53 , c54;
-    const value_type a51 , a52 , a53 , a54;
-    const value_type c61 , c62 , c63 , c64 , c65;
-    const value_type d21 , d22 , d23 , d24 , d25;
-    const value_type d31 , d32 , d33 , d34 , d35;
+    value_type gamma;
+    value_type d1 , d2 , d3 , d4;
+    value_type c2 , c3 , c4;
+    value_type c21 ;
+    value_type a21;
+    value_type c31 , c32;
+    value_type a31 , a32;
+    value_type c41 , c42 , c43;
+    value_type a41 , a42 , a43;
+    value_type c51 , c52 , c53 , c54;
+    value_type a51 , a52 , a53 , a54;
+    value_type c61 , c62 , c63 , c64 , c65;
+    value_type d21 , d22 , d23 , d24 , d25;
+    value_type d31 , d32 , d33 , d34 , d35;
 
     static const order_type stepper_order = 4;
     static const order_type error_order = 3;
@@ -335,7 +335,7 @@ private:
     wrapped_state_type m_xtmp;
     wrapped_state_type m_x_err;
 
-    const rosenbrock_coefficients m_coef;
+    rosenbrock_coefficients m_coef;
 };
 
 
-- 
2.43.0


From 81e9e78699432b196f69cc416910346c2b7e18da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:08 +0000
Subject: [PATCH 26/33] fix: gsl_vector states are copied by value

---
 .../odeint/external/gsl/gsl_wrapper.hpp       | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp b/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
index 092a39b..1f86232 100644
--- a/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
+++ b/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
@@ -191,6 +191,15 @@ struct resize_impl< gsl_vector* , gsl_vector* >
     }
 };
 
+template <>
+struct copy_impl< gsl_vector* , gsl_vector* >
+{
+    static void copy( const gsl_vector* from , gsl_vector* to )
+    {
+        gsl_vector_memcpy( to , from );
+    }
+};
+
 template<>
 struct state_wrapper< gsl_vector* >
 {
@@ -207,8 +216,19 @@ struct state_wrapper< gsl_vector* >
 
     state_wrapper( const state_wrapper_type &x )
     {
-        resize( m_v , x.m_v );
+        m_v = gsl_vector_alloc( x.m_v->size );
+        gsl_vector_memcpy( m_v , x.m_v );
+    }
+
+    state_wrapper_type& operator=( const state_wrapper_type &x )
+    {
+        if( m_v->size != x.m_v->size )
+        {
+            gsl_vector_free( m_v );
+            m_v = gsl_vector_alloc( x.m_v->size );
+        }
         gsl_vector_memcpy( m_v , x.m_v );
+        return *this;
     }
 
 
-- 
2.43.0


From 5741e17217830a9c8ebce019bc2a00b8e4d1ec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:56 +0000
Subject: [PATCH 27/33] fix: thrust_algebra::norm_inf returns the greatest
 absolute value

The maximum functor returned the element itself, so that the norm of a
state of negative elements was negative, and its unqualified abs could
resolve to the integer function.
---
 .../boost/numeric/odeint/external/thrust/thrust_algebra.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/external/thrust/thrust_algebra.hpp b/include/boost/numeric/odeint/external/thrust/thrust_algebra.hpp
index f33e862..b83c641 100644
--- a/include/boost/numeric/odeint/external/thrust/thrust_algebra.hpp
+++ b/include/boost/numeric/odeint/external/thrust/thrust_algebra.hpp
@@ -20,6 +20,8 @@
 #define BOOST_NUMERIC_ODEINT_EXTERNAL_THRUST_THRUST_ALGEBRA_HPP_INCLUDED
 
 
+#include <cmath>
+
 #include <thrust/device_vector.h>
 #include <thrust/for_each.h>
 #include <thrust/iterator/zip_iterator.h>
@@ -40,7 +42,9 @@ namespace detail {
         __host__ __device__
         Value operator()( const Fac1 t1 , const Fac2 t2 ) const
         {
-            return ( abs( t1 ) < abs( t2 ) ) ? t2 : t1 ;
+            using std::abs;
+            const Value a1 = abs( t1 ) , a2 = abs( t2 );
+            return ( a1 < a2 ) ? a2 : a1 ;
         }
 
         typedef Value result_type;
-- 
2.43.0


From 3100100a29762fc6ef33647220cf60f3f872ecca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:56 +0000
Subject: [PATCH 28/33] fix: fusion_algebra.hpp includes the header of
 get_unit_value

norm_inf did not compile unless another header had declared it before.
---
 include/boost/numeric/odeint/algebra/fusion_algebra.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/numeric/odeint/algebra/fusion_algebra.hpp b/include/boost/numeric/odeint/algebra/fusion_algebra.hpp
index 0055e5d..5e783fb 100644
--- a/include/boost/numeric/odeint/algebra/fusion_algebra.hpp
+++ b/include/boost/numeric/odeint/algebra/fusion_algebra.hpp
@@ -21,6 +21,7 @@
 #include <algorithm>
 
 #include <boost/numeric/odeint/config.hpp>
+#include <boost/numeric/odeint/util/unit_helper.hpp>
 
 #include <boost/fusion/container/vector.hpp>
 #include <boost/fusion/algorithm/iteration/for_each.hpp>
-- 
2.43.0


From 6a3b3b4eb40110d8945f5c54e78da791c958f5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:29 +0000
Subject: [PATCH 29/33] fix: copying an openmp_state copies part by part

The copy did not compile: it wrote the elements of a part into the list
of parts.
---
 include/boost/numeric/odeint/external/openmp/openmp_state.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/external/openmp/openmp_state.hpp b/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
index 20e453f..a6d66f9 100644
--- a/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
+++ b/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
@@ -97,7 +97,7 @@ struct copy_impl< openmp_state< T >, openmp_state< T > >
     {
 #       pragma omp parallel for schedule(dynamic)
         for(size_t i = 0 ; i < from.size() ; i++)
-            std::copy( from[i].begin() , from[i].end() , to.begin() );
+            std::copy( from[i].begin() , from[i].end() , to[i].begin() );
     }
 };
 
-- 
2.43.0


From e157d2d9ac8e3003180f07b158bba3720531f479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:29 +0000
Subject: [PATCH 30/33] fix: Eigen matrices and two-dimensional arrays can be
 copied

Since they declare iterator types they were taken for ranges, but begin()
exists for vectors only.
---
 .../odeint/external/eigen/eigen_resize.hpp    | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/boost/numeric/odeint/external/eigen/eigen_resize.hpp b/include/boost/numeric/odeint/external/eigen/eigen_resize.hpp
index 1989cc3..f5ffae7 100644
--- a/include/boost/numeric/odeint/external/eigen/eigen_resize.hpp
+++ b/include/boost/numeric/odeint/external/eigen/eigen_resize.hpp
@@ -22,6 +22,7 @@
 #include <boost/numeric/odeint/util/is_resizeable.hpp>
 #include <boost/numeric/odeint/util/resize.hpp>
 #include <boost/numeric/odeint/util/same_size.hpp>
+#include <boost/numeric/odeint/util/copy.hpp>
 
 #include <boost/utility/enable_if.hpp>
 #include <boost/type_traits/is_base_of.hpp>
@@ -99,6 +100,29 @@ struct resize_impl_sfinae< Derived , Derived ,
 
 
 
+// matrices declare iterators but cannot be iterated over, hence they are assigned
+template< class Derived >
+struct copy_impl_sfinae< Derived , Derived ,
+                    typename boost::enable_if< typename boost::is_base_of< Eigen::MatrixBase< Derived > , Derived >::type >::type >
+{
+    static void copy( const Derived &from , Derived &to )
+    {
+        to = from;
+    }
+};
+
+template< class Derived >
+struct copy_impl_sfinae< Derived , Derived ,
+                    typename boost::enable_if< typename boost::is_base_of< Eigen::ArrayBase< Derived > , Derived >::type >::type >
+{
+    static void copy( const Derived &from , Derived &to )
+    {
+        to = from;
+    }
+};
+
+
+
 } // namespace odeint
 } // namespace numeric
 } // namespace boost
-- 
2.43.0


From 7d2ca918b117e50abc1e20cb429700fd8eba1485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:08 +0000
Subject: [PATCH 31/33] fix: controller factories take the maximal step in the
 stepper's time type

---
 .../generation_controlled_adams_bashforth_moulton.hpp           | 2 +-
 .../stepper/generation/generation_controlled_runge_kutta.hpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp
index ca95a1f..1026651 100644
--- a/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp
@@ -38,7 +38,7 @@ struct controller_factory< Stepper , controlled_adams_bashforth_moulton< Stepper
     typedef controlled_adams_bashforth_moulton< stepper_type > controller_type;
     typedef typename controller_type::step_adjuster_type step_adjuster_type;
     typedef typename stepper_type::value_type value_type;
-    typedef typename stepper_type::value_type time_type;
+    typedef typename stepper_type::time_type time_type;
 
     controller_type operator()( value_type abs_error , value_type rel_error , const stepper_type &stepper )
     {
diff --git a/include/boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp
index bad2bed..6c2c65c 100644
--- a/include/boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp
@@ -36,7 +36,7 @@ struct controller_factory< Stepper , controlled_runge_kutta< Stepper > >
     typedef typename controller_type::error_checker_type error_checker_type;
     typedef typename controller_type::step_adjuster_type step_adjuster_type;
     typedef typename stepper_type::value_type value_type;
-    typedef typename stepper_type::value_type time_type;
+    typedef typename stepper_type::time_type time_type;
 
     controller_type operator()( value_type abs_error , value_type rel_error , const stepper_type &stepper )
     {
-- 
2.43.0


From 0461a848a7079d824db59a6d31115dc62da5ea23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:08 +0000
Subject: [PATCH 32/33] fix: make_controlled keeps the
 adaptive_adams_bashforth_moulton stepper it is given

---
 .../odeint/stepper/controlled_adams_bashforth_moulton.hpp     | 4 ++--
 .../generation_controlled_adams_bashforth_moulton.hpp         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index ed441cb..ace7dbd 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -156,8 +156,8 @@ public:
     typedef typename stepper_type::coeff_type coeff_type;
     typedef controlled_adams_bashforth_moulton< ErrorStepper , StepAdjuster , OrderAdjuster , Resizer > controlled_stepper_type;
 
-    controlled_adams_bashforth_moulton(step_adjuster_type step_adjuster = step_adjuster_type())
-    :m_stepper(),
+    controlled_adams_bashforth_moulton(step_adjuster_type step_adjuster = step_adjuster_type(), const stepper_type &stepper = stepper_type())
+    :m_stepper( stepper ),
     m_dxdt_resizer(), m_xerr_resizer(), m_xnew_resizer(),
     m_step_adjuster( step_adjuster ), m_order_adjuster()
     {};
diff --git a/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp
index 1026651..902003a 100644
--- a/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp
@@ -42,13 +42,13 @@ struct controller_factory< Stepper , controlled_adams_bashforth_moulton< Stepper
 
     controller_type operator()( value_type abs_error , value_type rel_error , const stepper_type &stepper )
     {
-        return controller_type(step_adjuster_type(abs_error, rel_error));
+        return controller_type(step_adjuster_type(abs_error, rel_error), stepper );
     }
 
     controller_type operator()( value_type abs_error , value_type rel_error ,
                                 time_type max_dt, const stepper_type &stepper )
     {
-        return controller_type( step_adjuster_type(abs_error, rel_error, max_dt));
+        return controller_type( step_adjuster_type(abs_error, rel_error, max_dt), stepper );
     }
 };
 
-- 
2.43.0


From faa3742e2a50fbf2c07610d4c146ebc7d1159af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:08 +0000
Subject: [PATCH 33/33] fix: the order adjuster does not read an error that was
 not estimated

---
 .../odeint/stepper/controlled_adams_bashforth_moulton.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index ace7dbd..3056e07 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -92,7 +92,7 @@ public:
         {
             return order-1;
         }
-        else if(order <= MaxOrder)
+        else if(order < MaxOrder && order < init) // otherwise xerr[3] has not been estimated
         {
             value_type errp = abs(m_algebra.norm_inf(xerr[3].m_v));
 
-- 
2.43.0

