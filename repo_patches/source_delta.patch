From dd9a697709c29b2eefcb715bbf149ea529c254ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:58 +0000
Subject: [PATCH 01/21] fix: keep the estimator's error covariance symmetric

With two measurements the rounding-induced antisymmetric part of the error covariance grew by up to a
factor of two per update (inverted() gives the transposed inverse), so that an estimator with accurate
measurements diverged from its model after some fifty updates.
---
 include/dsp/kalman.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dsp/kalman.hpp b/include/dsp/kalman.hpp
index dc44dce..542a7bc 100644
--- a/include/dsp/kalman.hpp
+++ b/include/dsp/kalman.hpp
@@ -96,6 +96,10 @@ public:
 
         // 2c: Update the error covariance:
         P = (I() - K * H) * P;
+
+        // Remove the asymmetry that rounding introduces: with two measurements it grows otherwise,
+        // as inverted() yields the transposed inverse, which is only right for a symmetric matrix.
+        P = (P + transposed(P)) * (real_t(1) / real_t(2));
     }
 
     // Observers:
-- 
2.43.0


From 6791bf170b9f558aa20b9750d1ab2a9673c9bdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:55 +0000
Subject: [PATCH 02/21] fix: break include cycle that kept biquad-design.hpp
 and filter.hpp from compiling on their own

---
 include/dsp/biquad-design.hpp | 27 ---------------------------
 include/dsp/filter-design.hpp | 27 ++++++++++++++++++++++++++-
 2 files changed, 26 insertions(+), 28 deletions(-)

diff --git a/include/dsp/biquad-design.hpp b/include/dsp/biquad-design.hpp
index 80e46b7..4ee6b17 100644
--- a/include/dsp/biquad-design.hpp
+++ b/include/dsp/biquad-design.hpp
@@ -20,33 +20,6 @@
 # define dsp_MAYBE_UNUSED
 #endif
 
-namespace dsp {
-
-// filter type selection (lp, hp, ...)
-
-enum class FilterResponse
-{
-    all_pass,
-    low_pass,
-    high_pass,
-    band_pass,
-    band_stop,
-    low_shelf,
-    high_shelf,
-    peak_band_eq
-};
-
-// biquad realization form (direct form 1, 2, transposed):
-
-enum class BiquadForm
-{
-    df1,
-    df2,
-    df2_transposed
-};
-
-} // namespace dsp
-
 namespace dsp { namespace biquad_designs {
 
 // ToDo
diff --git a/include/dsp/filter-design.hpp b/include/dsp/filter-design.hpp
index 162b017..5c6c2f4 100644
--- a/include/dsp/filter-design.hpp
+++ b/include/dsp/filter-design.hpp
@@ -10,11 +10,36 @@
 
 #include "core/shims.hpp"
 #include "core/traits.hpp"
-#include "dsp/filter.hpp"
 #include "num/constants.hpp"
 
+#include <cmath>
+#include <type_traits>
+
 namespace dsp {
 
+// filter type selection (lp, hp, ...)
+
+enum class FilterResponse
+{
+    all_pass,
+    low_pass,
+    high_pass,
+    band_pass,
+    band_stop,
+    low_shelf,
+    high_shelf,
+    peak_band_eq
+};
+
+// biquad realization form (direct form 1, 2, transposed):
+
+enum class BiquadForm
+{
+    df1,
+    df2,
+    df2_transposed
+};
+
 // algorithm: pre-warp frequency:
 
 template< typename P, typename Q >
-- 
2.43.0


From c696a80608c9d6ec9c2b9d87d9ab1e6bdda7a7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:55 +0000
Subject: [PATCH 03/21] fix: dbV_factor() is the inverse of dbV()

---
 include/dsp/filter-design.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/filter-design.hpp b/include/dsp/filter-design.hpp
index 5c6c2f4..be735ac 100644
--- a/include/dsp/filter-design.hpp
+++ b/include/dsp/filter-design.hpp
@@ -81,7 +81,7 @@ auto dbV( T vout, U vin )
 template< typename T >
 auto dbV_factor( T dbv )
 {
-    return dbP_factor( dbv ) / T{2};
+    return dbP_factor( dbv / T{2} );
 }
 
 } // namespace dsp
-- 
2.43.0


From 605588287aefa3cf114f9809c9a49cd3e5b5827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:55 +0000
Subject: [PATCH 04/21] fix: one-pole design uses the floating point abs() for
 its gain

---
 include/dsp/onepole-design.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dsp/onepole-design.hpp b/include/dsp/onepole-design.hpp
index b823e78..b6a39b5 100644
--- a/include/dsp/onepole-design.hpp
+++ b/include/dsp/onepole-design.hpp
@@ -76,7 +76,7 @@ struct onepole_design_method<FilterResponse::low_pass, T >
     static auto design( T f, T fs )
     {
         const auto a1 = -exp( -T{1} * num::pi<T> * f / fs );
-        const auto b0 = T{1} - abs(a1);
+        const auto b0 = T{1} - std::abs(a1);
         
         return OnePoleCoeffT<T>{ {b0}, {a1} };
     }
@@ -90,7 +90,7 @@ struct onepole_design_method<FilterResponse::high_pass, T >
     static auto design( T f, T fs )
     {
         const auto a1 = +exp( -T{1} * num::pi<T> * (T{0.5} - f / fs ) );
-        const auto b0 = T{1} - abs(a1);
+        const auto b0 = T{1} - std::abs(a1);
 
         return OnePoleCoeffT<T>{ {b0}, {a1} };
     }
-- 
2.43.0


From 7fd9ee1368ae7527a12e77d19fa2cc3759947697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:55 +0000
Subject: [PATCH 05/21] fix: one-pole design puts its cut-off at the requested
 frequency

---
 include/dsp/onepole-design.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dsp/onepole-design.hpp b/include/dsp/onepole-design.hpp
index b6a39b5..c1b597c 100644
--- a/include/dsp/onepole-design.hpp
+++ b/include/dsp/onepole-design.hpp
@@ -75,7 +75,7 @@ struct onepole_design_method<FilterResponse::low_pass, T >
 {
     static auto design( T f, T fs )
     {
-        const auto a1 = -exp( -T{1} * num::pi<T> * f / fs );
+        const auto a1 = -exp( -T{2} * num::pi<T> * f / fs );
         const auto b0 = T{1} - std::abs(a1);
         
         return OnePoleCoeffT<T>{ {b0}, {a1} };
@@ -89,7 +89,7 @@ struct onepole_design_method<FilterResponse::high_pass, T >
 {
     static auto design( T f, T fs )
     {
-        const auto a1 = +exp( -T{1} * num::pi<T> * (T{0.5} - f / fs ) );
+        const auto a1 = +exp( -T{2} * num::pi<T> * (T{0.5} - f / fs ) );
         const auto b0 = T{1} - std::abs(a1);
 
         return OnePoleCoeffT<T>{ {b0}, {a1} };
-- 
2.43.0


From 15ba32d65f721ed60015b7419856b2a830808927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:25 +0000
Subject: [PATCH 06/21] fix: Chebyshev type 1 design has its poles and gain in
 the right place

---
 include/dsp/chebyshev-design.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/dsp/chebyshev-design.hpp b/include/dsp/chebyshev-design.hpp
index f24e5f3..b05d005 100644
--- a/include/dsp/chebyshev-design.hpp
+++ b/include/dsp/chebyshev-design.hpp
@@ -116,11 +116,13 @@ auto chebyshev1_lp_hp_impl( FilterResponse kind, T fs, T fpass, T fstop, T Apass
     const auto r     = N % 2;
     const auto K     = ( N - r ) / 2;
 
-    const auto a     = std::asinh( estop ) / N;
+    const auto a     = std::asinh( 1 / epass ) / N;
     const auto W3    = real( Wpass * std::cosh( std::acosh( complex_t{1} / complex_t{epass} ) / complex_t(N) ) );
     const auto f3    = (fs / num::pi<T> ) * std::atan( std::pow( W3, s ) );
     const auto W0    = std::sinh( a ) * Wpass;
 
+    const auto H0    = r == 0 ? 1 / std::sqrt( 1 + epass * epass ) : T{1};    // gain at start of passband
+
     DigitalCoeffT<T> coeff{ Wpass, Wstop, epass, estop, Nex, N, f3, a };
 
     auto & A = coeff.a;
@@ -128,7 +130,7 @@ auto chebyshev1_lp_hp_impl( FilterResponse kind, T fs, T fpass, T fstop, T Apass
 
     if ( r == 1 )
     {
-        const auto G = 1 / (1 + W0);
+        const auto G = W0 / (1 + W0);
 
         A.emplace_back( /*1,*/ s * ( 2 * G - 1 ), T{0} );
         B.emplace_back(   G,   s * G            , T{0} );
@@ -139,7 +141,7 @@ auto chebyshev1_lp_hp_impl( FilterResponse kind, T fs, T fpass, T fstop, T Apass
         const auto th = num::pi<T> * (N - 1 + 2 * i) / (2 * N);
         const auto Wi = Wpass * sin(th);
         const auto D  =  1 - 2 * W0 * cos( th ) + W0 * W0 + Wi * Wi;
-        const auto G  = (W0 * W0 + Wi * Wi ) / D;
+        const auto G  = (W0 * W0 + Wi * Wi ) / D * ( i == 1 ? H0 : T{1} );
         const auto a1 =  2 * (W0 * W0 + Wi * Wi - 1) / D;
         const auto a2 = (1 + 2 * W0 * cos(th) + W0 * W0 + Wi * Wi) / D;
 
-- 
2.43.0


From cb126116d4210f1fcc7853c61f5601e092bef386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:35 +0000
Subject: [PATCH 07/21] fix: read back the tc0 and tc1 waveform that was set

The upper waveform bits belong at bit 2 of the waveform number, whatever
their position in the register; they were placed at bit 3.
---
 include/mcu/atmega328.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 9faf03d..c3808f6 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -899,7 +899,7 @@ namespace tc0
 
         inline auto current( waveform w )
         {
-            return waveform( shl(reg::tccr0b::wgm02::read(), WGM02) + reg::tccr0a::wgm0::read() );
+            return waveform( shl(reg::tccr0b::wgm02::read(), 2) + reg::tccr0a::wgm0::read() );
         }
 
         inline auto set( waveform w )
@@ -1324,7 +1324,7 @@ namespace tc1
 
         inline auto current( waveform )
         {
-            return waveform( shl(reg::tccr1b::wgm1::read(), WGM12) + reg::tccr1a::wgm1::read() );
+            return waveform( shl(reg::tccr1b::wgm1::read(), 2) + reg::tccr1a::wgm1::read() );
         }
 
         inline auto set( waveform w )
-- 
2.43.0


From 92dfcd66d158498497ec23c70529749826a52d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:35 +0000
Subject: [PATCH 08/21] fix: force tc1 compare via TCCR1C

FOC1A and FOC1B are in TCCR1C; setting them in TCCR1A changed the
output modes instead.
---
 include/mcu/atmega328.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index c3808f6..522d20b 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -1131,8 +1131,8 @@ namespace tc1
         namespace tccr1c
         {
             using whole = register8_t< rw_t, tccr1c_addr >;
-            using foc1a = bitfield8_t< rw_t, tccr1a_addr, FOC1A >;
-            using foc1b = bitfield8_t< rw_t, tccr1a_addr, FOC1B >;
+            using foc1a = bitfield8_t< rw_t, tccr1c_addr, FOC1A >;
+            using foc1b = bitfield8_t< rw_t, tccr1c_addr, FOC1B >;
 
             using value_type = whole::value_type;
         }
-- 
2.43.0


From 12c8cee13a8ebbda13edb69c2db4a0819fdac542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:35 +0000
Subject: [PATCH 09/21] fix: return the tc0 and tc1 compare values read

---
 include/mcu/atmega328.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 522d20b..e615433 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -955,7 +955,7 @@ namespace tc0
 
             inline auto current( a )
             {
-                a{ reg::ocr0a::whole::read() };
+                return a{ reg::ocr0a::whole::read() };
             }
 
             inline auto set( a v )
@@ -965,7 +965,7 @@ namespace tc0
 
             inline auto current( b )
             {
-                b{ reg::ocr0b::whole::read() };
+                return b{ reg::ocr0b::whole::read() };
             }
 
             inline auto set( b v )
@@ -1380,7 +1380,7 @@ namespace tc1
 
             inline auto current( a )
             {
-                a{ reg::ocr1a::whole::read() };
+                return a{ reg::ocr1a::whole::read() };
             }
 
             inline auto set( a v )
@@ -1390,7 +1390,7 @@ namespace tc1
 
             inline auto current( b )
             {
-                b{ reg::ocr1b::whole::read() };
+                return b{ reg::ocr1b::whole::read() };
             }
 
             inline auto set( b v )
-- 
2.43.0


From 461edec6dd1752d95fe6a75ac873e553a43b0f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:35 +0000
Subject: [PATCH 10/21] fix: enable the two-wire pull-ups

Writing the input register toggles the pull-ups, so that initialising
for a second time switched them off again.
---
 include/mcu/atmega328.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index e615433..c68a98e 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -1981,8 +1981,8 @@ namespace twi
                 set( twi::enable::interface::on );
 
                 // enable internal pull-up resistors for sda, scl:
-                gpio<config::twi_port>::p<config::sda_pin>::inp::set();
-                gpio<config::twi_port>::p<config::scl_pin>::inp::set();
+                gpio<config::twi_port>::p<config::sda_pin>::out::set();
+                gpio<config::twi_port>::p<config::scl_pin>::out::set();
             }
 
             inline auto flag()   { return current( twi::interrupt::flag{} ); }
@@ -2015,8 +2015,8 @@ namespace twi
                 , twi::control::prescale::factor ps = twi::control::prescale::factor::x1 )
             {
                 // enable internal pull-up resistors for sda, scl:
-                gpio<config::twi_port>::p<config::sda_pin>::inp::set();
-                gpio<config::twi_port>::p<config::scl_pin>::inp::set();
+                gpio<config::twi_port>::p<config::sda_pin>::out::set();
+                gpio<config::twi_port>::p<config::scl_pin>::out::set();
 
                 //set SCL to 400kHz
                 TWSR = 0x00;
-- 
2.43.0


From dadba24156f053a723e88eccc82805ece63b31d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:35 +0000
Subject: [PATCH 11/21] fix: use the prescale factor given to two-wire init

---
 include/mcu/atmega328.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index c68a98e..5aaffba 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -2019,7 +2019,7 @@ namespace twi
                 gpio<config::twi_port>::p<config::scl_pin>::out::set();
 
                 //set SCL to 400kHz
-                TWSR = 0x00;
+                TWSR = to_integral( ps );
                 TWBR = to_integral( br );
                 //enable TWI
                 TWCR = (1<<TWEN);
-- 
2.43.0


From a000a4e5c3e186d1d93e938e0335b8d15d9be7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:35 +0000
Subject: [PATCH 12/21] fix: two-wire write sends the byte given

It sent the address a second time.
---
 include/mcu/atmega328.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 5aaffba..504ee2d 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -2079,7 +2079,7 @@ namespace twi
                 if ( expect_status( 0x18 ) )
                     return true;  // error
 
-                data( address );
+                data( byte );
 
                 if ( expect_status( 0x28 ) )
                     return true;  // error
-- 
2.43.0


From 202b9159a1215c002f44acbe348c04b245fec12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:35 +0000
Subject: [PATCH 13/21] fix: two-wire write releases the bus on error

The bus stayed occupied after an error, so that the next write got a
repeated start, which it takes for an error, and failed forever.
---
 include/mcu/atmega328.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 504ee2d..7ee4f8c 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -2072,17 +2072,17 @@ namespace twi
                 start();
 
                 if ( expect_status( 0x08 ) )
-                    return true;  // error
+                    return stop(), true;  // error
 
                 data( address );
 
                 if ( expect_status( 0x18 ) )
-                    return true;  // error
+                    return stop(), true;  // error
 
                 data( byte );
 
                 if ( expect_status( 0x28 ) )
-                    return true;  // error
+                    return stop(), true;  // error
 
                 stop();
 
-- 
2.43.0


From 32b512bff1022c290456aaa99fa296ef290e925d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:37 +0000
Subject: [PATCH 14/21] fix: clear pin change interrupt flags by writing one

---
 include/mcu/atmega328.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 7ee4f8c..a137225 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -576,7 +576,7 @@ namespace ei
     // 17.2.5 PCIFR: Pin Change Interrupt Flag Register
 
     template< pcint i >
-    using pcifr = bitfield8_t< rw_t, pcifr_addr, to_integral(i) >;
+    using pcifr = bitfield8_t< rc_w1_t, pcifr_addr, to_integral(i) >;
 
     inline auto pin_change_int2_flag()
     {
-- 
2.43.0


From 29849e8b947b77c33cf8431a297f7bc6d668b623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:15 +0000
Subject: [PATCH 15/21] fix: two-wire address mask field at bits 7..1 of TWAMR

avr-libc defines TWAM6..TWAM0 as 6..0 for this part; the datasheet has
them at bits 7..1, as has avr-libc for other parts with this interface.
---
 include/mcu/atmega328.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index a137225..d0631f2 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -1784,7 +1784,7 @@ namespace twi
         namespace twamr
         {
             using whole = register8_t< rw_t, addr_twamr >;
-            using twam  = bitfield8_t< rw_t, addr_twamr, TWAM6, TWAM0 >;
+            using twam  = bitfield8_t< rw_t, addr_twamr, 7, 1 >;  // as in the datasheet; avr-libc's TWAM6..TWAM0 are one bit too low
         }
     } // namespace reg
 
-- 
2.43.0


From 277e42a2bdabf524ab152e86f32a2a028005734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:11 +0000
Subject: [PATCH 16/21] fix: declare std20::polar for AVR, so that the filter
 sections compile for the target

---
 include/std/complex.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/std/complex.hpp b/include/std/complex.hpp
index f4ad926..ee377cb 100644
--- a/include/std/complex.hpp
+++ b/include/std/complex.hpp
@@ -191,6 +191,9 @@ T abs( complex<T> const & z );
 template< class T >
 complex<T> sqrt( complex<T> const & z );
 
+template< class T >
+complex<T> polar( T const & rho, T const & theta = T() );
+
 } // naespace std20
 
 #endif  // __AVR
-- 
2.43.0


From 748129485b0ebcd7a5fe39568cba62e447066718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:33 +0000
Subject: [PATCH 17/21] fix: force inlining of register access, EEPROM
 programming missed its window at -Os

---
 include/mcu/register.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/mcu/register.hpp b/include/mcu/register.hpp
index 48f5671..d3deb12 100644
--- a/include/mcu/register.hpp
+++ b/include/mcu/register.hpp
@@ -95,9 +95,19 @@ constexpr T shr( T value, size_t n )
     return value >> n;
 }
 
+// Register access must stay a single, constant-address access: timed sequences and bit instructions depend on it,
+// also when the compiler optimizes for size.
+
+#if defined( __GNUC__ )
+# define mcu_FORCE_INLINE  __attribute__(( always_inline ))
+#else
+# define mcu_FORCE_INLINE
+#endif
+
 // Address as volatile pointer:
 
 template< typename T >
+mcu_FORCE_INLINE inline
 auto to_pointer( address_t address )
 {
     return reinterpret_cast<T volatile *>( address );
@@ -169,6 +179,7 @@ namespace detail {
 template< typename T >
 struct getbit_t
 {
+    mcu_FORCE_INLINE
     static auto get( address_t address, index_t bit )
     {
         return static_cast<T>( !! (*to_pointer<T>(address) & bitmask<T>( bit ) ) );
@@ -180,6 +191,7 @@ struct getbit_t
 template< typename T >
 struct setbit_t
 {
+    mcu_FORCE_INLINE
     static void set( address_t address, index_t bit )
     {
        *to_pointer<T>(address) = static_cast<T>( *to_pointer<T>(address) | bitmask<T>( bit ) );
@@ -191,6 +203,7 @@ struct setbit_t
 template< typename T >
 struct togglebit_t
 {
+    mcu_FORCE_INLINE
     static void toggle( address_t address, index_t bit )
     {
        *to_pointer<T>(address) = static_cast<T>( *to_pointer<T>(address) ^ bitmask<T>( bit ) );
@@ -202,6 +215,7 @@ struct togglebit_t
 template< typename T >
 struct clearbit_w1_t
 {
+    mcu_FORCE_INLINE
     static void clear( address_t address, index_t bit )
     {
         *to_pointer<T>(address) = static_cast<T>( *to_pointer<T>(address) | bitmask<T>( bit ) );
@@ -213,6 +227,7 @@ struct clearbit_w1_t
 template< typename T >
 struct clearbit_w0_t
 {
+    mcu_FORCE_INLINE
     static void clear( address_t address, index_t bit )
     {
         *to_pointer<T>(address) = *to_pointer<T>(address) & bitmask_n<T>( bit );
@@ -224,6 +239,7 @@ struct clearbit_w0_t
 template< typename T >
 struct trigger_t
 {
+    mcu_FORCE_INLINE
     static void trigger( address_t address, index_t bit )
     {
        *to_pointer<T>(address) = *to_pointer<T>(address) | bitmask<T>( bit );
@@ -239,11 +255,13 @@ struct r_t : detail::getbit_t<T>
 {
     static constexpr Mutability mutability = Mutability::r;
 
+    mcu_FORCE_INLINE
     static auto read( address_t address )
     {
         return static_cast<T>( *to_pointer<T>(address) );
     }
 
+    mcu_FORCE_INLINE
     static auto read( address_t address, T mask )
     {
         return static_cast<T>( *to_pointer<T>(address) & mask );
@@ -257,11 +275,13 @@ struct w_t : detail::setbit_t<T>, detail::clearbit_w0_t<T>
 {
     static constexpr Mutability mutability = Mutability::w;
 
+    mcu_FORCE_INLINE
     static void write( address_t address, T value )
     {
         *to_pointer<T>(address) = value;
     }
 
+    mcu_FORCE_INLINE
     static void write( address_t address, T mask, T value )
     {
         *to_pointer<T>(address) = ( *to_pointer<T>(address) & ~mask ) | ( value & mask );
@@ -326,6 +346,7 @@ struct write_proxy
 
     // output data, unless discarded:
 
+    mcu_FORCE_INLINE
     ~write_proxy()
     {
         if ( apply )
-- 
2.43.0


From 153f1a05d110e32b9214a34b464ca450d83a127f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:02 +0000
Subject: [PATCH 18/21] fix: one-pole solve()/poles() returned the constant 7

---
 include/dsp/onepole.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/onepole.hpp b/include/dsp/onepole.hpp
index f7bd41c..4e5c84c 100644
--- a/include/dsp/onepole.hpp
+++ b/include/dsp/onepole.hpp
@@ -75,7 +75,7 @@ auto solve( V a, V b )
     // normalize:
     b /= a;
 
-    return Solution{ 7 };
+    return Solution{ -b };
 }
 
 // normalized a:
-- 
2.43.0


From f631343c15c8fa6d6ec39bf02b4de2cdccab9f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:03 +0000
Subject: [PATCH 19/21] fix: one-pole filters were always reported stable

---
 include/dsp/onepole-io.hpp | 2 +-
 include/dsp/onepole.hpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dsp/onepole-io.hpp b/include/dsp/onepole-io.hpp
index 96ee1fd..c0dafd9 100644
--- a/include/dsp/onepole-io.hpp
+++ b/include/dsp/onepole-io.hpp
@@ -48,7 +48,7 @@ template< typename T, typename S >
 std::ostream & operator<<( std::ostream & os, OnePoleT<T,S> const & bq )
 {
     return os <<
-        "\nOnePole is always stable" <<
+        "\nOnePole is " << ( bq.is_stable() ? "stable:":"NOT stable:" ) <<
         "\na: " << bq.coeff_a() <<
         "\nb: " << bq.coeff_b() <<
         "\nw: " << bq.state() <<
diff --git a/include/dsp/onepole.hpp b/include/dsp/onepole.hpp
index 4e5c84c..b0250e6 100644
--- a/include/dsp/onepole.hpp
+++ b/include/dsp/onepole.hpp
@@ -209,7 +209,7 @@ public:
 
     auto is_stable() const
     {
-        return true;
+        return abs( poles().s0 ) <= value_type{1};
     }
 
     // Modifiers:
-- 
2.43.0


From 6c3ccd7e58ace76ee97213dacd5a64b259d7dad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:03 +0000
Subject: [PATCH 20/21] fix: fixed-point construction from float missed the
 nearest step for larger values

---
 include/num/fixed-point.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/num/fixed-point.hpp b/include/num/fixed-point.hpp
index 533bb8a..ca560cf 100644
--- a/include/num/fixed-point.hpp
+++ b/include/num/fixed-point.hpp
@@ -52,6 +52,17 @@ constexpr auto power2( std20::int64_t n )
     return result;
 }
 
+// Nearest integral value; via the remainder, as adding one half is itself rounded for larger values:
+
+template< typename T, typename V >
+constexpr auto rounded( V x )
+{
+    const auto i = static_cast<T>( x );
+    const auto r = x - i;
+
+    return static_cast<T>( r >= V(0.5) ? i + 1 : r <= V(-0.5) ? i - 1 : i );
+}
+
 } // namespace detail
 
 // fixed_point:
@@ -102,11 +113,11 @@ public:
     {}
 
     constexpr fixed_point( float value )
-    : storage( static_cast<T>( detail::power2(F) * value + (value >= 0.0f ? 0.5f : -0.5f) ) )
+    : storage( detail::rounded<T>( detail::power2(F) * value ) )
     {}
 
     constexpr fixed_point( double value )
-    : storage( static_cast<T>( detail::power2(F) * value + (value >= 0.0 ? 0.5 : -0.5) ) )
+    : storage( detail::rounded<T>( detail::power2(F) * value ) )
     {}
 
     // Observers:
-- 
2.43.0


From 440e6b8dcdc1cf0961275051fb3de83f0f6861aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:06 +0000
Subject: [PATCH 21/21] fix: fixed_point::as<> of a narrower integer type
 dropped the integral part

---
 include/num/fixed-point.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/num/fixed-point.hpp b/include/num/fixed-point.hpp
index ca560cf..d0b9d76 100644
--- a/include/num/fixed-point.hpp
+++ b/include/num/fixed-point.hpp
@@ -140,7 +140,10 @@ public:
     template< typename U >
     constexpr auto as() const
     {
-        return static_cast<U>( underlying_value() ) / detail::power2(F);
+        if constexpr ( std20::is_integral_v<U> )
+            return static_cast<U>( underlying_value() / detail::power2(F) );
+        else
+            return static_cast<U>( underlying_value() ) / detail::power2(F);
     }
 
     constexpr auto as_double() const
-- 
2.43.0

