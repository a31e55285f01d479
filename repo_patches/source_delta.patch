From bae36282a322f0c5b36353d419d28b25d0da5d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 01/18] =?UTF-8?q?fix:=20the=20coefficient=20a=E2=80=B2?=
 =?UTF-8?q?=E2=82=84=E2=82=82=20of=20Fine1987RKNG34=20is=20-243/128,=20so?=
 =?UTF-8?q?=20that=20its=20order=20conditions=20hold?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 integrators/methods.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/integrators/methods.hpp b/integrators/methods.hpp
index a14c7c0..25142aa 100644
--- a/integrators/methods.hpp
+++ b/integrators/methods.hpp
@@ -557,7 +557,7 @@ struct Fine1987RKNG34 : EmbeddedExplicitGeneralizedRungeKuttaNyström {
   static constexpr FixedStrictlyLowerTriangularMatrix<double, stages> aʹ{{
       {  2 /     9.0,
          1 /    12.0,    1 /   4.0,
-        69 /   128.0, -234 / 128.0, 135 /    64.0,
+        69 /   128.0, -243 / 128.0, 135 /    64.0,
        -17 /    12.0,   27 /   4.0, -27 /     5.0, 16 /    15.0}}};
   static constexpr FixedVector<double, stages> b̂{{
       { 19 /   180.0,    0        ,  63 /   200.0, 16 /   225.0,   1 / 120.0}}};
-- 
2.43.0


From 80158ff443a209273cd2dc805d53127cbd4eaaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:08 +0000
Subject: [PATCH 02/18] fix: stop a RecurringThread before its action and
 channels are destroyed

The documentation promises that the thread is stopped by the destruction of the
object, but the thread was only joined by the destructor of the base class, at
which point the action and the channels of the derived class were gone.
---
 base/recurring_thread.hpp      |  6 ++++++
 base/recurring_thread_body.hpp | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/base/recurring_thread.hpp b/base/recurring_thread.hpp
index 2ccc6c4..1b4a6a2 100644
--- a/base/recurring_thread.hpp
+++ b/base/recurring_thread.hpp
@@ -65,6 +65,9 @@ class RecurringThread : public BaseRecurringThread {
   RecurringThread(Action action,
                   std::chrono::milliseconds period);
 
+  // Stops the thread before the action and the channels get destroyed.
+  ~RecurringThread() override;
+
   // Overwrites the contents of the input channel.  The `input` data will be
   // either picked by the next execution of `action`, or overwritten by the next
   // call to `Put`.
@@ -95,6 +98,9 @@ class RecurringThread<Input, void> : public BaseRecurringThread {
   RecurringThread(Action action,
                   std::chrono::milliseconds period);
 
+  // Stops the thread before the action and the channels get destroyed.
+  ~RecurringThread() override;
+
   // Overwrites the contents of the input channel.  The `input` data will be
   // either picked by the next execution of `action`, or overwritten by the next
   // call to `Put`.
diff --git a/base/recurring_thread_body.hpp b/base/recurring_thread_body.hpp
index e05b98b..fbd4bac 100644
--- a/base/recurring_thread_body.hpp
+++ b/base/recurring_thread_body.hpp
@@ -58,6 +58,11 @@ RecurringThread<Input, Output>::RecurringThread(
     : BaseRecurringThread(period),
       action_(std::move(action)) {}
 
+template<typename Input, typename Output>
+RecurringThread<Input, Output>::~RecurringThread() {
+  Stop();
+}
+
 template<typename Input, typename Output>
 void RecurringThread<Input, Output>::Put(Input input) {
   absl::MutexLock l(&input_output_lock_);
@@ -105,6 +110,11 @@ RecurringThread<Input, void>::RecurringThread(
     : BaseRecurringThread(period),
       action_(std::move(action)) {}
 
+template<typename Input>
+RecurringThread<Input, void>::~RecurringThread() {
+  Stop();
+}
+
 template<typename Input>
 void RecurringThread<Input, void>::Put(Input input) {
   absl::MutexLock l(&input_lock_);
-- 
2.43.0


From 622c23dd38a246f9434581504fe9fad19a22cb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:36 +0000
Subject: [PATCH 03/18] fix: interrupt the GeometricPotentialPlotter before its
 members are destroyed

The thread was joined by the destruction of plotter_, at which point the members
declared after it, which the thread writes, were gone.
---
 ksp_plugin/geometric_potential_plotter.cpp | 6 ++++++
 ksp_plugin/geometric_potential_plotter.hpp | 1 +
 2 files changed, 7 insertions(+)

diff --git a/ksp_plugin/geometric_potential_plotter.cpp b/ksp_plugin/geometric_potential_plotter.cpp
index 43cc02e..db381ed 100644
--- a/ksp_plugin/geometric_potential_plotter.cpp
+++ b/ksp_plugin/geometric_potential_plotter.cpp
@@ -22,6 +22,12 @@ GeometricPotentialPlotter::GeometricPotentialPlotter(
     not_null<Ephemeris<Barycentric>*> const ephemeris)
     : ephemeris_(ephemeris) {}
 
+GeometricPotentialPlotter::~GeometricPotentialPlotter() {
+  // Ensure that we do not have a thread still running with references to the
+  // members of this class when those are destroyed.
+  Interrupt();
+}
+
 void GeometricPotentialPlotter::Interrupt() {
   plotter_ = std::jthread();
   // We are single-threaded here, no need to lock.
diff --git a/ksp_plugin/geometric_potential_plotter.hpp b/ksp_plugin/geometric_potential_plotter.hpp
index 500a3bf..cb75697 100644
--- a/ksp_plugin/geometric_potential_plotter.hpp
+++ b/ksp_plugin/geometric_potential_plotter.hpp
@@ -36,6 +36,7 @@ class GeometricPotentialPlotter {
 
   explicit GeometricPotentialPlotter(
       not_null<Ephemeris<Barycentric>*> ephemeris);
+  virtual ~GeometricPotentialPlotter();
 
   // Cancel any computation in progress, causing the next call to
   // `RequestEquipotentials` to be processed as fast as possible.
-- 
2.43.0


From 2c827bb1b9c1a67160b57b775af3e4eafae9cbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:10 +0000
Subject: [PATCH 04/18] fix: an orbit analysis that fails leaves the analyser
 idle

Otherwise all the subsequent requests were ignored until the analyser got
interrupted.
---
 ksp_plugin/orbit_analyser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ksp_plugin/orbit_analyser.cpp b/ksp_plugin/orbit_analyser.cpp
index 9ffbedd..3980028 100644
--- a/ksp_plugin/orbit_analyser.cpp
+++ b/ksp_plugin/orbit_analyser.cpp
@@ -101,7 +101,12 @@ void OrbitAnalyser::RequestAnalysis(Parameters const& parameters) {
     analyser_idle_ = false;
     analyser_ = MakeStoppableThread(
         [this, parameters]() {
-          AnalyseOrbit(parameters).IgnoreError();
+          absl::Status const status = AnalyseOrbit(parameters);
+          if (!status.ok()) {
+            // No analysis was published, but the analyser is done nonetheless.
+            absl::MutexLock l(&lock_);
+            analyser_idle_ = true;
+          }
         });
   }
 }
-- 
2.43.0


From 6136d740caa932b939086cca4b853c8418bf5720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:18 +0000
Subject: [PATCH 05/18] fix: a Bundle is not notified while a task may still be
 added

A worker which saw the number of active workers drop to zero could be overtaken
by Add and Join before it read joining_, causing a notification while a task was
still active, and later a second one, which is an error.
---
 base/bundle.cpp | 19 +++++++++----------
 base/bundle.hpp |  6 +++---
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/base/bundle.cpp b/base/bundle.cpp
index 5bbef39..3dcc74f 100644
--- a/base/bundle.cpp
+++ b/base/bundle.cpp
@@ -24,7 +24,7 @@ void Bundle::Add(Task task) {
 
 absl::Status Bundle::Join() {
   joining_ = true;
-  if (number_of_active_workers_ > 0) {
+  if (--number_of_active_workers_ > 0) {
     all_done_.WaitForNotification();
   }
   JoinAll();
@@ -34,7 +34,7 @@ absl::Status Bundle::Join() {
 
 absl::Status Bundle::JoinWithin(std::chrono::steady_clock::duration Δt) {
   joining_ = true;
-  if (number_of_active_workers_ > 0 &&
+  if (--number_of_active_workers_ > 0 &&
       !all_done_.WaitForNotificationWithTimeout(absl::FromChrono(Δt))) {
     absl::MutexLock l(&status_lock_);
     status_ = absl::DeadlineExceededError("Bundle deadline exceeded");
@@ -46,7 +46,7 @@ absl::Status Bundle::JoinWithin(std::chrono::steady_clock::duration Δt) {
 
 absl::Status Bundle::JoinBefore(std::chrono::system_clock::time_point t) {
   joining_ = true;
-  if (number_of_active_workers_ > 0 &&
+  if (--number_of_active_workers_ > 0 &&
       !all_done_.WaitForNotificationWithDeadline(absl::FromChrono(t))) {
     absl::MutexLock l(&status_lock_);
     status_ = absl::DeadlineExceededError("bundle deadline exceeded");
@@ -65,13 +65,12 @@ void Bundle::Toil(Task const& task) {
     status_.Update(status);
   }
 
-  // No locking, so as to avoid contention during joining.  Note that if
-  // `joining_` is true we know that `number_of_active_workers_` cannot
-  // increase.  Reading `number_of_active_workers_` independently from the
-  // decrement would be incorrect as we must ensure that exactly one thread sees
-  // that counter dropping to zero.
-  int const number_of_active_workers = --number_of_active_workers_;
-  if (joining_ && number_of_active_workers == 0) {
+  // No locking, so as to avoid contention during joining.  The counter can only
+  // drop to zero once the joining thread has given up its own count, at which
+  // point it cannot increase.  Reading `number_of_active_workers_` independently
+  // from the decrement would be incorrect as we must ensure that exactly one
+  // thread sees that counter dropping to zero.
+  if (--number_of_active_workers_ == 0) {
     all_done_.Notify();
   }
 }
diff --git a/base/bundle.hpp b/base/bundle.hpp
index bef2bff..9f67344 100644
--- a/base/bundle.hpp
+++ b/base/bundle.hpp
@@ -56,9 +56,9 @@ class Bundle final {
   std::atomic_bool joining_ = false;
   absl::Notification all_done_;
 
-  // The number of workers currently executing.  Can only be incremented when
-  // `joining_` is false.
-  std::atomic_int number_of_active_workers_ = 0;
+  // The number of workers currently executing, plus one until `Join*` is called.
+  // Can only be incremented when `joining_` is false.
+  std::atomic_int number_of_active_workers_ = 1;
   std::list<std::thread> workers_ ABSL_GUARDED_BY(lock_);
 
   static_assert(std::atomic_bool::is_always_lock_free, "bool not lock-free");
-- 
2.43.0


From f238b2ab90285536b41f9891665bf12f5fa086c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:01 +0000
Subject: [PATCH 06/18] fix: the prediction parameters of the vessels that
 disappeared are read back from a save

---
 ksp_plugin/plugin.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ksp_plugin/plugin.cpp b/ksp_plugin/plugin.cpp
index c4c7e59..5c09191 100644
--- a/ksp_plugin/plugin.cpp
+++ b/ksp_plugin/plugin.cpp
@@ -1650,6 +1650,12 @@ not_null<std::unique_ptr<Plugin>> Plugin::ReadFromMessage(
     auto const& vessel = FindOrDie(plugin->vessels_, guid);
     plugin->part_id_to_vessel_.emplace(part_id, vessel.get());
   }
+  for (auto const& zombie_message : message.zombie()) {
+    plugin->zombie_prediction_adaptive_step_parameters_.emplace(
+        zombie_message.guid(),
+        Ephemeris<Barycentric>::AdaptiveStepParameters::ReadFromMessage(
+            zombie_message.prediction_parameters()));
+  }
 
   plugin->sun_ = FindOrDie(plugin->celestials_, message.sun_index()).get();
   plugin->main_body_ = plugin->sun_->body();
-- 
2.43.0


From 3dba807721b27b1620846b4ea7188833a6f7249a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:26 +0000
Subject: [PATCH 07/18] =?UTF-8?q?fix:=20the=20coefficient=20of=20m=C2=B2?=
 =?UTF-8?q?=20n=E2=81=B4=20of=20degree=207=20in=20the=20Maclaurin=20series?=
 =?UTF-8?q?=20of=20Fukushima's=20Js?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 numerics/elliptic_integrals.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerics/elliptic_integrals.cpp b/numerics/elliptic_integrals.cpp
index b86ae4f..0f789c7 100644
--- a/numerics/elliptic_integrals.cpp
+++ b/numerics/elliptic_integrals.cpp
@@ -422,7 +422,7 @@ PolynomialInMonomialBasis<double, double, 5>
                                            210.0 / 34816.0,
                                            240.0 / 34816.0,
                                            288.0 / 34816.0,
-                                           284.0 / 34816.0,
+                                           384.0 / 34816.0,
                                            768.0 / 34816.0});
 PolynomialInMonomialBasis<double, double, 4>
     fukushima_elliptic_Js_maclaurin_n_7_3({175.0 / 34816.0,
-- 
2.43.0


From 5226b410cf5e59dffffd0780c405d2a25377801c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:59 +0000
Subject: [PATCH 08/18] fix: on the day of a negative leap of UTC, only the end
 of the last second does not exist

---
 astronomy/time_scales_body.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/astronomy/time_scales_body.hpp b/astronomy/time_scales_body.hpp
index f07ac4c..727f332 100644
--- a/astronomy/time_scales_body.hpp
+++ b/astronomy/time_scales_body.hpp
@@ -218,6 +218,7 @@ constexpr bool IsValidStretchyUTCIfOnDayOfNegativeLeap(DateTime const& utc,
   return utc.date().next_day() != next_day ||
          utc.time().hour() < 23 ||
          utc.time().minute() < 59 ||
+         utc.time().second() < 59 ||
          utc.time().millisecond() < 1000 - milliseconds;
 }
 
-- 
2.43.0


From 343fdd4c2838ef61421f7b979be047932ebcf4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:59 +0000
Subject: [PATCH 09/18] fix: ordinal dates may have a negative year

---
 astronomy/date_time_body.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/astronomy/date_time_body.hpp b/astronomy/date_time_body.hpp
index 0bbb525..56354a6 100644
--- a/astronomy/date_time_body.hpp
+++ b/astronomy/date_time_body.hpp
@@ -112,10 +112,11 @@ constexpr Date Date::YYYYMMDD(
 constexpr Date Date::YYYYDDD(
     std::int64_t const digits,
     std::optional<_date_time::Calendar> const calendar) {
+  auto const abs_digits = digits < 0 ? -digits : digits;
   auto const sign = digits < 0 ? -1 : 1;
-  CONSTEXPR_CHECK(digits <= 9999'999);
-  return Date::Ordinal(sign * digit_range(digits, 3, 7),
-                       digit_range(digits, 0, 3),
+  CONSTEXPR_CHECK(abs_digits <= 9999'999);
+  return Date::Ordinal(sign * digit_range(abs_digits, 3, 7),
+                       digit_range(abs_digits, 0, 3),
                        calendar);
 }
 
-- 
2.43.0


From 80f01e5a3b42d5561590415200e7a32831d21e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:33 +0000
Subject: [PATCH 10/18] fix: century rule of the proleptic Gregorian calendar
 for negative years

---
 astronomy/date_time_body.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/astronomy/date_time_body.hpp b/astronomy/date_time_body.hpp
index 56354a6..aadbb9c 100644
--- a/astronomy/date_time_body.hpp
+++ b/astronomy/date_time_body.hpp
@@ -228,8 +228,11 @@ constexpr double Date::jd() const {
   if (calendar_ == Calendar::Julian) {
      B = 0;
   } else {
-    double const A = static_cast<std::int64_t>(Y / 100);
-    B = 2 - A + static_cast<std::int64_t>(A / 4);
+    // These divisions must round towards negative infinity, for years before
+    // year 0 of the proleptic Gregorian calendar.
+    int const year = Y;
+    int const A = (year - mod(year, 100)) / 100;
+    B = 2 - A + (A - mod(A, 4)) / 4;
   }
   return static_cast<std::int64_t>(365.25 * (Y + 4716)) +
          static_cast<std::int64_t>(30.6001 * (M + 1)) + D + B - 1524.5;
-- 
2.43.0


From bf63ac75a7886720e354250f50ea9b909491b973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:04 +0000
Subject: [PATCH 11/18] fix: UT1 and the Earth rotation angle are not
 extrapolated by reading past the end of EOP C04

---
 astronomy/time_scales_body.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/astronomy/time_scales_body.hpp b/astronomy/time_scales_body.hpp
index 727f332..2456bfd 100644
--- a/astronomy/time_scales_body.hpp
+++ b/astronomy/time_scales_body.hpp
@@ -423,6 +423,8 @@ constexpr Instant ExperimentalEOPC02ToEOPC04(ExperimentalEOPC02Entry const& low,
 }
 
 constexpr Instant FromUT1(Time const ut1) {
+  // The last entry has no successor, thus can only be used as an upper bound.
+  CONSTEXPR_CHECK(ut1 < eop_c04.back().ut1());
   if (ut1 < eop_c04.front().ut1()) {
     if ((LookupInExperimentalEOPC02(ut1) + 1)->ut1_mjd >
         mjd(eop_c04.front().ut1())) {
@@ -441,6 +443,8 @@ constexpr Instant FromUT1(Time const ut1) {
 constexpr Angle EarthRotationAngle(Instant const tt) {
   CONSTEXPR_CHECK(tt >= eop_c04.front().tt())
       << "EarthRotationAngle is not implemented before 1962.";
+  CONSTEXPR_CHECK(tt < eop_c04.back().tt())
+      << "EarthRotationAngle is not implemented after the end of EOP C04.";
 
   int ut1_julian_day_number_minus_2451545{};
   double const ut1_julian_day_fraction = InterpolatedEOPC04JulianDayFraction(
-- 
2.43.0


From f7b0f336f48a10172db4586b353c64939ba4c210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:02 +0000
Subject: [PATCH 12/18] fix: the imaginary part of the difference of a real and
 a complex number

---
 geometry/complexification_body.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/complexification_body.hpp b/geometry/complexification_body.hpp
index 3305f69..3642cc7 100644
--- a/geometry/complexification_body.hpp
+++ b/geometry/complexification_body.hpp
@@ -110,7 +110,7 @@ Complexification<Difference<L, Vector>> operator-(
     L const& left,
     Complexification<Vector> const& right) {
   return Complexification<Difference<L, Vector>>{left - right.real_part(),
-                                                 right.imaginary_part()};
+                                                 -right.imaginary_part()};
 }
 
 template<typename Vector, typename R>
-- 
2.43.0


From ca32f05374891b3c6539c1373cbe52a4cba54145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:19 +0000
Subject: [PATCH 13/18] fix: second derivative of the orthonormal trihedron
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The derivative of v·v̇/|v| has a term in +v·v̈, not −v·v̈.
---
 physics/rigid_reference_frame_body.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/physics/rigid_reference_frame_body.hpp b/physics/rigid_reference_frame_body.hpp
index 4da0836..269ae3d 100644
--- a/physics/rigid_reference_frame_body.hpp
+++ b/physics/rigid_reference_frame_body.hpp
@@ -299,7 +299,7 @@ void RigidReferenceFrame<InertialFrame, ThisFrame>::ComputeTrihedraDerivatives2(
                                      Variation<V> const& v̇,
                                      Variation<V, 2> const& v̈) {
     return v̈ / v.Norm() -
-           (2 * InnerProduct(v, v̇) * v̇ + (v̇.Norm²() - InnerProduct(v, v̈)) * v) /
+           (2 * InnerProduct(v, v̇) * v̇ + (v̇.Norm²() + InnerProduct(v, v̈)) * v) /
                Pow<3>(v.Norm()) +
            3 * v * Pow<2>(InnerProduct(v, v̇)) / Pow<5>(v.Norm());
   };
-- 
2.43.0


From 39fd7435962f7acdb84bc54a5f507b04a95050dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:41 +0000
Subject: [PATCH 14/18] =?UTF-8?q?fix:=20derivative=20of=20a=20polynomial?=
 =?UTF-8?q?=20of=20degree=200=20in=20the=20=D0=A7=D0=B5=D0=B1=D1=8B=D1=88?=
 =?UTF-8?q?=D1=91=D0=B2=20basis?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

It read past the end of the coefficients.
---
 ...65\320\261\321\213\321\210\321\221\320\262_basis_body.hpp" | 4 ++++
 1 file changed, 4 insertions(+)

diff --git "a/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp" "b/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
index ab1efe9..95a683b 100644
--- "a/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
+++ "b/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
@@ -190,6 +190,10 @@ PolynomialInЧебышёвBasis<Value_, Argument_, degree_>::EvaluateDerivative(
   DCHECK_LE(scaled_argument, 1.1);
   DCHECK_GE(scaled_argument, -1.1);
 
+  if constexpr (degree_ == 0) {
+    return {};
+  }
+
   Value bₖ₊₂{};
   Value bₖ₊₁{};
   for (int k = degree_ - 1; k >= 1; --k) {
-- 
2.43.0


From 1f2db5c467d9901edae28224e256e75909316b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:27 +0000
Subject: [PATCH 15/18] fix: backward adaptive integration with an inexact last
 step dropped the first step as an overshoot

---
 ...eneralized_runge_kutta_nystr\303\266m_integrator_body.hpp" | 4 +++-
 integrators/embedded_explicit_runge_kutta_integrator_body.hpp | 4 +++-
 ...d_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp" | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git "a/integrators/embedded_explicit_generalized_runge_kutta_nystr\303\266m_integrator_body.hpp" "b/integrators/embedded_explicit_generalized_runge_kutta_nystr\303\266m_integrator_body.hpp"
index b06962d..f2e979b 100644
--- "a/integrators/embedded_explicit_generalized_runge_kutta_nystr\303\266m_integrator_body.hpp"
+++ "b/integrators/embedded_explicit_generalized_runge_kutta_nystr\303\266m_integrator_body.hpp"
@@ -229,7 +229,9 @@ absl::Status EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<
 
     status.Update(step_status);
 
-    if (!parameters.last_step_is_exact && t.value + (t.error + h) > t_final) {
+    if (!parameters.last_step_is_exact &&
+        integration_direction * h >
+            integration_direction * ((t_final - t.value) - t.error)) {
       // We did overshoot.  Drop the point that we just computed and exit.
       final_state = current_state;
       break;
diff --git a/integrators/embedded_explicit_runge_kutta_integrator_body.hpp b/integrators/embedded_explicit_runge_kutta_integrator_body.hpp
index 1b531f3..7e3bfce 100644
--- a/integrators/embedded_explicit_runge_kutta_integrator_body.hpp
+++ b/integrators/embedded_explicit_runge_kutta_integrator_body.hpp
@@ -227,7 +227,9 @@ Solve(typename ODE::IndependentVariable const& s_final) {
 
     status.Update(step_status);
 
-    if (!parameters.last_step_is_exact && s.value + (s.error + h) > s_final) {
+    if (!parameters.last_step_is_exact &&
+        integration_direction * h >
+            integration_direction * ((s_final - s.value) - s.error)) {
       // We did overshoot.  Drop the point that we just computed and exit.
       final_state = current_state;
       break;
diff --git "a/integrators/embedded_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp" "b/integrators/embedded_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp"
index 05b85a1..a334c52 100644
--- "a/integrators/embedded_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp"
+++ "b/integrators/embedded_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp"
@@ -221,7 +221,9 @@ Instance::Solve(Instant const& t_final) {
 
     status.Update(step_status);
 
-    if (!parameters.last_step_is_exact && t.value + (t.error + h) > t_final) {
+    if (!parameters.last_step_is_exact &&
+        integration_direction * h >
+            integration_direction * ((t_final - t.value) - t.error)) {
       // We did overshoot.  Drop the point that we just computed and exit.
       final_state = current_state;
       break;
-- 
2.43.0


From c59594b370d4df2cc2707798e7a12dd28d8af1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:21 +0000
Subject: [PATCH 16/18] fix: do not return a reference to an element that
 another client may erase

---
 physics/clientele.hpp      | 2 +-
 physics/clientele_body.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/physics/clientele.hpp b/physics/clientele.hpp
index c1520c0..94be37d 100644
--- a/physics/clientele.hpp
+++ b/physics/clientele.hpp
@@ -26,7 +26,7 @@ class Clientele {
   void Leave(Key const& key);
 
   // Returns the smallest key of all clients currently in this object.
-  Key const& first() const;
+  Key first() const;
 
  private:
   Key const default_key_;
diff --git a/physics/clientele_body.hpp b/physics/clientele_body.hpp
index 5917bfb..bef3e18 100644
--- a/physics/clientele_body.hpp
+++ b/physics/clientele_body.hpp
@@ -26,7 +26,7 @@ void Clientele<Key>::Leave(Key const& key) {
 }
 
 template<typename Key>
-Key const& Clientele<Key>::first() const {
+Key Clientele<Key>::first() const {
   absl::MutexLock l(&lock_);
   if (auto const it = clients_.begin(); it == clients_.end()) {
     return default_key_;
-- 
2.43.0


From 75abdb3a9c8d180697213f4272f4d7d39f53c5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:21 +0000
Subject: [PATCH 17/18] fix: lock before looking at the polynomials to convert

---
 physics/continuous_trajectory_body.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/physics/continuous_trajectory_body.hpp b/physics/continuous_trajectory_body.hpp
index 6964967..43dbab1 100644
--- a/physics/continuous_trajectory_body.hpp
+++ b/physics/continuous_trajectory_body.hpp
@@ -248,7 +248,6 @@ ContinuousTrajectory<Frame>::ToPiecewisePoissonSeries(
   static_assert(aperiodic_degree >= min_degree &&
                 aperiodic_degree <= max_degree);
   // No check on the periodic degree, it plays no role here.
-  CHECK(!polynomials_.empty());
   using PiecewisePoisson =
       PiecewisePoissonSeries<Displacement<Frame>,
                              aperiodic_degree, periodic_degree,
@@ -301,6 +300,7 @@ ContinuousTrajectory<Frame>::ToPiecewisePoissonSeries(
   std::unique_ptr<PiecewisePoisson> result;
 
   absl::ReaderMutexLock l(&lock_);
+  CHECK(!polynomials_.empty());
   auto const it_min = FindPolynomialForInstantLocked(t_min);
   auto const it_max = FindPolynomialForInstantLocked(t_max);
   Instant current_t_min = t_min;
-- 
2.43.0


From 21e39d6f96a0cf481baea6ff42b37e3dfe19d83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:21 +0000
Subject: [PATCH 18/18] fix: make the index of the last polynomial atomic, as
 it is written by concurrent lookups

---
 physics/continuous_trajectory.hpp      | 7 +++++--
 physics/continuous_trajectory_body.hpp | 9 ++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/physics/continuous_trajectory.hpp b/physics/continuous_trajectory.hpp
index 19d8781..0b487de 100644
--- a/physics/continuous_trajectory.hpp
+++ b/physics/continuous_trajectory.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <atomic>
 #include <memory>
 #include <optional>
 #include <utility>
@@ -243,8 +244,10 @@ class ContinuousTrajectory : public Trajectory<Frame> {
   // multithreading it may be that different threads would want to access
   // polynomials at different indices, but by and large the threads progress in
   // parallel, and benchmarks show that there is no adverse performance effects.
-  // Any value in the range of `polynomials_` or 0 is correct.
-  mutable std::int64_t last_accessed_polynomial_ ABSL_GUARDED_BY(lock_) = 0;
+  // Any value in the range of `polynomials_` or 0 is correct.  This member is
+  // atomic because it is written by lookups, which only hold `lock_` shared (or
+  // rely on the lock of the `Ephemeris`).
+  mutable std::atomic<std::int64_t> last_accessed_polynomial_ = 0;
 
   // The time at which this trajectory starts.  Set for a nonempty trajectory.
   std::optional<Instant> first_time_ ABSL_GUARDED_BY(lock_);
diff --git a/physics/continuous_trajectory_body.hpp b/physics/continuous_trajectory_body.hpp
index 43dbab1..bc43846 100644
--- a/physics/continuous_trajectory_body.hpp
+++ b/physics/continuous_trajectory_body.hpp
@@ -3,6 +3,7 @@
 #include "physics/continuous_trajectory.hpp"
 
 #include <algorithm>
+#include <atomic>
 #include <limits>
 #include <memory>
 #include <optional>
@@ -144,7 +145,7 @@ void ContinuousTrajectory<Frame>::Prepend(ContinuousTrajectory&& prefix) {
     degree_ = prefix.degree_;
     degree_age_ = prefix.degree_age_;
     polynomials_ = std::move(prefix.polynomials_);
-    last_accessed_polynomial_ = prefix.last_accessed_polynomial_;
+    last_accessed_polynomial_ = prefix.last_accessed_polynomial_.load();
     first_time_ = prefix.first_time_;
     last_points_ = prefix.last_points_;
   } else {
@@ -864,7 +865,8 @@ ContinuousTrajectory<Frame>::FindPolynomialForInstantLocked(
   // This returns the first polynomial `p` such that `time <= p.t_max`.
   {
     auto const begin = polynomials_.begin();
-    auto const it = begin + last_accessed_polynomial_;
+    auto const it =
+        begin + last_accessed_polynomial_.load(std::memory_order_relaxed);
     if (it != polynomials_.end() && time <= it->t_max &&
         (it == begin || std::prev(it)->t_max < time)) {
       return it;
@@ -879,7 +881,8 @@ ContinuousTrajectory<Frame>::FindPolynomialForInstantLocked(
                             Instant const& right) {
                            return left.t_max < right;
                          });
-    last_accessed_polynomial_ = it - polynomials_.begin();
+    last_accessed_polynomial_.store(it - polynomials_.begin(),
+                                    std::memory_order_relaxed);
     return it;
   }
 }
-- 
2.43.0

