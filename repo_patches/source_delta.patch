From d6027060fd229ed03a9cdb4c39c365088b20cacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:28 +0000
Subject: [PATCH 01/24] fix: num_samples counts one sample for an empty
 Timestamp interval

(total_time - 1) / max_abs_dt truncates towards zero when total_time is zero, so
an empty interval was reported to need two samples unless the step was 1ns.
---
 resim/time/sample_interval.cc | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/resim/time/sample_interval.cc b/resim/time/sample_interval.cc
index 4d842c1..bc1938b 100644
--- a/resim/time/sample_interval.cc
+++ b/resim/time/sample_interval.cc
@@ -62,22 +62,14 @@ int64_t num_samples(
   //
   // max_abs_dt * (n - 1) >= total_time
   //
-  // Since this is an integer equation (with things wrapped in Durations), this
-  // is equivalent to:
-  //
-  // max_abs_dt * (n - 1) > total_time - 1
-  //
-  // So:
-  //
-  // n > (total_time - 1) / max_abs_dt + 1
-  //
-  // So we can define:
-  //
-  // n = (total_time - 1) / max_abs_dt + 2
-  //
+  // So n - 1 is total_time / max_abs_dt, rounded up.
+  const int64_t intervals =
+      total_time.count() / max_abs_dt.count() +
+      ((total_time.count() % max_abs_dt.count() == 0) ? 0 : 1);
+
   // This sum could oveflow if max_abs_dt.count() == 1 and total_time.count() ==
   // INT64_MAX
-  return math::safe_sum((total_time.count() - 1) / max_abs_dt.count(), 2);
+  return math::safe_sum(intervals, int64_t{1});
 }
 
 void sample_interval(
-- 
2.43.0


From 9008012ae638bed7ed07995b158be754c7e24854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:39 +0000
Subject: [PATCH 02/24] fix: round to the nearest Timestamp when sampling an
 interval backwards

The remainder is negative when end_time precedes start_time, so the sample
positions were always rounded towards start_time.
---
 resim/time/sample_interval.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resim/time/sample_interval.cc b/resim/time/sample_interval.cc
index bc1938b..5d1be56 100644
--- a/resim/time/sample_interval.cc
+++ b/resim/time/sample_interval.cc
@@ -83,9 +83,10 @@ void sample_interval(
   }
   const int64_t samples = num_samples(start_time, end_time, max_abs_dt);
   const int64_t intervals = samples - 1;
-  const Duration total_time{math::safe_difference(
+  const Duration total_time{math::safe_abs(math::safe_difference(
       end_time.time_since_epoch().count(),
-      start_time.time_since_epoch().count())};
+      start_time.time_since_epoch().count()))};
+  const int64_t direction = (start_time < end_time) ? 1 : -1;
 
   // When we divide the range into perfect intervals, we get rational
   // samples. We track the locations of these rational samples using a
@@ -103,7 +104,7 @@ void sample_interval(
     // Should never overflow since rounded will be less than or equal to
     // total_time.
     const int64_t rounded = whole + ((2 * numerator >= intervals) ? 1 : 0);
-    const Duration time{rounded};
+    const Duration time{direction * rounded};
 
     func(start_time + time);
 
-- 
2.43.0


From 19b97a6fc354a374cd59e214716e4c8b091a2d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:57 +0000
Subject: [PATCH 03/24] fix: don't overflow when sampling Timestamp intervals
 close to the limits

Adding the numerator to the whole span overflowed (and threw) for spans close to
INT64_MAX, and the increment after the last sample computed a position beyond the
end of the interval.
---
 resim/time/sample_interval.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/resim/time/sample_interval.cc b/resim/time/sample_interval.cc
index 5d1be56..688a166 100644
--- a/resim/time/sample_interval.cc
+++ b/resim/time/sample_interval.cc
@@ -108,8 +108,14 @@ void sample_interval(
 
     func(start_time + time);
 
+    // Don't step past the end since that position may not be representable.
+    if (ii == intervals) {
+      break;
+    }
+
     // Increment
-    numerator = math::safe_sum(numerator, total_time.count());
+    whole += total_time.count() / intervals;
+    numerator = math::safe_sum(numerator, total_time.count() % intervals);
 
     // Restore the mixed number
     whole += numerator / intervals;
-- 
2.43.0


From e7de8e62659b4288c5318ce2fb0871fd3984d522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:51 +0000
Subject: [PATCH 04/24] fix: num_samples for doubles no longer truncates the
 count to an int

Counts above 2^31 overflowed the cast, a nonempty interval whose quotient
underflows was reported to need a single sample (and then sampled at NaN), and
counts which can't be represented at all went unnoticed.
---
 resim/time/sample_interval.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/resim/time/sample_interval.cc b/resim/time/sample_interval.cc
index 688a166..d7ddb9d 100644
--- a/resim/time/sample_interval.cc
+++ b/resim/time/sample_interval.cc
@@ -6,7 +6,9 @@
 
 #include "resim/time/sample_interval.hh"
 
+#include <algorithm>
 #include <cmath>
+#include <limits>
 
 #include "resim/assert/assert.hh"
 #include "resim/math/safe_integer_utils.hh"
@@ -29,7 +31,13 @@ int64_t num_samples(double start_time, double end_time, double max_abs_dt) {
   //
   // n = ceil(total_time / max_abs_dt) + 1
   //
-  return static_cast<int>(std::ceil(total_time / max_abs_dt)) + 1;
+  // Note that the quotient may underflow to zero for a nonempty interval.
+  const double intervals =
+      std::max(std::ceil(total_time / max_abs_dt), total_time > 0. ? 1. : 0.);
+  REASSERT(
+      intervals < static_cast<double>(std::numeric_limits<int64_t>::max()),
+      "Too many samples!");
+  return static_cast<int64_t>(intervals) + 1;
 }
 
 void sample_interval(
-- 
2.43.0


From 0c5eb08b3229c112023faa8a73bbafeebc66ae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:17 +0000
Subject: [PATCH 05/24] fix: as_duration rounds to the nearest nanosecond

Truncation made as_duration(as_seconds(d)) differ from d for many durations which
docs and code rely on converting without loss (e.g. 2082494ns).
---
 resim/time/timestamp.hh | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/resim/time/timestamp.hh b/resim/time/timestamp.hh
index 89dd585..8c21c3a 100644
--- a/resim/time/timestamp.hh
+++ b/resim/time/timestamp.hh
@@ -26,10 +26,9 @@ constexpr double as_seconds(const Duration duration) {
   return std::chrono::duration<double>(duration).count();
 }
 
-// Create a duration from seconds as a double
+// Create the closest duration to the given seconds as a double
 constexpr Duration as_duration(const double t_s) {
-  return std::chrono::duration_cast<Duration>(
-      std::chrono::duration<double>(t_s));
+  return std::chrono::round<Duration>(std::chrono::duration<double>(t_s));
 }
 
 // A timestamp represented as integer seconds and nanoseconds. This
-- 
2.43.0


From f38914650c637bb8167ccb666acb8dca008987a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:25 +0000
Subject: [PATCH 06/24] fix: se3_distance accounts for differing orientations

The translations of a_from_ref and b_from_ref live in different frames, so their
difference isn't the translation of a_from_b unless the rotations agree.
---
 resim/transforms/se3.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/resim/transforms/se3.cc b/resim/transforms/se3.cc
index f63d57e..e5cdb2d 100644
--- a/resim/transforms/se3.cc
+++ b/resim/transforms/se3.cc
@@ -266,7 +266,11 @@ template SE3 SE3::exp(const TangentVector &, Frame3 &&, const Frame3 &);
 
 double se3_distance(const SE3 &a_from_ref, const SE3 &b_from_ref) {
   REASSERT(a_from_ref.from() == b_from_ref.from(), "From frames must match");
-  return (a_from_ref.translation() - b_from_ref.translation()).norm();
+  // The translations are expressed in two different frames, so bring both into
+  // the reference frame before comparing them.
+  return (a_from_ref.rotation().inverse() * a_from_ref.translation() -
+          b_from_ref.rotation().inverse() * b_from_ref.translation())
+      .norm();
 }
 
 double se3_inverse_distance(const SE3 &ref_from_a, const SE3 &ref_from_b) {
-- 
2.43.0


From 23dbe9002a865a40e15b553e3104895d23a47df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:38 +0000
Subject: [PATCH 07/24] fix: reject NaN query times in TCurve::point_at

NaN passed the range check and gave a pose made of NaNs.
---
 resim/curves/t_curve.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resim/curves/t_curve.cc b/resim/curves/t_curve.cc
index 4e5a719..341ef40 100644
--- a/resim/curves/t_curve.cc
+++ b/resim/curves/t_curve.cc
@@ -139,8 +139,9 @@ typename TCurve<Group>::PointAtData TCurve<Group>::point_at_impl(
   REASSERT(!segments_.empty(), EMPTY_ERR);
   constexpr auto TIME_RANGE_ERR =
       "Query time must be within the range of times in the control points.";
-  const bool time_lo = time < control_pts_.front().time;
-  const bool time_hi = time > control_pts_.back().time;
+  // Written such that a NaN time is considered to be out of range.
+  const bool time_lo = !(time >= control_pts_.front().time);
+  const bool time_hi = !(time <= control_pts_.back().time);
   REASSERT(!time_lo && !time_hi, TIME_RANGE_ERR);
   const auto s = std::lower_bound(
       segments_.begin(),
-- 
2.43.0


From ff86f24f6d2921036117a2e55cb03f9933b65da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:28 +0000
Subject: [PATCH 08/24] fix: reject end time and duration queries of an empty
 trajectory

They read the last control point without checking that there is one.
---
 resim/actor/state/trajectory.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resim/actor/state/trajectory.cc b/resim/actor/state/trajectory.cc
index 1375305..30b989a 100644
--- a/resim/actor/state/trajectory.cc
+++ b/resim/actor/state/trajectory.cc
@@ -73,7 +73,8 @@ time::Timestamp Trajectory::end_time() const {
 }
 
 time::Duration Trajectory::time_duration() const {
-  return time::as_duration(curve_.control_pts().back().time);
+  // Checks that there is at least one control point.
+  return time::as_duration(curve_.end_time());
 }
 
 const Frame &Trajectory::reference_frame() const {
-- 
2.43.0


From 8e16e3dfb5da5a97c4933cc11f83326d05617b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:42 +0000
Subject: [PATCH 09/24] fix: reject UUID strings that continue after a null
 character

---
 resim/utils/uuid.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resim/utils/uuid.cc b/resim/utils/uuid.cc
index fd9d817..2bb5d63 100644
--- a/resim/utils/uuid.cc
+++ b/resim/utils/uuid.cc
@@ -22,6 +22,10 @@ UUID::UUID(std::array<unsigned char, ARRAY_SIZE> id) : id_(id) {}
 
 UUID::UUID(const std::string &str) : id_{} {
   constexpr int SUCCESS = 0;
+  // The uuid library stops at the first null character, so check the length
+  // here to reject strings with anything beyond it.
+  constexpr std::size_t LENGTH = 36;
+  REASSERT(str.size() == LENGTH, "Invalid UUID string!");
   const int result = uuid_parse(str.c_str(), id_.data());
   REASSERT(SUCCESS == result, "Invalid UUID string!");
 }
-- 
2.43.0


From 031187a67efbe962f3922768d6e72094c81b0c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:24 +0000
Subject: [PATCH 10/24] fix: reject trajectory messages whose start time
 doesn't fit in a Timestamp

---
 resim/actor/state/proto/BUILD                  |  1 +
 resim/actor/state/proto/trajectory_to_proto.cc | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/resim/actor/state/proto/BUILD b/resim/actor/state/proto/BUILD
index 521edea..ca85203 100644
--- a/resim/actor/state/proto/BUILD
+++ b/resim/actor/state/proto/BUILD
@@ -33,6 +33,7 @@ cc_library(
         "//resim/actor/state:trajectory",
         "//resim/assert",
         "//resim/curves/proto:t_curve_se3_to_proto",
+        "//resim/math:safe_integer_utils",
         "//resim/time:timestamp",
         "//resim/utils:inout",
     ],
diff --git a/resim/actor/state/proto/trajectory_to_proto.cc b/resim/actor/state/proto/trajectory_to_proto.cc
index 432f629..8755521 100644
--- a/resim/actor/state/proto/trajectory_to_proto.cc
+++ b/resim/actor/state/proto/trajectory_to_proto.cc
@@ -6,11 +6,15 @@
 
 #include "resim/actor/state/proto/trajectory_to_proto.hh"
 
+#include <cstdint>
+#include <ratio>
+
 #include "google/protobuf/timestamp.pb.h"
 #include "resim/actor/state/proto/trajectory.pb.h"
 #include "resim/actor/state/trajectory.hh"
 #include "resim/assert/assert.hh"
 #include "resim/curves/proto/t_curve_se3_to_proto.hh"
+#include "resim/math/safe_integer_utils.hh"
 #include "resim/time/timestamp.hh"
 
 namespace resim::actor::state::proto {
@@ -28,8 +32,15 @@ void pack(const state::Trajectory &in, Trajectory *const out) {
 }
 
 state::Trajectory unpack(const Trajectory &in) {
-  time::Timestamp start_time{time::from_seconds_and_nanos(
-      {in.start_time().seconds(), in.start_time().nanos()})};
+  // Make sure that the start time can be represented in nanoseconds
+  constexpr int64_t MAX_SECS =
+      time::to_seconds_and_nanos(time::Duration::max()).secs;
+  const int64_t secs{in.start_time().seconds()};
+  REASSERT(
+      -MAX_SECS <= secs and secs <= MAX_SECS,
+      "Trajectory start time out of range!");
+  const time::Timestamp start_time{time::Duration{
+      math::safe_sum(secs * std::nano::den, in.start_time().nanos())}};
   return state::Trajectory(unpack(in.curve()), start_time);
 }
 
-- 
2.43.0


From e294665425d40be9d3171bb3369269456dce9ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:23 +0000
Subject: [PATCH 11/24] fix: store the token when the token path has no parent
 directory

---
 resim/auth/device_code_client.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resim/auth/device_code_client.cc b/resim/auth/device_code_client.cc
index 640eec4..2748b52 100644
--- a/resim/auth/device_code_client.cc
+++ b/resim/auth/device_code_client.cc
@@ -72,7 +72,10 @@ void DeviceCodeClient::refresh() {
 }
 
 void DeviceCodeClient::save_token() {
-  std::filesystem::create_directories(config_.token_path.parent_path());
+  const std::filesystem::path directory{config_.token_path.parent_path()};
+  if (not directory.empty()) {
+    std::filesystem::create_directories(directory);
+  }
   std::ofstream token_stream;
   token_stream.open(config_.token_path);
   token_stream << token_;
-- 
2.43.0


From f268dbb12c2919e5f86488aeb7016392e902ec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:23 +0000
Subject: [PATCH 12/24] fix: replace the stored token atomically

---
 resim/auth/device_code_client.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/resim/auth/device_code_client.cc b/resim/auth/device_code_client.cc
index 2748b52..9da19cb 100644
--- a/resim/auth/device_code_client.cc
+++ b/resim/auth/device_code_client.cc
@@ -76,10 +76,19 @@ void DeviceCodeClient::save_token() {
   if (not directory.empty()) {
     std::filesystem::create_directories(directory);
   }
+  // Write to a temporary file first so that an incomplete token can never end
+  // up in the token path.
+  std::filesystem::path temporary_path{config_.token_path};
+  temporary_path += ".tmp";
   std::ofstream token_stream;
-  token_stream.open(config_.token_path);
+  token_stream.open(temporary_path);
   token_stream << token_;
   token_stream.close();
+  if (token_stream.good()) {
+    std::filesystem::rename(temporary_path, config_.token_path);
+  } else {
+    std::filesystem::remove(temporary_path);
+  }
 }
 
 void DeviceCodeClient::load_token() {
-- 
2.43.0


From 919a5d6e6bb14ef7fc14ac5cfab4c307bcf97e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:23 +0000
Subject: [PATCH 13/24] fix: fetch a new token if the stored one is empty or
 can't be read

---
 resim/auth/device_code_client.cc | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/resim/auth/device_code_client.cc b/resim/auth/device_code_client.cc
index 9da19cb..3edd221 100644
--- a/resim/auth/device_code_client.cc
+++ b/resim/auth/device_code_client.cc
@@ -93,15 +93,18 @@ void DeviceCodeClient::save_token() {
 
 void DeviceCodeClient::load_token() {
   const bool token_exists = std::filesystem::exists(config_.token_path);
-  if (not token_exists) {
-    fetch_token();
-    save_token();
-    return;
+  if (token_exists) {
+    std::ostringstream token_ss;
+    std::ifstream token_is{config_.token_path};
+    token_ss << token_is.rdbuf();
+    // This fails if the file is empty or could not be read completely.
+    if (token_ss.good()) {
+      token_ = token_ss.str();
+      return;
+    }
   }
-  std::ostringstream token_ss;
-  std::ifstream token_is{config_.token_path};
-  token_ss << token_is.rdbuf();
-  token_ = token_ss.str();
+  fetch_token();
+  save_token();
 }
 
 void DeviceCodeClient::fetch_token() {
-- 
2.43.0


From 97e78177fbc898cb760f8a64c25418866c488b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:33 +0000
Subject: [PATCH 14/24] fix: send a viewed object under the same lock it is
 stored under

Another thread could send it in the meantime, and if that failed, the view call
which had stored it returned as if its object had been delivered.
---
 resim/visualization/view.cc | 38 ++++++++++++++++++++-----------------
 resim/visualization/view.hh |  4 ++++
 2 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/resim/visualization/view.cc b/resim/visualization/view.cc
index 6da8b9c..9f4ebce 100644
--- a/resim/visualization/view.cc
+++ b/resim/visualization/view.cc
@@ -72,29 +72,33 @@ template View &View::operator<< <FramedVector>(const FramedVector &subject);
 
 template <typename T>
 void View::view_object(ViewObject<T> view_object) {
-  {
-    // In a separate scope since flush() needs this lock
-    std::lock_guard<std::mutex> guard{primitives_mutex_};
-
-    // We simply push the primitivies in here without packing
-    // them. The whole ViewUpdate will be packed by the ViewClient.
-    // The user defined name is an std::optional so the existence
-    // of a value i.e. a custom name is not cared about here.
-    primitives_.emplace_back(ViewPrimitive{
-        .id = UUID::new_uuid(),
-        .payload = view_object.the_object,
-        .user_defined_name = view_object.user_defined_name,
-        .file_name = view_object.file_name,
-        .line_number = view_object.line_number,
-    });
-  }
+  // Hold the lock until the primitive has been sent. Otherwise, another thread
+  // could send it on our behalf and we wouldn't notice if that failed.
+  std::lock_guard<std::mutex> guard{primitives_mutex_};
+
+  // We simply push the primitivies in here without packing
+  // them. The whole ViewUpdate will be packed by the ViewClient.
+  // The user defined name is an std::optional so the existence
+  // of a value i.e. a custom name is not cared about here.
+  primitives_.emplace_back(ViewPrimitive{
+      .id = UUID::new_uuid(),
+      .payload = view_object.the_object,
+      .user_defined_name = view_object.user_defined_name,
+      .file_name = view_object.file_name,
+      .line_number = view_object.line_number,
+  });
+
   // Currently, we pack each primitive into its own update and send eagerly to
   // the view server.
-  flush();
+  send_primitives();
 }
 
 void View::flush() {
   std::lock_guard<std::mutex> guard{primitives_mutex_};
+  send_primitives();
+}
+
+void View::send_primitives() {
   REASSERT(client_ != nullptr, "No client interface set!");
   Status send_status = client_->send_view_update(ViewUpdate{
       .primitives = std::move(primitives_),
diff --git a/resim/visualization/view.hh b/resim/visualization/view.hh
index 5542616..0046679 100644
--- a/resim/visualization/view.hh
+++ b/resim/visualization/view.hh
@@ -135,6 +135,10 @@ class View {
   // Default constructor used by get_instance() above.
   View();
 
+  // Helper for flush() and view_object() which does the actual sending. The
+  // caller must hold primitives_mutex_.
+  void send_primitives();
+
   // Set the client pointer
   // @param[in] The new client.
   void set_client(std::unique_ptr<ViewClientInterface> &&client);
-- 
2.43.0


From 61dce38944f6f91c98ce7e24a1962b5522066ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:07 +0000
Subject: [PATCH 15/24] fix: evaluate the argument of CHECK_STATUS_OK only once

---
 resim/utils/status.hh | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/resim/utils/status.hh b/resim/utils/status.hh
index c46ff2f..facd413 100644
--- a/resim/utils/status.hh
+++ b/resim/utils/status.hh
@@ -79,14 +79,15 @@ constexpr Status OKAY_STATUS{};
 
 // Define a macro to check that a given status is okay.
 // NOLINTNEXTLINE(cppcoreguidelines-macro-usage)
-#define CHECK_STATUS_OK(status)       \
-  ({                                  \
-    const auto err_msg = fmt::format( \
-        fg(fmt::color::red),          \
-        "{{{0}.what() == {1}}}",      \
-        #status,                      \
-        (status).what());             \
-    REASSERT((status).ok(), err_msg); \
+#define CHECK_STATUS_OK(status)                    \
+  ({                                               \
+    const resim::Status checked_status = (status); \
+    const auto err_msg = fmt::format(              \
+        fg(fmt::color::red),                       \
+        "{{{0}.what() == {1}}}",                   \
+        #status,                                   \
+        checked_status.what());                    \
+    REASSERT(checked_status.ok(), err_msg);        \
   })
 
 // Return from the enclosing function if the given status result is not ok.
-- 
2.43.0


From acbc387f0f4207f9b808333cd598b911f2d0e091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:29 +0000
Subject: [PATCH 16/24] fix: RETURN_OR_ASSIGN no longer uses temporaries after
 their destruction

---
 resim/utils/status_value.hh | 42 ++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/resim/utils/status_value.hh b/resim/utils/status_value.hh
index 3d73fc6..5ce6c5c 100644
--- a/resim/utils/status_value.hh
+++ b/resim/utils/status_value.hh
@@ -146,22 +146,40 @@ constexpr const Status &StatusValue<T>::status() const {
       [](const Status &status) -> const Status & { return status; });
 }
 
+namespace detail {
+
+// A helper for RETURN_OR_ASSIGN() which carries a StatusValue, or a reference
+// to one, out of the statement expression it's evaluated in. If it carries a
+// StatusValue (because the argument was a temporary), value() returns by value
+// so that users don't get a reference to something about to be destroyed.
+template <typename StatusValueType>
+struct StatusValueCarrier {
+  using ReturnType = typename std::conditional_t<
+      std::is_reference_v<StatusValueType>,
+      decltype(std::declval<StatusValueType>().value()),
+      typename std::decay_t<StatusValueType>::ValueType>;
+
+  ReturnType value() && {
+    return std::forward<StatusValueType>(status_value).value();
+  }
+
+  StatusValueType status_value;
+};
+
+}  // namespace detail
+
 // Return from the enclosing function if the given status result is not
 // ok. Otherwise, assign the value as the value of this expression. We don't
 // really have a choice but to use the GNU statement expression extension here
-// unless we pass the assignment target in too. We use the lambda because
+// unless we pass the assignment target in too. We use the carrier because
 // otherwise the statement expression doesn't preserve references.
 // NOLINTNEXTLINE(cppcoreguidelines-macro-usage)
-#define RETURN_OR_ASSIGN(status_value)                        \
-  ({                                                          \
-    auto &&evalutated_status_value =                          \
-        std::forward<decltype(status_value)>(status_value);   \
-    RETURN_IF_NOT_OK(evalutated_status_value.status());       \
-    [&]() -> decltype(auto) {                                 \
-      return std::forward<decltype(evalutated_status_value)>( \
-                 evalutated_status_value)                     \
-          .value();                                           \
-    };                                                        \
-  })()
+#define RETURN_OR_ASSIGN(status_value)                                   \
+  ({                                                                     \
+    decltype((status_value)) evaluated_status_value = (status_value);    \
+    RETURN_IF_NOT_OK(evaluated_status_value.status());                   \
+    resim::detail::StatusValueCarrier<decltype((status_value))>{         \
+        std::forward<decltype((status_value))>(evaluated_status_value)}; \
+  }).value()
 
 }  // namespace resim
-- 
2.43.0


From 26c34d55e8964b12f6e9effa7df91be7d2f770da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:34 +0000
Subject: [PATCH 17/24] fix: scale the Gaussian's eigenvalue tolerance with the
 magnitude of the covariance

---
 resim/math/multivariate_gaussian.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/resim/math/multivariate_gaussian.cc b/resim/math/multivariate_gaussian.cc
index 7e33f75..f86f002 100644
--- a/resim/math/multivariate_gaussian.cc
+++ b/resim/math/multivariate_gaussian.cc
@@ -59,11 +59,10 @@ typename Gaussian::SamplesMat Gaussian::iid_samples(unsigned int n) {
 void Gaussian::sanitize_eigenvalues() {
   constexpr double TOL_BASE = 1e-15;
   // We need to scale our tolerance according to the scale of the covariance
-  // matrix. Broadly, covariance matrices with wider ranging values deserve
-  // wider tolerance. There may be a more principled way to do this than the
-  // method below, however this performs sufficiently well on our test cases.
+  // matrix, because the solver's errors are proportional to the magnitude of
+  // its values and grow with its size.
   const double tol =
-      std::max((cov_.maxCoeff() - cov_.minCoeff()) * TOL_BASE, TOL_BASE);
+      std::max(cov_.cwiseAbs().maxCoeff() * dims_ * TOL_BASE, TOL_BASE);
   constexpr auto EIGENVALS_ERR =
       "Symmetric PSD matrices have positive eigenvalues";
   REASSERT(eigenvalues_.minCoeff() > -tol, EIGENVALS_ERR);
-- 
2.43.0


From d70f25a4394b95e830f8913a4636767764617c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:17 +0000
Subject: [PATCH 18/24] fix: set_frames with the object's own frames as
 arguments no longer loses one of them

---
 resim/transforms/liegroup.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resim/transforms/liegroup.hh b/resim/transforms/liegroup.hh
index dc3fce5..b34de81 100644
--- a/resim/transforms/liegroup.hh
+++ b/resim/transforms/liegroup.hh
@@ -60,8 +60,11 @@ class LieGroup {
         "unframed "
         "use set_unframed()";
     REASSERT(!(into.is_null() or from.is_null()), NULL_FRAME_ERR);
+    // The arguments may refer to this object's own frames, so copy them both
+    // before either of those changes.
+    Frame<DIMS> new_from{from};
     into_ = into;
-    from_ = from;
+    from_ = std::move(new_from);
   }
 
   void set_unframed() {
-- 
2.43.0


From 1bf7f5fef815ad1c23220830af2ef8dbb05efce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:17 +0000
Subject: [PATCH 19/24] fix: DCurve::point_at at the start of a curve whose
 first two points coincide

---
 resim/curves/d_curve.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/resim/curves/d_curve.cc b/resim/curves/d_curve.cc
index faa6036..dc1c94d 100644
--- a/resim/curves/d_curve.cc
+++ b/resim/curves/d_curve.cc
@@ -132,8 +132,13 @@ typename DCurve<Group>::PointAtData DCurve<Group>::point_at_impl(
       });
   REASSERT(s != segments_.end(), "Did not find valid segment.");
 
-  const double fraction = (arc_length - s->orig_arc_length) /
-                          (s->dest_arc_length - s->orig_arc_length);
+  // The segment has no length if its end points coincide. In that case, the
+  // query must be at the start of the curve.
+  const double segment_length = s->dest_arc_length - s->orig_arc_length;
+  const double fraction =
+      segment_length > ZERO
+          ? (arc_length - s->orig_arc_length) / segment_length
+          : ZERO;
   return {.fraction = fraction, .s = s};
 }
 
-- 
2.43.0


From 7a708ce01d964be0eddd26871a0e890d4f8bfce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:17 +0000
Subject: [PATCH 20/24] fix: clients storing tokens at the same time no longer
 share a temporary file

---
 resim/auth/device_code_client.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/resim/auth/device_code_client.cc b/resim/auth/device_code_client.cc
index 3edd221..0bcde78 100644
--- a/resim/auth/device_code_client.cc
+++ b/resim/auth/device_code_client.cc
@@ -8,10 +8,13 @@
 
 #include <cpr/cpr.h>
 #include <google/protobuf/util/json_util.h>
+#include <unistd.h>
 
 #include <chrono>
+#include <cstdlib>
 #include <filesystem>
 #include <fstream>
+#include <string>
 #include <thread>
 #include <utility>
 
@@ -77,9 +80,14 @@ void DeviceCodeClient::save_token() {
     std::filesystem::create_directories(directory);
   }
   // Write to a temporary file first so that an incomplete token can never end
-  // up in the token path.
-  std::filesystem::path temporary_path{config_.token_path};
-  temporary_path += ".tmp";
+  // up in the token path. Every client has one of its own since others may be
+  // storing tokens at the same time.
+  std::string temporary_path{config_.token_path.string() + ".XXXXXX"};
+  const int descriptor = mkstemp(temporary_path.data());
+  if (descriptor == -1) {
+    return;
+  }
+  close(descriptor);
   std::ofstream token_stream;
   token_stream.open(temporary_path);
   token_stream << token_;
-- 
2.43.0


From 3c6dd9fb7782c4eae7b9e51c0c8c30a4a43b5f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:23 +0000
Subject: [PATCH 21/24] fix: write the start time of trajectories before the
 epoch as a valid Timestamp

The nanos of a google.protobuf.Timestamp count forward and lie in
[0, 999999999], but packing a trajectory that starts at a fractional second
before 1970 wrote negative nanos, which other programs reject or misread.
Unpacking accepts both forms.
---
 resim/actor/state/proto/trajectory_to_proto.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/resim/actor/state/proto/trajectory_to_proto.cc b/resim/actor/state/proto/trajectory_to_proto.cc
index 8755521..e8c47e8 100644
--- a/resim/actor/state/proto/trajectory_to_proto.cc
+++ b/resim/actor/state/proto/trajectory_to_proto.cc
@@ -26,6 +26,11 @@ void pack(const state::Trajectory &in, Trajectory *const out) {
   // Get the start time in seconds and nanos for protobuf
   time::SecsAndNanos start_time =
       time::to_seconds_and_nanos(in.start_time().time_since_epoch());
+  // The nanos of a Timestamp message count forward, also before the epoch
+  if (start_time.nanos < 0) {
+    start_time.secs -= 1;
+    start_time.nanos += std::nano::den;
+  }
   out->mutable_start_time()->set_nanos(start_time.nanos);
   out->mutable_start_time()->set_seconds(start_time.secs);
   pack(in.curve(), out->mutable_curve());
@@ -35,12 +40,17 @@ state::Trajectory unpack(const Trajectory &in) {
   // Make sure that the start time can be represented in nanoseconds
   constexpr int64_t MAX_SECS =
       time::to_seconds_and_nanos(time::Duration::max()).secs;
-  const int64_t secs{in.start_time().seconds()};
+  int64_t secs{in.start_time().seconds()};
+  int64_t nanos{in.start_time().nanos()};
+  if (secs < 0 and nanos > 0) {
+    secs += 1;
+    nanos -= std::nano::den;
+  }
   REASSERT(
       -MAX_SECS <= secs and secs <= MAX_SECS,
       "Trajectory start time out of range!");
-  const time::Timestamp start_time{time::Duration{
-      math::safe_sum(secs * std::nano::den, in.start_time().nanos())}};
+  const time::Timestamp start_time{
+      time::Duration{math::safe_sum(secs * std::nano::den, nanos)}};
   return state::Trajectory(unpack(in.curve()), start_time);
 }
 
-- 
2.43.0


From 418ff35e5e3eb0126f13df8beee41fb03152d916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:53 +0000
Subject: [PATCH 22/24] fix: ignore additional fields in the answers of the
 authentication server

RFC 6749, section 5.1: the client must ignore unrecognised values. A login failed if, for example, a refresh token was included.
---
 resim/auth/device_code_client.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/resim/auth/device_code_client.cc b/resim/auth/device_code_client.cc
index 0bcde78..a4cd554 100644
--- a/resim/auth/device_code_client.cc
+++ b/resim/auth/device_code_client.cc
@@ -49,8 +49,14 @@ HttpResponse json_query(
       cpr::Header{{"Content-Type", "application/json"}},
       cpr::Body{request_json});
 
-  const auto parse_status =
-      google::protobuf::util::JsonStringToMessage(r.text, &*response);
+  // The server may add fields of its own (e.g. a refresh token) which have to be
+  // ignored: https://www.rfc-editor.org/rfc/rfc6749#section-5.1
+  google::protobuf::util::JsonParseOptions parse_options;
+  parse_options.ignore_unknown_fields = true;
+  const auto parse_status = google::protobuf::util::JsonStringToMessage(
+      r.text,
+      &*response,
+      parse_options);
   REASSERT(parse_status.ok(), "Failed to parse response!");
   return static_cast<HttpResponse>(r.status_code);
 }
-- 
2.43.0


From 8ab9eb359a5d558a832c335a67eb57e463f518f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:53 +0000
Subject: [PATCH 23/24] fix: start without HOME and TEST_TMPDIR

The token path was built from a null pointer, before main, if neither was set. Use the home directory of the account.
---
 resim/visualization/client/view_client.cc | 12 ++++++++----
 resim/visualization/client/view_client.hh |  7 ++-----
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/resim/visualization/client/view_client.cc b/resim/visualization/client/view_client.cc
index 07008e1..9b7d2ec 100644
--- a/resim/visualization/client/view_client.cc
+++ b/resim/visualization/client/view_client.cc
@@ -10,7 +10,9 @@
 #include <fmt/core.h>
 #include <glog/logging.h>
 #include <google/protobuf/util/json_util.h>
+#include <pwd.h>
 #include <sys/types.h>
+#include <unistd.h>
 
 #include <algorithm>
 #include <cstdint>
@@ -126,10 +128,12 @@ void ViewClient::set_auth_client(
 }
 
 std::filesystem::path ViewClient::determine_token_root(const char *home) {
-  std::filesystem::path root =
-      home == nullptr ? std::filesystem::path(getenv("TEST_TMPDIR"))
-                      : std::filesystem::path(home);
-  return root / ".resim" / "view_token";
+  const char *root = home == nullptr ? getenv("TEST_TMPDIR") : home;
+  if (root == nullptr) {
+    const passwd *const account = getpwuid(getuid());
+    root = account == nullptr ? "." : account->pw_dir;
+  }
+  return std::filesystem::path(root) / ".resim" / "view_token";
 }
 
 void ViewClient::log_app_url(const std::string &url) {
diff --git a/resim/visualization/client/view_client.hh b/resim/visualization/client/view_client.hh
index 7dddb95..3617b7c 100644
--- a/resim/visualization/client/view_client.hh
+++ b/resim/visualization/client/view_client.hh
@@ -30,11 +30,8 @@ class ViewClient : public ViewClientInterface {
   // where HOME is defined; bazel test doesn't define it and there's no way to
   // set environment variables in C++. If given `nullptr` as its argument (which
   // is the case when HOME is undefined) it falls back to TEST_TMPDIR, which is
-  // defined under bazel test. It probably does something weird if neither
-  // variable is defined, but unfortunately we can't write code that handles
-  // that case because there's no way to test it. This entire setup is a
-  // complete mess that only exists to push up codecov numbers. Requiring 100%
-  // coverage is an antipattern.
+  // defined under bazel test. If neither variable is defined (e.g. in a service
+  // with an empty environment) it uses the home directory of the user's account.
   //
   // Exposed for testing only.
   static std::filesystem::path determine_token_root(const char *home);
-- 
2.43.0


From a2edffba0d11f2dbad9f6ce105d43a88c4cab470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:53 +0000
Subject: [PATCH 24/24] fix: view without being able to store credentials

A home directory that is not writable, or not a directory at all (HOME=/dev/null), made every view statement fail.
---
 resim/auth/device_code_client.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/resim/auth/device_code_client.cc b/resim/auth/device_code_client.cc
index a4cd554..77b1440 100644
--- a/resim/auth/device_code_client.cc
+++ b/resim/auth/device_code_client.cc
@@ -15,6 +15,7 @@
 #include <filesystem>
 #include <fstream>
 #include <string>
+#include <system_error>
 #include <thread>
 #include <utility>
 
@@ -77,13 +78,22 @@ void DeviceCodeClient::refresh() {
   // TODO(https://app.asana.com/0/0/1203968428742419/f) Try the refresh token
   // instead of just totally resetting.
   token_.clear();
-  std::filesystem::remove_all(config_.token_path);
+  std::error_code error;
+  std::filesystem::remove_all(config_.token_path, error);
+  if (error) {
+    // The stored token can't be discarded (e.g. in a read-only home directory),
+    // so that it must not be loaded again.
+    fetch_token();
+  }
 }
 
 void DeviceCodeClient::save_token() {
   const std::filesystem::path directory{config_.token_path.parent_path()};
   if (not directory.empty()) {
-    std::filesystem::create_directories(directory);
+    // A token that can't be stored (e.g. in a read-only home directory) can
+    // still be used by this client.
+    std::error_code error;
+    std::filesystem::create_directories(directory, error);
   }
   // Write to a temporary file first so that an incomplete token can never end
   // up in the token path. Every client has one of its own since others may be
-- 
2.43.0

