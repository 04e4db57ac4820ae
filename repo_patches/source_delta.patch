From 26b07e967169ef96a6f2126c111c119d87ffd948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 01/33] fix: a NaN delta must not poison the value of a counter

Counter::Add(NaN) passed the 'delta < 0' test and turned the accumulated
count into NaN, so everything recorded in the reporting interval was lost.
---
 spectator/counter.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spectator/counter.cc b/spectator/counter.cc
index 0804622..1a3cf99 100644
--- a/spectator/counter.cc
+++ b/spectator/counter.cc
@@ -22,7 +22,8 @@ void Counter::Increment() noexcept { Add(1.0); }
 void Counter::Add(double delta) noexcept {
   Update();
 
-  if (delta < 0) {
+  // ignores negative deltas, and NaN which would stick to the sum
+  if (!(delta >= 0)) {
     return;
   }
   add_double(&count_, delta);
-- 
2.43.0


From 56fa107e8dc3de20bf3ab8eb0d6e3eb10c180dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 02/33] fix: percentile timers must not count negative
 durations

The timer ignores them but the percentile counter was still incremented,
so the bucket counts did not add up to the count of the timer.
PercentileDistributionSummary ignores negative amounts already.
---
 spectator/percentile_timer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spectator/percentile_timer.h b/spectator/percentile_timer.h
index 7a023b0..6414b23 100644
--- a/spectator/percentile_timer.h
+++ b/spectator/percentile_timer.h
@@ -26,6 +26,10 @@ class PercentileTimer {
 
   void Record(absl::Duration amount) noexcept {
     timer_->Record(amount);
+    if (amount < absl::ZeroDuration()) {
+      return;  // ignored by the timer
+    }
+
     auto restricted = restrict(amount, min_, max_);
     auto index = PercentileBucketIndexOf(absl::ToInt64Nanoseconds(restricted));
     auto c = get_counter(index, kTimerTags.begin());
-- 
2.43.0


From bcc93cbfe1ee2fc3f66675f5774d7a44a66fa7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 03/33] fix: percentile meters must not hold meters that the
 registry expires

The distribution summary or timer kept by a percentile meter was dropped
by the registry after a period without updates, and what was recorded
through the percentile meter from then on was never reported.
---
 spectator/percentile_distribution_summary.h | 17 +++++++++++------
 spectator/percentile_timer.h                | 16 ++++++++++------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/spectator/percentile_distribution_summary.h b/spectator/percentile_distribution_summary.h
index 253ddb5..6f826a0 100644
--- a/spectator/percentile_distribution_summary.h
+++ b/spectator/percentile_distribution_summary.h
@@ -14,8 +14,8 @@ class PercentileDistributionSummary {
       : registry_{registry},
         id_{std::move(id)},
         min_{min},
-        max_{max},
-        dist_summary_{registry->GetDistributionSummary(id_)} {
+        max_{max} {
+    get_dist_summary();
   }
 
   auto get_counter(size_t index, const std::string* perc_tags) -> std::shared_ptr<Counter> {
@@ -30,7 +30,7 @@ class PercentileDistributionSummary {
       return;
     }
 
-    dist_summary_->Record(amount);
+    get_dist_summary()->Record(amount);
     auto restricted = restrict(amount, min_, max_);
     auto index = PercentileBucketIndexOf(restricted);
     auto c = get_counter(index, kDistTags.begin());
@@ -38,15 +38,20 @@ class PercentileDistributionSummary {
   }
 
   auto MeterId() const noexcept -> const Id& { return id_; }
-  auto Count() const noexcept -> int64_t { return dist_summary_->Count(); }
-  auto TotalAmount() const noexcept -> double { return dist_summary_->TotalAmount(); }
+  auto Count() const noexcept -> int64_t { return get_dist_summary()->Count(); }
+  auto TotalAmount() const noexcept -> double { return get_dist_summary()->TotalAmount(); }
 
  private:
   Registry* registry_;
   Id id_;
   int64_t min_;
   int64_t max_;
-  std::shared_ptr<DistributionSummary> dist_summary_;
+
+  // looked up every time, since the registry expires idle meters: one kept
+  // here would no longer be reported
+  auto get_dist_summary() const noexcept -> std::shared_ptr<DistributionSummary> {
+    return registry_->GetDistributionSummary(id_);
+  }
 };
 
 }  // namespace spectator
diff --git a/spectator/percentile_timer.h b/spectator/percentile_timer.h
index 6414b23..0e4f4e2 100644
--- a/spectator/percentile_timer.h
+++ b/spectator/percentile_timer.h
@@ -14,8 +14,9 @@ class PercentileTimer {
       : registry_{registry},
         id_{std::move(id)},
         min_{min},
-        max_{max},
-        timer_{registry->GetTimer(id_)} {}
+        max_{max} {
+    get_timer();
+  }
 
   auto get_counter(size_t index, const std::string* perc_tags) -> std::shared_ptr<Counter> {
     using spectator::refs;
@@ -25,7 +26,7 @@ class PercentileTimer {
   }
 
   void Record(absl::Duration amount) noexcept {
-    timer_->Record(amount);
+    get_timer()->Record(amount);
     if (amount < absl::ZeroDuration()) {
       return;  // ignored by the timer
     }
@@ -38,15 +39,18 @@ class PercentileTimer {
 
   void Record(std::chrono::nanoseconds amount) noexcept { Record(absl::FromChrono(amount)); }
   auto MeterId() const noexcept -> const Id& { return id_; }
-  auto Count() const noexcept -> int64_t { return timer_->Count(); }
-  auto TotalTime() const noexcept -> int64_t { return timer_->TotalTime(); }
+  auto Count() const noexcept -> int64_t { return get_timer()->Count(); }
+  auto TotalTime() const noexcept -> int64_t { return get_timer()->TotalTime(); }
 
  private:
   Registry* registry_;
   Id id_;
   absl::Duration min_;
   absl::Duration max_;
-  std::shared_ptr<Timer> timer_;
+
+  // looked up every time, since the registry expires idle timers: one kept
+  // here would no longer be reported
+  auto get_timer() const noexcept -> std::shared_ptr<Timer> { return registry_->GetTimer(id_); }
 };
 
 }  // namespace spectator
-- 
2.43.0


From 99785c671ee872f7c6ae962cd8b72cf3e25e491a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 04/33] fix: move assignment of Tags must take over the
 capacity

The capacity of a large set of tags was not copied, so that a later add
wrote past the end of the buffer or reallocated to a random size, and the
buffer that was held before leaked.
---
 spectator/tags.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spectator/tags.h b/spectator/tags.h
index b8f6f83..07b87e8 100644
--- a/spectator/tags.h
+++ b/spectator/tags.h
@@ -58,9 +58,16 @@ class Tags {
   auto operator=(const Tags&) -> Tags& = delete;
 
   auto operator=(Tags&& o) noexcept -> Tags& {
+    if (this == &o) {
+      return *this;
+    }
+    if (is_large()) {
+      free(begin_);
+    }
     size_ = o.size_;
     if (is_large()) {
       begin_ = o.begin_;
+      U.capacity_ = o.U.capacity_;
       o.begin_ = nullptr;
     } else {
       begin_ = &U.entries_[0];
-- 
2.43.0


From c54b1abcb8f301e349770e2a236685ba2951268b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 05/33] fix: measurements must own their id

A measurement referred to the id held by the meter, and was left with a
dangling reference when the meter expired or was deleted before the batch
was sent.
---
 spectator/measurement.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/spectator/measurement.h b/spectator/measurement.h
index 3e2264f..e59aae2 100644
--- a/spectator/measurement.h
+++ b/spectator/measurement.h
@@ -12,12 +12,9 @@ class Measurement {
   Measurement(const Id& id_param, double value_param) noexcept
       : id{id_param}, value{value_param} {}
 
-  // We do not own the id_param so temporary references will cause problems.
-  // This could happen if the user tries something like:
-  // Measurement(id.withTag(...), value);
-  Measurement(Id&& error, double value_param) noexcept = delete;
-
-  const Id& id;
+  // measurements outlive the meters that they come from, which can expire or
+  // be deleted while a batch is being sent, so the id is a copy
+  Id id;
   double value;
 
   auto operator==(const Measurement& other) const -> bool {
-- 
2.43.0


From 4d0d9daf335e7b843b5a4f7f7932706aff611489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 06/33] fix: deleting meters must not use erased entries

remove_all erased the entry under its iterator, with the key inside the
entry, and went on with that iterator. remove_one reported success when the
meter was removed by someone else after it looked for it.
---
 spectator/registry.h | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/spectator/registry.h b/spectator/registry.h
index 936b239..1148ad9 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -109,23 +109,13 @@ struct meter_map {
   }
 
   auto remove_one(Id id) noexcept -> bool {
-    if (contains(id)) {
-      absl::MutexLock lock{&meters_mutex_};
-      meters_.erase(id);
-      return true;
-    } else {
-      return false;
-    }
+    absl::MutexLock lock{&meters_mutex_};
+    return meters_.erase(id) > 0;
   }
 
   void remove_all() noexcept {
     absl::MutexLock lock{&meters_mutex_};
-    auto it = meters_.begin();
-    auto end = meters_.end();
-    while (it != end) {
-      meters_.erase(it->first);
-      ++it;
-    }
+    meters_.clear();
   }
 
   auto get_ids() const -> std::vector<Id> {
-- 
2.43.0


From 4994427bef5dce3db65d44bd6ebcdcdf9ff50e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 07/33] fix: getting an age gauge must not race with its
 deletion

The lookup after the check that the age gauge exists threw out of a
noexcept function when it was deleted in between, which ended the process.
---
 spectator/registry.cc |  4 ++--
 spectator/registry.h  | 11 ++++-------
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/spectator/registry.cc b/spectator/registry.cc
index 88514f4..dfc0e84 100644
--- a/spectator/registry.cc
+++ b/spectator/registry.cc
@@ -26,8 +26,8 @@ auto Registry::GetLogger() const noexcept -> Registry::logger_ptr {
 }
 
 auto Registry::GetAgeGauge(Id id) noexcept -> std::shared_ptr<AgeGauge> {
-  if (all_meters_.age_gauges_.contains(id)) {
-    return all_meters_.age_gauges_.at(id);
+  if (auto known = all_meters_.age_gauges_.find(id)) {
+    return known;
   } else {
     if (all_meters_.age_gauges_.size() < config_->age_gauge_limit) {
       return all_meters_.insert_age_gauge(std::move(id));
diff --git a/spectator/registry.h b/spectator/registry.h
index 1148ad9..a80d9b9 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -56,9 +56,11 @@ struct meter_map {
     return meters_.size();
   }
 
-  auto contains(const Id& id) -> bool {
+  // null if there is no such meter
+  auto find(const Id& id) const -> std::shared_ptr<M> {
     absl::MutexLock lock(&meters_mutex_);
-    return meters_.contains(id);
+    auto it = meters_.find(id);
+    return it == meters_.end() ? nullptr : it->second;
   }
 
   // only insert if it doesn't exist, otherwise return the existing meter
@@ -69,11 +71,6 @@ struct meter_map {
     return insert_result.first->second;
   }
 
-  auto at(const Id& id) -> std::shared_ptr<M> {
-    absl::MutexLock lock(&meters_mutex_);
-    return meters_.at(id);
-  }
-
   void measure(std::vector<Measurement>* res, int64_t meter_ttl) const {
     absl::MutexLock lock(&meters_mutex_);
     auto now = absl::GetCurrentTimeNanos();
-- 
2.43.0


From 8b1a1d0805b14e8cfad78346f2e374b83f5eb38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 08/33] fix: monotonic sampled meters must be reported and
 expired

The registry kept them but never measured, counted or expired them.
---
 spectator/registry.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spectator/registry.h b/spectator/registry.h
index a80d9b9..b37c8f5 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -154,7 +154,7 @@ struct all_meters {
   auto size() const -> size_t {
     return age_gauges_.size() + counters_.size() + dist_sums_.size() +
            gauges_.size() + max_gauges_.size() + mono_counters_.size() +
-           mono_counters_uint_.size() + timers_.size();
+           mono_counters_uint_.size() + mono_sampled_.size() + timers_.size();
   }
 
   auto measure(int64_t meter_ttl) const -> std::vector<Measurement> {
@@ -167,6 +167,7 @@ struct all_meters {
     max_gauges_.measure(&res, meter_ttl);
     mono_counters_.measure(&res, meter_ttl);
     mono_counters_uint_.measure(&res, meter_ttl);
+    mono_sampled_.measure(&res, meter_ttl);
     timers_.measure(&res, meter_ttl);
     return res;
   }
@@ -197,6 +198,9 @@ struct all_meters {
     std::tie(expired, count) = mono_counters_uint_.remove_expired(meter_ttl);
     total_expired += expired;
     total_count += count;
+    std::tie(expired, count) = mono_sampled_.remove_expired(meter_ttl);
+    total_expired += expired;
+    total_count += count;
     std::tie(expired, count) = timers_.remove_expired(meter_ttl);
     total_expired += expired;
     total_count += count;
-- 
2.43.0


From fee181ac5fa6fb34563f92ef30a20786f722e9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 09/33] fix: monotonic sampled lines must record the value they
 carry

The bits of the double were used as an integer, and the conversion of the
timestamp to nanoseconds could overflow.
---
 server/spectatord.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index 0207e8d..fe83502 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -495,6 +495,8 @@ auto Server::parse(char* buffer) -> std::optional<std::string> {
       buffer, [this](const char* line) { return this->parse_line(line); });
 }
 
+static constexpr auto kMaxTimestampMillis = std::numeric_limits<int64_t>::max() / (1000 * 1000);
+
 auto Server::parse_line(const char* buffer) -> std::optional<std::string> {
   static int_fast64_t parsed_count = 0;
 
@@ -506,6 +508,9 @@ auto Server::parse_line(const char* buffer) -> std::optional<std::string> {
     ++p;
     char* end_ttl = nullptr;
     extra = strtoll(p, &end_ttl, 10);
+    if (type == 'X' && extra > kMaxTimestampMillis) {
+      extra = 0;  // the nanoseconds since the epoch would overflow
+    }
     if (extra <= 0) {
       auto idx = p - buffer;
       if (type == 'g') {
@@ -592,7 +597,7 @@ auto Server::parse_line(const char* buffer) -> std::optional<std::string> {
         // extra is milliseconds since the epoch
         auto nanos = extra * 1000 * 1000;
         registry_->GetMonotonicSampled(measurement->id)
-            ->Set(measurement->value.u, nanos);
+            ->Set(measurement->value.d, nanos);
       }
       break;
     default:
-- 
2.43.0


From ad5251395c5e7786aa12e01444769ba8987e3797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 10/33] fix: a NaN statsd sampling rate must be rejected

---
 server/spectatord.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index fe83502..1c96b4f 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -184,7 +184,7 @@ auto Server::parse_statsd_line(const char* buffer)
     if (*p == '@') {
       ++p;
       sampling_rate = std::strtod(p, &last_char);
-      if (last_char == p || sampling_rate <= 0 || sampling_rate > 1) {
+      if (last_char == p || !(sampling_rate > 0 && sampling_rate <= 1)) {
         return fmt::format("Invalid sampling rate for name={}", name);
       }
       p = last_char;
-- 
2.43.0


From 3b570db38f82a5c5afcaf75c2bd3c44c73466b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 11/33] fix: terminating a large datagram must not write past
 the buffer

A unix datagram of 64k or more filled the whole buffer, and the terminator
was then written after its end.
---
 server/local_server.cc | 8 ++------
 server/udp_server.cc   | 8 ++------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/server/local_server.cc b/server/local_server.cc
index a3cdf28..b64d572 100644
--- a/server/local_server.cc
+++ b/server/local_server.cc
@@ -13,13 +13,9 @@ void LocalServer::Start() { start_local_receive(); }
 
 void LocalServer::start_local_receive() {
   socket_.async_receive(
-      asio::buffer(recv_buffer_),
+      // leave room for the terminator
+      asio::buffer(recv_buffer_.data(), recv_buffer_.size() - 1),
       [this](const std::error_code& err, size_t bytes_transferred) {
-        if (bytes_transferred >= recv_buffer_.size()) {
-          Logger()->error("too many bytes transferred: {} >= {}",
-                          bytes_transferred, recv_buffer_.size());
-        }
-
         if (err) {
           Logger()->error("Error receiving: {}: {}", err.value(),
                           err.message());
diff --git a/server/udp_server.cc b/server/udp_server.cc
index 5136902..462b967 100644
--- a/server/udp_server.cc
+++ b/server/udp_server.cc
@@ -23,13 +23,9 @@ UdpServer::UdpServer(asio::io_context& io_context, bool ipv4_only, int port_numb
 
 void UdpServer::start_udp_receive() {
   udp_socket_.async_receive(
-      asio::buffer(recv_buffer_),
+      // leave room for the terminator
+      asio::buffer(recv_buffer_.data(), recv_buffer_.size() - 1),
       [this](const std::error_code& err, size_t bytes_transferred) {
-        if (bytes_transferred >= recv_buffer_.size()) {
-          Logger()->error("too many bytes transferred: {} >= {}",
-                          bytes_transferred, recv_buffer_.size());
-        }
-
         if (err) {
           Logger()->error("Error receiving: {}: {}", err.value(),
                           err.message());
-- 
2.43.0


From 6f052c6ce86aa9c82787885c4cd11b73dc6d9242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 12/33] fix: the smile token of integers encoded in four bytes
 was wrong

---
 spectator/smile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectator/smile.cc b/spectator/smile.cc
index 9b3006e..db6d98a 100644
--- a/spectator/smile.cc
+++ b/spectator/smile.cc
@@ -52,7 +52,7 @@ void SmilePayload::Append(size_t n) {
   auto b2 = static_cast<uint8_t>(i & 0x7FU);
   i >>= 7U;
   if (i <= 0x7F) {
-    buffer_.Append(kTokenInt32, static_cast<uint8_t>(i), b2, b1, b0);
+    buffer_.Append(kByteInt32, static_cast<uint8_t>(i), b2, b1, b0);
     return;
   }
   // no, need all 5 bytes
-- 
2.43.0


From 28b1652dc1d5d58f662c39814f8aebec7ca7e4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 13/33] fix: reading the maximum buffer size must not write
 past the buffer

---
 server/proc_utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/proc_utils.cc b/server/proc_utils.cc
index 911423d..c1c0a46 100644
--- a/server/proc_utils.cc
+++ b/server/proc_utils.cc
@@ -23,7 +23,7 @@ auto max_buffer_size(const char* proc_file) -> int {
   } else {
     result = kDefault;
     char buf[4096];
-    int n = read(fd, buf, sizeof buf);
+    int n = read(fd, buf, sizeof buf - 1);
     if (n > 0) {
       buf[n] = '\0';
       if (!absl::SimpleAtoi(buf, &result)) {
-- 
2.43.0


From 844a2eb593d4641ccb9d70138d8e0ea61a91cead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 14/33] fix: adding to an atomic double must not load it twice

The sum was computed from a second load, so that when the value changed
between the two and back again the addition was made to a stale value.
---
 spectator/atomicnumber.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/spectator/atomicnumber.h b/spectator/atomicnumber.h
index f5be358..e15e603 100644
--- a/spectator/atomicnumber.h
+++ b/spectator/atomicnumber.h
@@ -10,8 +10,7 @@ inline auto add_double(std::atomic<double>* n, double delta) -> void {
   double current;
   do {
     current = n->load(std::memory_order_relaxed);
-  } while (!n->compare_exchange_weak(
-      current, n->load(std::memory_order_relaxed) + delta));
+  } while (!n->compare_exchange_weak(current, current + delta));
 }
 
 /// Atomically set the max value of an atomic number
-- 
2.43.0


From bff8c37d54267520a36f6e5be2af38c4d916815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 15/33] fix: monotonic counters lost what was set while they
 were measured

The value was loaded again to become the base of the next interval, and a
value set between the two loads was never part of any delta.
---
 spectator/monotonic_counter.cc      |  6 +++---
 spectator/monotonic_counter_uint.cc | 22 +++++++++++++---------
 spectator/monotonic_sampled.cc      | 15 ++++++++++-----
 spectator/monotonic_sampled.h       |  2 ++
 4 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/spectator/monotonic_counter.cc b/spectator/monotonic_counter.cc
index 980adef..d9cebb2 100644
--- a/spectator/monotonic_counter.cc
+++ b/spectator/monotonic_counter.cc
@@ -19,9 +19,9 @@ auto MonotonicCounter::Delta() const noexcept -> double {
 }
 
 void MonotonicCounter::Measure(Measurements* results) const noexcept {
-  auto delta = Delta();
-  prev_value_.store(value_.load(std::memory_order_relaxed),
-                    std::memory_order_relaxed);
+  // load the value once: one set in between must count for the next interval
+  auto value = value_.load(std::memory_order_relaxed);
+  auto delta = value - prev_value_.exchange(value, std::memory_order_relaxed);
   if (delta > 0) {
     if (!count_id_) {
       count_id_ =
diff --git a/spectator/monotonic_counter_uint.cc b/spectator/monotonic_counter_uint.cc
index a89ef2b..8b80ab6 100644
--- a/spectator/monotonic_counter_uint.cc
+++ b/spectator/monotonic_counter_uint.cc
@@ -15,12 +15,7 @@ void MonotonicCounterUint::Set(uint64_t amount) noexcept {
   value_.store(amount, std::memory_order_relaxed);
 }
 
-auto MonotonicCounterUint::Delta() const noexcept -> double {
-  if (!init_.load(std::memory_order_relaxed)) return kNaN;
-
-  auto prev = prev_value_.load(std::memory_order_relaxed);
-  auto curr = value_.load(std::memory_order_relaxed);
-
+static auto get_delta(uint64_t prev, uint64_t curr) -> double {
   if (curr < prev) {
     return kMax - prev + curr + 1;
   } else {
@@ -28,10 +23,19 @@ auto MonotonicCounterUint::Delta() const noexcept -> double {
   }
 }
 
+auto MonotonicCounterUint::Delta() const noexcept -> double {
+  if (!init_.load(std::memory_order_relaxed)) return kNaN;
+
+  auto prev = prev_value_.load(std::memory_order_relaxed);
+  auto curr = value_.load(std::memory_order_relaxed);
+  return get_delta(prev, curr);
+}
+
 void MonotonicCounterUint::Measure(Measurements* results) const noexcept {
-  auto delta = Delta();
-  prev_value_.store(value_.load(std::memory_order_relaxed), std::memory_order_relaxed);
-  init_.store(true, std::memory_order_relaxed);
+  // load the value once: one set in between must count for the next interval
+  auto curr = value_.load(std::memory_order_relaxed);
+  auto prev = prev_value_.exchange(curr, std::memory_order_relaxed);
+  auto delta = init_.exchange(true, std::memory_order_relaxed) ? get_delta(prev, curr) : kNaN;
 
   if (delta > 0) {
     if (!count_id_) {
diff --git a/spectator/monotonic_sampled.cc b/spectator/monotonic_sampled.cc
index 1e1d5bf..90f5238 100644
--- a/spectator/monotonic_sampled.cc
+++ b/spectator/monotonic_sampled.cc
@@ -29,13 +29,14 @@ void MonotonicSampled::Set(double amount, int64_t ts_nanos) noexcept {
 }
 
 void MonotonicSampled::Measure(Measurements* results) const noexcept {
-  auto sampled_delta = SampledRate();
-  if (std::isnan(sampled_delta)) {
-    return;
-  }
-
+  double sampled_delta;
   {
+    // a point set in between must count for the next interval
     absl::MutexLock lock(&mutex_);
+    sampled_delta = sampled_rate();
+    if (std::isnan(sampled_delta)) {
+      return;
+    }
     prev_value_ = value_;
     prev_ts_ = ts_;
   }
@@ -50,6 +51,10 @@ void MonotonicSampled::Measure(Measurements* results) const noexcept {
 
 auto MonotonicSampled::SampledRate() const noexcept -> double {
   absl::MutexLock lock(&mutex_);
+  return sampled_rate();
+}
+
+auto MonotonicSampled::sampled_rate() const noexcept -> double {
   auto delta_t = (ts_ - prev_ts_) / 1e9;
   return (value_ - prev_value_) / delta_t;
 }
diff --git a/spectator/monotonic_sampled.h b/spectator/monotonic_sampled.h
index 5618108..1af66fe 100644
--- a/spectator/monotonic_sampled.h
+++ b/spectator/monotonic_sampled.h
@@ -20,5 +20,7 @@ class MonotonicSampled : public Meter {
   mutable double prev_value_ ABSL_GUARDED_BY(mutex_);
   int64_t ts_ ABSL_GUARDED_BY(mutex_);
   mutable int64_t prev_ts_ ABSL_GUARDED_BY(mutex_);
+
+  auto sampled_rate() const noexcept -> double ABSL_EXCLUSIVE_LOCKS_REQUIRED(mutex_);
 };
 }  // namespace spectator
-- 
2.43.0


From 8392935889ec3d6620034abc25b893b59843a0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 16/33] fix: two sampled points with one timestamp reported an
 infinite rate

---
 spectator/monotonic_sampled.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectator/monotonic_sampled.cc b/spectator/monotonic_sampled.cc
index 90f5238..d82844a 100644
--- a/spectator/monotonic_sampled.cc
+++ b/spectator/monotonic_sampled.cc
@@ -15,8 +15,8 @@ void MonotonicSampled::Set(double amount, int64_t ts_nanos) noexcept {
   Update();
 
   absl::MutexLock lock(&mutex_);
-  // ignore out of order points, or wrap arounds
-  if (ts_nanos < ts_) {
+  // ignore out of order or repeated points, or wrap arounds
+  if (ts_nanos <= ts_) {
     return;
   }
   // only update prev values at most once per reporting interval
-- 
2.43.0


From 9ea3537c6a905d96a9b2f3c1b4684dbd6d503df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 17/33] fix: status counters must not be lost after they were
 idle

The daemon kept the counters that the registry expires after a period
without updates, and increments made from then on were never reported.
---
 server/spectatord.cc  |  8 ++++----
 server/spectatord.h   |  5 +++--
 spectator/publisher.h | 29 ++++++++++++-----------------
 3 files changed, 19 insertions(+), 23 deletions(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index 1c96b4f..8962fac 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -46,7 +46,7 @@ auto Server::parse_lines(char* buffer, const handler_t& parser) -> std::optional
     auto maybe_err = parser(p);
     if (maybe_err) {
       if (cfg.status_metrics_enabled) {
-        parse_errors_->Increment();
+        registry_->GetCounter(parse_errors_id_)->Increment();
       }
       if (err_msg.empty()) {
         err_msg = *maybe_err;
@@ -55,7 +55,7 @@ auto Server::parse_lines(char* buffer, const handler_t& parser) -> std::optional
         err_msg += *maybe_err;
       }
     } else if (cfg.status_metrics_enabled) {
-      parsed_count_->Increment();
+      registry_->GetCounter(parsed_count_id_)->Increment();
     }
     if (newline == nullptr) {
       break;
@@ -302,8 +302,8 @@ Server::Server(bool ipv4_only, int port_number, std::optional<int> statsd_port_n
       statsd_port_number_{statsd_port_number},
       socket_path_{std::move(socket_path)},
       registry_{registry},
-      parsed_count_{registry_->GetCounter("spectatord.parsedCount")},
-      parse_errors_{registry_->GetCounter("spectatord.parseErrors")},
+      parsed_count_id_{spectator::Id::Of("spectatord.parsedCount")},
+      parse_errors_id_{spectator::Id::Of("spectatord.parseErrors")},
       logger_{Logger()},
       perc_timers_{create_perc_timer},
       perc_ds_{create_perc_ds} {}
diff --git a/server/spectatord.h b/server/spectatord.h
index a95115b..f81e0f3 100644
--- a/server/spectatord.h
+++ b/server/spectatord.h
@@ -28,8 +28,9 @@ class Server {
   std::optional<int> statsd_port_number_;
   std::optional<std::string> socket_path_;
   spectator::Registry* registry_;
-  std::shared_ptr<spectator::Counter> parsed_count_;
-  std::shared_ptr<spectator::Counter> parse_errors_;
+  // not the counters, since the registry expires them when idle
+  spectator::Id parsed_count_id_;
+  spectator::Id parse_errors_id_;
   std::shared_ptr<spdlog::logger> logger_;
   expiring_cache<spectator::PercentileTimer> perc_timers_;
   expiring_cache<spectator::PercentileDistributionSummary> perc_ds_;
diff --git a/spectator/publisher.h b/spectator/publisher.h
index 57231ae..e06f2e1 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -41,13 +41,6 @@ class Publisher {
         started_{false},
         should_stop_{false},
         last_successful_send_{absl::GetCurrentTimeNanos()},
-        sentMetrics_{detail::get_counter(registry, Tags{{"id", "sent"}})},
-        invalidMetrics_{detail::get_counter(
-            registry, Tags{{"id", "dropped"}, {"error", "validation"}})},
-        droppedHttp_{detail::get_counter(
-            registry, Tags{{"id", "dropped"}, {"error", "http-error"}})},
-        droppedOther_{detail::get_counter(
-            registry, Tags{{"id", "dropped"}, {"error", "other"}})},
         num_sender_threads_{std::min(8U, std::thread::hardware_concurrency())},
         pool_{num_sender_threads_} {
     buffers_.resize(num_sender_threads_);
@@ -111,15 +104,17 @@ class Publisher {
   std::mutex cv_mutex_;
   std::condition_variable cv_;
   std::thread sender_thread_;
-  std::shared_ptr<Counter> sentMetrics_;
-  std::shared_ptr<Counter> invalidMetrics_;
-  std::shared_ptr<Counter> droppedHttp_;
-  std::shared_ptr<Counter> droppedOther_;
   Tags common_tags_;
   size_t num_sender_threads_;
   asio::thread_pool pool_;
   std::vector<SmilePayload> buffers_;
 
+  // look the counters up every time, since the registry expires them when idle
+  auto sent_metrics() { return detail::get_counter(registry_, Tags{{"id", "sent"}}); }
+  auto dropped_metrics(std::string_view error) {
+    return detail::get_counter(registry_, Tags{{"id", "dropped"}, {"error", error}});
+  }
+
   void sender() noexcept {
     using std::chrono::duration_cast;
     using std::chrono::milliseconds;
@@ -289,7 +284,7 @@ class Publisher {
                       uri, http_code, http_response.raw_body);
         num_err = num_measurements;
         if (status_metrics_enabled) {
-          droppedOther_->Add(num_measurements);
+          dropped_metrics("other")->Add(num_measurements);
         }
       } else {
         if (body.HasMember("errorCount")) {
@@ -297,8 +292,8 @@ class Publisher {
           num_err = err_count;
           num_sent = num_measurements - err_count;
           if (status_metrics_enabled) {
-            invalidMetrics_->Add(err_count);
-            sentMetrics_->Add(static_cast<double>(num_measurements - err_count));
+            dropped_metrics("validation")->Add(err_count);
+            sent_metrics()->Add(static_cast<double>(num_measurements - err_count));
           }
           auto messages = body["message"].GetArray();
           for (auto& msg : messages) {
@@ -309,7 +304,7 @@ class Publisher {
           logger->error("Missing errorCount field in JSON response from {}: {}",
                         uri, http_code, http_response.raw_body);
           if (status_metrics_enabled) {
-            droppedOther_->Add(num_measurements);
+            dropped_metrics("other")->Add(num_measurements);
           }
           num_err = num_measurements;
         }
@@ -317,11 +312,11 @@ class Publisher {
     } else if (http_code == -1) {  // connection error or timeout
       num_err = num_measurements;
       if (status_metrics_enabled) {
-        droppedOther_->Add(num_measurements);
+        dropped_metrics("other")->Add(num_measurements);
       }
     } else {  // 5xx error
       if (status_metrics_enabled) {
-        droppedHttp_->Add(num_measurements);
+        dropped_metrics("http-error")->Add(num_measurements);
       }
       num_err = num_measurements;
     }
-- 
2.43.0


From 37970ebc74e825c9bf9b4f8df1733451370eb1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 18/33] fix: account for every measurement whatever the
 aggregator responds

A response with status 200 was not counted as sent, and a response body
that is not the expected object, has no messages or has an error count of
another type or out of range ended the process or made the counts wrap.
---
 spectator/publisher.h | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/spectator/publisher.h b/spectator/publisher.h
index e06f2e1..df98a57 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -276,6 +276,9 @@ class Publisher {
     auto http_code = http_response.status;
     if (http_code == 200) {
       num_sent = num_measurements;
+      if (status_metrics_enabled) {
+        sent_metrics()->Add(static_cast<double>(num_measurements));
+      }
     } else if (http_code > 200 && http_code < 500) {
       rapidjson::Document body;
       body.Parse(http_response.raw_body.c_str(), http_response.raw_body.size());
@@ -287,21 +290,25 @@ class Publisher {
           dropped_metrics("other")->Add(num_measurements);
         }
       } else {
-        if (body.HasMember("errorCount")) {
-          auto err_count = body["errorCount"].GetInt();
+        if (body.IsObject() && body.HasMember("errorCount") && body["errorCount"].IsUint() &&
+            body["errorCount"].GetUint() <= num_measurements) {
+          auto err_count = body["errorCount"].GetUint();
           num_err = err_count;
           num_sent = num_measurements - err_count;
           if (status_metrics_enabled) {
             dropped_metrics("validation")->Add(err_count);
             sent_metrics()->Add(static_cast<double>(num_measurements - err_count));
           }
-          auto messages = body["message"].GetArray();
-          for (auto& msg : messages) {
-            err_messages->emplace(
-                std::string(msg.GetString(), msg.GetStringLength()));
+          if (body.HasMember("message") && body["message"].IsArray()) {
+            for (auto& msg : body["message"].GetArray()) {
+              if (msg.IsString()) {
+                err_messages->emplace(
+                    std::string(msg.GetString(), msg.GetStringLength()));
+              }
+            }
           }
         } else {
-          logger->error("Missing errorCount field in JSON response from {}: {}",
+          logger->error("Missing or invalid errorCount field in JSON response from {}: {}",
                         uri, http_code, http_response.raw_body);
           if (status_metrics_enabled) {
             dropped_metrics("other")->Add(num_measurements);
-- 
2.43.0


From 84bdce7e2be68bc181cafd6d2cb1fd9241bd0ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 19/33] fix: publishing without a configured batch size never
 ended

Such as with the sample configuration and --uri: the batches were empty,
and added until the memory ran out.
---
 spectator/publisher.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spectator/publisher.h b/spectator/publisher.h
index df98a57..3677214 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -336,7 +336,9 @@ class Publisher {
     auto http_cfg = get_http_config(cfg);
     auto start = absl::Now();
     HttpClient client{registry_, std::move(http_cfg)};
-    auto batch_size = static_cast<std::vector<Measurement>::difference_type>(cfg.batch_size);
+    static constexpr auto kDefaultBatchSize = 10000;
+    auto batch_size = static_cast<std::vector<Measurement>::difference_type>(
+        cfg.batch_size > 0 ? cfg.batch_size : kDefaultBatchSize);
     auto measurements = registry_->Measurements();
 
     if (!cfg.is_enabled() || measurements.empty()) {
-- 
2.43.0


From faf22c169b68968bf890931a85b7bb604d0ac586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 20/33] fix: common tags changed at run time were never
 published

The publisher used the common tags of when it was created. They are read
by other threads than the one of the admin server that changes them.
---
 admin/admin_server.cc |  7 ++++---
 spectator/publisher.h | 15 ++++++++++++---
 spectator/registry.cc |  7 +++++++
 spectator/registry.h  |  2 ++
 4 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/admin/admin_server.cc b/admin/admin_server.cc
index 765d2c1..9a5abae 100644
--- a/admin/admin_server.cc
+++ b/admin/admin_server.cc
@@ -45,11 +45,12 @@ void GET_root(HTTPServerRequest& req, HTTPServerResponse& res) {
 }
 
 void GET_config(HTTPServerRequest& req, HTTPServerResponse& res,
-                const spectator::Config& config) {
+                const spectator::Registry& registry) {
+  const auto& config = registry.GetConfig();
   Object::Ptr obj = new Object(true);
 
   Object::Ptr common_tags = new Object(true);
-  for (auto& pair : config.common_tags) {
+  for (const auto& pair : registry.GetCommonTags()) {
     common_tags->set(pair.first, pair.second);
   }
 
@@ -321,7 +322,7 @@ void RequestHandler::handleRequest(HTTPServerRequest& req, HTTPServerResponse& r
     GET_root(req, res);
   } else if (req.getURI() == "/config" && req.getMethod() == "GET") {
     // get the full spectator configuration
-    GET_config(req, res, this->registry.GetConfig());
+    GET_config(req, res, this->registry);
   } else if (req.getURI() == "/config/common_tags" && req.getMethod() == "GET") {
     // describe common_tags usage
     GET_config_common_tags(req, res, join(this->allowed_tags, ", "));
diff --git a/spectator/publisher.h b/spectator/publisher.h
index 3677214..0df1b47 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -44,9 +44,7 @@ class Publisher {
         num_sender_threads_{std::min(8U, std::thread::hardware_concurrency())},
         pool_{num_sender_threads_} {
     buffers_.resize(num_sender_threads_);
-    for (const auto& kv : registry_->GetConfig().common_tags) {
-      common_tags_.add(kv.first, kv.second);
-    }
+    update_common_tags();
   }
 
   Publisher(const Publisher&) = delete;
@@ -109,6 +107,15 @@ class Publisher {
   asio::thread_pool pool_;
   std::vector<SmilePayload> buffers_;
 
+  // they can be changed while we are running
+  void update_common_tags() {
+    Tags tags;
+    for (const auto& kv : registry_->GetCommonTags()) {
+      tags.add(std::string_view{kv.first}, std::string_view{kv.second});
+    }
+    common_tags_ = std::move(tags);
+  }
+
   // look the counters up every time, since the registry expires them when idle
   auto sent_metrics() { return detail::get_counter(registry_, Tags{{"id", "sent"}}); }
   auto dropped_metrics(std::string_view error) {
@@ -356,6 +363,8 @@ class Publisher {
       }
     }
 
+    update_common_tags();
+
     auto from = measurements.begin();
     auto end = measurements.end();
     std::vector<std::pair<int, HttpResponse>> responses;
diff --git a/spectator/registry.cc b/spectator/registry.cc
index dfc0e84..1bab973 100644
--- a/spectator/registry.cc
+++ b/spectator/registry.cc
@@ -167,6 +167,7 @@ auto Registry::Measurements() const noexcept -> std::vector<Measurement> {
 }
 
 void Registry::UpdateCommonTag(const std::string& k, const std::string& v) {
+  absl::MutexLock lock(&common_tags_mutex_);
   auto it = config_->common_tags.find(k);
   if (it != config_->common_tags.end()) {
     it->second = v;
@@ -176,9 +177,15 @@ void Registry::UpdateCommonTag(const std::string& k, const std::string& v) {
 }
 
 void Registry::EraseCommonTag(const std::string& k) {
+  absl::MutexLock lock(&common_tags_mutex_);
   config_->common_tags.erase(k);
 }
 
+auto Registry::GetCommonTags() const -> std::map<std::string, std::string> {
+  absl::MutexLock lock(&common_tags_mutex_);
+  return config_->common_tags;
+}
+
 bool Registry::DeleteMeter(const std::string& type, const Id& id) {
   if (type == "A") {
     return all_meters_.age_gauges_.remove_one(id);
diff --git a/spectator/registry.h b/spectator/registry.h
index b37c8f5..97496a2 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -324,6 +324,7 @@ class Registry {
   // for updating mantis common tags
   void UpdateCommonTag(const std::string& k, const std::string& v);
   void EraseCommonTag(const std::string& k);
+  auto GetCommonTags() const -> std::map<std::string, std::string>;
 
   // for administering gauges
   bool DeleteMeter(const std::string& type, const Id& id);
@@ -367,6 +368,7 @@ class Registry {
   int64_t meter_ttl_;  // in nanos
 
   std::unique_ptr<Config> config_;
+  mutable absl::Mutex common_tags_mutex_;  // for the ones in config_
   logger_ptr logger_;
 
   detail::all_meters all_meters_;
-- 
2.43.0


From 4690ae2b213111b8eab6894f2d311fd2d714a925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 21/33] fix: listing the metrics must keep the meters alive

GET /metrics used meters that were expired or deleted meanwhile.
---
 admin/admin_server.cc | 32 ++++++++++++++++----------------
 spectator/registry.h  | 27 ++++++++++++++++++++++++++-
 2 files changed, 42 insertions(+), 17 deletions(-)

diff --git a/admin/admin_server.cc b/admin/admin_server.cc
index 9a5abae..42d2f2d 100644
--- a/admin/admin_server.cc
+++ b/admin/admin_server.cc
@@ -164,64 +164,64 @@ void GET_metrics(HTTPServerRequest& req, HTTPServerResponse& res, spectator::Reg
   Object::Ptr obj = new Object(true);
 
   Poco::JSON::Array::Ptr age_gauges = new Poco::JSON::Array(true);
-  for (auto it : registry.AgeGauges()) {
-    auto meter = fmt_meter_object((spectator::Meter*)it);
+  for (const auto& it : registry.GetMeters<spectator::AgeGauge>()) {
+    auto meter = fmt_meter_object(it.get());
     meter->set("value", fmt::format("{}", it->Value()));
     age_gauges->add(meter);
   }
   obj->set("age_gauges", age_gauges);
 
   Poco::JSON::Array::Ptr counters = new Poco::JSON::Array(true);
-  for (auto it : registry.Counters()) {
-    auto meter = fmt_meter_object((spectator::Meter*)it);
+  for (const auto& it : registry.GetMeters<spectator::Counter>()) {
+    auto meter = fmt_meter_object(it.get());
     meter->set("value", fmt::format("{}", it->Count()));
     counters->add(meter);
   }
   obj->set("counters", counters);
 
   Poco::JSON::Array::Ptr dist_summaries = new Poco::JSON::Array(true);
-  for (auto it : registry.DistSummaries()) {
-    auto meter = fmt_meter_object((spectator::Meter*)it);
+  for (const auto& it : registry.GetMeters<spectator::DistributionSummary>()) {
+    auto meter = fmt_meter_object(it.get());
     meter->set("value", fmt::format("{}", it->TotalAmount()));
     dist_summaries->add(meter);
   }
   obj->set("dist_summaries", dist_summaries);
 
   Poco::JSON::Array::Ptr gauges = new Poco::JSON::Array(true);
-  for (auto it : registry.Gauges()) {
-    auto meter = fmt_meter_object((spectator::Meter*)it);
+  for (const auto& it : registry.GetMeters<spectator::Gauge>()) {
+    auto meter = fmt_meter_object(it.get());
     meter->set("value", fmt::format("{}", it->Get()));
     gauges->add(meter);
   }
   obj->set("gauges", gauges);
 
   Poco::JSON::Array::Ptr max_gauges = new Poco::JSON::Array(true);
-  for (auto it : registry.MaxGauges()) {
-    auto meter = fmt_meter_object((spectator::Meter*)it);
+  for (const auto& it : registry.GetMeters<spectator::MaxGauge>()) {
+    auto meter = fmt_meter_object(it.get());
     meter->set("value", fmt::format("{}", it->Get()));
     max_gauges->add(meter);
   }
   obj->set("max_gauges", max_gauges);
 
   Poco::JSON::Array::Ptr mono_counters = new Poco::JSON::Array(true);
-  for (auto it : registry.MonotonicCounters()) {
-    auto meter = fmt_meter_object((spectator::Meter*)it);
+  for (const auto& it : registry.GetMeters<spectator::MonotonicCounter>()) {
+    auto meter = fmt_meter_object(it.get());
     meter->set("value", fmt::format("{}", it->Delta()));
     mono_counters->add(meter);
   }
   obj->set("mono_counters", mono_counters);
 
   Poco::JSON::Array::Ptr mono_counters_uint = new Poco::JSON::Array(true);
-  for (auto it : registry.MonotonicCountersUint()) {
-    auto meter = fmt_meter_object((spectator::Meter*)it);
+  for (const auto& it : registry.GetMeters<spectator::MonotonicCounterUint>()) {
+    auto meter = fmt_meter_object(it.get());
     meter->set("value", fmt::format("{}", it->Delta()));
     mono_counters_uint->add(meter);
   }
   obj->set("mono_counters_uint", mono_counters_uint);
 
   Poco::JSON::Array::Ptr timers = new Poco::JSON::Array(true);
-  for (auto it : registry.Timers()) {
-    auto meter = fmt_meter_object((spectator::Meter*)it);
+  for (const auto& it : registry.GetMeters<spectator::Timer>()) {
+    auto meter = fmt_meter_object(it.get());
     meter->set("value", fmt::format("{}", it->TotalTime()));
     timers->add(meter);
   }
diff --git a/spectator/registry.h b/spectator/registry.h
index 97496a2..be34f3c 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -127,6 +127,18 @@ struct meter_map {
     return res;
   }
 
+  auto get_meters() const -> std::vector<std::shared_ptr<M>> {
+    std::vector<std::shared_ptr<M>> res;
+    {
+      absl::MutexLock lock{&meters_mutex_};
+      res.reserve(meters_.size());
+      for (const auto& pair : meters_) {
+        res.emplace_back(pair.second);
+      }
+    }
+    return res;
+  }
+
   auto get_values() const -> std::vector<const M*> {
     std::vector<const M*> res;
     {
@@ -151,6 +163,13 @@ struct all_meters {
   meter_map<MonotonicSampled> mono_sampled_;
   meter_map<Timer> timers_;
 
+  template <typename M>
+  auto of() const -> const meter_map<M>& {
+    return std::get<const meter_map<M>&>(
+        std::tie(age_gauges_, counters_, dist_sums_, gauges_, max_gauges_, mono_counters_,
+                 mono_counters_uint_, mono_sampled_, timers_));
+  }
+
   auto size() const -> size_t {
     return age_gauges_.size() + counters_.size() + dist_sums_.size() +
            gauges_.size() + max_gauges_.size() + mono_counters_.size() +
@@ -330,7 +349,13 @@ class Registry {
   bool DeleteMeter(const std::string& type, const Id& id);
   void DeleteAllMeters(const std::string& type);
 
-  // for debugging / testing
+  // all the meters of a type, which are kept alive while they are being used
+  template <typename M>
+  auto GetMeters() const -> std::vector<std::shared_ptr<M>> {
+    return all_meters_.of<M>().get_meters();
+  }
+
+  // for debugging / testing, when no meter can expire or be deleted
   auto AgeGauges() const -> std::vector<const AgeGauge*> {
     return all_meters_.age_gauges_.get_values();
   }
-- 
2.43.0


From d4ba4ca5bfe3cd16e4e1f48114fd94de5495822c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:46 +0000
Subject: [PATCH 22/33] fix: the first value of an unsigned monotonic counter
 must not be reported

---
 spectator/monotonic_counter_uint.cc | 8 +++++++-
 spectator/monotonic_counter_uint.h  | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/spectator/monotonic_counter_uint.cc b/spectator/monotonic_counter_uint.cc
index 8b80ab6..83ee17b 100644
--- a/spectator/monotonic_counter_uint.cc
+++ b/spectator/monotonic_counter_uint.cc
@@ -8,11 +8,12 @@ static constexpr auto kNaN = std::numeric_limits<double>::quiet_NaN();
 static constexpr auto kMax = std::numeric_limits<uint64_t>::max();
 
 MonotonicCounterUint::MonotonicCounterUint(Id id) noexcept
-    : Meter{std::move(id)}, init_(false), value_(0), prev_value_(0) {}
+    : Meter{std::move(id)}, set_(false), init_(false), value_(0), prev_value_(0) {}
 
 void MonotonicCounterUint::Set(uint64_t amount) noexcept {
   Update();
   value_.store(amount, std::memory_order_relaxed);
+  set_.store(true, std::memory_order_release);
 }
 
 static auto get_delta(uint64_t prev, uint64_t curr) -> double {
@@ -32,6 +33,11 @@ auto MonotonicCounterUint::Delta() const noexcept -> double {
 }
 
 void MonotonicCounterUint::Measure(Measurements* results) const noexcept {
+  // there is no value to start from yet: the first one must not become a delta
+  if (!set_.load(std::memory_order_acquire)) {
+    return;
+  }
+
   // load the value once: one set in between must count for the next interval
   auto curr = value_.load(std::memory_order_relaxed);
   auto prev = prev_value_.exchange(curr, std::memory_order_relaxed);
diff --git a/spectator/monotonic_counter_uint.h b/spectator/monotonic_counter_uint.h
index 64ca7ab..45849a3 100644
--- a/spectator/monotonic_counter_uint.h
+++ b/spectator/monotonic_counter_uint.h
@@ -14,6 +14,7 @@ class MonotonicCounterUint : public Meter {
 
  private:
   mutable std::unique_ptr<Id> count_id_;
+  std::atomic<bool> set_;
   mutable std::atomic<bool> init_;
   mutable std::atomic<uint64_t> value_;
   mutable std::atomic<uint64_t> prev_value_;
-- 
2.43.0


From dcd3a85b4830081e51d3bd3c0cf6bfd52256e3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:45 +0000
Subject: [PATCH 23/33] fix: the 0th percentile must be a number

---
 spectator/percentile_buckets.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spectator/percentile_buckets.cc b/spectator/percentile_buckets.cc
index ef2d7a1..c2a3842 100644
--- a/spectator/percentile_buckets.cc
+++ b/spectator/percentile_buckets.cc
@@ -49,7 +49,8 @@ void Percentiles(const std::array<int64_t, PercentileBucketsLength()>& counts,
     auto nextP = 100.0 * next / total;
     auto nextB = kBucketValues.at(i);
     while (pctIdx < pcts.size() && nextP >= pcts[pctIdx]) {
-      auto f = (pcts[pctIdx] - prevP) / (nextP - prevP);
+      // the 0th percentile is reached by an empty first bucket
+      auto f = nextP > prevP ? (pcts[pctIdx] - prevP) / (nextP - prevP) : 0.0;
       results->at(pctIdx) = f * (nextB - prevB) + prevB;
       ++pctIdx;
     }
-- 
2.43.0


From 496e05c3bf3d08337f2b56201dbdfd3c6a71147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:29 +0000
Subject: [PATCH 24/33] fix: concurrently created age gauges must not exceed
 the limit

---
 spectator/registry.cc | 33 +++++++++++++++++----------------
 spectator/registry.h  | 18 ++++++++++++++----
 2 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/spectator/registry.cc b/spectator/registry.cc
index 1bab973..7242142 100644
--- a/spectator/registry.cc
+++ b/spectator/registry.cc
@@ -28,24 +28,25 @@ auto Registry::GetLogger() const noexcept -> Registry::logger_ptr {
 auto Registry::GetAgeGauge(Id id) noexcept -> std::shared_ptr<AgeGauge> {
   if (auto known = all_meters_.age_gauges_.find(id)) {
     return known;
-  } else {
-    if (all_meters_.age_gauges_.size() < config_->age_gauge_limit) {
-      return all_meters_.insert_age_gauge(std::move(id));
-    } else {
-      logger_->warn("max number of age gauges ({}) has been reached, skipping creation",
-                    config_->age_gauge_limit);
-
-      if (age_gauge_first_warn_) {
-        auto known_age_gauges = all_meters_.age_gauges_.get_ids();
-        for (size_t i = 0; i < known_age_gauges.size(); ++i) {
-          logger_->warn("known age gauge {}: {}", i, known_age_gauges[i]);
-        }
-        age_gauge_first_warn_ = false;
-      }
-
-      return std::make_shared<AgeGauge>(std::move(id));
+  }
+
+  auto created = std::make_shared<AgeGauge>(std::move(id));
+  if (auto inserted = all_meters_.age_gauges_.insert(created, config_->age_gauge_limit)) {
+    return inserted;
+  }
+
+  logger_->warn("max number of age gauges ({}) has been reached, skipping creation",
+                config_->age_gauge_limit);
+
+  if (age_gauge_first_warn_) {
+    auto known_age_gauges = all_meters_.age_gauges_.get_ids();
+    for (size_t i = 0; i < known_age_gauges.size(); ++i) {
+      logger_->warn("known age gauge {}: {}", i, known_age_gauges[i]);
     }
+    age_gauge_first_warn_ = false;
   }
+
+  return created;
 }
 
 auto Registry::GetAgeGauge(std::string_view name, Tags tags) noexcept
diff --git a/spectator/registry.h b/spectator/registry.h
index be34f3c..7ea38cd 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -71,6 +71,20 @@ struct meter_map {
     return insert_result.first->second;
   }
 
+  // as insert, but null if that would make more than limit meters
+  auto insert(std::shared_ptr<M> meter, size_t limit) -> std::shared_ptr<M> {
+    absl::MutexLock lock(&meters_mutex_);
+    const auto& id = meter->MeterId();
+    auto it = meters_.find(id);
+    if (it != meters_.end()) {
+      return it->second;
+    }
+    if (meters_.size() >= limit) {
+      return nullptr;
+    }
+    return meters_.emplace(id, std::move(meter)).first->second;
+  }
+
   void measure(std::vector<Measurement>* res, int64_t meter_ttl) const {
     absl::MutexLock lock(&meters_mutex_);
     auto now = absl::GetCurrentTimeNanos();
@@ -226,10 +240,6 @@ struct all_meters {
     return {total_expired, total_count};
   }
 
-  auto insert_age_gauge(Id id) {
-    return age_gauges_.insert(std::make_shared<AgeGauge>(std::move(id)));
-  }
-
   auto insert_counter(Id id) {
     return counters_.insert(std::make_shared<Counter>(std::move(id)));
   }
-- 
2.43.0


From d9f5fc3bba2574baa94f03db29fc58f4cf83b2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:09 +0000
Subject: [PATCH 25/33] fix: stopping must not wait for the next interval

---
 server/spectatord.cc  | 6 +++++-
 spectator/publisher.h | 8 ++++++--
 spectator/registry.cc | 8 ++++++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index 8962fac..acb4a44 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -456,7 +456,7 @@ void Server::upkeep() {
       std::unique_lock<std::mutex> lock{cv_mutex_};
       auto sleep = kFrequency - elapsed;
       logger->debug("Janitor - sleeping {}ms", duration_cast<milliseconds>(sleep).count());
-      cv_.wait_for(lock, sleep);
+      cv_.wait_for(lock, sleep, [this] { return should_stop_.load(); });
     }
   }
 }
@@ -480,6 +480,10 @@ void Server::update_network_metrics() {
 void Server::Stop() {
   if (!should_stop_.exchange(true)) {
     logger_->debug("Stopping background tasks");
+    {
+      // the upkeep thread either has not checked should_stop_ yet, or waits already
+      std::lock_guard<std::mutex> lock{cv_mutex_};
+    }
     cv_.notify_all();
     upkeep_thread_.join();
   }
diff --git a/spectator/publisher.h b/spectator/publisher.h
index 0df1b47..5b85f22 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -83,7 +83,11 @@ class Publisher {
 
   void Stop() {
     if (started_.exchange(false)) {
-      should_stop_ = true;
+      {
+        // the sender either has not checked should_stop_ yet, or waits already
+        std::lock_guard<std::mutex> lock{cv_mutex_};
+        should_stop_ = true;
+      }
       cv_.notify_all();
       sender_thread_.join();
     }
@@ -148,7 +152,7 @@ class Publisher {
         auto sleep = cfg.frequency - elapsed;
         logger->debug("Sleeping {}s until the next interval",
                       absl::ToDoubleSeconds(sleep));
-        cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep));
+        cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep), [this] { return should_stop_.load(); });
       }
     }
     logger->info("Stopping Publisher");
diff --git a/spectator/registry.cc b/spectator/registry.cc
index 7242142..7b35c36 100644
--- a/spectator/registry.cc
+++ b/spectator/registry.cc
@@ -151,6 +151,10 @@ void Registry::Stop() noexcept {
   publisher_.Stop();
   if (!should_stop_.exchange(true)) {
     logger_->debug("Stopping expirer thread");
+    {
+      // the expirer either has not checked should_stop_ yet, or waits already
+      std::lock_guard<std::mutex> lock{cv_mutex_};
+    }
     cv_.notify_all();
     expirer_thread_.join();
   }
@@ -224,7 +228,7 @@ void Registry::expirer() noexcept {
   // Start - wait one freq_millis interval
   {
     std::unique_lock<std::mutex> lock{cv_mutex_};
-    cv_.wait_for(lock, absl::ToChronoMilliseconds(frequency));
+    cv_.wait_for(lock, absl::ToChronoMilliseconds(frequency), [this] { return should_stop_.load(); });
   }
   while (!should_stop_) {
     auto start = absl::Now();
@@ -234,7 +238,7 @@ void Registry::expirer() noexcept {
       std::unique_lock<std::mutex> lock{cv_mutex_};
       auto sleep = frequency - elapsed;
       logger_->debug("Expirer sleeping {}s", absl::ToDoubleSeconds(sleep));
-      cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep));
+      cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep), [this] { return should_stop_.load(); });
     }
   }
 }
-- 
2.43.0


From 81b4f4e84d809f9a25bd872fd0036e327ff2d8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:35 +0000
Subject: [PATCH 26/33] fix: values of response headers must not keep the
 carriage return

---
 spectator/http_client.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/spectator/http_client.cc b/spectator/http_client.cc
index 7c22b1a..4ea86c0 100644
--- a/spectator/http_client.cc
+++ b/spectator/http_client.cc
@@ -46,10 +46,17 @@ auto curl_capture_headers_fun(char* contents, size_t size, size_t nmemb, void* u
   auto* headers = static_cast<HttpHeaders*>(userp);
   // see if it's a proper header and not HTTP/xx or the final \n
   auto p = static_cast<char*>(memchr(contents, ':', real_size));
-  if (p != nullptr && p + 2 < end) {
+  if (p != nullptr) {
     std::string key{contents, p};
-    std::string value{p + 2, end - 1};  // drop last lf
-    headers->emplace(std::make_pair(std::move(key), std::move(value)));
+    // the value without the whitespace around it, which includes the final crlf
+    auto is_space = [](char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; };
+    auto first = std::find_if_not(p + 1, end, is_space);
+    while (end != first && is_space(end[-1])) {
+      --end;
+    }
+    if (first != end) {
+      headers->emplace(std::move(key), std::string{first, end});
+    }
   }
   return real_size;
 }
-- 
2.43.0


From ef6292273168e0cf645ca4701459f55751f46ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:01 +0000
Subject: [PATCH 27/33] fix: a deeply nested response must not overflow the
 stack

---
 spectator/publisher.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spectator/publisher.h b/spectator/publisher.h
index 5b85f22..57fc2d9 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -292,7 +292,8 @@ class Publisher {
       }
     } else if (http_code > 200 && http_code < 500) {
       rapidjson::Document body;
-      body.Parse(http_response.raw_body.c_str(), http_response.raw_body.size());
+      // the nesting is up to the server, so do not parse it recursively
+      body.Parse<rapidjson::kParseIterativeFlag>(http_response.raw_body.c_str(), http_response.raw_body.size());
       if (body.HasParseError()) {
         logger->error("Unable to parse JSON response from {} - status {}: {}",
                       uri, http_code, http_response.raw_body);
-- 
2.43.0


From e761701ac06a07a7235254592d88077994240d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:28 +0000
Subject: [PATCH 28/33] fix: a publisher that is started again must publish

---
 spectator/publisher.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spectator/publisher.h b/spectator/publisher.h
index 57fc2d9..d4cb18a 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -74,6 +74,7 @@ class Publisher {
       return;
     }
 
+    should_stop_ = false;
     sender_thread_ = std::thread(&Publisher::sender, this);
   }
 
-- 
2.43.0


From 0b228bdb771a60bfde2e38cd2329cd66c4281604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:28 +0000
Subject: [PATCH 29/33] fix: the daemon's own metrics must survive expiry and
 deletion

---
 server/spectatord.cc | 44 +++++++++++---------------------------------
 1 file changed, 11 insertions(+), 33 deletions(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index acb4a44..354458f 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -399,24 +399,6 @@ void Server::ensure_not_stuck() {
 void Server::upkeep() {
   const auto& cfg = registry_->GetConfig();
 
-  static auto timers_size_gauge = registry_->GetGauge(
-      "spectatord.percentileCacheSize", spectator::Tags{{"id", "timer"}});
-  static auto ds_size_gauge = registry_->GetGauge(
-      "spectatord.percentileCacheSize", spectator::Tags{{"id", "dist-summary"}});
-  static auto timers_expired_ctr = registry_->GetCounter(
-      "spectatord.percentileExpired", spectator::Tags{{"id", "timer"}});
-  static auto ds_expired_ctr = registry_->GetCounter(
-      "spectatord.percentileExpired", spectator::Tags{{"id", "dist-summary"}});
-
-  static auto pool_hits = registry_->GetMonotonicCounter(
-      "spectatord.poolAccess", spectator::Tags{{"id", "hit"}});
-  static auto pool_misses = registry_->GetMonotonicCounter(
-      "spectatord.poolAccess", spectator::Tags{{"id", "miss"}});
-  static auto pool_alloc_size = registry_->GetGauge(
-      "spectatord.poolAllocSize");
-  static auto pool_entries = registry_->GetGauge(
-      "spectatord.poolEntries");
-
   using clock = std::chrono::steady_clock;
   using std::chrono::duration_cast;
   using std::chrono::milliseconds;
@@ -432,20 +414,21 @@ void Server::upkeep() {
     std::tie(ds_size, ds_expired) = perc_ds_.expire();
     std::tie(t_size, t_expired) = perc_timers_.expire();
     if (cfg.status_metrics_enabled) {
-      timers_size_gauge->Set(t_size);
-      ds_size_gauge->Set(ds_size);
-      timers_expired_ctr->Add(t_expired);
-      ds_expired_ctr->Add(ds_expired);
+      // look the meters up every time, since the registry may have expired or deleted them
+      registry_->GetGauge("spectatord.percentileCacheSize", spectator::Tags{{"id", "timer"}})->Set(t_size);
+      registry_->GetGauge("spectatord.percentileCacheSize", spectator::Tags{{"id", "dist-summary"}})->Set(ds_size);
+      registry_->GetCounter("spectatord.percentileExpired", spectator::Tags{{"id", "timer"}})->Add(t_expired);
+      registry_->GetCounter("spectatord.percentileExpired", spectator::Tags{{"id", "dist-summary"}})->Add(ds_expired);
     }
 #ifdef __linux__
     update_network_metrics();
 #endif
     auto pool_stats = spectator::string_pool_stats();
     if (cfg.status_metrics_enabled) {
-      pool_hits->Set(pool_stats.hits);
-      pool_misses->Set(pool_stats.misses);
-      pool_alloc_size->Set(pool_stats.alloc_size);
-      pool_entries->Set(pool_stats.table_size);
+      registry_->GetMonotonicCounter("spectatord.poolAccess", spectator::Tags{{"id", "hit"}})->Set(pool_stats.hits);
+      registry_->GetMonotonicCounter("spectatord.poolAccess", spectator::Tags{{"id", "miss"}})->Set(pool_stats.misses);
+      registry_->GetGauge("spectatord.poolAllocSize")->Set(pool_stats.alloc_size);
+      registry_->GetGauge("spectatord.poolEntries")->Set(pool_stats.table_size);
     }
     logger_->debug("Str Pool: Hits {} Misses {} Size {} Alloc {}", pool_stats.hits,
                    pool_stats.misses, pool_stats.table_size, pool_stats.alloc_size);
@@ -465,15 +448,10 @@ void Server::update_network_metrics() {
   // parse /proc/net/udp to get dropped packets for our ports
   const auto& cfg = registry_->GetConfig();
 
-  static auto udp_packets_dropped_ctr = registry_->GetMonotonicCounter(
-      "spectatord.udpPacketsDropped");
-  static auto udp_queue = registry_->GetMaxGauge(
-      "spectatord.udpRxQueue");
-
   auto info = udp_info(port_number_);
   if (info && cfg.status_metrics_enabled) {
-    udp_packets_dropped_ctr->Set(info->num_dropped);
-    udp_queue->Set(info->rx_queue_bytes);
+    registry_->GetMonotonicCounter("spectatord.udpPacketsDropped")->Set(info->num_dropped);
+    registry_->GetMaxGauge("spectatord.udpRxQueue")->Set(info->rx_queue_bytes);
   }
 }
 
-- 
2.43.0


From 9940f6c84e7fb7f989153499d9c254483ba1873e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:28 +0000
Subject: [PATCH 30/33] fix: cached percentile meters must not be destroyed
 while in use

---
 server/expiring_cache.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/server/expiring_cache.h b/server/expiring_cache.h
index 2cac0f4..38076cb 100644
--- a/server/expiring_cache.h
+++ b/server/expiring_cache.h
@@ -11,7 +11,7 @@ namespace detail {
 template <typename V>
 struct cache_entry {
   mutable std::chrono::steady_clock::time_point updated;
-  std::unique_ptr<V> v;
+  std::shared_ptr<V> v;
 };
 }  // namespace detail
 
@@ -22,19 +22,20 @@ class expiring_cache {
                                             spectator::Id);
   explicit expiring_cache(supplier_t supplier) : supplier_{supplier} {}
 
-  V* get_or_create(spectator::Registry* registry, spectator::Id k) {
+  // shared with the caller, since expire() may run while it is used
+  std::shared_ptr<V> get_or_create(spectator::Registry* registry, spectator::Id k) {
     absl::MutexLock lock{&cache_mutex_};
 
     auto it = cache_.find(k);
     if (it != cache_.end()) {
       auto& entry = it->second;
       entry.updated = std::chrono::steady_clock::now();
-      return entry.v.get();
+      return entry.v;
     }
 
     detail::cache_entry<V> entry{std::chrono::steady_clock::now(),
                                  supplier_(registry, k)};
-    auto* ret = entry.v.get();
+    auto ret = entry.v;
     cache_.emplace(std::make_pair(std::move(k), std::move(entry)));
     return ret;
   }
-- 
2.43.0


From c8e5cd12b8dcba499270ac6d49c30a33d2fbe228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:47 +0000
Subject: [PATCH 31/33] fix: report the dropped packets of the default
 dual-stack port

---
 server/spectatord.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index 354458f..bd6c9a1 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -445,10 +445,10 @@ void Server::upkeep() {
 }
 
 void Server::update_network_metrics() {
-  // parse /proc/net/udp to get dropped packets for our ports
+  // parse /proc/net/udp{,6} to get dropped packets for our ports
   const auto& cfg = registry_->GetConfig();
 
-  auto info = udp_info(port_number_);
+  auto info = udp_info(port_number_, ipv4_only_ ? "/proc/net/udp" : "/proc/net/udp6");
   if (info && cfg.status_metrics_enabled) {
     registry_->GetMonotonicCounter("spectatord.udpPacketsDropped")->Set(info->num_dropped);
     registry_->GetMaxGauge("spectatord.udpRxQueue")->Set(info->rx_queue_bytes);
-- 
2.43.0


From 263318151c9ae3a70354dc5111e2c8de18661ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 32/33] fix: a line that ends in a comma is not read past its
 end

After the comma of 'c:name,' the parser took the byte behind the
terminating NUL for the start of the value: the next line of the
datagram, or whatever an earlier datagram had left in the buffer.
---
 server/spectatord.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index bd6c9a1..e7ae25d 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -238,6 +238,10 @@ auto get_measurement(char type, std::string_view measurement_str, std::string* e
   if (measurement_str[pos] == ',') {
     while (measurement_str[pos] != ':') {
       ++pos;
+      if (pos == measurement_str.size()) {
+        *err_msg = "Missing value";
+        return {};
+      }
       auto k_pos = measurement_str.find('=', pos);
       if (k_pos == std::string_view::npos) break;
       auto key = measurement_str.substr(pos, k_pos - pos);
-- 
2.43.0


From 8c2e3b4759a7860687fed12b5c0cad4a4696e78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:04 +0000
Subject: [PATCH 33/33] fix: the 100th percentile of a huge histogram left the
 buckets in use

100.0 * total / total can be rounded to less than 100, and then the
estimate is the largest possible value.
---
 spectator/percentile_buckets.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spectator/percentile_buckets.cc b/spectator/percentile_buckets.cc
index c2a3842..b1ffc32 100644
--- a/spectator/percentile_buckets.cc
+++ b/spectator/percentile_buckets.cc
@@ -46,7 +46,8 @@ void Percentiles(const std::array<int64_t, PercentileBucketsLength()>& counts,
 
   for (size_t i = 0; i < kBucketValues.size(); ++i) {
     auto next = prev + counts.at(i);
-    auto nextP = 100.0 * next / total;
+    // all of them are 100 percent, also where the product is rounded
+    auto nextP = next == total ? 100.0 : 100.0 * next / total;
     auto nextB = kBucketValues.at(i);
     while (pctIdx < pcts.size() && nextP >= pcts[pctIdx]) {
       // the 0th percentile is reached by an empty first bucket
-- 
2.43.0

