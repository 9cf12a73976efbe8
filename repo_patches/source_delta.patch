From 08cd20e915a088f5fe71801af30f82e22848d77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:09 +0000
Subject: [PATCH 01/62] fix: MPSCQueue of capacity 1 overwrote its element and
 then hung the consumer

---
 kio/sync/mpsc_queue.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kio/sync/mpsc_queue.h b/kio/sync/mpsc_queue.h
index b174d12..8c382ee 100644
--- a/kio/sync/mpsc_queue.h
+++ b/kio/sync/mpsc_queue.h
@@ -53,13 +53,15 @@ namespace kio
         };
 
     public:
-        explicit MPSCQueue(size_t capacity) : buffer_(capacity), mask_(capacity - 1)
+        // With a single cell "free for the next push" and "published" would be the same sequence
+        // number, so the smallest buffer has two cells.
+        explicit MPSCQueue(size_t capacity) : buffer_(capacity < 2 ? 2 : capacity), mask_(buffer_.size() - 1)
         {
             // Capacity must be power of 2
             assert(capacity > 0 && (capacity & (capacity - 1)) == 0 && "Capacity must be a power of 2");
 
             // Initialize sequence numbers for each slot (no T construction)
-            for (size_t i = 0; i < capacity; ++i)
+            for (size_t i = 0; i < buffer_.size(); ++i)
             {
                 buffer_[i].sequence.store(i, std::memory_order_relaxed);
             }
-- 
2.43.0


From 94dadb8fc2039db404def59bbd1b0b7b0910a272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 02/62] fix: BytesMut accepted oversized commit_write/reserve
 when the size computation wrapped around

---
 kio/core/bytes_mut.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kio/core/bytes_mut.h b/kio/core/bytes_mut.h
index 5ace5fa..22a27ee 100644
--- a/kio/core/bytes_mut.h
+++ b/kio/core/bytes_mut.h
@@ -63,6 +63,10 @@ namespace kio
             if (writable() >= additional) return;
 
             const size_t data_len = remaining();
+            if (additional > buffer_.max_size() - data_len)
+            {
+                throw std::length_error("BytesMut::reserve() beyond maximum size");
+            }
             const size_t available_total = buffer_.capacity();
 
             // Strategy 1: Compact in place if it fits
@@ -151,7 +155,7 @@ namespace kio
          */
         void commit_write(const size_t n)
         {
-            if (write_pos_ + n > buffer_.size())
+            if (n > writable())
             {
                 throw std::out_of_range("BytesMut::commit_write() beyond buffer size");
             }
-- 
2.43.0


From bc231e5799e00bd0b6139325bac8e296620c7d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 03/62] fix: RESP bulk payload without its CRLF terminator was
 accepted as a frame

---
 kio/resp/parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kio/resp/parser.cpp b/kio/resp/parser.cpp
index 2e5901f..0b159e0 100644
--- a/kio/resp/parser.cpp
+++ b/kio/resp/parser.cpp
@@ -132,6 +132,12 @@ namespace kio::resp
         const auto total = header_len + payload_len + 2;
         if (data.size() < total) return std::unexpected(ParseError::NeedMoreData);
 
+        // The payload must be followed by its terminator
+        if (data[total - 2] != '\r' || data[total - 1] != '\n')
+        {
+            return std::unexpected(ParseError::MalformedFrame);
+        }
+
         return FrameHeader{type, data.data(), total, 0};
     }
 
-- 
2.43.0


From f6686735b7a4ba9d3f40983c8b87f8ea568dab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 04/62] fix: RESP null with a payload was accepted as a frame

---
 kio/resp/parser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kio/resp/parser.cpp b/kio/resp/parser.cpp
index 0b159e0..e5f8a36 100644
--- a/kio/resp/parser.cpp
+++ b/kio/resp/parser.cpp
@@ -190,9 +190,14 @@ namespace kio::resp
 
                 return FrameHeader{type, data.data(), *pos + 2, 0};
             }
+            case FrameType::Null:
+            {
+                if (*pos != 1) return std::unexpected(ParseError::MalformedFrame);
+
+                return FrameHeader{type, data.data(), *pos + 2, 0};
+            }
             case FrameType::SimpleString:
             case FrameType::SimpleError:
-            case FrameType::Null:
                 return FrameHeader{type, data.data(), *pos + 2, 0};
             case FrameType::BulkString:
             case FrameType::BulkError:
-- 
2.43.0


From a7b35376155feac08aae4d0ae679045be35015b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 05/62] fix: RESP integers and doubles with an explicit plus
 sign were rejected

---
 kio/resp/parser.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/kio/resp/parser.cpp b/kio/resp/parser.cpp
index e5f8a36..a5c84d5 100644
--- a/kio/resp/parser.cpp
+++ b/kio/resp/parser.cpp
@@ -35,6 +35,13 @@ namespace kio::resp
         return std::nullopt;
     }
 
+    // RESP allows an explicit '+' in front of integers and doubles, std::from_chars does not
+    static std::string_view skip_plus(std::string_view s)
+    {
+        if (s.size() > 1 && s[0] == '+' && s[1] != '-') s.remove_prefix(1);
+        return s;
+    }
+
     static std::optional<int64_t> parse_int(std::string_view s)
     {
         if (s.empty()) return std::nullopt;
@@ -53,6 +60,8 @@ namespace kio::resp
         if (s == "-inf") return -std::numeric_limits<double>::infinity();
         if (s == "nan") return std::numeric_limits<double>::quiet_NaN();
 
+        s = skip_plus(s);
+
         double val;
         auto [ptr, ec] = std::from_chars(s.data(), s.data() + s.size(), val);
         if (ec == std::errc() && ptr == s.data() + s.size()) return val;
@@ -156,7 +165,7 @@ namespace kio::resp
             case FrameType::Integer:
             {
                 // Validation: ensure it is a valid 64-bit integer
-                if (!parse_int({data.data() + 1, *pos - 1}))
+                if (!parse_int(skip_plus({data.data() + 1, *pos - 1})))
                 {
                     return std::unexpected(ParseError::Atoi);
                 }
-- 
2.43.0


From 7ee8b653a6fac4d660521bcb77bb4e33f15ac0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 06/62] fix: Logger did not wake its consumer for a message
 whose formatting failed

---
 kio/core/async_logger.h | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/kio/core/async_logger.h b/kio/core/async_logger.h
index 45f6113..4a2098d 100644
--- a/kio/core/async_logger.h
+++ b/kio/core/async_logger.h
@@ -215,17 +215,7 @@ namespace kio {
                     entry.set_large_message(std::move(large));
                 }
 
-                if (queue_.try_push(std::move(entry))) {
-                    if (wakeup_fd_ >= 0) {
-                        constexpr uint64_t val = 1;
-                        if (const ssize_t ret = ::write(wakeup_fd_, &val, sizeof(val)); ret < 0 && errno != EAGAIN) {
-                            std::osyncstream(std::cerr) << "Logger wakeup write() error: " << strerror(errno) <<
-                                    std::endl;
-                        }
-                    }
-                } else {
-                    std::osyncstream(std::cerr) << "Logger queue full. Dropping message.\n";
-                }
+                enqueue(std::move(entry));
             } catch (const std::exception &e) {
                 std::string fallback = std::string("<log format error: ") + e.what() + ">";
                 LogMessage entry{};
@@ -240,7 +230,22 @@ namespace kio {
                 } else {
                     entry.set_large_message(std::move(fallback));
                 }
-                (void) queue_.try_push(std::move(entry));
+                enqueue(std::move(entry));
+            }
+        }
+
+        // hand a message to the consumer and wake it up
+        void enqueue(LogMessage &&entry) {
+            if (queue_.try_push(std::move(entry))) {
+                if (wakeup_fd_ >= 0) {
+                    constexpr uint64_t val = 1;
+                    if (const ssize_t ret = ::write(wakeup_fd_, &val, sizeof(val)); ret < 0 && errno != EAGAIN) {
+                        std::osyncstream(std::cerr) << "Logger wakeup write() error: " << strerror(errno) <<
+                                std::endl;
+                    }
+                }
+            } else {
+                std::osyncstream(std::cerr) << "Logger queue full. Dropping message.\n";
             }
         }
 
-- 
2.43.0


From e16298ff925a39f87f984c36c711f108e7b8e856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 07/62] fix: Logger::flush() raced with the consumer thread on
 the single-consumer queue and the output

---
 kio/core/async_logger.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kio/core/async_logger.h b/kio/core/async_logger.h
index 4a2098d..44f551a 100644
--- a/kio/core/async_logger.h
+++ b/kio/core/async_logger.h
@@ -11,6 +11,7 @@
 #include <functional>
 #include <iostream>
 #include <memory>
+#include <mutex>
 #include <source_location>
 #include <span>
 #include <string>
@@ -182,6 +183,8 @@ namespace kio {
         }
 
         void flush() {
+            // the queue has a single consumer: callers of flush() take turns with the consumer thread
+            const std::lock_guard lock(flush_mutex_);
             LogMessage entry;
             while (queue_.try_pop(entry)) {
                 write(entry);
@@ -319,6 +322,7 @@ namespace kio {
         }
 
         MPSCQueue<LogMessage> queue_;
+        std::mutex flush_mutex_;
         std::atomic<LogLevel> level_;
         std::jthread consumer_thread_;
         int wakeup_fd_{-1};
-- 
2.43.0


From 9021fda3ac176d8ced6a0f6fadb30af215e06428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 08/62] fix: Logger::should_log let any message pass while the
 level changed to Disabled

---
 kio/core/async_logger.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kio/core/async_logger.h b/kio/core/async_logger.h
index 44f551a..fb9f3ad 100644
--- a/kio/core/async_logger.h
+++ b/kio/core/async_logger.h
@@ -153,8 +153,9 @@ namespace kio {
 
         [[nodiscard]]
         bool should_log(LogLevel lvl) const noexcept {
-            if (const auto current_level = level_.load(std::memory_order_relaxed); current_level == LogLevel::Disabled) return false;
-            return static_cast<int>(lvl) >= static_cast<int>(level_.load(std::memory_order_relaxed));
+            const auto current_level = level_.load(std::memory_order_relaxed);
+            if (current_level == LogLevel::Disabled) return false;
+            return static_cast<int>(lvl) >= static_cast<int>(current_level);
         }
 
         template<typename... Args>
-- 
2.43.0


From ac650b58503619d245b79a049719c6c32219fcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 09/62] fix: dropping a DetachedTask destroyed a frame that had
 freed itself or was still going to be resumed

---
 kio/core/coro.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kio/core/coro.h b/kio/core/coro.h
index 2059348..32e77a3 100644
--- a/kio/core/coro.h
+++ b/kio/core/coro.h
@@ -243,10 +243,9 @@ namespace kio
 
         DetachedTask(DetachedTask &&o) noexcept : coro(std::exchange(o.coro, {})) {}
 
-        ~DetachedTask()
-        {
-            if (coro) coro.destroy();
-        }
+        // The coroutine owns its frame and destroys it when it finishes: the handle may already be dangling,
+        // and destroying a suspended frame would leave whoever resumes it with freed memory.
+        ~DetachedTask() = default;
 
         void detach() && noexcept
         {
-- 
2.43.0


From 2024a7a95c2258f9ccbaad7f3958c3c6d22eb3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 10/62] fix: metric values were written with six digits and
 read back as other values

---
 kio/metrics/serializer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kio/metrics/serializer.cpp b/kio/metrics/serializer.cpp
index ca5e09b..33c2c5f 100644
--- a/kio/metrics/serializer.cpp
+++ b/kio/metrics/serializer.cpp
@@ -3,6 +3,7 @@
 //
 #include "kio/metrics/serializer.h"
 
+#include <format>
 #include <sstream>
 
 #include "kio/metrics/utils.h"
@@ -32,7 +33,8 @@ namespace kio
                     }
                     ss << "}";
                 }
-                ss << " " << sample.value << "\n";
+                // std::format gives the shortest text that reads back as the same value
+                ss << " " << std::format("{}", sample.value) << "\n";
             }
             // Extra newline between families
             ss << "\n";
-- 
2.43.0


From 28a7787ffcf68ccb831c80c69fb0646a33fad19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 11/62] fix: help text with a line feed or backslash corrupted
 the metrics output

---
 kio/metrics/serializer.cpp |  2 +-
 kio/metrics/utils.h        | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/kio/metrics/serializer.cpp b/kio/metrics/serializer.cpp
index 33c2c5f..2bd42a5 100644
--- a/kio/metrics/serializer.cpp
+++ b/kio/metrics/serializer.cpp
@@ -15,7 +15,7 @@ namespace kio
         std::ostringstream ss;
         for (const auto& family: snapshot.GetFamilies())
         {
-            ss << "# HELP " << family.name << " " << family.help << "\n";
+            ss << "# HELP " << family.name << " " << EscapeHelp(family.help) << "\n";
             ss << "# TYPE " << family.name << " " << ToString(family.type) << "\n";
 
             for (const auto& sample: family.samples)
diff --git a/kio/metrics/utils.h b/kio/metrics/utils.h
index d67ed29..b822bbe 100644
--- a/kio/metrics/utils.h
+++ b/kio/metrics/utils.h
@@ -56,6 +56,22 @@ namespace kio
         return out;
     }
 
+    /// Help text may contain anything; backslash and line feed are escaped
+    inline std::string EscapeHelp(const std::string& help)
+    {
+        std::string out;
+        for (const char c: help)
+        {
+            if (c == '\\')
+                out += "\\\\";
+            else if (c == '\n')
+                out += "\\n";
+            else
+                out += c;
+        }
+        return out;
+    }
+
     inline std::string SanitizeLabelKey(const std::string& key)
     {
         std::string out;
-- 
2.43.0


From aef3dc215b89436215b2e48e8122dfd8807848fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 12/62] fix: the reference returned by
 MetricSnapshot::BuildFamily dangled once another family was built

---
 kio/metrics/model.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kio/metrics/model.h b/kio/metrics/model.h
index a6fc510..e19525f 100644
--- a/kio/metrics/model.h
+++ b/kio/metrics/model.h
@@ -4,6 +4,7 @@
 
 #ifndef KIO_MODEL_H
 #define KIO_MODEL_H
+#include <deque>
 #include <map>
 #include <string>
 #include <vector>
@@ -74,13 +75,14 @@ namespace kio
         }
 
         [[nodiscard]]
-        const std::vector<MetricFamily>& GetFamilies() const
+        const std::deque<MetricFamily>& GetFamilies() const
         {
             return families_;
         }
 
     private:
-        std::vector<MetricFamily> families_;
+        // a deque: references handed out by BuildFamily stay valid when more families are added
+        std::deque<MetricFamily> families_;
     };
 
 }  // namespace kio
-- 
2.43.0


From 75a088e151cecc85b3e57858b3eddaa50c734c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 13/62] fix: a family built by several collectors was written
 as several families of the same name

---
 kio/metrics/model.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kio/metrics/model.h b/kio/metrics/model.h
index e19525f..aab108d 100644
--- a/kio/metrics/model.h
+++ b/kio/metrics/model.h
@@ -70,6 +70,10 @@ namespace kio
          */
         MetricFamily& BuildFamily(std::string name, std::string help, const MetricType type, const size_t max_samples = kMetricsMaxSamples)
         {
+            for (auto& family: families_)
+            {
+                if (family.name == name) return family;
+            }
             families_.emplace_back(MetricFamily{max_samples, std::move(name), std::move(help), type, {}});
             return families_.back();
         }
-- 
2.43.0


From 6c0b7862aa0c009dd5f42d913c049ecdb3ae68bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 14/62] fix: destroying a worker whose ring was never set up
 closed file descriptor 0

---
 kio/core/worker.cpp | 3 ++-
 kio/core/worker.h   | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index 6ae1476..4dc07be 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -129,6 +129,7 @@ namespace kio::io
         {
             throw std::system_error(-ret, std::system_category(), "io_uring_queue_init failed");
         }
+        ring_created_ = true;
 
         ALOG_INFO("IO uring initialized with queue size of {}", config_.uring_queue_depth);
 
@@ -315,7 +316,7 @@ namespace kio::io
             ALOG_WARN("Worker {} leaked {} op_ids during shutdown", id_, op_data_pool_.size() - free_op_ids.size());
         }
 
-        if (this->ring_.ring_fd >= 0)
+        if (ring_created_)
         {
             io_uring_queue_exit(&ring_);
         }
diff --git a/kio/core/worker.h b/kio/core/worker.h
index c5ab448..fee700b 100644
--- a/kio/core/worker.h
+++ b/kio/core/worker.h
@@ -131,6 +131,8 @@ namespace kio::io
         static constexpr size_t kWakeupOpID = ~uint64_t{0};
 
         io_uring ring_{};
+        // the ring exists only once initialize() has set it up
+        bool ring_created_{false};
         WorkerConfig config_;
         size_t id_{0};
         // this is initialized when calling the loop, which can happen on
-- 
2.43.0


From b42426f0e6c18715389a9fed536440380af1f038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 15/62] fix: a worker dying of an error after start-up counted
 its ready latch down twice, hanging later waiters

---
 kio/core/worker.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/kio/core/worker.h b/kio/core/worker.h
index fee700b..077689f 100644
--- a/kio/core/worker.h
+++ b/kio/core/worker.h
@@ -157,6 +157,9 @@ namespace kio::io
 
         std::latch init_latch_{1};
         std::latch shutdown_latch_{1};
+        // a latch must not be counted down twice
+        std::atomic<bool> init_signalled_{false};
+        std::atomic<bool> shutdown_signalled_{false};
         std::stop_source stop_source_;
         // updated by all run method
         std::stop_token stop_token_;
@@ -203,8 +206,14 @@ namespace kio::io
          * @return bool
          */
         [[nodiscard]] bool is_on_worker_thread() const;
-        void signal_init_complete() { init_latch_.count_down(); }
-        void signal_shutdown_complete() { shutdown_latch_.count_down(); }
+        void signal_init_complete()
+        {
+            if (!init_signalled_.exchange(true)) init_latch_.count_down();
+        }
+        void signal_shutdown_complete()
+        {
+            if (!shutdown_signalled_.exchange(true)) shutdown_latch_.count_down();
+        }
 
         /**
          *@brief Gets a std::jthread stop token linked to the worker thread
-- 
2.43.0


From 72c869f88525d26e53cbfd1380bac850a71091bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 16/62] fix: an exception not derived from std::exception in a
 worker's start-up callback terminated the process

---
 kio/core/worker.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index 4dc07be..19262d5 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -227,6 +227,12 @@ namespace kio::io
             signal_init_complete();
             signal_shutdown_complete();
         }
+        catch (...)
+        {
+            ALOG_ERROR("Worker {} failed during run() with an unknown exception", id_);
+            signal_init_complete();
+            signal_shutdown_complete();
+        }
     }
 
     int Worker::submit_sqes_wait()
-- 
2.43.0


From 3ec65ad55f9028857afc9c8342af1f76cdd02f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 17/62] fix: a worker still resumed coroutines after it had
 reported its shutdown

---
 kio/core/worker.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index 19262d5..2f37843 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -182,6 +182,9 @@ namespace kio::io
             process_completions();
         }
 
+        // what has completed is still delivered, but before shutdown is reported: nothing runs afterwards
+        drain_completions();
+
         ALOG_INFO("Worker {} loop shut down completed", this->id_);
 
         // signal shutdown for anyone waiting
@@ -217,8 +220,6 @@ namespace kio::io
             loop();
 
             ALOG_INFO("Worker {} exited event loop", id_);
-
-            drain_completions();
         }
         catch (const std::exception &e)
         {
-- 
2.43.0


From 2408facb7fa3daea2b0304436e2f69c0f26923e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 18/62] fix: an operation refused because all slots were in use
 left a stale request in the submission queue

---
 kio/core/uring_awaitable.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kio/core/uring_awaitable.h b/kio/core/uring_awaitable.h
index 42e96bb..ee2dc45 100644
--- a/kio/core/uring_awaitable.h
+++ b/kio/core/uring_awaitable.h
@@ -39,16 +39,19 @@ namespace kio::io
                    "kio::async_* operation was called from the wrong thread. "
                    "You must co_await SwitchToWorker(worker) at the start of your task.");
 
+            // allocate an op id first: this may throw, and a claimed SQE would be submitted nevertheless
+            op_id_ = internal::WorkerAccess::get_op_id(worker_);
+
             sqe_ = io_uring_get_sqe(&internal::WorkerAccess::get_ring(worker_));
             if (sqe_ == nullptr)
             {
                 // no SQE available right now; return error immediately
+                internal::WorkerAccess::release_op_id(worker_, op_id_);
                 immediate_result_ = -EAGAIN;
                 return false;
             }
 
-            // allocate an op id and record the coroutine handle
-            op_id_ = internal::WorkerAccess::get_op_id(worker_);
+            // record the coroutine handle
             internal::WorkerAccess::init_op_slot(worker_, op_id_, h);
 
             // Call prep sqe
-- 
2.43.0


From 0580d6c817ca7e8dd90b384768a63dd1aa95a95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:49 +0000
Subject: [PATCH 19/62] fix: growing a small operation pool could add no slot
 and then took one from an empty list

---
 kio/core/worker.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index 2f37843..013aa8b 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -72,7 +72,9 @@ namespace kio::io
         }
 
         const auto cur_size = op_data_pool_.size();
-        size_t new_size = std::min(static_cast<size_t>(static_cast<float>(cur_size) * config_.op_slots_growth_factor), config_.max_op_slots);
+        // rounding must not keep a small pool from growing
+        const size_t grown = std::max(static_cast<size_t>(static_cast<float>(cur_size) * config_.op_slots_growth_factor), cur_size + 1);
+        size_t new_size = std::min(grown, config_.max_op_slots);
         ALOG_DEBUG("Growing op_data_pool_ from {} to {}", cur_size, new_size);
         op_data_pool_.resize(new_size);
         for (size_t i = cur_size; i < new_size; ++i)
-- 
2.43.0


From 25a234d692645781672bd54480e53507fbaf017f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:56 +0000
Subject: [PATCH 20/62] fix: AsyncBaton::wait_for resumed or touched a finished
 wait when signal and expiry coincided

---
 kio/core/worker.cpp |  18 +++
 kio/core/worker.h   |   5 +
 kio/sync/baton.h    | 321 ++++++++++++++------------------------------
 3 files changed, 123 insertions(+), 221 deletions(-)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index 013aa8b..e4f0ca7 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -279,6 +279,8 @@ namespace kio::io
                 continue;
             }
 
+            if (op_id == kIgnoredOpID) continue;
+
             set_op_result(op_id, cqe->res);
             resume_coro_by_id(op_id);
             release_op_id(op_id);
@@ -366,6 +368,22 @@ namespace kio::io
         ALOG_TRACE("Worker {} submitted wakeup read SQE", id_);
     }
 
+    void Worker::cancel_timeout(const uint64_t op_id) noexcept
+    {
+        io_uring_sqe *sqe = io_uring_get_sqe(&ring_);
+        if (sqe == nullptr)
+        {
+            // SQ is full - force a submission to make room
+            io_uring_submit(&ring_);
+            sqe = io_uring_get_sqe(&ring_);
+            // no room at all: the timer will expire by itself
+            if (sqe == nullptr) return;
+        }
+
+        io_uring_prep_timeout_remove(sqe, op_id, 0);
+        io_uring_sqe_set_data64(sqe, kIgnoredOpID);
+    }
+
     void Worker::wakeup_write()
     {
         constexpr uint64_t value = 1;
diff --git a/kio/core/worker.h b/kio/core/worker.h
index 077689f..dc4554f 100644
--- a/kio/core/worker.h
+++ b/kio/core/worker.h
@@ -54,6 +54,7 @@ namespace kio::io
             [[nodiscard]] static int64_t get_op_result(Worker& worker, uint64_t op_id);
             static void set_op_result(Worker& worker, uint64_t op_id, int result);
             static void resume_coro_by_id(Worker& worker, uint64_t op_id);
+            static void cancel_timeout(Worker& worker, uint64_t op_id) noexcept;
         };
     }  // namespace internal
 
@@ -129,6 +130,8 @@ namespace kio::io
         // Special op IDs for internal operations, starting from a high range
         // to avoid collision with user op_ids from the pool.
         static constexpr size_t kWakeupOpID = ~uint64_t{0};
+        // for requests whose completion nobody waits for
+        static constexpr size_t kIgnoredOpID = ~uint64_t{0} - 1;
 
         io_uring ring_{};
         // the ring exists only once initialize() has set it up
@@ -194,6 +197,7 @@ namespace kio::io
         [[nodiscard]] int64_t get_op_result(const uint64_t op_id) const { return op_data_pool_[op_id].result; }
         void set_op_result(const uint64_t op_id, const int result) { op_data_pool_[op_id].result = result; }
         void resume_coro_by_id(const uint64_t op_id) const { op_data_pool_[op_id].handle_.resume(); }
+        void cancel_timeout(uint64_t op_id) noexcept;
 
     public:
         //=============================================
@@ -540,6 +544,7 @@ namespace kio::io
 
         inline void WorkerAccess::set_op_result(Worker& worker, uint64_t op_id, const int result) { worker.set_op_result(op_id, result); }
         inline void WorkerAccess::resume_coro_by_id(Worker& worker, const uint64_t op_id) { worker.resume_coro_by_id(op_id); }
+        inline void WorkerAccess::cancel_timeout(Worker& worker, const uint64_t op_id) noexcept { worker.cancel_timeout(op_id); }
     }  // namespace internal
 }  // namespace kio::io
 
diff --git a/kio/sync/baton.h b/kio/sync/baton.h
index eb03e29..97debca 100644
--- a/kio/sync/baton.h
+++ b/kio/sync/baton.h
@@ -9,7 +9,9 @@
 #include <cassert>
 #include <chrono>
 #include <coroutine>
+#include <exception>
 #include <liburing.h>
+#include <stdexcept>
 
 #include "kio/core/coro.h"
 #include "kio/core/worker.h"
@@ -123,136 +125,24 @@ namespace kio::sync
         {
             co_await io::SwitchToWorker(owner_);
 
-            struct TimeoutState
-            {
-                AsyncBaton& baton;
-                std::chrono::nanoseconds duration;
-
-                uint64_t timer_op_id = static_cast<uint64_t>(-1);
-                __kernel_timespec ts{};
-                bool timer_submitted = false;
-                bool baton_signaled = false;
-                std::atomic<bool> resumed{false};
-
-                bool await_ready() noexcept
-                {
-                    if (baton.state_.load(std::memory_order_acquire) == SET)
-                    {
-                        baton_signaled = true;
-                        return true;
-                    }
-                    return false;
-                }
-
-                bool await_suspend(std::coroutine_handle<> h) noexcept
-                {
-                    // Step 1: Register with baton FIRST
-                    baton.waiter_.store(h, std::memory_order_relaxed);
-                    std::atomic_thread_fence(std::memory_order_release);
-
-                    if (uint8_t expected = NOT_SET; !baton.state_.compare_exchange_strong(expected, WAITING, std::memory_order_acq_rel, std::memory_order_acquire))
-                    {
-                        // Baton already SET - no timeout needed
-                        baton_signaled = true;
-                        return false;
-                    }
-
-                    // Set up the timer (baton is now in WAITING state)
-                    timer_op_id = io::internal::WorkerAccess::get_op_id(baton.owner_);
-                    io::internal::WorkerAccess::init_op_slot(baton.owner_, timer_op_id, h);
-
-                    ts.tv_sec = std::chrono::duration_cast<std::chrono::seconds>(duration).count();
-                    ts.tv_nsec = (duration % std::chrono::seconds(1)).count();
-
-                    io_uring_sqe* sqe = io_uring_get_sqe(&io::internal::WorkerAccess::get_ring(baton.owner_));
-                    if (!sqe)
-                    {
-                        // Failed to get SQE - must unregister from baton
-                        io::internal::WorkerAccess::release_op_id(baton.owner_, timer_op_id);
-                        timer_op_id = static_cast<uint64_t>(-1);
-
-                        if (uint8_t state = WAITING; baton.state_.compare_exchange_strong(state, NOT_SET, std::memory_order_acq_rel, std::memory_order_acquire))
-                        {
-                            // Successfully unregistered - immediate timeout
-                            baton_signaled = false;
-                            return false;
-                        }
-
-                        // Baton was signaled while we were cleaning up
-                        baton_signaled = true;
-                        return false;
-                    }
-
-                    io_uring_prep_timeout(sqe, &ts, 0, 0);
-                    io_uring_sqe_set_data64(sqe, timer_op_id);
-                    timer_submitted = true;
+            if (ready()) co_return true;
 
-                    return true;
-                }
-
-                void await_resume()
-                {
-                    // Protect against double-resume
-                    if (resumed.exchange(true, std::memory_order_acq_rel))
-                    {
-                        // Already resumed once, this is a spurious resume
-                        return;
-                    }
-
-                    // Check if result was already determined in await_suspend
-                    if (!timer_submitted)
-                    {
-                        return;
-                    }
+            // The timer and this coroutine both live on the owner's thread. The wait is over only
+            // once the timer's completion has arrived, so nothing can refer to it afterwards.
+            TimedWait wait{*this};
+            run_timer(wait, timeout).detach();
+            if (wait.timer_error) std::rethrow_exception(wait.timer_error);
 
-                    // Determine who resumed us by checking baton state
+            co_await SignalOrTimer{wait};
 
-                    if (baton.state_.load(std::memory_order_acquire) == SET)
-                    {
-                        // Baton signaled us
-                        baton_signaled = true;
-
-                        // We cannot safely cancel the timer because:
-                        // The timer CQE might already be in the completion queue
-                        // io_uring_prep_timeout_remove creates a NEW CQE with different op_id
-                        // The original timer CQE will still arrive with timer_op_id
-                        //
-                        // Solution: Let the timer complete naturally and ignore its CQE
-                        // by replacing the handler with noop_coroutine()
-                        io::internal::WorkerAccess::init_op_slot(baton.owner_, timer_op_id, std::noop_coroutine());
-
-                        // DO NOT attempt to cancel - just let it timeout naturally
-                        // The noop handler will safely consume the CQE when it arrives
-                    }
-                    else
-                    {
-                        // We were resumed by timer CQE
-                        // Try to unregister from baton
-                        if (uint8_t expected = WAITING; baton.state_.compare_exchange_strong(expected, NOT_SET, std::memory_order_acq_rel, std::memory_order_acquire))
-                        {
-                            // Successfully unregistered - pure timeout
-                            baton_signaled = false;
-                        }
-                        else
-                        {
-                            // CAS failed - baton was SET concurrently
-                            // Report timeout (we're processing timer CQE)
-                            // Second resume from the task queue will be caught by double-resume check
-                            baton_signaled = false;
-                        }
-                        // worker will release timer_op_id when processing the CQE
-                    }
-
-                    // Mark the timer as no longer active
-                    timer_submitted = false;
-                }
-
-                [[nodiscard]] bool was_signaled() const noexcept { return baton_signaled; }
-            };
+            if (!wait.timer_done)
+            {
+                wait.cancelled = true;
+                io::internal::WorkerAccess::cancel_timeout(owner_, wait.timer_op_id);
+                co_await TimerGone{wait};
+            }
 
-            TimeoutState state{*this, timeout};
-            co_await state;
-            co_return state.was_signaled();
+            co_return !wait.expired;
         }
 
     private:
@@ -267,123 +157,112 @@ namespace kio::sync
         std::atomic<uint8_t> state_{NOT_SET};
         std::atomic<std::coroutine_handle<>> waiter_{nullptr};
 
-        struct TimeoutAwaiter
+        // State of one wait_for(), only touched on the owner's thread
+        struct TimedWait
         {
             AsyncBaton& baton;
-            std::chrono::nanoseconds duration;
-            bool& timer_won_out;
-            bool& baton_won_out;
+            std::coroutine_handle<> waiter{};
+            uint64_t timer_op_id{0};
+            std::exception_ptr timer_error{};
+            bool timer_done{false};
+            bool expired{false};
+            bool cancelled{false};
+        };
 
-            // Internal state
-            uint64_t timer_op_id = -1;
-            // Stable storage for io_uring to read
-            struct __kernel_timespec ts{};
+        // Suspends on a timeout request and publishes its op id for cancellation
+        struct TimerAwaiter
+        {
+            TimedWait& wait;
+            __kernel_timespec ts{};
 
-            bool await_ready() const noexcept
-            {
-                // If we are in a race cleanup loop (Timer won but Baton posted),
-                // we are NOT ready and must suspend to catch the Baton post.
-                if (timer_won_out) return false;
-                return baton.ready();
-            }
+            bool await_ready() const noexcept { return false; }
 
-            bool await_suspend(std::coroutine_handle<> h) noexcept
+            void await_suspend(std::coroutine_handle<> h)
             {
-                if (timer_won_out)
-                {
-                    // Cleanup pass: We know Baton posted us. Just suspend and wait for it.
-                    return true;
-                }
-
-                // 1. Prepare Timer
-                timer_op_id = io::internal::WorkerAccess::get_op_id(baton.owner_);
-                io::internal::WorkerAccess::init_op_slot(baton.owner_, timer_op_id, h);
-
-                ts.tv_sec = std::chrono::duration_cast<std::chrono::seconds>(duration).count();
-                ts.tv_nsec = (duration % std::chrono::seconds(1)).count();
+                io::Worker& worker = wait.baton.owner_;
+                const uint64_t op_id = io::internal::WorkerAccess::get_op_id(worker);
+                io_uring& ring = io::internal::WorkerAccess::get_ring(worker);
 
-                if (io_uring_sqe* sqe = io_uring_get_sqe(&io::internal::WorkerAccess::get_ring(baton.owner_)))
+                io_uring_sqe* sqe = io_uring_get_sqe(&ring);
+                if (sqe == nullptr)
                 {
-                    io_uring_prep_timeout(sqe, &ts, 0, 0);
-                    io_uring_sqe_set_data64(sqe, timer_op_id);
+                    // SQ is full - force a submission to make room
+                    io_uring_submit(&ring);
+                    sqe = io_uring_get_sqe(&ring);
                 }
-                else
+                if (sqe == nullptr)
                 {
-                    // Ring full fallback: treat as immediate timeout
-                    io::internal::WorkerAccess::release_op_id(baton.owner_, timer_op_id);
-                    timer_won_out = true;
-                    return false;
+                    io::internal::WorkerAccess::release_op_id(worker, op_id);
+                    throw std::runtime_error("Failed to submit the timeout of a timed wait");
                 }
 
-                // Register Baton
-                baton.waiter_.store(h, std::memory_order_relaxed);
+                io::internal::WorkerAccess::init_op_slot(worker, op_id, h);
+                io_uring_prep_timeout(sqe, &ts, 0, 0);
+                io_uring_sqe_set_data64(sqe, op_id);
+                wait.timer_op_id = op_id;
+            }
+
+            void await_resume() const noexcept {}
+        };
+
+        struct SignalOrTimer
+        {
+            TimedWait& wait;
+
+            bool await_ready() const noexcept { return false; }
+
+            bool await_suspend(std::coroutine_handle<> h) noexcept
+            {
+                wait.waiter = h;
+                wait.baton.waiter_.store(h, std::memory_order_relaxed);
                 std::atomic_thread_fence(std::memory_order_release);
 
-                if (uint8_t expected = NOT_SET; baton.state_.compare_exchange_strong(expected, WAITING, std::memory_order_acq_rel, std::memory_order_acquire))
-                {
-                    return true;  // Successfully suspended
-                }
+                uint8_t expected = NOT_SET;
+                return wait.baton.state_.compare_exchange_strong(expected, WAITING, std::memory_order_acq_rel, std::memory_order_acquire);
+            }
 
-                // Baton is SET
-                // Cancel the timer immediately.
-                // We replace the callback with noop so the CQE is harmless.
-                io::internal::WorkerAccess::init_op_slot(baton.owner_, timer_op_id, std::noop_coroutine());
+            void await_resume() const noexcept {}
+        };
 
-                // Try to remove the timeout from kernel to be clean
-                if (io_uring_sqe* cancel_sqe = io_uring_get_sqe(&io::internal::WorkerAccess::get_ring(baton.owner_)))
-                {
-                    io_uring_prep_timeout_remove(cancel_sqe, timer_op_id, 0);
-                    io_uring_sqe_set_data64(cancel_sqe, io::internal::WorkerAccess::get_op_id(baton.owner_));
-                }
+        struct TimerGone
+        {
+            TimedWait& wait;
 
-                // Resume immediately
-                return false;
+            bool await_ready() const noexcept { return wait.timer_done; }
+            void await_suspend(std::coroutine_handle<> h) noexcept { wait.waiter = h; }
+            void await_resume() const noexcept {}
+        };
+
+        static DetachedTask run_timer(TimedWait& wait, std::chrono::nanoseconds duration)
+        {
+            try
+            {
+                __kernel_timespec ts{};
+                ts.tv_sec = std::chrono::duration_cast<std::chrono::seconds>(duration).count();
+                ts.tv_nsec = (duration % std::chrono::seconds(1)).count();
+                co_await TimerAwaiter{wait, ts};
+            }
+            catch (...)
+            {
+                wait.timer_error = std::current_exception();
+                co_return;
             }
 
-            void await_resume()
+            wait.timer_done = true;
+            if (wait.cancelled)
             {
-                if (baton.ready())
-                {
-                    // Baton Signaled!
-                    baton_won_out = true;
+                wait.waiter.resume();
+                co_return;
+            }
 
-                    // If we started a timer, we must detach it
-                    if (timer_op_id != static_cast<uint64_t>(-1))
-                    {
-                        // Detach handler so future timeout/cancel CQE doesn't resume us
-                        io::internal::WorkerAccess::init_op_slot(baton.owner_, timer_op_id, std::noop_coroutine());
-
-                        // Request kernel removal
-                        if (io_uring_sqe* sqe = io_uring_get_sqe(&io::internal::WorkerAccess::get_ring(baton.owner_)))
-                        {
-                            io_uring_prep_timeout_remove(sqe, timer_op_id, 0);
-                            // We grab a throwaway op_id for the removal just to keep accounting straight
-                            io_uring_sqe_set_data64(sqe, io::internal::WorkerAccess::get_op_id(baton.owner_));
-                        }
-                    }
-                }
-                else
-                {
-                    // Baton doesn't ready. Must be Timer?
-                    // Try to unregister from Baton.
-                    if (uint8_t expected = WAITING; baton.state_.compare_exchange_strong(expected, NOT_SET, std::memory_order_acq_rel, std::memory_order_acquire))
-                    {
-                        // Successfully removed from Baton. Pure Timeout.
-                        timer_won_out = true;
-                        // Timer op_id is released by Worker loop when processing CQE
-                    }
-                    else
-                    {
-                        // CAS Failed. Baton is SET.
-                        // This means Notify happened concurrently and posted us to Task Queue.
-                        // We are currently running (via Timer).
-                        // We MUST loop again to consume the pending Baton resume.
-                        timer_won_out = true;
-                        // baton_won_out stays false for now, ensuring loop continues
-                    }
-                }
+            if (uint8_t expected = WAITING; wait.baton.state_.compare_exchange_strong(expected, NOT_SET, std::memory_order_acq_rel, std::memory_order_acquire))
+            {
+                // The timer won; the baton stays usable
+                wait.expired = true;
+                wait.waiter.resume();
             }
-        };
+            // Otherwise the baton has been signaled, and the waiter is resumed through its hand-over
+        }
     };
 
 }  // namespace kio::sync
-- 
2.43.0


From 38521a353cba8c6d4c771e5aaed251e54b32282e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:56 +0000
Subject: [PATCH 21/62] fix: AsyncEvent did not compile (it called the private
 Worker::post)

---
 kio/sync/event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kio/sync/event.h b/kio/sync/event.h
index a52631f..fc94999 100644
--- a/kio/sync/event.h
+++ b/kio/sync/event.h
@@ -112,7 +112,7 @@ namespace kio::sync
                 if (hptr)
                 {
                     std::coroutine_handle<> h = std::coroutine_handle<>::from_address(hptr);
-                    owner_.post(h);
+                    io::internal::WorkerAccess::post(owner_, h);
                 }
 
                 curr = next;
-- 
2.43.0


From 867a92fd125e75c6797e3009f1fe00900c22b9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:56 +0000
Subject: [PATCH 22/62] fix: a finished operation kept its slot while its
 coroutine went on, refusing the next operation although the maximum was not
 in use

---
 kio/core/worker.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index e4f0ca7..b97d44d 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -93,7 +93,8 @@ namespace kio::io
     {
         if (op_id < op_data_pool_.size())
         {
-            op_data_pool_[op_id] = {};
+            // the result stays readable until the slot is reused
+            op_data_pool_[op_id].handle_ = nullptr;
             free_op_ids.push_back(op_id);
         }
         else
@@ -281,9 +282,12 @@ namespace kio::io
 
             if (op_id == kIgnoredOpID) continue;
 
+            // The operation is over: its slot is free again when the coroutine continues, which may
+            // start another operation. Its result is the first thing the coroutine reads.
             set_op_result(op_id, cqe->res);
-            resume_coro_by_id(op_id);
+            const auto handle = op_data_pool_[op_id].handle_;
             release_op_id(op_id);
+            handle.resume();
         }
         io_uring_cq_advance(&ring_, count);
     }
-- 
2.43.0


From 36fab3a4c7751b0aad2f0550726979f1e935bfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:32 +0000
Subject: [PATCH 23/62] fix: when_any never returned when the tasks ended with
 exceptions

---
 kio/sync/when_any.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/kio/sync/when_any.h b/kio/sync/when_any.h
index 9596563..9a5adf7 100644
--- a/kio/sync/when_any.h
+++ b/kio/sync/when_any.h
@@ -43,8 +43,14 @@ namespace kio::sync
         template<size_t Index, size_t N, typename Task>
         DetachedTask run_and_notify(std::shared_ptr<WhenAnyState<N>> state, Task task)
         {
-            // Run the task
-            co_await task;
+            // Run the task. A task that ends with an exception has completed as well.
+            try
+            {
+                co_await task;
+            }
+            catch (...)
+            {
+            }
 
             // Try to win the race
             if (state->try_win(Index))
-- 
2.43.0


From b1ba83af53b85be22c99da87d227f0d8c252032c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:32 +0000
Subject: [PATCH 24/62] fix: IOPool::stop() returned before the workers had
 stopped when another thread was stopping the pool

---
 kio/core/worker_pool.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/kio/core/worker_pool.cpp b/kio/core/worker_pool.cpp
index 1fcac47..8c922fe 100644
--- a/kio/core/worker_pool.cpp
+++ b/kio/core/worker_pool.cpp
@@ -56,6 +56,15 @@ namespace kio::io
         if (stopped_.exchange(true))
         {
             ALOG_DEBUG("IOPool::stop() called but pool is already stopped");
+            // Another thread may still be stopping it; a worker cannot wait for itself
+            for (const auto &worker: workers_)
+            {
+                if (worker->is_on_worker_thread()) return;
+            }
+            for (const auto &worker: workers_)
+            {
+                worker->wait_shutdown();
+            }
             return;
         }
 
-- 
2.43.0


From 9fb6a02c8d67a4e90d84ed04a5757daf6676bf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:32 +0000
Subject: [PATCH 25/62] fix: IOPool's constructor hung when a worker thread
 could not be created

---
 kio/core/worker_pool.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/kio/core/worker_pool.cpp b/kio/core/worker_pool.cpp
index 8c922fe..e3a8b0c 100644
--- a/kio/core/worker_pool.cpp
+++ b/kio/core/worker_pool.cpp
@@ -23,9 +23,22 @@ namespace kio::io
         }
 
         // Start threads after all workers are created
-        for (const auto &worker: workers_)
+        try
+        {
+            for (const auto &worker: workers_)
+            {
+                worker_threads_.emplace_back([&w = *worker] { w.loop_forever(); });
+            }
+        }
+        catch (...)
         {
-            worker_threads_.emplace_back([&w = *worker] { w.loop_forever(); });
+            // No thread for this worker: stop those already started, or joining them would never end
+            for (size_t i = 0; i < worker_threads_.size(); ++i)
+            {
+                (void) workers_[i]->request_stop();
+            }
+            worker_threads_.clear();
+            throw;
         }
 
         // Wait for all workers to be fully initialized
-- 
2.43.0


From b7547f658912c542518f45937cb709a2229c9d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:32 +0000
Subject: [PATCH 26/62] fix: reads and writes of 4 GiB or more asked for the
 length modulo 4 GiB

---
 kio/core/worker.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index b97d44d..b9100cf 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -14,6 +14,12 @@
 
 namespace kio::io
 {
+    namespace
+    {
+        // What one kernel transfer moves at most; a longer length does not fit a request
+        constexpr size_t kMaxTransfer = 0x7ffff000;
+    }  // namespace
+
     void Worker::check_kernel_version()
     {
         utsname buf{};
@@ -437,7 +443,7 @@ namespace kio::io
 
     Task<Result<int>> Worker::async_read_at(const int client_fd, std::span<char> buf, const uint64_t offset)
     {
-        auto prep = [](io_uring_sqe *sqe, const int fd, char *b, const size_t len, const uint64_t off) { io_uring_prep_read(sqe, fd, b, static_cast<int>(len), off); };
+        auto prep = [](io_uring_sqe *sqe, const int fd, char *b, const size_t len, const uint64_t off) { io_uring_prep_read(sqe, fd, b, static_cast<unsigned>(std::min(len, kMaxTransfer)), off); };
         int ret = co_await make_uring_awaitable(*this, prep, client_fd, buf.data(), buf.size(), offset);
         if (ret < 0)
         {
@@ -494,7 +500,7 @@ namespace kio::io
 
     Task<Result<int>> Worker::async_write_at(const int client_fd, std::span<const char> buf, const uint64_t offset)
     {
-        auto prep = [](io_uring_sqe *sqe, const int fd, const char *b, const size_t len, const uint64_t off) { io_uring_prep_write(sqe, fd, b, static_cast<int>(len), off); };
+        auto prep = [](io_uring_sqe *sqe, const int fd, const char *b, const size_t len, const uint64_t off) { io_uring_prep_write(sqe, fd, b, static_cast<unsigned>(std::min(len, kMaxTransfer)), off); };
         int ret = co_await make_uring_awaitable(*this, prep, client_fd, buf.data(), buf.size(), offset);
         if (ret < 0)
         {
-- 
2.43.0


From aafe3850dd4faf991db9b7ab95469b4fa0e0a0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:02 +0000
Subject: [PATCH 27/62] fix: AsyncEvent::notify() lost waiters beyond the room
 in the owner's queue

---
 kio/sync/event.h | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/kio/sync/event.h b/kio/sync/event.h
index fc94999..1b6a072 100644
--- a/kio/sync/event.h
+++ b/kio/sync/event.h
@@ -69,6 +69,30 @@ namespace kio::sync
         };
 
 
+        struct HandOver
+        {
+            io::Worker& owner;
+
+            bool await_ready() const noexcept { return false; }
+            void await_suspend(std::coroutine_handle<> h) const { io::internal::WorkerAccess::post(owner, h); }
+            void await_resume() const noexcept {}
+        };
+
+        // Resumes a detached list of waiters on the owner's thread. A resumed waiter takes its
+        // Awaiter (and possibly the event) with it, so what follows is read first.
+        static DetachedTask resume_all(io::Worker& owner, Awaiter* curr)
+        {
+            co_await HandOver{owner};
+
+            while (curr != nullptr)
+            {
+                auto* next = curr->next.load(std::memory_order_acquire);
+                void* hptr = curr->handle_ptr.load(std::memory_order_acquire);
+                curr = next;
+                if (hptr != nullptr) std::coroutine_handle<>::from_address(hptr).resume();
+            }
+        }
+
         // State pointer can be:
         // - nullptr: Not set, no waiters.
         // - &SET_SENTINEL: Set (signaled).
@@ -100,22 +124,10 @@ namespace kio::sync
                 return;  // Already set
             }
 
-            auto* curr = static_cast<Awaiter*>(old_head);
-
-            while (curr)
+            if (old_head != nullptr)
             {
-                // read next with acquire to observe what the waiter published
-                auto* next = curr->next.load(std::memory_order_acquire);
-
-                // read handle pointer
-                void* hptr = curr->handle_ptr.load(std::memory_order_acquire);
-                if (hptr)
-                {
-                    std::coroutine_handle<> h = std::coroutine_handle<>::from_address(hptr);
-                    io::internal::WorkerAccess::post(owner_, h);
-                }
-
-                curr = next;
+                // One hand-over for all waiters: however many they are, the owner's queue has to take only one entry
+                resume_all(owner_, static_cast<Awaiter*>(old_head)).detach();
             }
         }
 
-- 
2.43.0


From 2070bba0e9e07235e2d8cf5b26af84fed6d1ec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:37 +0000
Subject: [PATCH 28/62] fix: FileManager::async_open threw out of an open with
 an empty path instead of reporting the kernel's error

---
 kio/fs/fs.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/kio/fs/fs.cpp b/kio/fs/fs.cpp
index 4feb4b2..786158b 100644
--- a/kio/fs/fs.cpp
+++ b/kio/fs/fs.cpp
@@ -9,24 +9,22 @@
 
 namespace kio
 {
-    // always return an absolute path for hashing
-    static std::string absolute_path(const std::string_view path)
+    // Always return an absolute path for hashing.
+    static std::string absolute_path(const std::filesystem::path &path)
     {
-        try
-        {
-            return std::filesystem::canonical(path).string();
-        }
-        catch (const std::filesystem::filesystem_error &e)
-        {
-            return std::filesystem::absolute(path).string();
-        }
+        std::error_code ec;
+        const auto absolute = std::filesystem::absolute(path, ec);
+        if (ec) return path.string();
+
+        const auto canonical = std::filesystem::canonical(absolute, ec);
+        return (ec ? absolute : canonical).string();
     }
 
     FileManager::FileManager(const size_t io_worker_count, const io::WorkerConfig &config) : pool_(io_worker_count, config) { ALOG_INFO("started file manager with {} workers", io_worker_count); }
 
     Task<Result<File> > FileManager::async_open(std::filesystem::path path, const int flags, const mode_t mode)
     {
-        auto worker_id = pool_.get_worker_id_by_key(absolute_path(path.string()));
+        auto worker_id = pool_.get_worker_id_by_key(absolute_path(path));
         auto *worker = pool_.get_worker(worker_id);
         if (!worker)
         {
-- 
2.43.0


From 46c3d5cda1c842b66e35c003eece50c0e3c4d25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:37 +0000
Subject: [PATCH 29/62] fix: a file's worker changed once the file had been
 created under a path that is not in normal form

---
 kio/fs/fs.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kio/fs/fs.cpp b/kio/fs/fs.cpp
index 786158b..9ac56ba 100644
--- a/kio/fs/fs.cpp
+++ b/kio/fs/fs.cpp
@@ -9,15 +9,15 @@
 
 namespace kio
 {
-    // Always return an absolute path for hashing.
+    // Always return an absolute path for hashing. It is the same before and after the file is created.
     static std::string absolute_path(const std::filesystem::path &path)
     {
         std::error_code ec;
         const auto absolute = std::filesystem::absolute(path, ec);
         if (ec) return path.string();
 
-        const auto canonical = std::filesystem::canonical(absolute, ec);
-        return (ec ? absolute : canonical).string();
+        const auto canonical = std::filesystem::weakly_canonical(absolute, ec);
+        return (ec ? absolute.lexically_normal() : canonical).string();
     }
 
     FileManager::FileManager(const size_t io_worker_count, const io::WorkerConfig &config) : pool_(io_worker_count, config) { ALOG_INFO("started file manager with {} workers", io_worker_count); }
-- 
2.43.0


From 742e73314665c04db96f18db5ab62b83ca5da1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:10 +0000
Subject: [PATCH 30/62] fix: the metrics endpoint closed the connection without
 an answer when a collector threw something other than a std::exception

---
 kio/metrics/server.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kio/metrics/server.cpp b/kio/metrics/server.cpp
index 5af7d8b..c903054 100644
--- a/kio/metrics/server.cpp
+++ b/kio/metrics/server.cpp
@@ -207,6 +207,10 @@ namespace kio
                     {
                         response = build_response(HttpStatusCode::InternalServerError, "text/plain", e.what());
                     }
+                    catch (...)
+                    {
+                        response = build_response(HttpStatusCode::InternalServerError, "text/plain", "Unknown error");
+                    }
                 }
                 else if (req.path == "/health" || req.path == "/")
                 {
-- 
2.43.0


From 281e09685cc596caac3c884e6e570a401b2670ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:10 +0000
Subject: [PATCH 31/62] fix: stopping or destroying a metrics server that was
 never started hung

---
 kio/metrics/server.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/kio/metrics/server.cpp b/kio/metrics/server.cpp
index c903054..e213221 100644
--- a/kio/metrics/server.cpp
+++ b/kio/metrics/server.cpp
@@ -111,17 +111,12 @@ namespace kio
 
         ALOG_INFO("Stopping MetricsServer...");
 
-        // Stop worker
-        if (worker_->request_stop())
+        // Stop worker. A loop that was never started reports no shutdown.
+        worker_->request_stop();
+        if (ev_thread_.joinable())
         {
             worker_->wait_shutdown();
         }
-        else
-        {
-            ALOG_WARN("Failed to stop worker");
-            // manually join the worker thread
-            ev_thread_.join();
-        }
 
         // Close server socket
         if (server_fd_ >= 0)
-- 
2.43.0


From d2861522fec40b1858e7d462c25e4a90c81ea875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 32/62] fix: stopping the metrics server left the connections
 being handled open for good

---
 kio/metrics/server.cpp | 25 +++++++++++++++++++++----
 kio/metrics/server.h   | 13 +++++++++++--
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/kio/metrics/server.cpp b/kio/metrics/server.cpp
index e213221..0fe9149 100644
--- a/kio/metrics/server.cpp
+++ b/kio/metrics/server.cpp
@@ -66,6 +66,17 @@ namespace kio
             }
         };
 
+        // Records a connection for as long as it is being handled
+        struct ClientEntry
+        {
+            MetricsClients& clients;
+            const int fd;
+            ClientEntry(MetricsClients& c, const int f) : clients(c), fd(f) { clients.fds.insert(fd); }
+            ~ClientEntry() { clients.fds.erase(fd); }
+            ClientEntry(const ClientEntry&) = delete;
+            ClientEntry& operator=(const ClientEntry&) = delete;
+        };
+
     }  // anonymous namespace
 
     MetricsServer::MetricsServer(std::string bind_addr, const uint16_t port, io::WorkerConfig config) : bind_addr_(std::move(bind_addr)), port_(port)
@@ -80,7 +91,7 @@ namespace kio
         server_fd_ = res.value();
         ALOG_INFO("Metrics server listening on endpoint: {}:{}, FD:{}", bind_addr_, port_, server_fd_);
 
-        worker_ = std::make_unique<io::Worker>(kMetricServerWorkerId, config, [this](io::Worker& w) { accept_loop(w, server_fd_).detach(); });
+        worker_ = std::make_unique<io::Worker>(kMetricServerWorkerId, config, [this](io::Worker& w) { accept_loop(w, server_fd_, clients_).detach(); });
     }
 
     void MetricsServer::start()
@@ -118,6 +129,10 @@ namespace kio
             worker_->wait_shutdown();
         }
 
+        // Close the connections that were being handled: nothing resumes their handlers any more
+        for (const int fd: clients_.fds) ::close(fd);
+        clients_.fds.clear();
+
         // Close server socket
         if (server_fd_ >= 0)
         {
@@ -128,7 +143,7 @@ namespace kio
         ALOG_INFO("MetricsServer stopped");
     }
 
-    DetachedTask MetricsServer::accept_loop(Worker& worker, const int server_fd)
+    DetachedTask MetricsServer::accept_loop(Worker& worker, const int server_fd, detail::MetricsClients& clients)
     {
         const auto st = worker.get_stop_token();
 
@@ -149,12 +164,14 @@ namespace kio
             }
 
             FDGuard client_fd(res.value());
-            handle_client(worker, std::move(client_fd)).detach();
+            handle_client(worker, std::move(client_fd), clients).detach();
         }
     }
 
-    DetachedTask MetricsServer::handle_client(Worker& worker, FDGuard fd)
+    DetachedTask MetricsServer::handle_client(Worker& worker, FDGuard fd, detail::MetricsClients& clients)
     {
+        const ClientEntry entry(clients, fd.get());
+
         // Use BytesMut for dynamic buffering
         BytesMut buffer(1024);
 
diff --git a/kio/metrics/server.h b/kio/metrics/server.h
index 99eb8b9..c484139 100644
--- a/kio/metrics/server.h
+++ b/kio/metrics/server.h
@@ -5,6 +5,7 @@
 #ifndef KIO_SERVER_H
 #define KIO_SERVER_H
 #include <string_view>
+#include <unordered_set>
 
 #include "../net/net.h"
 #include "kio/core/worker.h"
@@ -43,6 +44,12 @@ namespace kio
                     return "Unknown";
             }
         }
+
+        /// The connections being handled
+        struct MetricsClients
+        {
+            std::unordered_set<int> fds;
+        };
     }  // namespace detail
 
     /**
@@ -89,15 +96,17 @@ namespace kio
         [[nodiscard]] std::string address() const { return std::format("http://{}:{}/metrics", bind_addr_, port_); }
 
     private:
-        static DetachedTask accept_loop(io::Worker& worker, int server_fd);
+        static DetachedTask accept_loop(io::Worker& worker, int server_fd, detail::MetricsClients& clients);
         std::string bind_addr_;
         uint16_t port_;
         std::unique_ptr<io::Worker> worker_;
         std::jthread ev_thread_;
         int server_fd_{-1};
+        // used by the worker only, until it has shut down
+        detail::MetricsClients clients_;
 
         // HTTP request handler
-        static DetachedTask handle_client(io::Worker& worker, net::FDGuard fd);
+        static DetachedTask handle_client(io::Worker& worker, net::FDGuard fd, detail::MetricsClients& clients);
 
         // HTTP response builders
         static std::string build_response(detail::HttpStatusCode code, std::string_view content_type, std::string_view body);
-- 
2.43.0


From 00b9f9cbf3cc05a52a53836f10c7a62fc9040d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 33/62] fix: the metrics server stopped accepting for good when
 an accept was refused for lack of operation slots

---
 kio/metrics/server.cpp | 45 ++++++++++++++++++++++++++++++++++++++----
 kio/metrics/server.h   |  3 +++
 2 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/kio/metrics/server.cpp b/kio/metrics/server.cpp
index 0fe9149..9615486 100644
--- a/kio/metrics/server.cpp
+++ b/kio/metrics/server.cpp
@@ -69,14 +69,37 @@ namespace kio
         // Records a connection for as long as it is being handled
         struct ClientEntry
         {
+            Worker& worker;
             MetricsClients& clients;
             const int fd;
-            ClientEntry(MetricsClients& c, const int f) : clients(c), fd(f) { clients.fds.insert(fd); }
-            ~ClientEntry() { clients.fds.erase(fd); }
+            ClientEntry(Worker& w, MetricsClients& c, const int f) : worker(w), clients(c), fd(f) { clients.fds.insert(fd); }
+            ~ClientEntry()
+            {
+                clients.fds.erase(fd);
+                if (const auto h = std::exchange(clients.waiter, nullptr)) io::internal::WorkerAccess::post(worker, h);
+            }
             ClientEntry(const ClientEntry&) = delete;
             ClientEntry& operator=(const ClientEntry&) = delete;
         };
 
+        // Continues once a connection is over, or at once if there is none
+        struct ConnectionOver
+        {
+            MetricsClients& clients;
+            [[nodiscard]] bool await_ready() const noexcept { return clients.fds.empty(); }
+            void await_suspend(std::coroutine_handle<> h) const noexcept { clients.waiter = h; }
+            void await_resume() const noexcept {}
+        };
+
+        // Continues after the worker has submitted and processed what is ready
+        struct Yield
+        {
+            Worker& worker;
+            [[nodiscard]] bool await_ready() const noexcept { return false; }
+            void await_suspend(std::coroutine_handle<> h) const { io::internal::WorkerAccess::post(worker, h); }
+            void await_resume() const noexcept {}
+        };
+
     }  // anonymous namespace
 
     MetricsServer::MetricsServer(std::string bind_addr, const uint16_t port, io::WorkerConfig config) : bind_addr_(std::move(bind_addr)), port_(port)
@@ -152,7 +175,17 @@ namespace kio
             sockaddr_storage client_addr{};
             socklen_t addr_len = sizeof(client_addr);
 
-            auto res = co_await worker.async_accept(server_fd, reinterpret_cast<sockaddr*>(&client_addr), &addr_len);
+            Result<int> res = std::unexpected(Error::from_errno(EAGAIN));
+            bool no_slot = false;
+            try
+            {
+                res = co_await worker.async_accept(server_fd, reinterpret_cast<sockaddr*>(&client_addr), &addr_len);
+            }
+            catch (const std::exception& e)
+            {
+                ALOG_WARN("Metrics accept refused: {}", e.what());
+                no_slot = true;
+            }
 
             if (!res.has_value())
             {
@@ -160,6 +193,10 @@ namespace kio
                 {
                     ALOG_WARN("Metrics accept failed: {}", res.error().value);
                 }
+                // An accept that is refused does not suspend: let the worker get on with the clients,
+                // whose operations hold what is missing.
+                if (no_slot) co_await ConnectionOver{clients};
+                co_await Yield{worker};
                 continue;
             }
 
@@ -170,7 +207,7 @@ namespace kio
 
     DetachedTask MetricsServer::handle_client(Worker& worker, FDGuard fd, detail::MetricsClients& clients)
     {
-        const ClientEntry entry(clients, fd.get());
+        const ClientEntry entry(worker, clients, fd.get());
 
         // Use BytesMut for dynamic buffering
         BytesMut buffer(1024);
diff --git a/kio/metrics/server.h b/kio/metrics/server.h
index c484139..0781914 100644
--- a/kio/metrics/server.h
+++ b/kio/metrics/server.h
@@ -4,6 +4,7 @@
 
 #ifndef KIO_SERVER_H
 #define KIO_SERVER_H
+#include <coroutine>
 #include <string_view>
 #include <unordered_set>
 
@@ -49,6 +50,8 @@ namespace kio
         struct MetricsClients
         {
             std::unordered_set<int> fds;
+            // continued when a connection is over
+            std::coroutine_handle<> waiter;
         };
     }  // namespace detail
 
-- 
2.43.0


From 991e6f1673251989bb5ffa426b24aa52078aabed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 34/62] fix: a damaged entry size near 2^64 made decoding an
 entry read out of bounds

---
 bitcask/src/entry.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bitcask/src/entry.cpp b/bitcask/src/entry.cpp
index 5f86e63..71c78c4 100644
--- a/bitcask/src/entry.cpp
+++ b/bitcask/src/entry.cpp
@@ -67,7 +67,8 @@ namespace bitcask
         const auto crc = read_le<uint32_t>(buffer.data());
         const auto size = read_le<uint64_t>(buffer.data() + 4);
 
-        if (buffer.size() < kEntryFixedHeaderSize + size)
+        // compared this way, a damaged size cannot overflow
+        if (size > buffer.size() - kEntryFixedHeaderSize)
         {
             return std::unexpected(Error{ErrorCategory::Serialization, kIoNeedMoreData});
         }
@@ -84,9 +85,7 @@ namespace bitcask
             return std::unexpected(Error{ErrorCategory::Serialization, kIoDeserialization});
         }
 
-        DataEntry recovered = std::move(entry.value());
-        const auto entry_packed_size = struct_pack::get_needed_size(recovered);
-        return std::make_pair(std::move(recovered), kEntryFixedHeaderSize + entry_packed_size);
+        return std::make_pair(std::move(entry.value()), kEntryFixedHeaderSize + size);
     }
 
     std::vector<char> HintEntry::serialize() const { return struct_pack::serialize(*this); }
-- 
2.43.0


From 4eede87becf66104ae266304110308663464e1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 35/62] fix: file identifiers could repeat or go backwards
 after a restart or a sequence overflow

---
 bitcask/include/file_id.h | 15 +++++++++++++++
 bitcask/src/partition.cpp |  6 ++++++
 2 files changed, 21 insertions(+)

diff --git a/bitcask/include/file_id.h b/bitcask/include/file_id.h
index 71384b5..38df3c3 100644
--- a/bitcask/include/file_id.h
+++ b/bitcask/include/file_id.h
@@ -83,7 +83,9 @@ namespace bitcask
                 if (sequence_ == 0xFFFF)
                 {
                     // This is a rare edge case: generating >65k files in 1 second.
+                    // Borrow the next second, an identifier must never repeat.
                     ALOG_WARN("FileIdGenerator: sequence overflow for partition {}", partition_id_);
+                    now = ++last_timestamp_;
                     sequence_ = 0;
                 }
                 else
@@ -95,6 +97,19 @@ namespace bitcask
             return FileID{partition_id_, now, sequence_}.encode();
         }
 
+        /**
+         * @brief Make every identifier generated from now on larger than an existing one
+         */
+        void advance_past(const uint64_t file_id)
+        {
+            const auto [partition, timestamp, sequence] = FileID::decode(file_id);
+            if (timestamp > last_timestamp_ || (timestamp == last_timestamp_ && sequence > sequence_))
+            {
+                last_timestamp_ = timestamp;
+                sequence_ = sequence;
+            }
+        }
+
         [[nodiscard]] uint32_t current_timestamp() const { return last_timestamp_; }
 
         [[nodiscard]] uint16_t partition_id() const { return partition_id_; }
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 013ab3a..06d13ab 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -504,6 +504,12 @@ Task<Result<void>> Partition::recover()
         fs.live_entries++;
     }
 
+    // New files must come after the existing ones, whatever the clock says
+    for (const auto file_id: files)
+    {
+        file_id_gen_.advance_past(file_id);
+    }
+
     // create and set an active file
     KIO_TRY(co_await create_and_set_active_file());
 
-- 
2.43.0


From 63dfe6ec7510c10a25b56817a19844b4d0f4b511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 36/62] fix: concurrent requests for one file made the
 open-file cache close a descriptor in use or exceed its limit

---
 bitcask/include/fd_cache.h  | 15 +++++++++++++--
 bitcask/include/partition.h |  2 +-
 bitcask/src/fd_cache.cpp    | 28 +++++++++++++++++++++-------
 bitcask/src/partition.cpp   | 10 +++++-----
 4 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/bitcask/include/fd_cache.h b/bitcask/include/fd_cache.h
index 72e2c7a..22f0253 100644
--- a/bitcask/include/fd_cache.h
+++ b/bitcask/include/fd_cache.h
@@ -4,7 +4,9 @@
 
 #ifndef KIO_FD_CACHE_H
 #define KIO_FD_CACHE_H
+#include <algorithm>
 #include <list>
+#include <memory>
 
 #include "kio/core/worker.h"
 #include "file_handle.h"
@@ -22,12 +24,21 @@ namespace bitcask
     class FDCache
     {
     public:
-        explicit FDCache(kio::io::Worker& worker, size_t max_files = 100) : worker_(worker), max_open_files_(max_files) {}
+        /// An open file. It stays open as long as somebody holds it, even if it leaves the cache meanwhile.
+        using Lease = std::shared_ptr<const FileHandle>;
+
+        explicit FDCache(kio::io::Worker& worker, size_t max_files = 100) : worker_(worker), max_open_files_(std::max<size_t>(max_files, 1)) {}
 
         /**
          * @brief Get FD for file_id, opening if not cached
+         *
+         * The FD is only good until the file leaves the cache: use acquire() to keep it open across a suspension.
          */
         kio::Task<kio::Result<int>> get_or_open(uint64_t file_id, const std::filesystem::path& path);
+        /**
+         * @brief Get file_id, opening if not cached, and keep it open while the lease is held
+         */
+        kio::Task<kio::Result<Lease>> acquire(uint64_t file_id, std::filesystem::path path);
         /**
          * @brief Remove file from cache (e.g., after compaction)
          */
@@ -56,7 +67,7 @@ namespace bitcask
     private:
         struct CacheEntry
         {
-            FileHandle handle;
+            Lease handle;
             std::filesystem::path path;
             std::list<uint64_t>::iterator lru_iter;
         };
diff --git a/bitcask/include/partition.h b/bitcask/include/partition.h
index 4e0a8f3..b989013 100644
--- a/bitcask/include/partition.h
+++ b/bitcask/include/partition.h
@@ -44,7 +44,7 @@ namespace bitcask
         // Helper methods
         kio::Task<kio::Result<DataEntry>> async_read_entry(int fd, uint64_t offset, uint32_t size) const;
         kio::Task<kio::Result<void>> rotate_active_file();
-        kio::Task<kio::Result<int>> find_fd(uint64_t file_id);
+        kio::Task<kio::Result<FDCache::Lease>> find_fd(uint64_t file_id);
 
         // Start the loop in the background if a compaction flag is set
         kio::DetachedTask compaction_loop();
diff --git a/bitcask/src/fd_cache.cpp b/bitcask/src/fd_cache.cpp
index 2040b43..33f5d71 100644
--- a/bitcask/src/fd_cache.cpp
+++ b/bitcask/src/fd_cache.cpp
@@ -7,34 +7,48 @@
 namespace bitcask
 {
     kio::Task<kio::Result<int>> FDCache::get_or_open(uint64_t file_id, const std::filesystem::path& path)
+    {
+        const auto lease = KIO_TRY(co_await acquire(file_id, path));
+        co_return lease->get();
+    }
+
+    kio::Task<kio::Result<FDCache::Lease>> FDCache::acquire(uint64_t file_id, std::filesystem::path path)  // NOLINT the path must outlive the suspension
     {
         // Cache hit
         if (const auto it = cache_.find(file_id); it != cache_.end())
         {
             stats_.hits++;
             touch(file_id);
-            co_return it->second.handle.get();
+            co_return it->second.handle;
         }
 
         // Cache miss
         stats_.misses++;
 
+        // Open file
+        int fd = KIO_TRY(co_await worker_.async_openat(path, O_RDONLY, 0));
+        auto handle = std::make_shared<const FileHandle>(fd);
+
+        // Somebody else may have opened the same file meanwhile
+        if (const auto it = cache_.find(file_id); it != cache_.end())
+        {
+            touch(file_id);
+            co_return it->second.handle;
+        }
+
         // Evict if at capacity
-        if (cache_.size() >= max_open_files_)
+        while (cache_.size() >= max_open_files_)
         {
             evict_oldest();
         }
 
-        // Open file
-        int fd = KIO_TRY(co_await worker_.async_openat(path, O_RDONLY, 0));
-
         // Add to cache
         lru_list_.push_front(file_id);
-        cache_[file_id] = CacheEntry{FileHandle(fd), path, lru_list_.begin()};
+        cache_[file_id] = CacheEntry{handle, std::move(path), lru_list_.begin()};
 
         ALOG_DEBUG("FdCache: Opened file {} (cache size: {})", file_id, cache_.size());
 
-        co_return fd;
+        co_return handle;
     }
 
     void FDCache::remove(uint64_t file_id)
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 06d13ab..bfd2ff2 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -70,10 +70,11 @@ Task<Result<std::optional<std::vector<char>>>> Partition::get(const std::string&
     }
 
     const auto& loc = it->second;
-    const int fd = KIO_TRY(co_await find_fd(loc.file_id));
+    // holding the file keeps it open until it has been read
+    const auto file = KIO_TRY(co_await find_fd(loc.file_id));
 
     ALOG_TRACE("Reading entry from file {} at offset {} with size {}", loc.file_id, loc.offset, loc.total_size);
-    DataEntry entry = KIO_TRY(co_await async_read_entry(fd, loc.offset, loc.total_size));
+    DataEntry entry = KIO_TRY(co_await async_read_entry(file->get(), loc.offset, loc.total_size));
 
     if (entry.is_tombstone())
     {
@@ -128,7 +129,7 @@ Task<Result<void>> Partition::del(const std::string& key)
 }
 
 
-Task<Result<int>> Partition::find_fd(const uint64_t file_id)
+Task<Result<FDCache::Lease>> Partition::find_fd(const uint64_t file_id)
 {
     // if file id is the active one, flush first
     if (file_id == active_file_->file_id())
@@ -136,8 +137,7 @@ Task<Result<int>> Partition::find_fd(const uint64_t file_id)
         KIO_TRY(co_await worker_.async_fdatasync(active_file_->handle().get()));
     }
 
-    const auto path = get_data_file_path(file_id);
-    co_return co_await fd_cache_.get_or_open(file_id, path);
+    co_return co_await fd_cache_.acquire(file_id, get_data_file_path(file_id));
 }
 
 Task<Result<DataEntry>> Partition::async_read_entry(const int fd, const uint64_t offset, const uint32_t size) const
-- 
2.43.0


From 908d7dde1c2c3819fbd5bed0faafcf51697fc9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 37/62] fix: concurrent writes, rotations and deletes of a
 partition overwrote each other; a get could use a location or descriptor that
 was gone

---
 bitcask/include/async_mutex.h |  88 ++++++++++++++++
 bitcask/include/partition.h   |  14 ++-
 bitcask/src/partition.cpp     | 192 ++++++++++++++++++----------------
 3 files changed, 201 insertions(+), 93 deletions(-)
 create mode 100644 bitcask/include/async_mutex.h

diff --git a/bitcask/include/async_mutex.h b/bitcask/include/async_mutex.h
new file mode 100644
index 0000000..188ccb2
--- /dev/null
+++ b/bitcask/include/async_mutex.h
@@ -0,0 +1,88 @@
+//
+// Mutual exclusion for the coroutines of one worker.
+//
+
+#ifndef KIO_BITCASK_ASYNC_MUTEX_H
+#define KIO_BITCASK_ASYNC_MUTEX_H
+
+#include <coroutine>
+#include <deque>
+#include <utility>
+
+namespace bitcask
+{
+    /**
+     * @brief FIFO mutex for coroutines that all run on one worker thread. NOT thread-safe.
+     *
+     * @code
+     * const auto guard = co_await mutex.acquire();
+     * @endcode
+     */
+    class AsyncMutex
+    {
+    public:
+        class Guard
+        {
+        public:
+            explicit Guard(AsyncMutex* mutex) : mutex_(mutex) {}
+            Guard(Guard&& other) noexcept : mutex_(std::exchange(other.mutex_, nullptr)) {}
+            Guard(const Guard&) = delete;
+            Guard& operator=(const Guard&) = delete;
+            Guard& operator=(Guard&&) = delete;
+            ~Guard()
+            {
+                if (mutex_) mutex_->unlock();
+            }
+
+        private:
+            AsyncMutex* mutex_;
+        };
+
+        auto acquire()
+        {
+            struct Awaiter
+            {
+                AsyncMutex& mutex;
+
+                bool await_ready() const
+                {
+                    if (mutex.locked_ || !mutex.waiters_.empty()) return false;
+                    mutex.locked_ = true;
+                    return true;
+                }
+                void await_suspend(const std::coroutine_handle<> h) { mutex.waiters_.push_back(h); }
+                // a waiter is resumed with the mutex locked for it
+                Guard await_resume() const { return Guard(&mutex); }
+            };
+            return Awaiter{*this};
+        }
+
+        AsyncMutex() = default;
+        AsyncMutex(const AsyncMutex&) = delete;
+        AsyncMutex& operator=(const AsyncMutex&) = delete;
+
+    private:
+        bool locked_{false};
+        bool handing_over_{false};
+        std::deque<std::coroutine_handle<>> waiters_;
+
+        void unlock()
+        {
+            locked_ = false;
+
+            // A waiter that is resumed here may unlock again before it suspends: loop instead of recursing
+            if (handing_over_) return;
+            handing_over_ = true;
+            while (!locked_ && !waiters_.empty())
+            {
+                const auto next = waiters_.front();
+                waiters_.pop_front();
+                locked_ = true;
+                next.resume();
+            }
+            handing_over_ = false;
+        }
+    };
+}  // namespace bitcask
+
+#endif  // KIO_BITCASK_ASYNC_MUTEX_H
diff --git a/bitcask/include/partition.h b/bitcask/include/partition.h
index b989013..11b093f 100644
--- a/bitcask/include/partition.h
+++ b/bitcask/include/partition.h
@@ -6,6 +6,7 @@
 #define KIO_BITCASK_PARTITION_H
 
 #include "kio/sync/baton.h"
+#include "async_mutex.h"
 #include "compactor.h"
 #include "data_file.h"
 #include "entry.h"
@@ -29,7 +30,11 @@ namespace bitcask
         // The KeyDir uses the pool
         SimpleKeydir keydir_;
         kio::io::Worker& worker_;
-        std::unique_ptr<DataFile> active_file_;
+        // Shared with the operations using it: a file that is rotated out is closed when the last of them is done
+        std::shared_ptr<DataFile> active_file_;
+        // Held by whatever appends to the active file or replaces it. Entries are placed at the file's current
+        // size, so two concurrent appends would overwrite each other.
+        AsyncMutex write_lock_;
         FDCache fd_cache_;
         FileIdGenerator file_id_gen_;
 
@@ -42,8 +47,13 @@ namespace bitcask
         std::atomic<bool> shutting_down_{false};
 
         // Helper methods
-        kio::Task<kio::Result<DataEntry>> async_read_entry(int fd, uint64_t offset, uint32_t size) const;
+        kio::Task<kio::Result<DataEntry>> async_read_entry(const ValueLocation& loc);
+        // These require write_lock_
         kio::Task<kio::Result<void>> rotate_active_file();
+        // Rotates first if due. Returns where the entry was written.
+        kio::Task<kio::Result<ValueLocation>> append(const DataEntry& entry);
+
+        [[nodiscard]] static kio::Error closed_error() { return kio::Error::from_errno(ESHUTDOWN); }
         kio::Task<kio::Result<FDCache::Lease>> find_fd(uint64_t file_id);
 
         // Start the loop in the background if a compaction flag is set
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index bfd2ff2..d4add19 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -12,21 +12,12 @@ Partition::Partition(const BitcaskConfig& config, Worker& worker, const size_t p
 
 Task<Result<void>> Partition::put(std::string&& key, std::vector<char>&& value)
 {
-    // Assert partition is initialized
-    assert(active_file_ && "Partition not initialized - active_file_ is null");
-
     co_await SwitchToWorker(worker_);
 
-    if (active_file_->should_rotate(config_.max_file_size))
-    {
-        KIO_TRY(co_await rotate_active_file());
-    }
+    const auto guard = co_await write_lock_.acquire();
 
     DataEntry entry{std::move(key), std::move(value)};
-    auto [offset, len] = KIO_TRY(co_await active_file_->async_write(entry));
-    ALOG_TRACE("Wrote entry to file {} at offset {} with size {}", active_file_->file_id(), offset, len);
-
-    const ValueLocation new_loc{active_file_->file_id(), offset, len, entry.timestamp_ns};
+    const ValueLocation new_loc = KIO_TRY(co_await append(entry));
 
     auto& dst_stats = stats_.data_files[new_loc.file_id];
     if (const auto it = keydir_.find(entry.get_key()); it != keydir_.end())
@@ -47,78 +38,115 @@ Task<Result<void>> Partition::put(std::string&& key, std::vector<char>&& value)
     // Increment new file stats
     dst_stats.live_bytes += new_loc.total_size;
     dst_stats.live_entries++;
-    dst_stats.total_bytes += new_loc.total_size;
 
     stats_.puts_total++;
 
     co_return {};
 }
 
-Task<Result<std::optional<std::vector<char>>>> Partition::get(const std::string& key)
+Task<Result<ValueLocation>> Partition::append(const DataEntry& entry)
 {
-    // Assert partition is initialized
-    assert(active_file_ && "Partition not initialized - active_file_ is null");
+    if (!active_file_)
+    {
+        co_return std::unexpected(closed_error());
+    }
+
+    if (active_file_->should_rotate(config_.max_file_size))
+    {
+        KIO_TRY(co_await rotate_active_file());
+    }
+
+    const uint64_t file_id = active_file_->file_id();
+    auto [offset, len] = KIO_TRY(co_await active_file_->async_write(entry));
+    ALOG_TRACE("Wrote entry to file {} at offset {} with size {}", file_id, offset, len);
+
+    stats_.data_files[file_id].total_bytes += len;
+
+    co_return ValueLocation{file_id, offset, len, entry.timestamp_ns};
+}
 
+Task<Result<std::optional<std::vector<char>>>> Partition::get(const std::string& key)
+{
     co_await SwitchToWorker(worker_);
     stats_.gets_total++;
 
-    const auto it = keydir_.find(key);
-    if (it == keydir_.end())
+    for (;;)
     {
-        stats_.gets_miss_total++;
-        co_return std::nullopt;
-    }
+        if (!active_file_)
+        {
+            co_return std::unexpected(closed_error());
+        }
 
-    const auto& loc = it->second;
-    // holding the file keeps it open until it has been read
-    const auto file = KIO_TRY(co_await find_fd(loc.file_id));
+        const auto it = keydir_.find(key);
+        if (it == keydir_.end())
+        {
+            stats_.gets_miss_total++;
+            co_return std::nullopt;
+        }
 
-    ALOG_TRACE("Reading entry from file {} at offset {} with size {}", loc.file_id, loc.offset, loc.total_size);
-    DataEntry entry = KIO_TRY(co_await async_read_entry(file->get(), loc.offset, loc.total_size));
+        // a copy: the key may be overwritten, deleted or moved by compaction while we wait
+        const ValueLocation loc = it->second;
+        auto entry = co_await async_read_entry(loc);
 
-    if (entry.is_tombstone())
-    {
-        stats_.gets_miss_total++;
-        co_return std::nullopt;
-    }
+        if (!entry.has_value())
+        {
+            // The file may have been compacted away meanwhile, then the entry is elsewhere
+            const auto now = keydir_.find(key);
+            if (now == keydir_.end() || now->second.file_id != loc.file_id || now->second.offset != loc.offset) continue;
 
-    co_return entry.value;
+            co_return std::unexpected(entry.error());
+        }
+
+        if (entry->key != key)
+        {
+            ALOG_ERROR("Entry in file {} at offset {} belongs to another key", loc.file_id, loc.offset);
+            co_return std::unexpected(Error{ErrorCategory::Serialization, kIoDataCorrupted});
+        }
+
+        if (entry->is_tombstone())
+        {
+            stats_.gets_miss_total++;
+            co_return std::nullopt;
+        }
+
+        co_return std::move(entry->value);
+    }
 }
 
 
 Task<Result<void>> Partition::del(const std::string& key)
 {
-    // Assert partition is initialized
-    assert(active_file_ && "Partition not initialized - active_file_ is null");
-
     co_await SwitchToWorker(worker_);
 
     stats_.deletes_total++;
 
-    const auto it = keydir_.find(key);
-    if (it == keydir_.end())
+    const auto guard = co_await write_lock_.acquire();
+
+    if (!active_file_)
+    {
+        co_return std::unexpected(closed_error());
+    }
+
+    if (!keydir_.contains(key))
     {
         co_return {};
     }
 
+    // The key is only gone once its tombstone is written
+    const DataEntry tombstone(std::string(key), std::vector<char>{}, kFlagTombstone);
+    KIO_TRY(co_await append(tombstone));
+
+    // Compaction may have moved the entry meanwhile
+    const auto it = keydir_.find(key);
+    const uint64_t old_file_id = it->second.file_id;
+
     // Update stats for old location
-    auto& old_stats = stats_.data_files[it->second.file_id];
+    auto& old_stats = stats_.data_files[old_file_id];
     old_stats.live_bytes -= it->second.total_size;
     old_stats.live_entries--;
 
-    const uint64_t old_file_id = it->second.file_id;
-
-    // Remove from KeyDir first as it's our source of truth
     keydir_.erase(it);
 
-    // Write tombstone
-    const DataEntry tombstone(std::string(key), std::vector<char>{}, kFlagTombstone);
-    auto [_, size] = KIO_TRY(co_await active_file_->async_write(tombstone));
-
-    // Update active file stats (tombstone adds to total_bytes)
-    auto& active_stats = stats_.data_files[active_file_->file_id()];
-    active_stats.total_bytes += size;
-
     // Check if a file needs compaction
     if (should_compact_file(old_file_id))
     {
@@ -132,20 +160,22 @@ Task<Result<void>> Partition::del(const std::string& key)
 Task<Result<FDCache::Lease>> Partition::find_fd(const uint64_t file_id)
 {
     // if file id is the active one, flush first
-    if (file_id == active_file_->file_id())
+    if (const auto active = active_file_; active && file_id == active->file_id())
     {
-        KIO_TRY(co_await worker_.async_fdatasync(active_file_->handle().get()));
+        KIO_TRY(co_await worker_.async_fdatasync(active->handle().get()));
     }
 
     co_return co_await fd_cache_.acquire(file_id, get_data_file_path(file_id));
 }
 
-Task<Result<DataEntry>> Partition::async_read_entry(const int fd, const uint64_t offset, const uint32_t size) const
+Task<Result<DataEntry>> Partition::async_read_entry(const ValueLocation& loc)
 {
-    ALOG_TRACE("Reading entry from file {} at offset {} with size {}", fd, offset, size);
-    std::vector<char> buffer(size);
-    KIO_TRY(co_await worker_.async_read_exact_at(fd, buffer, offset));
-    ALOG_TRACE("Read entry from file {} at offset {} with size {}", fd, offset, size);
+    // holding the file keeps it open until it has been read
+    const auto file = KIO_TRY(co_await find_fd(loc.file_id));
+
+    ALOG_TRACE("Reading entry from file {} at offset {} with size {}", loc.file_id, loc.offset, loc.total_size);
+    std::vector<char> buffer(loc.total_size);
+    KIO_TRY(co_await worker_.async_read_exact_at(file->get(), buffer, loc.offset));
 
     auto [entry, _] = KIO_TRY(DataEntry::deserialize(buffer));
     co_return entry;
@@ -153,25 +183,18 @@ Task<Result<DataEntry>> Partition::async_read_entry(const int fd, const uint64_t
 
 Task<Result<void>> Partition::rotate_active_file()
 {
-    // Assert partition is initialized
-    assert(active_file_ && "Partition not initialized - active_file_ is null");
-
-    // Get the actual written size before flushing and closing
-    const uint64_t actual_size = active_file_->size();
-    const int active_fd = active_file_->handle().get();
+    // Readers and sync() may still be using it: it is closed when the last one is done
+    const auto old_file = active_file_;
 
     // Flush
-    KIO_TRY(co_await worker_.async_fsync(active_file_->handle().get()));
+    KIO_TRY(co_await worker_.async_fsync(old_file->handle().get()));
 
     // truncate to the actual used space
-    KIO_TRY(co_await worker_.async_ftruncate(active_fd, static_cast<off_t>(actual_size)));
-
-    // close
-    KIO_TRY(co_await active_file_->async_close());
+    KIO_TRY(co_await worker_.async_ftruncate(old_file->handle().get(), static_cast<off_t>(old_file->size())));
 
     // No need to add to FD cache as it will be done when needed
 
-    // Create a new active file
+    // Create a new active file. If that fails, the old one remains in use.
     KIO_TRY(co_await create_and_set_active_file());
 
     stats_.file_rotations_total++;
@@ -184,12 +207,14 @@ Task<Result<void>> Partition::create_and_set_active_file()
     uint64_t new_id = file_id_gen_.next();
     int new_fd = KIO_TRY(co_await worker_.async_openat(get_data_file_path(new_id), config_.write_flags, config_.file_mode));
 
-    active_file_ = std::make_unique<DataFile>(new_fd, new_id, worker_, config_);
+    auto new_file = std::make_shared<DataFile>(new_fd, new_id, worker_, config_);
 
     // Pre-allocate
     // TODO: remove to fix test for now
     co_await worker_.async_fallocate(new_fd, 0, static_cast<off_t>(config_.max_file_size));
 
+    active_file_ = std::move(new_file);
+
     co_return {};
 }
 
@@ -564,34 +589,19 @@ Task<Result<void>> Partition::seal_active_file()
 {
     co_await SwitchToWorker(worker_);
 
+    const auto guard = co_await write_lock_.acquire();
+
     // Check if there is an active file to seal and if it has content
     if (active_file_ == nullptr)
     {
         co_return {};
     }
 
-    const uint64_t actual_size = active_file_->size();
-    const int active_fd = active_file_->handle().get();
-    uint64_t actual_file_id = active_file_id();
-
-    if (active_fd > 0)
-    {
-        KIO_TRY(co_await worker_.async_fsync(active_fd));
-
-        KIO_TRY(co_await worker_.async_ftruncate(active_fd, static_cast<off_t>(actual_size)));
-
-        KIO_TRY(co_await active_file_->async_close());
-    }
-    else
-    {
-        // close and remove as this active file was never used
-        ALOG_DEBUG("The active file is empty, we will remove it, file_id {}", actual_file_id);
-        KIO_TRY(co_await active_file_->async_close());
-        const auto path = config_.directory / std::format("partition_{}/data_{}.db", partition_id_, actual_file_id);
-        KIO_TRY(co_await worker_.async_unlink_at(active_fd, path, config_.file_mode));
-    }
+    const auto file = active_file_;
+    KIO_TRY(co_await worker_.async_fsync(file->handle().get()));
+    KIO_TRY(co_await worker_.async_ftruncate(file->handle().get(), static_cast<off_t>(file->size())));
 
-    // Remove pointer to prevent double-closing in dtor
+    // Closed when the last reader is done with it
     active_file_.reset();
 
     co_return {};
@@ -662,9 +672,9 @@ Task<Result<void>> Partition::compact()
 Task<Result<void>> Partition::sync()
 {
     co_await SwitchToWorker(worker_);
-    if (active_file_)
+    if (const auto active = active_file_)
     {
-        KIO_TRY(co_await worker_.async_fsync(active_file_->handle().get()));
+        KIO_TRY(co_await worker_.async_fsync(active->handle().get()));
     }
     co_return {};
 }
-- 
2.43.0


From d442267132281590febc5b01f844f66d98ea5ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 38/62] fix: after a failed write the next entry was written
 over the remains of the failed one

---
 bitcask/include/data_file.h |  3 +++
 bitcask/src/data_file.cpp   | 12 +++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/bitcask/include/data_file.h b/bitcask/include/data_file.h
index 91fdfe2..c49e339 100644
--- a/bitcask/include/data_file.h
+++ b/bitcask/include/data_file.h
@@ -48,6 +48,9 @@ namespace bitcask
         uint64_t file_id_{0};
         FileHandle handle_;
         uint64_t size_{0};
+        // A failed write may have left part of an entry, or all of it, beyond size_. Nothing may follow it:
+        // the file is rotated, which truncates it, before the next write.
+        bool write_failed_{false};
         // useful to perform compaction of files older than X
         // on seal, file metadata is also written to disk
         // data_id_.metadata, or we can rely on fstats
diff --git a/bitcask/src/data_file.cpp b/bitcask/src/data_file.cpp
index 453a90a..a934c29 100644
--- a/bitcask/src/data_file.cpp
+++ b/bitcask/src/data_file.cpp
@@ -4,6 +4,8 @@
 
 #include "bitcask/include/data_file.h"
 
+#include <limits>
+
 #include "bitcask/include/entry.h"
 
 using namespace kio;
@@ -34,12 +36,19 @@ namespace bitcask
     Task<Result<std::pair<uint64_t, uint32_t>>> DataFile::async_write(const DataEntry& entry)
     {
         auto serialized_entry = entry.serialize();
+        if (serialized_entry.size() > std::numeric_limits<uint32_t>::max())
+        {
+            co_return std::unexpected(Error::from_errno(EFBIG));
+        }
 
         // manual offset tracking. Current size if the writing offset
         // because we use fallocate which conflicts with O_APPEND
         const auto entry_offset = size_;
         const auto written_len = static_cast<uint32_t>(serialized_entry.size());
 
+        // until it is known to have worked
+        write_failed_ = true;
+
         // The file must be opened without O_APPEND for this pwrite-based call to work correctly.
         KIO_TRY(co_await io_worker_.async_write_exact_at(handle_.get(), serialized_entry, entry_offset));
 
@@ -51,12 +60,13 @@ namespace bitcask
 
         // Atomically update size_ for the next write
         size_ += written_len;
+        write_failed_ = false;
 
         co_return std::pair{entry_offset, written_len};
     }
 
 
-    bool DataFile::should_rotate(const size_t max_file_size) const { return size_ >= max_file_size; }
+    bool DataFile::should_rotate(const size_t max_file_size) const { return write_failed_ || size_ >= max_file_size; }
 
 
 }  // namespace bitcask
-- 
2.43.0


From f5f417ef691eeb7afae303cbec9137920d4fc7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 39/62] fix: recovery counted preallocated space and unreadable
 tails as bytes of entries

---
 bitcask/src/partition.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index d4add19..d9ebb28 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -473,6 +473,9 @@ Result<std::pair<uint64_t, uint64_t>> Partition::recover_data_from_buffer(BytesM
 
         buffer.advance(entry_size);
 
+        // what follows the last valid entry (preallocated space, an incomplete write) does not count
+        stats_.data_files[file_id].total_bytes += entry_size;
+
         if (entry.is_tombstone())
         {
             keydir_.erase(entry.key);
@@ -491,11 +494,10 @@ Task<Result<void>> Partition::recover()
 {
     const auto files = scan_data_files();
 
-    // Get file sizes
     ALOG_INFO("Found {} data files", files.size());
     for (auto file_id: files)
     {
-        stats_.data_files[file_id].total_bytes = std::filesystem::file_size(get_data_file_path(file_id));
+        stats_.data_files[file_id] = {};
     }
 
     // Recover each file
@@ -505,6 +507,7 @@ Task<Result<void>> Partition::recover()
         if (const auto hint_result = co_await try_recover_from_hint(file_id); hint_result)
         {
             // Success, skip to the next file
+            stats_.data_files[file_id].total_bytes = std::filesystem::file_size(get_data_file_path(file_id));
             ALOG_DEBUG("Recovered from hint file {}", file_id);
             continue;
         }
-- 
2.43.0


From 430bf66ad81d88dbca6c0e37e1b644b10e722864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 40/62] fix: a store was changed before its manifest was
 checked; a damaged or incomplete manifest could be accepted or left behind

---
 bitcask/src/bitcask.cpp | 75 ++++++++++++++++++++++++++++++-----------
 1 file changed, 55 insertions(+), 20 deletions(-)

diff --git a/bitcask/src/bitcask.cpp b/bitcask/src/bitcask.cpp
index 8e268b7..1c6eef5 100644
--- a/bitcask/src/bitcask.cpp
+++ b/bitcask/src/bitcask.cpp
@@ -1,5 +1,6 @@
 #include <bitcask/include/bitcask.h>
 #include <cstdlib>
+#include <fcntl.h>
 #include <filesystem>
 #include <fstream>
 #include <mutex>
@@ -22,10 +23,10 @@ Task<Result<std::unique_ptr<BitKV>>> BitKV::open(const BitcaskConfig& config, co
 
     try
     {
+        // refuse a store of another layout before anything is changed in it
+        db->check_or_create_manifest();
         // ensure dirs are created
         db->ensure_directories();
-        // ensure the manifest is valid (must happen after ensure_directories)
-        db->check_or_create_manifest();
     }
     catch (const std::exception& e)
     {
@@ -52,19 +53,43 @@ Task<Result<std::unique_ptr<BitKV>>> BitKV::open(const BitcaskConfig& config, co
     co_return std::move(db);
 }
 
-void BitKV::ensure_directories() const
+namespace
 {
-    const auto perms = static_cast<std::filesystem::perms>(db_config_.dir_mode);
+    /// Write all of data to a new file and make it durable
+    void write_durably(const std::filesystem::path& path, const std::vector<char>& data, const mode_t mode)
+    {
+        const FileHandle file(::open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, mode));
+        bool ok = file.is_valid();
+        for (size_t written = 0; ok && written < data.size();)
+        {
+            const auto n = ::write(file.get(), data.data() + written, data.size() - written);
+            if (n < 0 && errno == EINTR) continue;
+            ok = n > 0;
+            written += ok ? static_cast<size_t>(n) : 0;
+        }
+        if (!ok || ::fsync(file.get()) < 0)
+        {
+            throw std::runtime_error(std::format("Failed to write {}", path.string()));
+        }
+    }
 
-    try
+    /// Make the entries of a directory durable
+    void sync_directory(const std::filesystem::path& path)
     {
-        // Create a base directory
-        if (!std::filesystem::exists(db_config_.directory))
+        const FileHandle dir(::open(path.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC));
+        if (!dir.is_valid() || ::fsync(dir.get()) < 0)
         {
-            std::filesystem::create_directories(db_config_.directory);
-            std::filesystem::permissions(db_config_.directory, perms);
+            throw std::runtime_error(std::format("Failed to sync directory {}", path.string()));
         }
+    }
+}  // namespace
 
+void BitKV::ensure_directories() const
+{
+    const auto perms = static_cast<std::filesystem::perms>(db_config_.dir_mode);
+
+    try
+    {
         // Create partition directories
         for (size_t i = 0; i < partition_count_; ++i)
         {
@@ -74,6 +99,7 @@ void BitKV::ensure_directories() const
                 std::filesystem::permissions(partition_dir, perms);
             }
         }
+        sync_directory(db_config_.directory);
     }
     catch (const std::filesystem::filesystem_error& e)
     {
@@ -97,7 +123,8 @@ void BitKV::check_or_create_manifest() const
         std::vector buffer((std::istreambuf_iterator(file)), std::istreambuf_iterator<char>());
         auto res = struct_pack::deserialize<Manifest>(buffer);
 
-        if (!res.has_value())
+        // nothing may follow the manifest either
+        if (!res.has_value() || struct_pack::serialize(res.value()) != buffer)
         {
             ALOG_ERROR("Corrupted MANIFEST file");
             throw std::runtime_error("Corrupted MANIFEST");
@@ -111,6 +138,12 @@ void BitKV::check_or_create_manifest() const
             throw std::runtime_error("Invalid MANIFEST magic");
         }
 
+        if (manifest.version != Manifest{}.version)
+        {
+            ALOG_ERROR("Unsupported MANIFEST version {}", manifest.version);
+            throw std::runtime_error("Unsupported MANIFEST version");
+        }
+
         if (manifest.partition_count != partition_count_)
         {
             ALOG_ERROR("Partition count mismatch! Config: {}, Manifest: {}", partition_count_, manifest.partition_count);
@@ -119,21 +152,23 @@ void BitKV::check_or_create_manifest() const
     }
     else
     {
+        // Create a base directory
+        if (!std::filesystem::exists(db_config_.directory))
+        {
+            std::filesystem::create_directories(db_config_.directory);
+            std::filesystem::permissions(db_config_.directory, static_cast<std::filesystem::perms>(db_config_.dir_mode));
+        }
+
         // Create a new Manifest
         ALOG_INFO("Creating new MANIFEST with partition_count={}", partition_count_);
         Manifest manifest;
         manifest.partition_count = static_cast<uint32_t>(partition_count_);
-        auto data = struct_pack::serialize(manifest);
-
-        std::ofstream file(manifest_path, std::ios::binary);
-        file.write(data.data(), static_cast<int>(data.size()));
-        file.close();
 
-        if (!file.good())
-        {
-            ALOG_ERROR("Failed to write MANIFEST");
-            throw std::runtime_error("Failed to write MANIFEST");
-        }
+        // In one step: a crash must not leave a store whose manifest is incomplete
+        const std::filesystem::path tmp_path = db_config_.directory / std::format("{}.tmp", kManifestFileName);
+        write_durably(tmp_path, struct_pack::serialize(manifest), db_config_.file_mode);
+        std::filesystem::rename(tmp_path, manifest_path);
+        sync_directory(db_config_.directory);
     }
 }
 
-- 
2.43.0


From d290bc8bfad6f0c008f46ecce04b63a63031fbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:34 +0000
Subject: [PATCH 41/62] fix: with synchronous writes, the name of a new data
 file was not made durable

---
 bitcask/include/common.h  |  4 ++++
 bitcask/src/common.cpp    | 12 ++++++++++++
 bitcask/src/partition.cpp |  6 ++++++
 3 files changed, 22 insertions(+)

diff --git a/bitcask/include/common.h b/bitcask/include/common.h
index 943b273..c50f5fb 100644
--- a/bitcask/include/common.h
+++ b/bitcask/include/common.h
@@ -9,6 +9,7 @@
 #include <bit>
 #include <cstring>
 #include <expected>
+#include <filesystem>
 #include <sys/stat.h>
 #include <vector>
 #include <ylt/struct_pack.hpp>
@@ -79,6 +80,9 @@ namespace bitcask
     /// Read the hint file entirely, they are small
     kio::Task<kio::Result<std::vector<char>>> read_file_content(kio::io::Worker& io_worker, int fd);
 
+    /// Make the names of the files created in a directory durable
+    kio::Task<kio::Result<void>> async_sync_directory(kio::io::Worker& io_worker, std::filesystem::path path);
+
     inline kio::Result<size_t> get_file_size(const int fd)
     {
         struct stat st{};
diff --git a/bitcask/src/common.cpp b/bitcask/src/common.cpp
index 0efab50..df8c592 100644
--- a/bitcask/src/common.cpp
+++ b/bitcask/src/common.cpp
@@ -2,6 +2,11 @@
 // Created by Yao ACHI on 14/11/2025.
 //
 
+#include "bitcask/include/common.h"
+
+#include <fcntl.h>
+
+#include "bitcask/include/file_handle.h"
 #include "kio/core/worker.h"
 
 using namespace kio;
@@ -32,4 +37,11 @@ namespace bitcask
         co_return buffer;
     }
 
+    Task<Result<void>> async_sync_directory(Worker& io_worker, const std::filesystem::path path)  // NOLINT the path must outlive the suspension
+    {
+        const FileHandle dir(KIO_TRY(co_await io_worker.async_openat(path, O_RDONLY | O_DIRECTORY, 0)));
+        KIO_TRY(co_await io_worker.async_fsync(dir.get()));
+        co_return {};
+    }
+
 }  // namespace bitcask
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index d9ebb28..ed347f8 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -213,6 +213,12 @@ Task<Result<void>> Partition::create_and_set_active_file()
     // TODO: remove to fix test for now
     co_await worker_.async_fallocate(new_fd, 0, static_cast<off_t>(config_.max_file_size));
 
+    // An entry is only durable if the file's name is
+    if (config_.sync_on_write)
+    {
+        KIO_TRY(co_await async_sync_directory(worker_, db_path()));
+    }
+
     active_file_ = std::move(new_file);
 
     co_return {};
-- 
2.43.0


From a256cac2ac9e8c213fead9b00fdb9d6ee1024c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:34 +0000
Subject: [PATCH 42/62] fix: closing a store hid the errors of its partitions

---
 bitcask/src/bitcask.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bitcask/src/bitcask.cpp b/bitcask/src/bitcask.cpp
index 1c6eef5..23619e1 100644
--- a/bitcask/src/bitcask.cpp
+++ b/bitcask/src/bitcask.cpp
@@ -202,12 +202,17 @@ DetachedTask BitKV::initialize_partition(BitKV& db, Worker& worker, InitState& s
 
 Task<Result<void>> BitKV::close() const
 {
+    // close all of them, then report the first error
+    Result<void> result{};
     for (const auto& partition: partitions_)
     {
-        co_await partition->async_close();
+        if (auto res = co_await partition->async_close(); !res.has_value() && result.has_value())
+        {
+            result = std::unexpected(res.error());
+        }
     }
 
-    co_return {};
+    co_return result;
 }
 
 size_t BitKV::route_to_partition(const std::string_view key) const
-- 
2.43.0


From 7aea51a2268b6596e59979cda6f5c7b2783d438b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 43/62] fix: compaction lost deletions and newer values after a
 restart, removed files before their contents were safe elsewhere, and could
 run twice at once

---
 bitcask/include/compactor.h |  32 ++++--
 bitcask/include/entry.h     |  18 +++-
 bitcask/include/partition.h |   4 +
 bitcask/src/compactor.cpp   | 196 +++++++++++++++++++++++++-----------
 bitcask/src/partition.cpp   | 107 ++++++++++++++++----
 5 files changed, 263 insertions(+), 94 deletions(-)

diff --git a/bitcask/include/compactor.h b/bitcask/include/compactor.h
index a883da1..638b35b 100644
--- a/bitcask/include/compactor.h
+++ b/bitcask/include/compactor.h
@@ -16,7 +16,6 @@ namespace bitcask::compactor
     struct CompactionLimits
     {
         size_t max_decode_buffer = 2 * 1024 * 1024;  // 2MB
-        size_t max_hint_batch = 512 * 1024;
         size_t max_keydir_batch = 10000;
     };
 
@@ -35,7 +34,8 @@ namespace bitcask::compactor
 
         // Batching buffers
         std::vector<char> data_batch;
-        std::vector<char> hint_batch;
+        // of the whole destination: the hint file is only written once the data it describes is durable
+        std::vector<char> hints;
         kio::BytesMut decode_buffer;
 
         struct KeyDirUpdate
@@ -48,7 +48,6 @@ namespace bitcask::compactor
         std::vector<KeyDirUpdate> keydir_batch;
 
         uint64_t current_data_offset = 0;
-        uint64_t current_hint_offset = 0;
 
         // Compaction metrics
         uint64_t entries_kept = 0;
@@ -56,41 +55,56 @@ namespace bitcask::compactor
         uint64_t bytes_read = 0;
         uint64_t bytes_written = 0;
 
+        // source files that no longer exist
+        std::vector<uint64_t> removed_file_ids;
+
         explicit CompactionContext(kio::io::Worker& worker, const BitcaskConfig& cfg, SimpleKeydir& kd, PartitionStats& st, uint64_t partition, uint64_t dst_file, std::vector<uint64_t> src_files,
                                    const CompactionLimits& lim = {}) :
             io_worker(worker), config(cfg), limits(lim), partition_id(partition), keydir(kd), stats(st), dst_file_id(dst_file), src_file_ids(std::move(src_files)),
             decode_buffer(config.read_buffer_size * 2)
         {
             data_batch.reserve(config.write_buffer_size);
-            hint_batch.reserve(limits.max_hint_batch);
             keydir_batch.reserve(limits.max_keydir_batch);
         }
     };
 
     // main public apis
+    /**
+     * @brief Move what is still needed from the source files to the destination file and remove the source files.
+     *
+     * Files are recovered in the order of their ids, so the destination's id must be larger than those of the sources
+     * and smaller than that of the file being written to. Sources are removed last, when everything that was moved
+     * is durable. A failure leaves all files that may be needed.
+     */
     kio::Task<kio::Result<void>> compact_files(CompactionContext& ctx);
-    kio::Task<kio::Result<void>> compact_one_file(CompactionContext& ctx, uint64_t src_file_id, int dst_data_fd, int dst_hint_fd);
+    kio::Task<kio::Result<void>> compact_one_file(CompactionContext& ctx, uint64_t src_file_id, int dst_data_fd);
 
     // Implementation helpers
     namespace detail
     {
         kio::Task<kio::Result<std::pair<int, uint64_t>>> open_source_file(const CompactionContext& ctx, uint64_t src_file_id);
 
-        kio::Task<kio::Result<void>> stream_and_compact_file(CompactionContext& ctx, int src_fd, int dst_data_fd, int dst_hint_fd, uint64_t src_file_id);
+        kio::Task<kio::Result<void>> stream_and_compact_file(CompactionContext& ctx, int src_fd, int dst_data_fd, uint64_t src_file_id);
 
-        kio::Task<kio::Result<void>> parse_entries_from_buffer(CompactionContext& ctx, uint64_t file_read_pos, uint64_t src_file_id, int dst_data_fd, int dst_hint_fd);
+        kio::Task<kio::Result<void>> parse_entries_from_buffer(CompactionContext& ctx, uint64_t file_read_pos, uint64_t src_file_id, int dst_data_fd);
 
         void process_parsed_entry(CompactionContext& ctx, const DataEntry& data_entry, uint64_t decoded_size, uint64_t entry_offset, uint64_t src_file_id, std::span<const char> readable_data);
 
-        kio::Task<kio::Result<void>> commit_batch(CompactionContext& ctx, int dst_data_fd, int dst_hint_fd);
+        kio::Task<kio::Result<void>> commit_batch(CompactionContext& ctx, int dst_data_fd);
 
         bool should_flush_batch(const CompactionContext& ctx);
         void reset_batches(CompactionContext& ctx);
 
-        kio::Task<kio::Result<void>> cleanup_source_files(const CompactionContext& ctx, uint64_t src_file_id);
+        kio::Task<kio::Result<void>> fill_destination(CompactionContext& ctx);
+        kio::Task<kio::Result<void>> write_hint_file(CompactionContext& ctx);
+        kio::Task<kio::Result<void>> remove_file(const CompactionContext& ctx, const std::filesystem::path& path);
+        kio::Task<kio::Result<void>> cleanup_source_files(CompactionContext& ctx, uint64_t src_file_id);
 
         bool is_live_entry(const CompactionContext& ctx, const DataEntry& entry, uint64_t old_offset, uint64_t old_file_id);
 
+        // A tombstone is needed as long as an older file, which may hold an entry it deletes, remains
+        bool is_needed_tombstone(const CompactionContext& ctx, const DataEntry& entry, uint64_t file_id);
+
         bool update_keydir_if_matches(const CompactionContext& ctx, const std::string& key, const ValueLocation& new_loc, uint64_t expected_file_id, uint64_t expected_offset);
 
         std::filesystem::path get_data_file_path(const CompactionContext& ctx, uint64_t file_id);
diff --git a/bitcask/include/entry.h b/bitcask/include/entry.h
index 6b53147..4a53429 100644
--- a/bitcask/include/entry.h
+++ b/bitcask/include/entry.h
@@ -28,12 +28,14 @@ namespace bitcask
 
     // Hint Entry, fully serialize/deserialize by struct_pack:
     // +----------------+--------+-----------+----------------+
-    // | timestamp_ns(8)| entry_pos | total_sz  | key(string) |
+    // | timestamp_ns(8)| entry_pos | total_sz  | key(string) | flag(1)
     // +----------------+--------+-----------+----------------+
     // - timestamp_ns : uint64_t nanosecond timestamp
     // - entry_pos: position of the serialized data entry in the datafile
     // - total_sz: Total size of the serialized data entry in the datafile
     // - key:
+    // - flag: uint8_t (e.g. tombstone bit)
+    // A hint file lists all entries of its data file, in their order.
 
     // PAYLOAD (struct_pack serialization of Entry):
     // +----------------+--------+-----------+-------------+
@@ -88,14 +90,22 @@ namespace bitcask
         uint64_t entry_pos{};
         uint32_t total_sz{};
         std::string key;
+        uint8_t flag = kFlagNone;
 
         HintEntry() = default;
 
-        HintEntry(const uint64_t timestamp_ns, const uint64_t entry_pos, const uint32_t total_sz, std::string&& key) :
-            timestamp_ns(timestamp_ns), entry_pos(entry_pos), total_sz(total_sz), key(std::move(key))
+        HintEntry(const uint64_t timestamp_ns, const uint64_t entry_pos, const uint32_t total_sz, std::string&& key, const uint8_t flag = kFlagNone) :
+            timestamp_ns(timestamp_ns), entry_pos(entry_pos), total_sz(total_sz), key(std::move(key)), flag(flag)
         {
         }
 
+        // Tombstone marker (for deletions)
+        [[nodiscard]]
+        bool is_tombstone() const
+        {
+            return flag & kFlagTombstone;
+        }
+
         // Serialize to buffer
         [[nodiscard]]
         std::vector<char> serialize() const;
@@ -137,7 +147,7 @@ namespace bitcask
 
     // for struct_pack
     YLT_REFL(DataEntry, timestamp_ns, flag, key, value);
-    YLT_REFL(HintEntry, timestamp_ns, entry_pos, total_sz, key)
+    YLT_REFL(HintEntry, timestamp_ns, entry_pos, total_sz, key, flag)
 }  // namespace bitcask
 
 #endif  // KIO_ENTRY_H
diff --git a/bitcask/include/partition.h b/bitcask/include/partition.h
index 11b093f..c08ecac 100644
--- a/bitcask/include/partition.h
+++ b/bitcask/include/partition.h
@@ -35,6 +35,9 @@ namespace bitcask
         // Held by whatever appends to the active file or replaces it. Entries are placed at the file's current
         // size, so two concurrent appends would overwrite each other.
         AsyncMutex write_lock_;
+        // Held by a compaction. Acquired before write_lock_.
+        AsyncMutex compaction_lock_;
+        AsyncMutex close_lock_;
         FDCache fd_cache_;
         FileIdGenerator file_id_gen_;
 
@@ -60,6 +63,7 @@ namespace bitcask
         kio::DetachedTask compaction_loop();
         // background sync job for the active file, in case sync_on_write is not set
         kio::DetachedTask background_sync();
+        kio::Task<kio::Result<void>> compact_files(std::vector<uint64_t> file_ids);
         void signal_compaction(uint64_t file_id);
         bool should_compact_file(uint64_t file_id) const;
         std::vector<uint64_t> find_fragmented_files() const;
diff --git a/bitcask/src/compactor.cpp b/bitcask/src/compactor.cpp
index 9b57872..f24a409 100644
--- a/bitcask/src/compactor.cpp
+++ b/bitcask/src/compactor.cpp
@@ -5,6 +5,7 @@
 
 #include "bitcask/include/compactor.h"
 
+#include <algorithm>
 #include <format>
 #include <ylt/struct_pack.hpp>
 
@@ -19,39 +20,48 @@ namespace bitcask::compactor
     {
         ALOG_INFO("Starting N-to-1 compaction: {} files -> file {}", ctx.src_file_ids.size(), ctx.dst_file_id);
 
-        // Initialize destination file stats
-        ctx.stats.data_files[ctx.dst_file_id] = PartitionStats::FileStats{};
+        // Sources are removed in this order: an entry is gone before the tombstone that deletes it
+        std::ranges::sort(ctx.src_file_ids);
 
-        // Create destination files
-        const auto data_path = detail::get_data_file_path(ctx, ctx.dst_file_id);
-        const auto hint_path = detail::get_hint_file_path(ctx, ctx.dst_file_id);
+        auto result = co_await detail::fill_destination(ctx);
 
-        const int data_fd = KIO_TRY(co_await ctx.io_worker.async_openat(data_path, ctx.config.write_flags, ctx.config.file_mode));
-        const int hint_fd = KIO_TRY(co_await ctx.io_worker.async_openat(hint_path, ctx.config.write_flags, ctx.config.file_mode));
-
-        FileHandle data_handle(data_fd);
-        FileHandle hint_handle(hint_fd);
+        if (ctx.current_data_offset == 0)
+        {
+            // Nothing was moved
+            ctx.stats.data_files.erase(ctx.dst_file_id);
+            co_await detail::remove_file(ctx, detail::get_data_file_path(ctx, ctx.dst_file_id));
+        }
 
-        // Pre-allocate
-        KIO_TRY(co_await ctx.io_worker.async_fallocate(data_fd, 0, static_cast<off_t>(ctx.config.max_file_size)));
+        if (!result.has_value())
+        {
+            co_return std::unexpected(result.error());
+        }
 
-        // Compact each source file
-        for (uint64_t src_file_id: ctx.src_file_ids)
+        // An entry in use that could not be found (the file is damaged): keep its file
+        for (const uint64_t src_file_id: ctx.src_file_ids)
         {
-            // log error regarding one file failing
-            if (auto result = co_await compact_one_file(ctx, src_file_id, data_fd, hint_fd); !result.has_value())
+            if (const auto it = ctx.stats.data_files.find(src_file_id); it != ctx.stats.data_files.end() && it->second.live_entries > 0)
             {
-                ALOG_ERROR("Failed to compact file {}: {}", src_file_id, result.error());
-                co_return std::unexpected(result.error());
+                ALOG_ERROR("File {} has {} entries in use that could not be read", src_file_id, it->second.live_entries);
+                co_return std::unexpected(Error{ErrorCategory::Application, kIoDataCorrupted});
             }
         }
 
-        // Final flush
-        KIO_TRY(co_await detail::commit_batch(ctx, data_fd, hint_fd));
+        uint64_t bytes_removed = 0;
+        for (const uint64_t src_file_id: ctx.src_file_ids)
+        {
+            KIO_TRY(co_await detail::cleanup_source_files(ctx, src_file_id));
 
-        // Sync
-        KIO_TRY(co_await ctx.io_worker.async_fsync(data_fd));
-        KIO_TRY(co_await ctx.io_worker.async_fsync(hint_fd));
+            // Update stats: a source file is gone
+            if (const auto it = ctx.stats.data_files.find(src_file_id); it != ctx.stats.data_files.end())
+            {
+                bytes_removed += it->second.total_bytes;
+                ctx.stats.data_files.erase(it);
+            }
+            ctx.removed_file_ids.push_back(src_file_id);
+            ctx.stats.files_compacted_total++;
+        }
+        ctx.stats.bytes_reclaimed_total += bytes_removed - std::min(bytes_removed, ctx.bytes_written);
 
         double reduction = ctx.bytes_read > 0 ? 100.0 * (1.0 - static_cast<double>(ctx.bytes_written) / static_cast<double>(ctx.bytes_read)) : 0.0;
 
@@ -61,7 +71,7 @@ namespace bitcask::compactor
         co_return {};
     }
 
-    Task<Result<void>> compact_one_file(CompactionContext& ctx, const uint64_t src_file_id, const int dst_data_fd, const int dst_hint_fd)
+    Task<Result<void>> compact_one_file(CompactionContext& ctx, const uint64_t src_file_id, const int dst_data_fd)
     {
         detail::reset_batches(ctx);
         ctx.decode_buffer.clear();
@@ -71,26 +81,64 @@ namespace bitcask::compactor
         FileHandle src_handle(src_fd);
         ctx.bytes_read += file_size;
 
-        KIO_TRY(co_await detail::stream_and_compact_file(ctx, src_fd, dst_data_fd, dst_hint_fd, src_file_id));
-
-        KIO_TRY(co_await detail::commit_batch(ctx, dst_data_fd, dst_hint_fd));
-
-        // Update stats: a source file is gone
-        if (const auto it = ctx.stats.data_files.find(src_file_id); it != ctx.stats.data_files.end())
-        {
-            ctx.stats.bytes_reclaimed_total += it->second.total_bytes - it->second.live_bytes;
-            ctx.stats.data_files.erase(it);
-        }
-
-        ctx.stats.files_compacted_total++;
+        KIO_TRY(co_await detail::stream_and_compact_file(ctx, src_fd, dst_data_fd, src_file_id));
 
-        KIO_TRY(co_await detail::cleanup_source_files(ctx, src_file_id));
+        KIO_TRY(co_await detail::commit_batch(ctx, dst_data_fd));
 
         co_return {};
     }
 
     namespace detail
     {
+        Task<Result<void>> fill_destination(CompactionContext& ctx)
+        {
+            const auto data_path = get_data_file_path(ctx, ctx.dst_file_id);
+            const FileHandle data_handle(KIO_TRY(co_await ctx.io_worker.async_openat(data_path, ctx.config.write_flags, ctx.config.file_mode)));
+            const int data_fd = data_handle.get();
+
+            // Initialize destination file stats
+            ctx.stats.data_files[ctx.dst_file_id] = PartitionStats::FileStats{};
+
+            // Pre-allocate
+            KIO_TRY(co_await ctx.io_worker.async_fallocate(data_fd, 0, static_cast<off_t>(ctx.config.max_file_size)));
+
+            // Compact each source file
+            for (uint64_t src_file_id: ctx.src_file_ids)
+            {
+                // log error regarding one file failing
+                if (auto result = co_await compact_one_file(ctx, src_file_id, data_fd); !result.has_value())
+                {
+                    ALOG_ERROR("Failed to compact file {}: {}", src_file_id, result.error());
+
+                    // What has been moved stays there. What a failed write left behind does not.
+                    co_await ctx.io_worker.async_ftruncate(data_fd, static_cast<off_t>(ctx.current_data_offset));
+                    co_return std::unexpected(result.error());
+                }
+            }
+
+            if (ctx.current_data_offset == 0) co_return {};
+
+            // Sync, then give back what was allocated too much. The hint file counts from when it describes all of
+            // the data file, so it must not do so before the data is durable.
+            KIO_TRY(co_await ctx.io_worker.async_fsync(data_fd));
+            KIO_TRY(co_await ctx.io_worker.async_ftruncate(data_fd, static_cast<off_t>(ctx.current_data_offset)));
+            KIO_TRY(co_await write_hint_file(ctx));
+
+            // The names of both, before those of the sources are removed
+            KIO_TRY(co_await async_sync_directory(ctx.io_worker, data_path.parent_path()));
+
+            co_return {};
+        }
+
+        Task<Result<void>> write_hint_file(CompactionContext& ctx)
+        {
+            const auto hint_path = get_hint_file_path(ctx, ctx.dst_file_id);
+            const FileHandle hint_handle(KIO_TRY(co_await ctx.io_worker.async_openat(hint_path, ctx.config.write_flags, ctx.config.file_mode)));
+            KIO_TRY(co_await ctx.io_worker.async_write_exact_at(hint_handle.get(), std::span<const char>(ctx.hints), 0));
+            KIO_TRY(co_await ctx.io_worker.async_fsync(hint_handle.get()));
+            co_return {};
+        }
+
         Task<Result<std::pair<int, uint64_t>>> open_source_file(const CompactionContext& ctx, const uint64_t src_file_id)
         {
             const auto src_path = get_data_file_path(ctx, src_file_id);
@@ -107,7 +155,7 @@ namespace bitcask::compactor
         }
 
 
-        Task<Result<void>> stream_and_compact_file(CompactionContext& ctx, const int src_fd, const int dst_data_fd, const int dst_hint_fd, uint64_t src_file_id)
+        Task<Result<void>> stream_and_compact_file(CompactionContext& ctx, const int src_fd, const int dst_data_fd, uint64_t src_file_id)
         {
             uint64_t file_read_pos = 0;
 
@@ -141,10 +189,16 @@ namespace bitcask::compactor
                 }
 
                 // FIX: Check the result of parsing. If it fails, assume we hit the unsealed tail.
-                auto parse_result = co_await parse_entries_from_buffer(ctx, file_read_pos, src_file_id, dst_data_fd, dst_hint_fd);
+                auto parse_result = co_await parse_entries_from_buffer(ctx, file_read_pos, src_file_id, dst_data_fd);
 
                 if (!parse_result.has_value())
                 {
+                    // Not about the contents: what was found could not be written
+                    if (parse_result.error().category != ErrorCategory::Serialization)
+                    {
+                        co_return std::unexpected(parse_result.error());
+                    }
+
                     // Logic: If we encounter a deserialization error, it likely means we hit the zero-filled
                     // or garbage tail of an unsealed file. We stop processing this file but DO NOT return an error.
                     // This allows the compaction to proceed with the valid entries we've found so far.
@@ -161,7 +215,7 @@ namespace bitcask::compactor
             co_return {};
         }
 
-        Task<Result<void>> parse_entries_from_buffer(CompactionContext& ctx, const uint64_t file_read_pos, const uint64_t src_file_id, const int dst_data_fd, const int dst_hint_fd)
+        Task<Result<void>> parse_entries_from_buffer(CompactionContext& ctx, const uint64_t file_read_pos, const uint64_t src_file_id, const int dst_data_fd)
         {
             while (true)
             {
@@ -185,7 +239,7 @@ namespace bitcask::compactor
 
                 if (should_flush_batch(ctx))
                 {
-                    KIO_TRY(co_await commit_batch(ctx, dst_data_fd, dst_hint_fd));
+                    KIO_TRY(co_await commit_batch(ctx, dst_data_fd));
                 }
             }
 
@@ -194,7 +248,8 @@ namespace bitcask::compactor
 
         void process_parsed_entry(CompactionContext& ctx, const DataEntry& data_entry, const uint64_t decoded_size, uint64_t entry_offset, uint64_t src_file_id, std::span<const char> readable_data)
         {
-            if (!is_live_entry(ctx, data_entry, entry_offset, src_file_id))
+            const bool tombstone = is_needed_tombstone(ctx, data_entry, src_file_id);
+            if (!tombstone && !is_live_entry(ctx, data_entry, entry_offset, src_file_id))
             {
                 ctx.entries_discarded++;
                 return;
@@ -206,39 +261,41 @@ namespace bitcask::compactor
 
             ValueLocation new_loc{ctx.dst_file_id, ctx.current_data_offset + ctx.data_batch.size(), static_cast<uint32_t>(decoded_size), data_entry.timestamp_ns};
 
-            const HintEntry hint{new_loc.timestamp_ns, new_loc.offset, new_loc.total_size, std::string(data_entry.key)};
+            const HintEntry hint{new_loc.timestamp_ns, new_loc.offset, new_loc.total_size, std::string(data_entry.key), data_entry.flag};
 
             ctx.data_batch.insert(ctx.data_batch.end(), raw_entry.begin(), raw_entry.end());
-            struct_pack::serialize_to(ctx.hint_batch, hint);
-            ctx.keydir_batch.emplace_back(std::string(data_entry.key), new_loc, src_file_id, entry_offset);
+            struct_pack::serialize_to(ctx.hints, hint);
+            if (!tombstone)
+            {
+                ctx.keydir_batch.emplace_back(std::string(data_entry.key), new_loc, src_file_id, entry_offset);
+            }
         }
 
-        Task<Result<void>> commit_batch(CompactionContext& ctx, const int dst_data_fd, const int dst_hint_fd)
+        Task<Result<void>> commit_batch(CompactionContext& ctx, const int dst_data_fd)
         {
             if (ctx.data_batch.empty()) co_return {};
 
-            KIO_TRY(co_await ctx.io_worker.async_write_exact(dst_data_fd, std::span(ctx.data_batch)));
-            KIO_TRY(co_await ctx.io_worker.async_write_exact(dst_hint_fd, std::span(ctx.hint_batch)));
+            KIO_TRY(co_await ctx.io_worker.async_write_exact_at(dst_data_fd, std::span<const char>(ctx.data_batch), ctx.current_data_offset));
 
             ctx.bytes_written += ctx.data_batch.size();
 
             auto& dst_stats = ctx.stats.data_files[ctx.dst_file_id];
             dst_stats.total_bytes += ctx.data_batch.size();
-            dst_stats.live_bytes += ctx.data_batch.size();
-            dst_stats.live_entries += ctx.keydir_batch.size();
 
-            // Update KeyDir with CAS, adjust stats if CAS fails
+            // Update KeyDir with CAS. An entry that was overwritten or deleted meanwhile is dead in the destination.
             for (const auto& update: ctx.keydir_batch)
             {
-                if (!update_keydir_if_matches(ctx, update.key, update.new_loc, update.expected_file_id, update.expected_offset))
+                if (update_keydir_if_matches(ctx, update.key, update.new_loc, update.expected_file_id, update.expected_offset))
                 {
-                    dst_stats.live_bytes -= update.new_loc.total_size;
-                    dst_stats.live_entries--;
+                    auto& src_stats = ctx.stats.data_files[update.expected_file_id];
+                    src_stats.live_bytes -= update.new_loc.total_size;
+                    src_stats.live_entries--;
+                    dst_stats.live_bytes += update.new_loc.total_size;
+                    dst_stats.live_entries++;
                 }
             }
 
             ctx.current_data_offset += ctx.data_batch.size();
-            ctx.current_hint_offset += ctx.hint_batch.size();
 
             reset_batches(ctx);
             co_return {};
@@ -246,23 +303,42 @@ namespace bitcask::compactor
 
         bool should_flush_batch(const CompactionContext& ctx)
         {
-            return ctx.data_batch.size() >= ctx.config.write_buffer_size || ctx.hint_batch.size() >= ctx.limits.max_hint_batch || ctx.keydir_batch.size() >= ctx.limits.max_keydir_batch;
+            return ctx.data_batch.size() >= ctx.config.write_buffer_size || ctx.keydir_batch.size() >= ctx.limits.max_keydir_batch;
         }
 
         void reset_batches(CompactionContext& ctx)
         {
             ctx.data_batch.clear();
-            ctx.hint_batch.clear();
             ctx.keydir_batch.clear();
         }
 
-        Task<Result<void>> cleanup_source_files(const CompactionContext& ctx, const uint64_t src_file_id)
+        Task<Result<void>> remove_file(const CompactionContext& ctx, const std::filesystem::path& path)
+        {
+            if (auto result = co_await ctx.io_worker.async_unlink_at(AT_FDCWD, path, 0); !result.has_value() && result.error().value != ENOENT)
+            {
+                ALOG_ERROR("Failed to remove {}: {}", path.string(), result.error());
+                co_return std::unexpected(result.error());
+            }
+            co_return {};
+        }
+
+        Task<Result<void>> cleanup_source_files(CompactionContext& ctx, const uint64_t src_file_id)
         {
-            co_await ctx.io_worker.async_unlink_at(AT_FDCWD, get_data_file_path(ctx, src_file_id), 0);
-            co_await ctx.io_worker.async_unlink_at(AT_FDCWD, get_hint_file_path(ctx, src_file_id), 0);
+            // A hint file is only looked for where there is a data file
+            const auto hint_path = get_hint_file_path(ctx, src_file_id);
+            KIO_TRY(co_await remove_file(ctx, hint_path));
+            const auto data_path = get_data_file_path(ctx, src_file_id);
+            KIO_TRY(co_await remove_file(ctx, data_path));
             co_return {};
         }
 
+        bool is_needed_tombstone(const CompactionContext& ctx, const DataEntry& entry, const uint64_t file_id)
+        {
+            if (!entry.is_tombstone() || ctx.keydir.contains(entry.key)) return false;
+
+            return std::ranges::any_of(ctx.stats.data_files | std::views::keys, [&](const uint64_t id) { return id < file_id && !std::ranges::binary_search(ctx.src_file_ids, id); });
+        }
+
         bool is_live_entry(const CompactionContext& ctx, const DataEntry& entry, const uint64_t old_offset, const uint64_t old_file_id)
         {
             const auto it = ctx.keydir.find(entry.key);
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index ed347f8..7fc3462 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -199,6 +199,14 @@ Task<Result<void>> Partition::rotate_active_file()
 
     stats_.file_rotations_total++;
 
+    // Nothing was ever written to it
+    if (old_file->size() == 0)
+    {
+        stats_.data_files.erase(old_file->file_id());
+        const auto old_path = get_data_file_path(old_file->file_id());
+        co_await worker_.async_unlink_at(AT_FDCWD, old_path, 0);
+    }
+
     co_return {};
 }
 
@@ -249,7 +257,7 @@ std::vector<uint64_t> Partition::find_fragmented_files() const
         // Never compact the active file
         if (file_id == active_file_->file_id()) continue;
 
-        if (file_stats.fragmentation() >= config_.fragmentation_threshold)
+        if (file_stats.total_bytes > 0 && file_stats.fragmentation() >= config_.fragmentation_threshold)
         {
             result.push_back(file_id);
         }
@@ -286,16 +294,15 @@ DetachedTask Partition::compaction_loop()
             break;
         }
 
+        // Reset trigger: what is signalled from here on is for the next round
+        compaction_trigger_.reset();
+
         // compact all fragmented files
         if (auto res = co_await compact(); !res.has_value())
         {
             ALOG_ERROR("Partition {}: co_await compaction failed", partition_id_);
         }
         // The new compacted file will be added to cache on first read
-
-        // Reset trigger
-        compaction_trigger_.reset();
-        stats_.compaction_running = false;
     }
 
     ALOG_INFO("Partition {} compaction loop exiting", partition_id_);
@@ -364,23 +371,51 @@ Task<Result<void>> Partition::recover_from_hint_file(const FileHandle& fh, const
     }
 
     std::span buf_span(buf);
+    std::vector<HintEntry> entries;
+    uint64_t data_size = 0;
 
     while (!buf_span.empty())
     {
-        const auto res = struct_pack::deserialize<HintEntry>(buf_span);
+        auto res = struct_pack::deserialize<HintEntry>(buf_span);
         if (!res.has_value())
         {
             ALOG_ERROR("Failed to deserialize entry: {}", res.error().message());
             co_return std::unexpected(Error{ErrorCategory::Serialization, kIoDeserialization});
         }
 
-        const auto& entry = res.value();
+        auto& entry = res.value();
         const size_t bytes_this_entry = struct_pack::get_needed_size(entry);
 
-        keydir_[std::string(entry.key)] = ValueLocation{file_id, entry.entry_pos, entry.total_sz, entry.timestamp_ns};
+        if (entry.entry_pos != data_size)
+        {
+            ALOG_ERROR("Hint file {} does not list all entries", file_id);
+            co_return std::unexpected(Error{ErrorCategory::Serialization, kIoDataCorrupted});
+        }
+        data_size += entry.total_sz;
+
+        entries.push_back(std::move(entry));
         buf_span = buf_span.subspan(bytes_this_entry);
     }
 
+    // It only counts if it describes all of the data file: its end may be missing
+    std::error_code ec;
+    if (data_size != std::filesystem::file_size(get_data_file_path(file_id), ec) || ec)
+    {
+        ALOG_ERROR("Hint file {} does not match its data file", file_id);
+        co_return std::unexpected(Error{ErrorCategory::Serialization, kIoDataCorrupted});
+    }
+
+    for (auto& entry: entries)
+    {
+        if (entry.is_tombstone())
+        {
+            keydir_.erase(entry.key);
+            continue;
+        }
+        keydir_[std::move(entry.key)] = ValueLocation{file_id, entry.entry_pos, entry.total_sz, entry.timestamp_ns};
+    }
+    stats_.data_files[file_id].total_bytes = data_size;
+
     co_return {};
 }
 
@@ -513,7 +548,6 @@ Task<Result<void>> Partition::recover()
         if (const auto hint_result = co_await try_recover_from_hint(file_id); hint_result)
         {
             // Success, skip to the next file
-            stats_.data_files[file_id].total_bytes = std::filesystem::file_size(get_data_file_path(file_id));
             ALOG_DEBUG("Recovered from hint file {}", file_id);
             continue;
         }
@@ -639,12 +673,21 @@ Task<Result<void>> Partition::async_close()
 
 Task<Result<void>> Partition::compact()
 {
+    co_await SwitchToWorker(worker_);
+
+    // one at a time
+    const auto guard = co_await compaction_lock_.acquire();
+
+    if (!active_file_)
+    {
+        co_return std::unexpected(closed_error());
+    }
+
     auto fragmented_files = find_fragmented_files();
 
     if (fragmented_files.empty())
     {
         ALOG_DEBUG("Partition {}: no files to compact", partition_id_);
-        compaction_trigger_.reset();
         co_return {};
     }
 
@@ -652,13 +695,8 @@ Task<Result<void>> Partition::compact()
 
     stats_.compaction_running = true;
 
-    // Generate destination file ID
-    const uint64_t dst_file_id = file_id_gen_.next();
-
-    // Create compaction context
-    compactor::CompactionContext ctx(worker_, config_, keydir_, stats_, partition_id_, dst_file_id, std::move(fragmented_files), compaction_limits_);
-
-    if (auto result = co_await compactor::compact_files(ctx); !result.has_value())
+    auto result = co_await compact_files(std::move(fragmented_files));
+    if (!result.has_value())
     {
         ALOG_ERROR("Partition {}: compaction failed: {}", partition_id_, result.error());
         stats_.compactions_failed++;
@@ -667,15 +705,42 @@ Task<Result<void>> Partition::compact()
     {
         ALOG_INFO("Partition {}: compaction succeeded", partition_id_);
         stats_.compactions_total++;
+    }
 
-        // Remove compacted files from FD cache
-        for (const uint64_t src_id: ctx.src_file_ids)
+    stats_.compaction_running = false;
+
+    co_return {};
+}
+
+Task<Result<void>> Partition::compact_files(std::vector<uint64_t> file_ids)
+{
+    // Files are recovered in the order of their ids: what is written from here on must come after the destination,
+    // which has older entries
+    uint64_t dst_file_id = 0;
+    {
+        const auto guard = co_await write_lock_.acquire();
+
+        if (!active_file_)
         {
-            fd_cache_.remove(src_id);
+            co_return std::unexpected(closed_error());
         }
+
+        dst_file_id = file_id_gen_.next();
+        KIO_TRY(co_await rotate_active_file());
     }
 
-    co_return {};
+    // Create compaction context
+    compactor::CompactionContext ctx(worker_, config_, keydir_, stats_, partition_id_, dst_file_id, std::move(file_ids), compaction_limits_);
+
+    auto result = co_await compactor::compact_files(ctx);
+
+    // Remove compacted files from FD cache
+    for (const uint64_t src_id: ctx.removed_file_ids)
+    {
+        fd_cache_.remove(src_id);
+    }
+
+    co_return result;
 }
 
 Task<Result<void>> Partition::sync()
-- 
2.43.0


From c974d4093634f3d3fd7b4797008be5657e433d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 44/62] fix: closing a partition did not wait for its
 background tasks, which went on using it

---
 bitcask/include/partition.h |  5 +++++
 bitcask/src/partition.cpp   | 28 +++++++++++++++++++++++-----
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/bitcask/include/partition.h b/bitcask/include/partition.h
index c08ecac..ce40e48 100644
--- a/bitcask/include/partition.h
+++ b/bitcask/include/partition.h
@@ -46,6 +46,11 @@ namespace bitcask
         PartitionStats stats_{};
 
         kio::sync::AsyncBaton compaction_trigger_;
+        kio::sync::AsyncBaton compaction_loop_done_;
+        kio::sync::AsyncBaton background_sync_wakeup_;
+        kio::sync::AsyncBaton background_sync_done_;
+        bool compaction_loop_started_{false};
+        bool background_sync_started_{false};
         compactor::CompactionLimits compaction_limits_{};
         std::atomic<bool> shutting_down_{false};
 
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 7fc3462..64ce428 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -5,7 +5,8 @@ using namespace kio;
 using namespace kio::io;
 
 Partition::Partition(const BitcaskConfig& config, Worker& worker, const size_t partition_id) :
-    keydir_(&mem_pool_), worker_(worker), fd_cache_(worker, config.max_open_sealed_files), file_id_gen_(partition_id), config_(config), partition_id_(partition_id), compaction_trigger_(worker)
+    keydir_(&mem_pool_), worker_(worker), fd_cache_(worker, config.max_open_sealed_files), file_id_gen_(partition_id), config_(config), partition_id_(partition_id), compaction_trigger_(worker),
+    compaction_loop_done_(worker), background_sync_wakeup_(worker), background_sync_done_(worker)
 {
     //  Recovery, compaction loop delegated to open factory method
 }
@@ -306,6 +307,9 @@ DetachedTask Partition::compaction_loop()
     }
 
     ALOG_INFO("Partition {} compaction loop exiting", partition_id_);
+
+    // Last: the partition may be gone after this
+    compaction_loop_done_.notify();
 }
 
 
@@ -618,11 +622,13 @@ Task<Result<std::unique_ptr<Partition>>> Partition::open(const BitcaskConfig& co
     if (config.auto_compact)
     {
         // run the compaction loop in the background
+        partition->compaction_loop_started_ = true;
         partition->compaction_loop().detach();
     }
     // if durability not set, start periodic sync
     if (!config.sync_on_write)
     {
+        partition->background_sync_started_ = true;
         partition->background_sync().detach();
     }
     co_return std::move(partition);
@@ -654,12 +660,21 @@ Task<Result<void>> Partition::async_close()
 {
     ALOG_INFO("Partition {} closing...", partition_id_);
 
-    // Signal shutdown to compaction loop
-    shutting_down_.store(true);
+    co_await SwitchToWorker(worker_);
 
-    // Wake up the compaction loop so it can exit cleanly
+    const auto guard = co_await close_lock_.acquire();
 
+    // Signal shutdown to the background loops
+    shutting_down_.store(true);
+
+    // Wake them up so they can exit cleanly, and wait until they have: they use the partition
     compaction_trigger_.notify();
+    background_sync_wakeup_.notify();
+    if (compaction_loop_started_) co_await compaction_loop_done_.wait();
+    if (background_sync_started_) co_await background_sync_done_.wait();
+
+    // The same goes for a compaction somebody asked for
+    const auto compaction_guard = co_await compaction_lock_.acquire();
 
     // Seal the active file if it exists and hasn't been sealed by rotation
     KIO_TRY(co_await seal_active_file());
@@ -761,7 +776,7 @@ DetachedTask Partition::background_sync()
     const auto st = worker_.get_stop_token();
     while (!st.stop_requested() && !shutting_down_.load())
     {
-        co_await worker_.async_sleep(std::chrono::milliseconds(config_.sync_interval));
+        co_await background_sync_wakeup_.wait_for(config_.sync_interval);
         // check again after wakeup
         if (shutting_down_.load())
         {
@@ -775,4 +790,7 @@ DetachedTask Partition::background_sync()
         }
     }
     ALOG_INFO("Partition {} background sync loop exiting", partition_id_);
+
+    // Last: the partition may be gone after this
+    background_sync_done_.notify();
 }
-- 
2.43.0


From 7bba33297114fd634619e20421d6a5904db0ba9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 45/62] fix: a damaged hint file was believed, hiding entries
 or serving wrong locations

---
 bitcask/include/common.h  |  1 +
 bitcask/include/entry.h   |  2 +-
 bitcask/src/compactor.cpp |  7 +++++++
 bitcask/src/partition.cpp | 10 +++++++---
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/bitcask/include/common.h b/bitcask/include/common.h
index c50f5fb..7522e57 100644
--- a/bitcask/include/common.h
+++ b/bitcask/include/common.h
@@ -25,6 +25,7 @@ namespace bitcask
     constexpr uint8_t kFlagTombstone = 0x01;
     constexpr std::size_t kEntryFixedHeaderSize = 12;  // at least CRC + PAYLOAD SIZE
     constexpr std::size_t kHintHeaderSize = 24;
+    constexpr std::size_t kHintFileChecksumSize = 4;
     constexpr std::size_t kFSReadChunkSize = 32 * 1024;
     constexpr std::size_t kKeydirDefaultShardCount = 2;
 
diff --git a/bitcask/include/entry.h b/bitcask/include/entry.h
index 4a53429..199b3e7 100644
--- a/bitcask/include/entry.h
+++ b/bitcask/include/entry.h
@@ -35,7 +35,7 @@ namespace bitcask
     // - total_sz: Total size of the serialized data entry in the datafile
     // - key:
     // - flag: uint8_t (e.g. tombstone bit)
-    // A hint file lists all entries of its data file, in their order.
+    // A hint file lists all entries of its data file, in their order. It ends with the CRC32C (4B) of all that.
 
     // PAYLOAD (struct_pack serialization of Entry):
     // +----------------+--------+-----------+-------------+
diff --git a/bitcask/src/compactor.cpp b/bitcask/src/compactor.cpp
index f24a409..7698ab3 100644
--- a/bitcask/src/compactor.cpp
+++ b/bitcask/src/compactor.cpp
@@ -10,6 +10,7 @@
 #include <ylt/struct_pack.hpp>
 
 #include "bitcask/include/file_handle.h"
+#include "crc32c/crc32c.h"
 
 using namespace kio;
 using namespace kio::io;
@@ -132,6 +133,12 @@ namespace bitcask::compactor
 
         Task<Result<void>> write_hint_file(CompactionContext& ctx)
         {
+            const uint32_t crc = crc32c::Crc32c(ctx.hints.data(), ctx.hints.size());
+            for (size_t i = 0; i < kHintFileChecksumSize; ++i)
+            {
+                ctx.hints.push_back(static_cast<char>(crc >> 8 * i));
+            }
+
             const auto hint_path = get_hint_file_path(ctx, ctx.dst_file_id);
             const FileHandle hint_handle(KIO_TRY(co_await ctx.io_worker.async_openat(hint_path, ctx.config.write_flags, ctx.config.file_mode)));
             KIO_TRY(co_await ctx.io_worker.async_write_exact_at(hint_handle.get(), std::span<const char>(ctx.hints), 0));
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 64ce428..b1f2037 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -1,5 +1,7 @@
 #include "bitcask/include/partition.h"
 
+#include "crc32c/crc32c.h"
+
 using namespace bitcask;
 using namespace kio;
 using namespace kio::io;
@@ -369,12 +371,14 @@ Task<Result<void>> Partition::recover_from_hint_file(const FileHandle& fh, const
 
     // hint files are small, read entirely
     const auto buf = KIO_TRY(co_await read_file_content(worker_, fd));
-    if (buf.empty())
+    const size_t hints_size = buf.size() - std::min(buf.size(), kHintFileChecksumSize);
+    if (hints_size == 0 || read_le<uint32_t>(buf.data() + hints_size) != crc32c::Crc32c(buf.data(), hints_size))
     {
-        co_return {};
+        ALOG_ERROR("Hint file {} is damaged or incomplete", file_id);
+        co_return std::unexpected(Error{ErrorCategory::Serialization, kIoDataCorrupted});
     }
 
-    std::span buf_span(buf);
+    std::span buf_span(buf.data(), hints_size);
     std::vector<HintEntry> entries;
     uint64_t data_size = 0;
 
-- 
2.43.0


From 57d95b87076bf6d69c86d69ddba8c1e003334e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:12 +0000
Subject: [PATCH 46/62] fix: opening a store with no partitions created one
 that cannot be used

---
 bitcask/src/bitcask.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bitcask/src/bitcask.cpp b/bitcask/src/bitcask.cpp
index 23619e1..60c8968 100644
--- a/bitcask/src/bitcask.cpp
+++ b/bitcask/src/bitcask.cpp
@@ -19,6 +19,13 @@ BitKV::BitKV(const BitcaskConfig& db_config, const WorkerConfig& io_config, cons
 Task<Result<std::unique_ptr<BitKV>>> BitKV::open(const BitcaskConfig& config, const WorkerConfig io_config, size_t partition_count)
 {
     ALOG_INFO("Opening BitKV with part count {}", partition_count);
+
+    if (partition_count == 0)
+    {
+        ALOG_ERROR("A store needs at least one partition");
+        co_return std::unexpected(Error::from_errno(EINVAL));
+    }
+
     std::unique_ptr<BitKV> db(new BitKV(config, io_config, partition_count));
 
     try
-- 
2.43.0


From 6b1b5db7d4de7fcb2f4cc19fd764b48bc67cd1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 47/62] fix: a delete did not reach an entry whose write had
 failed, which came back after a crash

---
 bitcask/include/data_file.h | 1 +
 bitcask/src/partition.cpp   | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/bitcask/include/data_file.h b/bitcask/include/data_file.h
index c49e339..f98d012 100644
--- a/bitcask/include/data_file.h
+++ b/bitcask/include/data_file.h
@@ -41,6 +41,7 @@ namespace bitcask
         [[nodiscard]] FileHandle& handle() { return handle_; }
         [[nodiscard]] uint64_t size() const { return size_; }
         [[nodiscard]] bool should_rotate(size_t max_file_size) const;
+        [[nodiscard]] bool write_failed() const { return write_failed_; }
 
     private:
         // timestamp_s based id
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index b1f2037..1991f1e 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -130,7 +130,8 @@ Task<Result<void>> Partition::del(const std::string& key)
         co_return std::unexpected(closed_error());
     }
 
-    if (!keydir_.contains(key))
+    // An entry of that key whose write failed may still be there for recovery to find
+    if (!keydir_.contains(key) && !active_file_->write_failed())
     {
         co_return {};
     }
@@ -141,6 +142,10 @@ Task<Result<void>> Partition::del(const std::string& key)
 
     // Compaction may have moved the entry meanwhile
     const auto it = keydir_.find(key);
+    if (it == keydir_.end())
+    {
+        co_return {};
+    }
     const uint64_t old_file_id = it->second.file_id;
 
     // Update stats for old location
-- 
2.43.0


From b96b54dd8dc293a79bc0a45d59a6d4df49b5569f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 48/62] fix: the address of a TLS connection's peer was never
 obtained, and lost when the stream was moved

---
 kio/core/worker.h  | 7 ++++++-
 kio/tls/stream.cpp | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/kio/core/worker.h b/kio/core/worker.h
index dc4554f..dc2cb19 100644
--- a/kio/core/worker.h
+++ b/kio/core/worker.h
@@ -277,7 +277,12 @@ namespace kio::io
         // Io methods
         //=========================================================
         Task<Result<int>> async_accept(int server_fd, sockaddr* addr, socklen_t* addrlen);
-        Task<Result<int>> async_accept(const net::Socket& socket, net::SocketAddress& addr) { return async_accept(socket.get(), reinterpret_cast<sockaddr*>(&addr.addr), &addr.addrlen); }
+        Task<Result<int>> async_accept(const net::Socket& socket, net::SocketAddress& addr)
+        {
+            // the kernel writes no more than this, i.e., nothing at all if it is left at zero
+            addr.addrlen = sizeof(addr.addr);
+            return async_accept(socket.get(), reinterpret_cast<sockaddr*>(&addr.addr), &addr.addrlen);
+        }
         /**
          * @brief Asynchronously reads data from a streaming file descriptor (e.g., socket, pipe).
          *
diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index ae280c9..043386b 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -35,7 +35,7 @@ namespace kio::tls
 
     TlsStream::TlsStream(TlsStream&& other) noexcept :
         worker_(other.worker_), ctx_(other.ctx_), socket_(std::move(other.socket_)), ssl_(std::exchange(other.ssl_, nullptr)), role_(other.role_), server_name_(std::exchange(other.server_name_, "")),
-        handshake_done_(other.handshake_done_), ktls_active_(other.ktls_active_)
+        peer_addr_(std::move(other.peer_addr_)), handshake_done_(other.handshake_done_), ktls_active_(other.ktls_active_)
     {
         other.handshake_done_ = false;
         other.ktls_active_ = false;
-- 
2.43.0


From 48fabf279e14861eaf9a8b21fda771380e82b1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 49/62] fix: a TLS listener could not be bound to an IPv6
 address

---
 kio/tls/listener.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/kio/tls/listener.cpp b/kio/tls/listener.cpp
index d14e5db..05eab48 100644
--- a/kio/tls/listener.cpp
+++ b/kio/tls/listener.cpp
@@ -15,7 +15,13 @@ namespace kio::tls
 {
     Result<TlsListener> TlsListener::bind(Worker& worker, const ListenerConfig& config, TlsContext& ctx)
     {
-        auto fd_res = create_tcp_fd(AF_INET);
+        auto addr_res = resolve_address(config.bind_address, config.port);
+        if (!addr_res.has_value())
+        {
+            return std::unexpected(addr_res.error());
+        }
+
+        auto fd_res = create_tcp_fd(addr_res->family);
         if (!fd_res.has_value())
         {
             return std::unexpected(fd_res.error());
@@ -39,12 +45,6 @@ namespace kio::tls
             ::setsockopt(socket.get(), SOL_SOCKET, SO_REUSEPORT, &opt, sizeof(opt));
         }
 
-        auto addr_res = resolve_address(config.bind_address, config.port);
-        if (!addr_res.has_value())
-        {
-            return std::unexpected(addr_res.error());
-        }
-
         // now bind and listen
         if (auto res = listen_on_sock(socket.get(), addr_res.value(), config.backlog); !res.has_value())
         {
-- 
2.43.0


From b5547b76097c0504d39a166c1b501bb94b55251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 50/62] fix: a TLS handshake that was stopped or ended without
 kernel TLS left the stream marked as connected

---
 kio/tls/stream.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index 043386b..2414185 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -81,7 +81,8 @@ namespace kio::tls
             }
         }
 
-        co_return {};
+        // the worker is stopping: not completed
+        co_return std::unexpected(Error::from_errno(ECANCELED));
     }
 
     Task<Result<void>> TlsStream::async_handshake(std::string_view hostname)
@@ -97,7 +98,6 @@ namespace kio::tls
 
         ALOG_DEBUG("Starting TLS handshake for fd={}", socket_.get());
         KIO_TRY(co_await do_handshake_step());
-        handshake_done_ = true;
         ALOG_DEBUG("TLS handshake completed");
 
         if (const char* ver = SSL_get_version(ssl_))
@@ -109,7 +109,9 @@ namespace kio::tls
             ALOG_DEBUG("SSL cipher is {}", cipher);
         }
 
+        // without kernel TLS the connection is not usable
         KIO_TRY(enable_ktls());
+        handshake_done_ = true;
 
         co_return {};
     }
-- 
2.43.0


From 2cec046c9ba01ebbb2e5a2368973408ce9b4b586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 51/62] fix: a TLS handshake went on without verifying the
 server's name when setting it failed

---
 kio/tls/stream.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index 2414185..692877b 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -92,8 +92,12 @@ namespace kio::tls
         if (role_ == TlsRole::Client && !hostname.empty())
         {
             server_name_ = std::string(hostname);
-            SSL_set_tlsext_host_name(ssl_, server_name_.c_str());
-            SSL_set1_host(ssl_, server_name_.c_str());
+            // a name that cannot be set would not be verified
+            if (SSL_set_tlsext_host_name(ssl_, server_name_.c_str()) != 1 || SSL_set1_host(ssl_, server_name_.c_str()) != 1)
+            {
+                ALOG_ERROR("Failed to set the server name: {}", detail::get_openssl_error());
+                co_return std::unexpected(Error{ErrorCategory::Tls, kTlsHandshakeFailed});
+            }
         }
 
         ALOG_DEBUG("Starting TLS handshake for fd={}", socket_.get());
-- 
2.43.0


From 5a54848a51a470e13a894715aca88b6c7b371d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 52/62] fix: closing a TLS stream again used the descriptor it
 had closed

---
 kio/tls/stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index 692877b..d186fb0 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -223,7 +223,8 @@ namespace kio::tls
 
     Task<Result<void>> TlsStream::async_shutdown()
     {
-        if (!ssl_ || !handshake_done_) co_return {};
+        // once the socket is closed its descriptor may belong to another connection
+        if (!ssl_ || !handshake_done_ || !socket_.is_valid()) co_return {};
         ALOG_DEBUG("TLS shutdown initiated for fd={}", socket_.get());
         co_return co_await do_shutdown_step();
     }
-- 
2.43.0


From 54daca665456274413198e8e901e684944793e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 53/62] fix: a TLS shutdown could fail because of an earlier
 error of another connection

---
 kio/tls/stream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index d186fb0..2a1d975 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -182,6 +182,8 @@ namespace kio::tls
 
         while (!st.stop_requested() && iterations++ < kMaxShutdownIterations)
         {
+            // errors left over from other connections would be taken for this one's
+            ERR_clear_error();
             const int ret = SSL_shutdown(ssl_);
 
             if (ret == 1)
-- 
2.43.0


From 90a086efd57401a0afa5ece99b0fc893191aeaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 54/62] fix: a TLS read of more than 2 GiB skipped the bytes
 buffered by OpenSSL

---
 kio/tls/stream.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index 2a1d975..07fe117 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -3,6 +3,9 @@
 //
 #include "stream.h"
 
+#include <algorithm>
+#include <limits>
+
 #include "context.h"
 
 namespace kio::tls
@@ -152,7 +155,7 @@ namespace kio::tls
         if (ssl_ && SSL_pending(ssl_) > 0)
         {
             // This is a synchronous memory copy from OpenSSL internal buffer
-            int n = SSL_read(ssl_, buf.data(), static_cast<int>(buf.size()));
+            int n = SSL_read(ssl_, buf.data(), static_cast<int>(std::min<size_t>(buf.size(), std::numeric_limits<int>::max())));
             if (n > 0)
             {
                 // Return a helper task that is already "ready" with the result.
-- 
2.43.0


From 329ad3679d95073a42d703effddad1e5b667383b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 55/62] fix: a descriptor was leaked when the request to close
 it was refused

---
 bitcask/src/data_file.cpp | 10 ++++++++--
 kio/tls/stream.cpp        |  7 ++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/bitcask/src/data_file.cpp b/bitcask/src/data_file.cpp
index a934c29..d4ea8eb 100644
--- a/bitcask/src/data_file.cpp
+++ b/bitcask/src/data_file.cpp
@@ -27,8 +27,14 @@ namespace bitcask
             // We can use async_close from worker if we release ownership from a handle first
             // to avoid double close or just rely on handle destructor (sync close).
             // Given the requirement for async_close, we release the FD.
-            const int fd = handle_.release();
-            KIO_TRY(co_await io_worker_.async_close(fd));
+            // Until the kernel takes the request the descriptor is still ours to close.
+            FileHandle closing(handle_.release());
+            const auto res = co_await io_worker_.async_close(closing.get());
+            if (res.has_value() || res.error().value != EAGAIN)
+            {
+                (void) closing.release();
+            }
+            KIO_TRY(res);
         }
         co_return {};
     }
diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index 07fe117..51df1b3 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -241,7 +241,12 @@ namespace kio::tls
 
         if (socket_.is_valid())
         {
-            co_await worker_.async_close(socket_.release());
+            // keeps the descriptor, to be closed directly, unless the kernel takes the request
+            net::Socket closing(socket_.release());
+            if (const auto res = co_await worker_.async_close(closing.get()); res.has_value() || res.error().value != EAGAIN)
+            {
+                (void) closing.release();
+            }
         }
         co_return {};
     }
-- 
2.43.0


From 625e26b0e10a18f7892c5ca7027c70caea0178eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 56/62] fix: a handshake of a closed TLS stream used the
 descriptor it had closed

---
 kio/tls/stream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kio/tls/stream.cpp b/kio/tls/stream.cpp
index 51df1b3..55618dc 100644
--- a/kio/tls/stream.cpp
+++ b/kio/tls/stream.cpp
@@ -91,6 +91,8 @@ namespace kio::tls
     Task<Result<void>> TlsStream::async_handshake(std::string_view hostname)
     {
         if (handshake_done_) co_return {};
+        // once the socket is closed its descriptor may belong to another connection
+        if (!ssl_ || !socket_.is_valid()) co_return std::unexpected(Error{ErrorCategory::Tls, kTlsNotConnected});
 
         if (role_ == TlsRole::Client && !hostname.empty())
         {
-- 
2.43.0


From b75dd93db8638475d4d285c4005f22c4036990fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 57/62] fix: ALPN names that cannot be offered were sent
 malformed or dropped without an error

---
 kio/tls/context.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/kio/tls/context.cpp b/kio/tls/context.cpp
index 376052a..8cb602b 100644
--- a/kio/tls/context.cpp
+++ b/kio/tls/context.cpp
@@ -5,6 +5,7 @@
 #include "context.h"
 
 #include <fstream>
+#include <limits>
 
 namespace kio::tls
 {
@@ -179,10 +180,22 @@ namespace kio::tls
             std::vector<unsigned char> protos;
             for (const auto& p: config.alpn_protocols)
             {
+                if (p.empty() || p.length() > std::numeric_limits<unsigned char>::max())
+                {
+                    ALOG_ERROR("Invalid ALPN protocol name of {} bytes", p.length());
+                    SSL_CTX_free(ctx);
+                    return std::unexpected(Error{ErrorCategory::Tls, kTlsContextCreationFailed});
+                }
                 protos.push_back(static_cast<unsigned char>(p.length()));
                 protos.insert(protos.end(), p.begin(), p.end());
             }
-            SSL_CTX_set_alpn_protos(ctx, protos.data(), protos.size());
+            // returns 0 on success
+            if (SSL_CTX_set_alpn_protos(ctx, protos.data(), protos.size()) != 0)
+            {
+                ALOG_ERROR("Failed to set ALPN protocols: {}", detail::get_openssl_error());
+                SSL_CTX_free(ctx);
+                return std::unexpected(Error{ErrorCategory::Tls, kTlsContextCreationFailed});
+            }
         }
 
         return TlsContext{ctx, role == TlsRole::Server};
-- 
2.43.0


From a68e0541f15e4440986af1011747fde05e48e902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:54 +0000
Subject: [PATCH 58/62] fix: a resolved address lacked its readable ip and port

---
 kio/net/net.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kio/net/net.cpp b/kio/net/net.cpp
index f1eb186..4a71f47 100644
--- a/kio/net/net.cpp
+++ b/kio/net/net.cpp
@@ -28,6 +28,7 @@ namespace kio::net
             addr4->sin_family = AF_INET;
             addr4->sin_port = htons(port);
             result.addrlen = sizeof(sockaddr_in);
+            result.populate_from_storage();
             return result;
         }
 
@@ -39,6 +40,7 @@ namespace kio::net
             addr6->sin6_family = AF_INET6;
             addr6->sin6_port = htons(port);
             result.addrlen = sizeof(sockaddr_in6);
+            result.populate_from_storage();
             return result;
         }
 
@@ -63,6 +65,7 @@ namespace kio::net
         std::memcpy(&result.addr, res->ai_addr, res->ai_addrlen);
 
         freeaddrinfo(res);
+        result.populate_from_storage();
         return result;
     }
 
-- 
2.43.0


From 35acad88c9464055a40f0181e8da54c8dd2e44ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:06 +0000
Subject: [PATCH 59/62] fix: what recovery brought up could be lost again with
 the power

---
 bitcask/src/partition.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 1991f1e..dd928a3 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -574,6 +574,10 @@ Task<Result<void>> Partition::recover()
             // TODO: add a flag for the user to decide what to do in such cases
             ALOG_ERROR("Failed to recover from data file {}, skipping the rest of entries", file_id);
         }
+
+        // Its entries may have been written, but never synced, before a crash. They are in use from here on, and older
+        // ones may be compacted away: they must not disappear again.
+        KIO_TRY(co_await worker_.async_fsync(fd));
         ALOG_DEBUG("Recovered from data file {}", file_id);
     }
 
-- 
2.43.0


From 5c894ca084f155b505512c0cfe2ff8ddaa9cb39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:06 +0000
Subject: [PATCH 60/62] fix: sync() and close() left the names of the files
 they synced volatile

---
 bitcask/src/partition.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index dd928a3..1945bf6 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -229,11 +229,8 @@ Task<Result<void>> Partition::create_and_set_active_file()
     // TODO: remove to fix test for now
     co_await worker_.async_fallocate(new_fd, 0, static_cast<off_t>(config_.max_file_size));
 
-    // An entry is only durable if the file's name is
-    if (config_.sync_on_write)
-    {
-        KIO_TRY(co_await async_sync_directory(worker_, db_path()));
-    }
+    // An entry is only durable if the file's name is, whether it is synced at once or later
+    KIO_TRY(co_await async_sync_directory(worker_, db_path()));
 
     active_file_ = std::move(new_file);
 
-- 
2.43.0


From 9a59276b88be924a94525f05f0b9c0aee7d072bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:59 +0000
Subject: [PATCH 61/62] fix: compaction removed synced entries before what
 replaced them was synced

---
 bitcask/include/compactor.h | 5 +++++
 bitcask/src/compactor.cpp   | 6 ++++++
 bitcask/src/partition.cpp   | 1 +
 3 files changed, 12 insertions(+)

diff --git a/bitcask/include/compactor.h b/bitcask/include/compactor.h
index 638b35b..5af04d9 100644
--- a/bitcask/include/compactor.h
+++ b/bitcask/include/compactor.h
@@ -5,6 +5,8 @@
 #ifndef KIO_COMPACTOR_H
 #define KIO_COMPACTOR_H
 
+#include <functional>
+
 #include "kio/core/bytes_mut.h"
 #include "kio/core/worker.h"
 #include "config.h"
@@ -55,6 +57,9 @@ namespace bitcask::compactor
         uint64_t bytes_read = 0;
         uint64_t bytes_written = 0;
 
+        // What supersedes entries of the source files may only just have been written: makes it durable
+        std::function<kio::Task<kio::Result<void>>()> sync_active_file;
+
         // source files that no longer exist
         std::vector<uint64_t> removed_file_ids;
 
diff --git a/bitcask/src/compactor.cpp b/bitcask/src/compactor.cpp
index 7698ab3..fc6b60e 100644
--- a/bitcask/src/compactor.cpp
+++ b/bitcask/src/compactor.cpp
@@ -48,6 +48,12 @@ namespace bitcask::compactor
             }
         }
 
+        // Entries that were overwritten or deleted meanwhile are about to go: what replaced them must be there to stay
+        if (ctx.sync_active_file)
+        {
+            KIO_TRY(co_await ctx.sync_active_file());
+        }
+
         uint64_t bytes_removed = 0;
         for (const uint64_t src_file_id: ctx.src_file_ids)
         {
diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 1945bf6..d6c0898 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -756,6 +756,7 @@ Task<Result<void>> Partition::compact_files(std::vector<uint64_t> file_ids)
 
     // Create compaction context
     compactor::CompactionContext ctx(worker_, config_, keydir_, stats_, partition_id_, dst_file_id, std::move(file_ids), compaction_limits_);
+    ctx.sync_active_file = [this] { return sync(); };
 
     auto result = co_await compactor::compact_files(ctx);
 
-- 
2.43.0


From 8a5061c3c3fdfc03c3ea5305c70481b8d30e2748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:43 +0000
Subject: [PATCH 62/62] fix: what an interrupted compaction had moved was never
 synced

---
 bitcask/src/compactor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitcask/src/compactor.cpp b/bitcask/src/compactor.cpp
index fc6b60e..71eaa3f 100644
--- a/bitcask/src/compactor.cpp
+++ b/bitcask/src/compactor.cpp
@@ -119,6 +119,9 @@ namespace bitcask::compactor
 
                     // What has been moved stays there. What a failed write left behind does not.
                     co_await ctx.io_worker.async_ftruncate(data_fd, static_cast<off_t>(ctx.current_data_offset));
+
+                    // The sources hold nothing of it any more: the next compaction may remove them
+                    co_await ctx.io_worker.async_fsync(data_fd);
                     co_return std::unexpected(result.error());
                 }
             }
-- 
2.43.0

