From 3cb04e4b4e67e623a804471fc0360ff5143a3f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:53 +0000
Subject: [PATCH 01/27] fix: flush directly in the worker when a message
 reaches the flush level

do_sink_log_() runs in a pool worker. It called flush_sink_(), which queues a
flush message and waits for it: with one worker (or with the lockfree_concurrent
pool) the worker waited for itself forever.
---
 include/async_logger.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/async_logger.h b/include/async_logger.h
index f849331..2057b86 100644
--- a/include/async_logger.h
+++ b/include/async_logger.h
@@ -79,8 +79,9 @@ private:
             }
         }
 
+        // 由工作线程直接刷新，不能再次入队并等待自己
         if (should_flush_(msg_popped.level)) {
-            flush_sink_();
+            do_flush_sink_();
         }
     }
     
-- 
2.43.0


From bd29dff09e3d9d9438a7b487a9456ecc6c83eb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:55 +0000
Subject: [PATCH 02/27] fix: swap the patterns of loggers, define
 learnlog::swap()

logger::swap() left the pattern behind, and the free function declared in
learnlog was defined in the global namespace, so that using it did not link.
---
 src/logger.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/logger.cpp b/src/logger.cpp
index 3c2a5d4..74f33fe 100755
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -10,6 +10,7 @@ void logger::swap(logger& other) noexcept {
     std::swap(log_level_, other.log_level_);
     std::swap(flush_level_, other.flush_level_);
     std::swap(tracer_, other.tracer_);
+    pattern_.swap(other.pattern_);
 }
 
 void logger::set_pattern(std::string pattern) {
@@ -73,4 +74,4 @@ void logger::flush_sink_() {
 }
 
 
-void swap(logger& a, logger& b) { a.swap(b); }
\ No newline at end of file
+void learnlog::swap(logger& a, logger& b) { a.swap(b); }
\ No newline at end of file
-- 
2.43.0


From 9a4cd84c882d275584cbf1bff8060bd86530808c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:04 +0000
Subject: [PATCH 03/27] fix: disable_backtrace() dereferenced null when
 backtrace was never enabled

---
 include/logger.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/logger.h b/include/logger.h
index 107174b..7bf86e7 100755
--- a/include/logger.h
+++ b/include/logger.h
@@ -189,7 +189,9 @@ public:
         }
         tracer_->enable_with_size(msg_num);
     }
-    void disable_backtrace() { tracer_->disable(); }
+    void disable_backtrace() {
+        if (tracer_ != nullptr) { tracer_->disable(); }
+    }
     void dump_backtrace();
 
     const std::vector<sink_shr_ptr>& sinks() const { return sinks_; }
-- 
2.43.0


From 1127059a17a7b6273a7871042e3e5bed731da155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:08 +0000
Subject: [PATCH 04/27] fix: apply the global formatter to newly initialized
 loggers

initialize_logger() overwrote the global formatter with the global pattern, so
set_global_formatter() had no effect on loggers initialized later.
---
 base/registry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/registry.cpp b/base/registry.cpp
index 99a4a22..be0f410 100644
--- a/base/registry.cpp
+++ b/base/registry.cpp
@@ -10,9 +10,9 @@ using namespace base;
 
 void registry::initialize_logger(logger_shr_ptr new_logger) {
     std::lock_guard<std::mutex> lock(loggers_mutex_);
+    // set_pattern() 会替换 formatter，因此最后再应用全局 formatter
+    new_logger->set_pattern(global_pattern_);
     new_logger->set_formatter(global_formatter_->clone());
-    std::string pattern = global_pattern_;
-    new_logger->set_pattern(pattern);
     new_logger->set_log_level(global_log_level_);
     new_logger->set_flush_level(global_flush_level_);
     
-- 
2.43.0


From 84a03ad3a1e0424df274e40489d47d177bee1195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:11 +0000
Subject: [PATCH 05/27] fix: set_global_pattern() updates the pattern of
 registered loggers

get_pattern() of registered loggers kept the old pattern, and a logger
initialized between the two locked sections got the old formatter.
---
 base/registry.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/base/registry.cpp b/base/registry.cpp
index be0f410..c41c85a 100644
--- a/base/registry.cpp
+++ b/base/registry.cpp
@@ -60,13 +60,12 @@ void registry::set_default_logger(logger_shr_ptr new_default_logger) {
 }
 
 void registry::set_global_pattern(std::string pattern) {
-    {
-        std::lock_guard<std::mutex> lock(loggers_mutex_);
-        global_pattern_ = pattern;
+    std::lock_guard<std::mutex> lock(loggers_mutex_);
+    global_formatter_ = learnlog::make_unique<sinks::pattern_formatter>(pattern);
+    global_pattern_ = std::move(pattern);
+    for (auto &l : loggers_) {
+        l.second->set_pattern(global_pattern_);
     }
-    auto new_pattern_formatter = 
-        learnlog::make_unique<sinks::pattern_formatter>(std::move(pattern));
-    set_global_formatter(std::move(new_pattern_formatter));
 }
 
 void registry::set_global_formatter(formatter_uni_ptr new_formatter) {
-- 
2.43.0


From 3c21244f3ce0be8ce059295e1c98bad9c3b3dab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 06/27] fix: %C crashed for a source_loc without function name

---
 sinks/formatters/flag_formatter.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sinks/formatters/flag_formatter.h b/sinks/formatters/flag_formatter.h
index 1bef636..8a018e3 100755
--- a/sinks/formatters/flag_formatter.h
+++ b/sinks/formatters/flag_formatter.h
@@ -428,9 +428,11 @@ public:
             filler f(0, spaces_info_, dest_buf);
             return;
         }
-        size_t text_len = std::char_traits<char>::length(msg.loc.funcname);
+        // source_loc 的函数名可以缺省
+        const char* funcname = msg.loc.funcname != nullptr ? msg.loc.funcname : "";
+        size_t text_len = std::char_traits<char>::length(funcname);
         filler f(text_len, spaces_info_, dest_buf);
-        f.fill_msg(msg.loc.funcname);
+        f.fill_msg(funcname);
     }
 };
 
-- 
2.43.0


From 80945515673f5bb2b1721b590cd889047f1aa9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:33 +0000
Subject: [PATCH 07/27] fix: September is abbreviated with three letters

%b is documented as three characters and %c pads for a total of 24.
---
 sinks/formatters/flag_formatter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sinks/formatters/flag_formatter.h b/sinks/formatters/flag_formatter.h
index 8a018e3..d3c1ae1 100755
--- a/sinks/formatters/flag_formatter.h
+++ b/sinks/formatters/flag_formatter.h
@@ -71,7 +71,7 @@ static const std::array<const char *, 7> weekday_name{
     {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"} };
 
 static const std::array<const char *, 12> month_name{
-    {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sept", "Oct", "Nov", "Dec"}};
+    {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}};
 
 // 格式化星期几
 class a_formatter final : public flag_formatter {
-- 
2.43.0


From 5996f2974a61d50eb28c99fe8c680a63bbc2b2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:46 +0000
Subject: [PATCH 08/27] fix: create_dir() failed for absolute paths with
 missing parents

---
 base/os.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/os.h b/base/os.h
index a664aa1..d07bd94 100755
--- a/base/os.h
+++ b/base/os.h
@@ -206,7 +206,8 @@ inline bool create_dir(const filename_t& path) {
         }
 #endif
 
-        if (!dir_exist(curr_dir) && !mkdir_(curr_dir)) {
+        // 绝对路径以分隔符开头，此时 curr_dir 为空，不需要创建
+        if (!curr_dir.empty() && !dir_exist(curr_dir) && !mkdir_(curr_dir)) {
             return false;
         }
         offset = spr_pos + 1;
-- 
2.43.0


From 852ee26cafcad1e0990cba563d59542b8eb886a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:59 +0000
Subject: [PATCH 09/27] fix: wait between attempts to open a file

sleep_for_ms() slept microseconds, and a failed truncating open did not wait at
all, so that the documented retry period of 5 x 10 ms was not given.
---
 base/file_base.h | 5 ++++-
 base/os.h        | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/base/file_base.h b/base/file_base.h
index 57835e6..6e3ff86 100644
--- a/base/file_base.h
+++ b/base/file_base.h
@@ -44,7 +44,10 @@ inline void open(FILE** fpp, const filename_t& fname, bool truncate = false,
         
         if (truncate) {
             FILE* fd_tmp;
-            if (!os::open_file(&fd_tmp, fname, wb)) continue;
+            if (!os::open_file(&fd_tmp, fname, wb)) {
+                os::sleep_for_ms(try_every_ms);
+                continue;
+            }
             ::fclose(fd_tmp);
         }
         
diff --git a/base/os.h b/base/os.h
index d07bd94..9426e19 100755
--- a/base/os.h
+++ b/base/os.h
@@ -78,7 +78,7 @@ inline void sleep_for_ms(size_t ms) noexcept {
 #ifdef _WIN32
     ::Sleep(static_cast<DWORD>(ms));
 #else
-    std::this_thread::sleep_for(microseconds{ms});
+    std::this_thread::sleep_for(milliseconds{ms});
 #endif
 }
 
-- 
2.43.0


From 1d5f98c21cfe78d12b30b8c6fb4fb8e2690183fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:11 +0000
Subject: [PATCH 10/27] fix: is_color_terminal() never looked at the
 environment

The lambda was converted to bool instead of being called: always true.
---
 base/os.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/os.h b/base/os.h
index 9426e19..acd4eb5 100755
--- a/base/os.h
+++ b/base/os.h
@@ -8,6 +8,8 @@
 #include <sys/stat.h>
 #include <thread>
 #include <ctime>
+#include <cstdlib>
+#include <cstring>
 #include <array>
 
 #ifdef _WIN32
@@ -116,7 +118,7 @@ inline bool is_color_terminal() noexcept {
         return std::any_of(terms.begin(), terms.end(), [&](const char *term) {
             return std::strstr(env_term, term) != nullptr;
         });
-    };
+    }();
 
     return result;
 #endif
-- 
2.43.0


From b0543d70319a08418498a504701f10bae5664dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:19 +0000
Subject: [PATCH 11/27] fix: a write error at close terminated the process

The destructors of the file sinks let the exceptions of flush() and close()
escape (std::terminate); close() also left the closed stream in *fpp.
---
 base/file_base.h          | 6 +++---
 sinks/basic_file_sink.h   | 6 ++++--
 sinks/rolling_file_sink.h | 6 ++++--
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/base/file_base.h b/base/file_base.h
index 6e3ff86..6afb003 100644
--- a/base/file_base.h
+++ b/base/file_base.h
@@ -10,14 +10,14 @@ namespace file_base {
 // 关闭文件
 inline void close(FILE** fpp, const filename_t& fname) {
     if (*fpp != nullptr) {
-        if (::fclose(*fpp) != 0) {
+        FILE* fp = *fpp;
+        *fpp = nullptr;     // 即使 fclose() 失败，文件流也不能再使用
+        if (::fclose(fp) != 0) {
             source_loc loc{__FILE__, __LINE__, __func__};
             std::string fname_str(fname.begin(), fname.end());
             std::string err_str = fmt::format("learnlog::file_base::close() failed, filename: '{}'", fname_str);
             throw_learnlog_excpt(err_str, os::get_errno(), loc);
         }
-        
-        *fpp = nullptr;
     }
 }
 
diff --git a/sinks/basic_file_sink.h b/sinks/basic_file_sink.h
index 461cfee..03c8d32 100644
--- a/sinks/basic_file_sink.h
+++ b/sinks/basic_file_sink.h
@@ -24,8 +24,10 @@ public:
     }
     
     ~basic_file_sink() override {
-        basic_sink<Mutex>::flush();
-        base::file_base::close(&file_, filename_);
+        try { basic_sink<Mutex>::flush(); }
+        LEARNLOG_CATCH
+        try { base::file_base::close(&file_, filename_); }
+        LEARNLOG_CATCH
     }
 
     filename_t filename() const { return filename_; }
diff --git a/sinks/rolling_file_sink.h b/sinks/rolling_file_sink.h
index db233bd..ce783b7 100644
--- a/sinks/rolling_file_sink.h
+++ b/sinks/rolling_file_sink.h
@@ -41,8 +41,10 @@ public:
     }
 
     ~rolling_file_sink() { 
-        basic_sink<Mutex>::flush();
-        base::file_base::close(&file_, get_rolling_filename(file_index_));
+        try { basic_sink<Mutex>::flush(); }
+        LEARNLOG_CATCH
+        try { base::file_base::close(&file_, get_rolling_filename(file_index_)); }
+        LEARNLOG_CATCH
     }
    
     filename_t base_filename() const { return base_fname_; }
-- 
2.43.0


From 4682b7c2824d304a9e0448c59e1f72ea1e7cc2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:28 +0000
Subject: [PATCH 12/27] fix: rolling_file_sink recovers after a failed roll

When opening the next file failed once, every later message failed too, even
after the cause was gone.
---
 sinks/rolling_file_sink.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sinks/rolling_file_sink.h b/sinks/rolling_file_sink.h
index ce783b7..b8f70af 100644
--- a/sinks/rolling_file_sink.h
+++ b/sinks/rolling_file_sink.h
@@ -92,6 +92,10 @@ private:
     void output_(const base::log_msg &msg) override {
         fmt_memory_buf buf;
         basic_sink<Mutex>::formatter_->format(msg, buf);
+        if (file_ == nullptr) {     // 上一次滚动失败，重新尝试打开文件
+            roll_file_();
+            cur_file_size_ = 0;
+        }
         if (cur_file_size_ + buf.size() > max_file_size_) {
             flush_();
             if (base::file_base::size(file_, get_rolling_filename(file_index_)) > 0) {
-- 
2.43.0


From fe7f28314f61f2f78cef396e545bb0365e58aac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:38 +0000
Subject: [PATCH 13/27] fix: ~periodic_function() could miss its notification

The flag was cleared without the mutex: between the thread's test of the flag
and its wait the notification was lost, and the destructor blocked for a whole
interval.
---
 base/periodic_function.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/base/periodic_function.h b/base/periodic_function.h
index 5d6fa49..2ade327 100644
--- a/base/periodic_function.h
+++ b/base/periodic_function.h
@@ -36,7 +36,11 @@ public:
 
     ~periodic_function() {
         if (thread_.joinable()) {
-            active_ = false;
+            {
+                // 持锁修改，避免在判断条件与进入等待之间丢失通知
+                std::lock_guard<std::mutex> lock(mutex_);
+                active_ = false;
+            }
             cv_.notify_one();
             thread_.join();
         }
-- 
2.43.0


From 1d997c82ce5679ceca66daaf9e327ee7e43b9b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:49 +0000
Subject: [PATCH 14/27] fix: circular_queue::size() divided by zero in the
 invalid state

---
 base/circular_queue.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/circular_queue.h b/base/circular_queue.h
index 1b00eff..9f8037d 100755
--- a/base/circular_queue.h
+++ b/base/circular_queue.h
@@ -35,7 +35,12 @@ public:
         return *this;
     }
 
-    size_t size() const { return (tail_ - head_ + max_size_) % max_size_; }
+    size_t size() const {
+        if(max_size_ > 0) {
+            return (tail_ - head_ + max_size_) % max_size_;
+        }
+        return 0;
+    }
 
     size_t vec_size() const { return max_size_; }
 
-- 
2.43.0


From 2dcc1c4c4d0e0e260d44510348bfbd84ac1087b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:54 +0000
Subject: [PATCH 15/27] fix: the width of a pattern flag overflowed for very
 long numbers

---
 sinks/formatters/pattern_formatter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sinks/formatters/pattern_formatter.cpp b/sinks/formatters/pattern_formatter.cpp
index 9b989ea..264ada8 100755
--- a/sinks/formatters/pattern_formatter.cpp
+++ b/sinks/formatters/pattern_formatter.cpp
@@ -103,7 +103,9 @@ spaces_info pattern_formatter::analyse_spaces_info_(std::string::const_iterator&
     size_t fill_len = static_cast<size_t>(*it) - '0';
     ++it;
     while (it != end && std::isdigit(static_cast<unsigned char>(*it))) {
-        fill_len = fill_len * 10 + static_cast<size_t>(*it) - '0';
+        if (fill_len <= MAX_SPACES_LEN) {   // 超过上限后不再累加，避免溢出
+            fill_len = fill_len * 10 + static_cast<size_t>(*it) - '0';
+        }
         ++it;
     }
 
-- 
2.43.0


From 465f09959236f61be3a6b5641a8386dfd6276f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:14 +0000
Subject: [PATCH 16/27] fix: lockfree_concurrent_thread_pool tokens belong to
 one pool

The thread_local token was shared by all pools: a thread that had used one pool
queued the messages for the next pool to the first one, or used a freed token
once the first pool was gone.
---
 base/lockfree_concurrent_thread_pool.cpp |  5 +-
 base/lockfree_concurrent_thread_pool.h   | 68 +++++++++++++-----------
 2 files changed, 41 insertions(+), 32 deletions(-)

diff --git a/base/lockfree_concurrent_thread_pool.cpp b/base/lockfree_concurrent_thread_pool.cpp
index ecda9fa..7f96af8 100644
--- a/base/lockfree_concurrent_thread_pool.cpp
+++ b/base/lockfree_concurrent_thread_pool.cpp
@@ -4,5 +4,8 @@ using namespace learnlog;
 using namespace base;
 
 #ifdef LEARNLOG_USE_TLS
-    thread_local atomic_token* lockfree_concurrent_thread_pool::token_ = nullptr;
+    std::atomic<size_t> lockfree_concurrent_thread_pool::pool_cnt_{0};
+    thread_local size_t lockfree_concurrent_thread_pool::producer_pool_id_ = 0;
+    thread_local atomic_token* lockfree_concurrent_thread_pool::producer_token_ = nullptr;
+    thread_local atomic_token* lockfree_concurrent_thread_pool::consumer_token_ = nullptr;
 #endif
diff --git a/base/lockfree_concurrent_thread_pool.h b/base/lockfree_concurrent_thread_pool.h
index b963788..580d415 100644
--- a/base/lockfree_concurrent_thread_pool.h
+++ b/base/lockfree_concurrent_thread_pool.h
@@ -61,7 +61,7 @@ public:
                     token = atomic_tokens_[idx];
                 }
 #ifdef LEARNLOG_USE_TLS
-                token_ = token;
+                consumer_token_ = token;
 #else
                 {
                     std::lock_guard<std::mutex> lock(c_mutex_);
@@ -97,7 +97,7 @@ public:
                     token = atomic_tokens_[idx];
                 }
 #ifdef LEARNLOG_USE_TLS
-                token_ = token;
+                consumer_token_ = token;
 #else
                 {
                     std::lock_guard<std::mutex> lock(c_mutex_);
@@ -133,7 +133,7 @@ public:
                     token = atomic_tokens_[idx];
                 }
 #ifdef LEARNLOG_USE_TLS
-                token_ = token;
+                consumer_token_ = token;
 #else
                 {
                     std::lock_guard<std::mutex> lock(c_mutex_);
@@ -173,32 +173,14 @@ private:
     void enqueue_async_msg_(async_msg&& amsg) override {
         atomic_token* token = nullptr;
 #ifdef LEARNLOG_USE_TLS
-        if (token_ == nullptr) {
-            size_t cnt = producer_cnt_.fetch_add(1, std::memory_order_relaxed);
-            {
-                std::lock_guard<std::mutex> lock(t_mutex_);
-                token_ = atomic_tokens_[cnt % threads_num_];
-            }
-            producer_sema_.signal();
+        // 一个线程可能先后（或同时）使用多个线程池，缓存的 token 只对所属的线程池有效
+        if (producer_pool_id_ != pool_id_) {
+            producer_token_ = get_producer_token_();
+            producer_pool_id_ = pool_id_;
         }
-        token = token_;
+        token = producer_token_;
 #else
-        size_t tid = os::thread_id();
-        {
-            std::lock_guard<std::mutex> lock(p_mutex_);
-            if (producer_atomic_tokens_.find(tid) == producer_atomic_tokens_.end()) {
-                size_t cnt = producer_cnt_.fetch_add(1, std::memory_order_relaxed);
-                {
-                    std::lock_guard<std::mutex> lock(t_mutex_);
-                    token = atomic_tokens_[cnt % threads_num_];
-                }
-                producer_atomic_tokens_[tid] = token;
-                producer_sema_.signal();
-            }
-            else {
-                token = producer_atomic_tokens_[tid];
-            }
-        }
+        token = get_producer_token_();
 #endif
         token->enqueue_lock();
         while (!msg_q_.try_enqueue(token->p_token_, std::move(amsg))) {
@@ -212,7 +194,7 @@ private:
     void dequeue_async_msg_(async_msg& amsg) override {
         atomic_token* token = nullptr;
 #ifdef LEARNLOG_USE_TLS
-        token = token_;
+        token = consumer_token_;
 #else
         {
             std::lock_guard<std::mutex> lock(c_mutex_);
@@ -224,17 +206,41 @@ private:
         }
     }
 
+    // 返回当前线程在本线程池中的 token，线程首次使用本线程池时分配
+    atomic_token* get_producer_token_() {
+        size_t tid = os::thread_id();
+        std::lock_guard<std::mutex> lock(p_mutex_);
+        auto it = producer_atomic_tokens_.find(tid);
+        if (it != producer_atomic_tokens_.end()) {
+            return it->second;
+        }
+
+        size_t cnt = producer_cnt_.fetch_add(1, std::memory_order_relaxed);
+        atomic_token* token = nullptr;
+        {
+            std::lock_guard<std::mutex> lock(t_mutex_);
+            token = atomic_tokens_[cnt % threads_num_];
+        }
+        producer_atomic_tokens_[tid] = token;
+        producer_sema_.signal();
+        return token;
+    }
+
     std::atomic<size_t> producer_cnt_{0};
     std::atomic<size_t> consumer_cnt_{0};
     moodycamel::LightweightSemaphore producer_sema_;
 
     std::mutex t_mutex_;
     std::vector<atomic_token*> atomic_tokens_;
-#ifdef LEARNLOG_USE_TLS
-    static thread_local atomic_token* token_;
-#else
     std::mutex p_mutex_;
     std::unordered_map<size_t, atomic_token*> producer_atomic_tokens_;
+#ifdef LEARNLOG_USE_TLS
+    static std::atomic<size_t> pool_cnt_;
+    const size_t pool_id_{pool_cnt_.fetch_add(1, std::memory_order_relaxed) + 1};   // 从 1 开始，不重复
+    static thread_local size_t producer_pool_id_;           // producer_token_ 所属的线程池
+    static thread_local atomic_token* producer_token_;
+    static thread_local atomic_token* consumer_token_;
+#else
     std::mutex c_mutex_;
     std::unordered_map<size_t, atomic_token*> consumer_atomic_tokens_;
 #endif
-- 
2.43.0


From 09738cc3cb2003f6954f2afea332b71fc3ad74c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:24 +0000
Subject: [PATCH 17/27] fix: lockfree_thread_pool hung with more producer
 threads than blocks

Every producer thread of the queue keeps a block of 32 slots, also when all its
messages are consumed. With more live producer threads than blocks try_enqueue()
fails for the others for ever, although the queue is empty.
---
 base/lockfree_thread_pool.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/base/lockfree_thread_pool.h b/base/lockfree_thread_pool.h
index f5e890f..3b7fbcf 100644
--- a/base/lockfree_thread_pool.h
+++ b/base/lockfree_thread_pool.h
@@ -10,7 +10,7 @@ namespace base {
 
 // 使用无锁阻塞队列 BlockingConcurrentQueue 的线程池，处理 async_msg，
 // 循环尝试 q.try_enqueue() 入队，阻塞等待 q.wait_dequeue() 出队，
-// 队列的总占用空间不变，初始化后不再额外申请内存
+// 队列的总占用空间一般不变，只有生产者线程过多、内存块不够分配时才额外申请内存
 
 class lockfree_thread_pool final: public thread_pool {
 public:
@@ -105,8 +105,12 @@ public:
 
 private:
     void enqueue_async_msg_(async_msg&& amsg) override {
-        while (!msg_q_.try_enqueue(std::move(amsg)))
-            continue;
+        while (!msg_q_.try_enqueue(std::move(amsg))) {
+            // 队列未满，但空闲内存块都被其它生产者线程占用：等待不会有结果，额外申请一块内存
+            if (msg_q_.size_approx() < msg_q_size_ && msg_q_.enqueue(std::move(amsg))) {
+                break;
+            }
+        }
     }
 
     void dequeue_async_msg_(async_msg& amsg) override {
-- 
2.43.0


From 8358c8077e43866e09d6e56d596a3705a2c3f011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 18/27] fix: lockfree_thread_pool lost messages at shutdown

The destructor queued the terminate messages as soon as size_approx() was 0. A
worker that had claimed the last message but not fetched it yet could fetch a
terminate message instead (another producer's) and end; the message was lost.
---
 base/lockfree_thread_pool.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/lockfree_thread_pool.h b/base/lockfree_thread_pool.h
index 3b7fbcf..c8b5a2e 100644
--- a/base/lockfree_thread_pool.h
+++ b/base/lockfree_thread_pool.h
@@ -84,7 +84,8 @@ public:
     }
 
     ~lockfree_thread_pool() override {
-        while (current_msg_count() != 0) {
+        // 等待所有消息出队，size_approx() 不包含工作线程已认领但还未取出的消息
+        while (pending_cnt_.load(std::memory_order_acquire) != 0) {
             // os::sleep_for_ms(1);
         }
         for (size_t i = 0; i < threads_num_; i++) {
@@ -105,6 +106,7 @@ public:
 
 private:
     void enqueue_async_msg_(async_msg&& amsg) override {
+        pending_cnt_.fetch_add(1, std::memory_order_relaxed);
         while (!msg_q_.try_enqueue(std::move(amsg))) {
             // 队列未满，但空闲内存块都被其它生产者线程占用：等待不会有结果，额外申请一块内存
             if (msg_q_.size_approx() < msg_q_size_ && msg_q_.enqueue(std::move(amsg))) {
@@ -125,8 +127,11 @@ private:
         }
         msg_q_.wait_dequeue(*token, amsg);
 #endif
+        pending_cnt_.fetch_sub(1, std::memory_order_release);
     }
 
+    std::atomic<size_t> pending_cnt_{0};    // 已入队（或正在入队）但还未出队的消息数
+
 #ifdef LEARNLOG_USE_TLS
     static thread_local c_token_uni_ptr token_;
 #else
-- 
2.43.0


From 76e48018d76cfc5ca6dc7c413f0b5ebe3827616d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:00 +0000
Subject: [PATCH 19/27] fix: self assignment of log_msg_buf lost the text

---
 base/log_msg_buf.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/log_msg_buf.h b/base/log_msg_buf.h
index e1d4b93..d3fd5ce 100755
--- a/base/log_msg_buf.h
+++ b/base/log_msg_buf.h
@@ -29,6 +29,7 @@ public:
     }
 
     log_msg_buf& operator=(const log_msg_buf &other) {
+        if (this == &other) { return *this; }
         log_msg::operator=(other);
         buf_.clear();
         buf_.append(other.buf_.data(), other.buf_.data() + other.buf_.size());
-- 
2.43.0


From 134364ba022f98ad08e504b9ddfb2cfa9d75bd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:51 +0000
Subject: [PATCH 20/27] fix: a pattern ending in an unfinished flag ran past
 its end

---
 sinks/formatters/pattern_formatter.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sinks/formatters/pattern_formatter.cpp b/sinks/formatters/pattern_formatter.cpp
index 264ada8..34876d6 100755
--- a/sinks/formatters/pattern_formatter.cpp
+++ b/sinks/formatters/pattern_formatter.cpp
@@ -59,9 +59,8 @@ void pattern_formatter::analyse_pattern_(const std::string& pattern) {
 
             spaces_info sp_info = analyse_spaces_info_(++it, end);
 
-            if (it != end) {
-                append_flag_formatter_(*it, sp_info);
-            }
+            if (it == end) break;       // 末尾的 '%' 后没有格式字符
+            append_flag_formatter_(*it, sp_info);
         }
         else {
             if (!as_is_formatter) {
-- 
2.43.0


From fb43f68916f867be7413a8c13a193c02f8f03859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 21/27] fix: dates and fractions of times before 1970

Seconds were rounded towards zero: fractions of such times came out as
garbage and a time within a second before a full one was given the next second.
---
 base/fmt_base.h                   | 10 ++++++++--
 base/os.h                         |  3 ++-
 sinks/formatters/flag_formatter.h |  3 +--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/base/fmt_base.h b/base/fmt_base.h
index 648345f..9e7890e 100755
--- a/base/fmt_base.h
+++ b/base/fmt_base.h
@@ -68,6 +68,13 @@ inline void fill_uint(T n, size_t fill_len, fmt_memory_buf& dest_buf) {
     }
 }
 
+// 得到 tp 所在的整秒，1970 年以前的时间也向下取整（duration_cast 向零取整）
+inline seconds floor_seconds(sys_clock::time_point tp) {
+    auto duration = tp.time_since_epoch();
+    auto secs = std::chrono::duration_cast<seconds>(duration);
+    return secs > duration ? secs - seconds(1) : secs;
+}
+
 // 得到 tp 在秒以下的精确时间
 // Metric 可选类型：milliseconds、microseconds、nanoseconds
 template <typename Metric>
@@ -75,8 +82,7 @@ inline Metric precise_time(sys_clock::time_point tp) {
     using std::chrono::duration_cast;
 
     auto duration = tp.time_since_epoch();
-    auto secs = duration_cast<seconds>(duration);
-    return duration_cast<Metric>(duration) - duration_cast<Metric>(secs);
+    return duration_cast<Metric>(duration - floor_seconds(tp));
 }
 
 }   // namespace fmt_base
diff --git a/base/os.h b/base/os.h
index acd4eb5..0709935 100755
--- a/base/os.h
+++ b/base/os.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "definitions.h"
+#include "base/fmt_base.h"
 
 #include <iostream>
 #include <string>
@@ -48,7 +49,7 @@ inline std::tm _time_t_to_tm(const std::time_t& time_tt) noexcept {
 }
 
 inline std::time_t time_point_to_time_t(const sys_clock::time_point& tp) noexcept {
-    return sys_clock::to_time_t(tp);
+    return sys_clock::to_time_t(sys_clock::time_point(fmt_base::floor_seconds(tp)));
 }
 
 inline std::tm time_point_to_tm(const sys_clock::time_point& tp) noexcept {
diff --git a/sinks/formatters/flag_formatter.h b/sinks/formatters/flag_formatter.h
index d3c1ae1..3713566 100755
--- a/sinks/formatters/flag_formatter.h
+++ b/sinks/formatters/flag_formatter.h
@@ -444,8 +444,7 @@ public:
         : flag_formatter(sp_info) {}
 
     void format(const base::log_msg& msg, const std::tm& time_tm, fmt_memory_buf& dest_buf) override {
-        auto duration = msg.time.time_since_epoch();
-        seconds secs = std::chrono::duration_cast<seconds>(duration);
+        seconds secs = base::fmt_base::floor_seconds(msg.time);
 
         // 填充 datetime_buf_ ，每秒最多填充 1 次
         if(secs != last_call_secs_ || datetime_buf_.size() == 0) {
-- 
2.43.0


From 732b1077143a9dea180faa2ff256db7f8b431a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:25 +0000
Subject: [PATCH 22/27] fix: periodic_function with a huge interval must wait,
 not run continuously

---
 base/periodic_function.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/periodic_function.h b/base/periodic_function.h
index 2ade327..1360b49 100644
--- a/base/periodic_function.h
+++ b/base/periodic_function.h
@@ -20,6 +20,12 @@ public:
         active_ = (interval > std::chrono::duration<Rep, Period>::zero());
         if (!active_) return;
 
+        // 过长的间隔在换算为时钟单位时会溢出，使等待立即超时，故不超过一百年
+        const std::chrono::hours longest(24 * 365 * 100);
+        if (std::chrono::duration<double>(interval) > longest) {
+            interval = std::chrono::duration_cast<std::chrono::duration<Rep, Period>>(longest);
+        }
+
         thread_ = std::thread([this, func, interval] {
             for (;;) {
                 std::unique_lock<std::mutex> lock(mutex_);
-- 
2.43.0


From 66f4df2f014694ea60d0cbbe8ee2f3d1b7a528f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:25 +0000
Subject: [PATCH 23/27] fix: block_queue::dequeue_for with a huge time limit
 must wait, not time out at once

---
 base/block_queue.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/base/block_queue.h b/base/block_queue.h
index 16f90a6..2349b67 100755
--- a/base/block_queue.h
+++ b/base/block_queue.h
@@ -76,7 +76,7 @@ public:
     bool dequeue_for(T& popped_item, std::chrono::milliseconds duration) {
         {
             std::unique_lock<std::mutex> lock(queue_mutex_);
-            if (!push_cv_.wait_for(lock, duration, [this] { return !this->queue_.empty(); })) {
+            if (!push_cv_.wait_for(lock, bounded_(duration), [this] { return !this->queue_.empty(); })) {
                 return false;
             }
             popped_item = std::move(queue_.front());
@@ -130,7 +130,7 @@ public:
 
     bool dequeue_for(T& popped_item, std::chrono::milliseconds duration) {
         std::unique_lock<std::mutex> lock(queue_mutex_);
-        if (!push_cv_.wait_for(lock, duration, [this] { return !this->queue_.empty(); })) {
+        if (!push_cv_.wait_for(lock, bounded_(duration), [this] { return !this->queue_.empty(); })) {
             return false;
         }
         popped_item = std::move(queue_.front());
@@ -169,6 +169,12 @@ public:
     void reset_discard_count() { discard_count_.store(0, std::memory_order_relaxed); }
 
 private:
+    // 过长的等待时间在换算为时钟单位时会溢出，使等待立即超时，故不超过一百年
+    static std::chrono::milliseconds bounded_(std::chrono::milliseconds duration) {
+        const std::chrono::milliseconds longest = std::chrono::hours(24 * 365 * 100);
+        return duration < longest ? duration : longest;
+    }
+
     std::mutex queue_mutex_;
     std::condition_variable push_cv_;
     std::condition_variable pop_cv_;
-- 
2.43.0


From 4adf08f35a1c0cc5ba1af4008f97f5301bc67b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:25 +0000
Subject: [PATCH 24/27] fix: reporting an error must not abort when the system
 clock is set back (debug builds)

---
 base/exception.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/base/exception.h b/base/exception.h
index d209299..a06fcb7 100755
--- a/base/exception.h
+++ b/base/exception.h
@@ -32,7 +32,6 @@ inline void handle_excpt(const std::string& msg) {
     tp lr_time = last_report_time.load(std::memory_order_acquire);
     tp now = sys_clock::now();
     size_t cnt = report_cnt.fetch_add(1, std::memory_order_relaxed);
-    assert( now - lr_time > std::chrono::nanoseconds(1) );
     (void)lr_time;
     // if(now - lr_time < std::chrono::seconds(1)){ return; }
     last_report_time.store(now, std::memory_order_release);
-- 
2.43.0


From 64139cbf60d1028a509e0a7bb284e18485399051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:17 +0000
Subject: [PATCH 25/27] fix: enabling backtrace for the first time while other
 threads log

---
 include/logger.h | 22 +++++++++++++++-------
 src/logger.cpp   |  7 ++++---
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/include/logger.h b/include/logger.h
index 7bf86e7..dac5cc8 100755
--- a/include/logger.h
+++ b/include/logger.h
@@ -7,6 +7,7 @@
 
 #include <vector>
 #include <atomic>
+#include <memory>
 
 namespace learnlog {
 
@@ -77,7 +78,8 @@ public:
              source_loc loc, level::level_enum level, fmt_string_view msg) {
         bool log_enabled = should_log_(level);
         bool backtrace_enabled = false;
-        if ( tracer_ != nullptr && tracer_->is_enabled() ) {
+        auto tracer = std::atomic_load(&tracer_);
+        if ( tracer != nullptr && tracer->is_enabled() ) {
             backtrace_enabled = true;
         }
         if (!log_enabled && !backtrace_enabled) {
@@ -93,7 +95,8 @@ public:
     void log(source_loc loc, level::level_enum level, fmt_string_view msg) {
         bool log_enabled = should_log_(level);
         bool backtrace_enabled = false;
-        if ( tracer_ != nullptr && tracer_->is_enabled() ) {
+        auto tracer = std::atomic_load(&tracer_);
+        if ( tracer != nullptr && tracer->is_enabled() ) {
             backtrace_enabled = true;
         }
         if (!log_enabled && !backtrace_enabled) {
@@ -184,13 +187,17 @@ public:
     void set_formatter(formatter_uni_ptr formatter);
 
     void enable_backtrace_n(size_t msg_num) {
-        if (tracer_ == nullptr) {
-            tracer_ = std::make_shared<base::backtracer>();
+        // tracer_ 的创建可能与其他线程的 log() 等调用同时发生，只保留最先创建的 backtracer
+        auto tracer = std::atomic_load(&tracer_);
+        if (tracer == nullptr) {
+            auto created = std::make_shared<base::backtracer>();
+            if (std::atomic_compare_exchange_strong(&tracer_, &tracer, created)) { tracer = created; }
         }
-        tracer_->enable_with_size(msg_num);
+        tracer->enable_with_size(msg_num);
     }
     void disable_backtrace() {
-        if (tracer_ != nullptr) { tracer_->disable(); }
+        auto tracer = std::atomic_load(&tracer_);
+        if (tracer != nullptr) { tracer->disable(); }
     }
     void dump_backtrace();
 
@@ -223,7 +230,8 @@ protected:
     void log_(source_loc loc, level::level_enum level, fmt_string_view fmt_strv, Args &&...args) {
         bool log_enabled = should_log_(level);
         bool backtrace_enabled = false;
-        if ( tracer_ != nullptr && tracer_->is_enabled() ) {
+        auto tracer = std::atomic_load(&tracer_);
+        if ( tracer != nullptr && tracer->is_enabled() ) {
             backtrace_enabled = true;
         }
         if (!log_enabled && !backtrace_enabled) {
diff --git a/src/logger.cpp b/src/logger.cpp
index 74f33fe..a0ff0f4 100755
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -27,10 +27,11 @@ void logger::set_formatter(formatter_uni_ptr formatter) {
 }
 
 void logger::dump_backtrace() {
-    if (tracer_ != nullptr && tracer_->is_enabled()) {
+    auto tracer = std::atomic_load(&tracer_);
+    if (tracer != nullptr && tracer->is_enabled()) {
         base::log_msg s{level::info, "*********************** Backtrace Start ***********************", name()};
         sink_log_(s);
-        tracer_->foreach_do([this](const base::log_msg& msg) { this->sink_log_(msg); });
+        tracer->foreach_do([this](const base::log_msg& msg) { this->sink_log_(msg); });
         base::log_msg e{level::info, "************************ Backtrace End ************************", name()};
         sink_log_(e);
     }
@@ -49,7 +50,7 @@ void logger::do_log_(const base::log_msg& msg, bool log_enabled, bool traceback_
         sink_log_(msg);
     }
     if (traceback_enabled) {
-        tracer_->push_back(msg);
+        std::atomic_load(&tracer_)->push_back(msg);
     }
 }
 
-- 
2.43.0


From 22d05ac546f24af96e8eb5aa3661a8fb19b4280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:48 +0000
Subject: [PATCH 26/27] fix: thread id of a forked child process

---
 base/os.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/base/os.h b/base/os.h
index 0709935..d431d40 100755
--- a/base/os.h
+++ b/base/os.h
@@ -24,6 +24,7 @@
 #else  // unix
     #include <fcntl.h>
     #include <unistd.h>
+    #include <pthread.h>
 
     #ifdef __linux__
         #include <sys/syscall.h>  //gettid() syscall
@@ -148,10 +149,22 @@ inline size_t _thread_id() noexcept {
 #endif
 }
 
-inline size_t thread_id() noexcept {
 #ifdef LEARNLOG_USE_TLS
-    static thread_local const size_t tid = os::_thread_id();
+inline size_t& _cached_thread_id() noexcept {
+    static thread_local size_t tid = os::_thread_id();
     return tid;
+}
+#endif
+
+inline size_t thread_id() noexcept {
+#ifdef LEARNLOG_USE_TLS
+#ifndef _WIN32
+    // fork() 之后，子进程中线程的 id 与缓存的不同，需要更新
+    static const int at_fork = 
+        ::pthread_atfork(nullptr, nullptr, [] { os::_cached_thread_id() = os::_thread_id(); });
+    (void)at_fork;
+#endif
+    return os::_cached_thread_id();
 #else
     return os::_thread_id();
 #endif 
-- 
2.43.0


From 1db8e0e289ba5bd8b89627a0e8e0aecc042d459d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:27 +0000
Subject: [PATCH 27/27] fix: creating async loggers and replacing the thread
 pool at the same time

---
 base/registry.cpp       | 2 ++
 base/registry.h         | 3 +++
 include/async_factory.h | 4 ++--
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/base/registry.cpp b/base/registry.cpp
index c41c85a..02b2d70 100644
--- a/base/registry.cpp
+++ b/base/registry.cpp
@@ -155,6 +155,7 @@ void registry::remove_all() {
 }
 
 void registry::register_thread_pool(thread_pool_shr_ptr new_thread_pool) {
+    std::lock_guard<std::recursive_mutex> change_lock(pool_change_mutex_);
     std::lock_guard<std::mutex> lock(thread_mutex_);
     thread_pool_.reset();
     remove_async_loggers_();
@@ -171,6 +172,7 @@ void registry::close_registry() {
         std::lock_guard<std::mutex> lock(flusher_mutex_);
         global_flusher_.reset();
     }
+    std::lock_guard<std::recursive_mutex> change_lock(pool_change_mutex_);
     remove_all();
     {
         std::lock_guard<std::mutex> lock(thread_mutex_);
diff --git a/base/registry.h b/base/registry.h
index c6aab11..e57d9dc 100644
--- a/base/registry.h
+++ b/base/registry.h
@@ -58,6 +58,8 @@ public:
     
     void register_thread_pool(thread_pool_shr_ptr new_thread_pool);
     thread_pool_shr_ptr get_thread_pool();
+    // 更换线程池、创建 async_logger 的过程中持有，先于其他锁获取
+    std::recursive_mutex& pool_change_mutex() { return pool_change_mutex_; }
 
     void close_registry();
 
@@ -81,6 +83,7 @@ private:
     std::mutex flusher_mutex_;
     std::unique_ptr<periodic_function> global_flusher_;
 
+    std::recursive_mutex pool_change_mutex_;
     std::mutex thread_mutex_;
     thread_pool_shr_ptr thread_pool_;
 };
diff --git a/include/async_factory.h b/include/async_factory.h
index b1ac68e..4aa5990 100644
--- a/include/async_factory.h
+++ b/include/async_factory.h
@@ -15,8 +15,8 @@ template <typename Threadpool>
 struct async_factory_template {
     template <typename Sink, typename... SinkArgs>
     static async_logger_shr_ptr create(std::string logger_name, SinkArgs &&...args) {
-        static std::mutex async_factory_mutex_;
-        std::lock_guard<std::mutex> lock(async_factory_mutex_);
+        // 各种 async_logger 的创建与线程池的更换不能交错，否则新建的 logger 会使用已经关闭的线程池
+        std::lock_guard<std::recursive_mutex> lock(base::registry::instance().pool_change_mutex());
         auto tp = base::registry::instance().get_thread_pool();
         if (tp == nullptr) {
             auto tp_new = std::make_shared<Threadpool>();
-- 
2.43.0

