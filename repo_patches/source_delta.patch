From e12b25d0655cdff10b91acc1deb12518468963f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:41 +0000
Subject: [PATCH 01/20] fix: mark printf-style messages that lose their last
 character as truncated

vsnprintf keeps at most size-1 characters, so a message of exactly the maximum
size was cut by one character without the truncation marker.
---
 src/logcapture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logcapture.cpp b/src/logcapture.cpp
index ad448c9..d4f138b 100644
--- a/src/logcapture.cpp
+++ b/src/logcapture.cpp
@@ -105,7 +105,7 @@ void LogCapture::capturef(const char* printf_like_message, ...) {
    if (nbrcharacters < 0) {
       stream() << "\n\tERROR LOG MSG NOTIFICATION: Failure to successfully parse the message";
       stream() << '"' << printf_like_message << '"' << std::endl;
-   } else if (nbrcharacters > finished_message_len) {
+   } else if (nbrcharacters >= finished_message_len) {
       stream() << finished_message << kTruncatedWarningText;
    } else {
       stream() << finished_message;
-- 
2.43.0


From e0bd1d576005fbed73331f2fb8db9cdd0668454b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:41 +0000
Subject: [PATCH 02/20] fix: asking whether an unregistered level is enabled
 must not register it

logLevel() used operator[] and so inserted a disabled INFO entry under the
unknown value, which a later enableAll() switched on, and which modified the
map concurrently from logging threads.
---
 src/loglevels.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/loglevels.cpp b/src/loglevels.cpp
index a148e8f..39a69ed 100644
--- a/src/loglevels.cpp
+++ b/src/loglevels.cpp
@@ -118,9 +118,8 @@ namespace g3 {
 
    bool logLevel(const LEVELS& log_level) {
 #ifdef G3_DYNAMIC_LOGGING
-      int level = log_level.value;
-      bool status = internal::g_log_levels[level].status.value();
-      return status;
+      const auto it = internal::g_log_levels.find(log_level.value);
+      return it != internal::g_log_levels.end() && it->second.status.value();
 #else
       return true;
 #endif
-- 
2.43.0


From bc2c2cd0e74188318d7568c716e173ed2e94a898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:41 +0000
Subject: [PATCH 03/20] fix: enabling or disabling a level only changes its
 atomic status

log_levels::set() re-assigned the whole entry, including the level's name, so
threads that switched or listed levels at the same time raced on a std::string.
---
 src/loglevels.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loglevels.cpp b/src/loglevels.cpp
index 39a69ed..8fc5f48 100644
--- a/src/loglevels.cpp
+++ b/src/loglevels.cpp
@@ -63,7 +63,7 @@ namespace g3 {
       void set(LEVELS level, bool enabled) {
          auto it = internal::g_log_levels.find(level.value);
          if (it != internal::g_log_levels.end()) {
-            internal::g_log_levels[level.value] = {level, enabled};
+            it->second.status = enabled;
          }
       }
 
-- 
2.43.0


From a59660a7841b5159008e9ebc9dc00434dcd571cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:41 +0000
Subject: [PATCH 04/20] fix: LogMessage assignment and swap carry the full path
 and the details function

---
 src/g3log/logmessage.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/g3log/logmessage.hpp b/src/g3log/logmessage.hpp
index 9fc2d23..6898d56 100644
--- a/src/g3log/logmessage.hpp
+++ b/src/g3log/logmessage.hpp
@@ -116,9 +116,11 @@ namespace g3 {
 
       friend void swap(LogMessage& first, LogMessage& second) {
          using std::swap;
+         swap(first._logDetailsToStringFunc, second._logDetailsToStringFunc);
          swap(first._timestamp, second._timestamp);
          swap(first._call_thread_id, second._call_thread_id);
          swap(first._file, second._file);
+         swap(first._file_path, second._file_path);
          swap(first._line, second._line);
          swap(first._function, second._function);
          swap(first._level, second._level);
-- 
2.43.0


From 4ef832a091b20b022ceb14bf75d1ffd3e800b7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 05/20] fix: fractions and whole seconds of times before 1970
 round down, not toward zero

---
 src/time.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time.cpp b/src/time.cpp
index a94d394..a3d75a4 100644
--- a/src/time.cpp
+++ b/src/time.cpp
@@ -50,7 +50,7 @@ namespace g3 {
       // 1 ns --> 000000001
       std::string to_string(const g3::system_time_point& ts, Fractional fractional) {
          auto duration = ts.time_since_epoch();
-         auto sec_duration = std::chrono::duration_cast<std::chrono::seconds>(duration);
+         auto sec_duration = std::chrono::floor<std::chrono::seconds>(duration);  // floor: the fraction is never negative, also before 1970
          duration -= sec_duration;
          auto ns = std::chrono::duration_cast<std::chrono::nanoseconds>(duration).count();
 
@@ -144,7 +144,7 @@ namespace g3 {
 
    std::string localtime_formatted(const g3::system_time_point& ts, const std::string& time_format) {
       auto format_buffer = internal::localtime_formatted_fractions(ts, time_format);
-      auto time_point = std::chrono::system_clock::to_time_t(ts);
+      auto time_point = std::chrono::system_clock::to_time_t(std::chrono::floor<std::chrono::seconds>(ts));
       std::tm t = localtime(time_point);
       return g3::put_time(&t, format_buffer.c_str());  // format example: //"%Y/%m/%d %H:%M:%S");
    }
-- 
2.43.0


From e2842dc3381ccf071249406083f91a3fdad7b173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 06/20] fix: read the active logger once, atomically, so that
 logging may overlap a shutdown

---
 src/g3log.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index a5bfa52..4b01719 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -34,7 +34,7 @@
 
 namespace {
    std::once_flag g_initialize_flag;
-   g3::LogWorker* g_logger_instance = nullptr;  // instantiated and OWNED somewhere else (main)
+   std::atomic<g3::LogWorker*> g_logger_instance = {nullptr};  // instantiated and OWNED somewhere else (main)
    std::mutex g_logging_init_mutex;
 
    std::unique_ptr<g3::LogMessage> g_first_uninitialized_msg = {nullptr};
@@ -127,7 +127,8 @@ namespace g3 {
        * @return true if the correct worker was given,. and shutDownLogging was called
        */
       bool shutDownLoggingForActiveOnly(LogWorker* active) {
-         if (isLoggingInitialized() && nullptr != active && (active != g_logger_instance)) {
+         const LogWorker* current = g_logger_instance;
+         if (nullptr != current && nullptr != active && (active != current)) {
             LOG(WARNING) << "\n\t\tAttempted to shut down logging, but the ID of the Logger is not the one that is active."
                          << "\n\t\tHaving multiple instances of the g3::LogWorker is likely a BUG"
                          << "\n\t\tEither way, this call to shutDownLogging was ignored"
@@ -192,7 +193,8 @@ namespace g3 {
             */
       void pushMessageToLogger(LogMessagePtr incoming) {  // todo rename to Push SavedMessage To Worker
          // Uninitialized messages are ignored but does not CHECK/crash the logger
-         if (!internal::isLoggingInitialized()) {
+         LogWorker* logger = g_logger_instance;  // read once: it may be withdrawn by another thread at any time
+         if (nullptr == logger) {
             std::call_once(g_set_first_uninitialized_flag, [&] {
                g_first_uninitialized_msg = incoming.release();
                std::string err = {"LOGGER NOT INITIALIZED:\n\t\t"};
@@ -205,7 +207,7 @@ namespace g3 {
          }
 
          // logger is initialized
-         g_logger_instance->save(incoming);
+         logger->save(incoming);
       }
 
       /** Fatal call saved to logger. This will trigger SIGABRT or other fatal signal
@@ -214,7 +216,8 @@ namespace g3 {
           * message and kills the software with the fatal signal.
           */
       void pushFatalMessageToLogger(FatalMessagePtr message) {
-         if (!isLoggingInitialized()) {
+         LogWorker* logger = g_logger_instance;  // read once: it may be withdrawn by another thread at any time
+         if (nullptr == logger) {
             std::ostringstream error;
             error << "FATAL CALL but logger is NOT initialized\n"
                   << "CAUSE: " << message.get()->reason()
@@ -223,7 +226,7 @@ namespace g3 {
             std::cerr << error.str() << std::flush;
             internal::exitWithDefaultSignalHandler(message.get()->_level, message.get()->_signal_id);
          }
-         g_logger_instance->fatal(message);
+         logger->fatal(message);
          while (shouldBlockForFatalHandling()) {
             std::this_thread::sleep_for(std::chrono::seconds(1));
          }
-- 
2.43.0


From a6ecc6717d2d2a13b407bc7ee5ac84a63c525368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 07/20] fix: fetch and reset the pre-fatal hook in one step so
 that concurrent fatal events cannot race on it

---
 src/g3log.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index 4b01719..5d782f8 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -42,6 +42,7 @@ namespace {
    std::once_flag g_save_first_uninitialized_flag;
    const std::function<void(void)> g_pre_fatal_hook_that_does_nothing = [] { /*does nothing */ };
    std::function<void(void)> g_fatal_pre_logging_hook;
+   std::mutex g_fatal_pre_logging_hook_mutex;
 
    std::atomic<size_t> g_fatal_hook_recursive_counter = {0};
 }  // namespace
@@ -89,8 +90,7 @@ namespace g3 {
    *     so please call this function, if you ever need to, after initializeLogging(...)
    */
    void setFatalPreLoggingHook(std::function<void(void)> pre_fatal_hook) {
-      static std::mutex m;
-      std::lock_guard<std::mutex> lock(m);
+      std::lock_guard<std::mutex> lock(g_fatal_pre_logging_hook_mutex);
       g_fatal_pre_logging_hook = pre_fatal_hook;
    }
 
@@ -156,10 +156,13 @@ namespace g3 {
       }
 
       void saveFatalMessage(const char* stack_trace, g3::LogMessagePtr& message, int& fatal_signal) {
-         auto fatalhook = g_fatal_pre_logging_hook;
          // In case the fatal_pre logging actually will cause a crash in its turn
-         // let's not do recursive crashing!
-         setFatalPreLoggingHook(g_pre_fatal_hook_that_does_nothing);
+         // let's not do recursive crashing! Fetched and reset in one step: of several threads only one gets to run it
+         auto fatalhook = g_pre_fatal_hook_that_does_nothing;
+         {
+            std::lock_guard<std::mutex> lock(g_fatal_pre_logging_hook_mutex);
+            fatalhook.swap(g_fatal_pre_logging_hook);
+         }
          ++g_fatal_hook_recursive_counter;  // thread safe counter
          // "benign" race here. If two threads crashes, with recursive crashes
          // then it's possible that the "other" fatal stack trace will be shown
-- 
2.43.0


From b2bc9f98bfe7ac76edf20fd62849023e9197f134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 08/20] fix: a fatal event before initializeLogging must not
 call an empty pre-fatal hook

---
 src/g3log.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index 5d782f8..d0fedf7 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -41,7 +41,7 @@ namespace {
    std::once_flag g_set_first_uninitialized_flag;
    std::once_flag g_save_first_uninitialized_flag;
    const std::function<void(void)> g_pre_fatal_hook_that_does_nothing = [] { /*does nothing */ };
-   std::function<void(void)> g_fatal_pre_logging_hook;
+   std::function<void(void)> g_fatal_pre_logging_hook = g_pre_fatal_hook_that_does_nothing;
    std::mutex g_fatal_pre_logging_hook_mutex;
 
    std::atomic<size_t> g_fatal_hook_recursive_counter = {0};
-- 
2.43.0


From 011dc1cfda67251c60bb87c25d3ae4426151ebe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 09/20] fix: installing the crash handler again must not forget
 the original signal handling

---
 src/crashhandler_unix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index 9c40449..0f4a1e2 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -102,7 +102,7 @@ namespace {
          if (sigaction(sig_pair.first, &action, &old_action) < 0) {
             std::string signalerror = "sigaction - " + sig_pair.second;
             perror(signalerror.c_str());
-         } else {
+         } else if (old_action.sa_sigaction != &signalHandler) {  // installed again: keep the action saved the first time
             gSavedSigActions[sig_pair.first] = old_action;
          }
       }
-- 
2.43.0


From e198867e290102f372fdb29cb9bd7edd7d33e4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 10/20] fix: a second fatal event waits until the first one is
 delivered instead of ending the process

---
 src/g3log.cpp        | 18 ++++++++++++++++--
 src/g3log/active.hpp | 11 +++++++++++
 src/g3log/g3log.hpp  |  1 +
 src/logworker.cpp    |  2 +-
 4 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index d0fedf7..8105eb8 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -19,6 +19,7 @@
  * ********************************************* */
 
 #include "g3log/g3log.hpp"
+#include "g3log/active.hpp"
 #include "g3log/crashhandler.hpp"
 #include "g3log/loglevels.hpp"
 #include "g3log/logmessage.hpp"
@@ -45,6 +46,7 @@ namespace {
    std::mutex g_fatal_pre_logging_hook_mutex;
 
    std::atomic<size_t> g_fatal_hook_recursive_counter = {0};
+   std::atomic<bool> g_fatal_in_progress = {false};
 }  // namespace
 
 namespace g3 {
@@ -81,6 +83,7 @@ namespace g3 {
       setFatalPreLoggingHook(g_pre_fatal_hook_that_does_nothing);
       // recursive crash counter re-set to zero
       g_fatal_hook_recursive_counter.store(0);
+      g_fatal_in_progress = false;
    }
 
    /**
@@ -120,6 +123,13 @@ namespace g3 {
          g_logger_instance = nullptr;
       }
 
+      /** Shutdown by the background worker that delivers a fatal event. Until the process exits other
+       *  threads with a fatal event wait, they must not end the process before the sinks are flushed */
+      void shutDownLoggingForFatal() {
+         g_fatal_in_progress = true;
+         shutDownLogging();
+      }
+
       /** Same as the Shutdown above but called by the destructor of the LogWorker, thus ensuring that no further
        *  LOG(...) calls can happen to  a non-existing LogWorker.
        *  @param active MUST BE the LogWorker initialized for logging. If it is not then this call is just ignored
@@ -220,7 +230,9 @@ namespace g3 {
           */
       void pushFatalMessageToLogger(FatalMessagePtr message) {
          LogWorker* logger = g_logger_instance;  // read once: it may be withdrawn by another thread at any time
-         if (nullptr == logger) {
+         // the threads that flush the sinks can't wait for themselves, for them a second fatal event is the end
+         const bool shouldWait = g_fatal_in_progress && !kjellkod::Active::isBackgroundThread();
+         if (nullptr == logger && !shouldWait) {
             std::ostringstream error;
             error << "FATAL CALL but logger is NOT initialized\n"
                   << "CAUSE: " << message.get()->reason()
@@ -229,7 +241,9 @@ namespace g3 {
             std::cerr << error.str() << std::flush;
             internal::exitWithDefaultSignalHandler(message.get()->_level, message.get()->_signal_id);
          }
-         logger->fatal(message);
+         if (nullptr != logger) {
+            logger->fatal(message);
+         }
          while (shouldBlockForFatalHandling()) {
             std::this_thread::sleep_for(std::chrono::seconds(1));
          }
diff --git a/src/g3log/active.hpp b/src/g3log/active.hpp
index 3711f9d..2bcd3db 100644
--- a/src/g3log/active.hpp
+++ b/src/g3log/active.hpp
@@ -34,7 +34,13 @@ namespace kjellkod {
       Active(const Active&) = delete;
       Active& operator=(const Active&) = delete;
 
+      static bool& backgroundFlag() {
+         thread_local bool background = false;
+         return background;
+      }
+
       void run() {
+         backgroundFlag() = true;
          while (!done_) {
             Callback func;
             mq_.wait_and_pop(func);
@@ -52,6 +58,11 @@ namespace kjellkod {
          thd_.join();
       }
 
+      /// true when called by a job, i.e. on the thread of some Active object
+      static bool isBackgroundThread() {
+         return backgroundFlag();
+      }
+
       void send(Callback msg_) {
          mq_.push(msg_);
       }
diff --git a/src/g3log/g3log.hpp b/src/g3log/g3log.hpp
index af5363d..5d1b026 100644
--- a/src/g3log/g3log.hpp
+++ b/src/g3log/g3log.hpp
@@ -130,6 +130,7 @@ namespace g3 {
 
       // Shuts down logging. No object cleanup but further LOG(...) calls will be ignored.
       void shutDownLogging();
+      void shutDownLoggingForFatal();
 
       // Shutdown logging, but ONLY if the active logger corresponds to the one currently initialized
       bool shutDownLoggingForActiveOnly(LogWorker* active);
diff --git a/src/logworker.cpp b/src/logworker.cpp
index 4bda245..b928632 100644
--- a/src/logworker.cpp
+++ b/src/logworker.cpp
@@ -38,7 +38,7 @@ namespace g3 {
    void LogWorkerImpl::bgFatal(FatalMessagePtr msgPtr) {
       // this will be the last message. Only the active logworker can receive a FATAL call so it's
       // safe to shutdown logging now
-      g3::internal::shutDownLogging();
+      g3::internal::shutDownLoggingForFatal();
 
       std::string reason = msgPtr.get()->reason();
       const auto level = msgPtr.get()->_level;
-- 
2.43.0


From 13fd4da03466e736ddc0d84eda2fdc4b4cc4d321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 11/20] fix: a backtrace line that ends in a plus sign must not
 make the stack dump throw

---
 src/crashhandler_unix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index 0f4a1e2..6c0d042 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -162,7 +162,7 @@ namespace g3 {
                /// we did not found brackets, looking for "_mangled_name + offset"
                const auto plusSign = strMessage.find_first_of('+');
                const auto lastUnderscore = strMessage.rfind(" _");
-               if (plusSign != strMessage.npos && lastUnderscore != strMessage.npos) {
+               if (plusSign != strMessage.npos && lastUnderscore != strMessage.npos && plusSign + 2 <= strMessage.size()) {
                   mangled_name = strMessage.substr(lastUnderscore + 1, plusSign - lastUnderscore - 2);
                   offset = strMessage.substr(plusSign + 2, strMessage.npos);
                }
-- 
2.43.0


From 01cbf19d8be4f5654a9822f309d646cb858249ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 12/20] fix: do not hold the init mutex while exiting due to an
 illegal initialization

---
 src/g3log.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index 8105eb8..49d86bf 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -59,7 +59,7 @@ namespace g3 {
       std::call_once(g_initialize_flag, [] {
          installCrashHandler();
       });
-      std::lock_guard<std::mutex> lock(g_logging_init_mutex);
+      std::unique_lock<std::mutex> lock(g_logging_init_mutex);
       if (internal::isLoggingInitialized() || nullptr == bgworker) {
          std::ostringstream exitMsg;
          exitMsg << __FILE__ "->" << __FUNCTION__ << ":" << __LINE__ << std::endl;
@@ -67,6 +67,7 @@ namespace g3 {
          exitMsg << "\t(due to multiple initializations? : " << std::boolalpha << internal::isLoggingInitialized();
          exitMsg << ", due to nullptr == bgworker? : " << std::boolalpha << (nullptr == bgworker) << ")";
          std::cerr << exitMsg.str() << std::endl;
+         lock.unlock();  // exit destroys static objects, a static LogWorker among them needs the mutex
          std::exit(EXIT_FAILURE);
       }
 
-- 
2.43.0


From 94f4b1da600672b91d44ef78fecbb0e95926f247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 13/20] fix: an early log entry must not race with
 initializeLogging for the saved first message

---
 src/g3log.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index 49d86bf..f47e067 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -210,13 +210,16 @@ namespace g3 {
          LogWorker* logger = g_logger_instance;  // read once: it may be withdrawn by another thread at any time
          if (nullptr == logger) {
             std::call_once(g_set_first_uninitialized_flag, [&] {
-               g_first_uninitialized_msg = incoming.release();
+               auto first_msg = incoming.release();
                std::string err = {"LOGGER NOT INITIALIZED:\n\t\t"};
-               err.append(g_first_uninitialized_msg->message());
-               std::string& str = g_first_uninitialized_msg->write();
+               err.append(first_msg->message());
+               std::string& str = first_msg->write();
                str.clear();
                str.append(err); // replace content
-               std::cerr << str << std::endl; });
+               std::cerr << str << std::endl;
+               // logging might be getting initialized by another thread
+               std::lock_guard<std::mutex> lock(g_logging_init_mutex);
+               g_first_uninitialized_msg = std::move(first_msg); });
             return;
          }
 
-- 
2.43.0


From 4c446e5acdc46bb817f46c9303d38d10fbdc8e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:35 +0000
Subject: [PATCH 14/20] fix: the root directory as log directory must not
 become the current directory

---
 src/filesinkhelper.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filesinkhelper.ipp b/src/filesinkhelper.ipp
index 1e42999..e57fefa 100644
--- a/src/filesinkhelper.ipp
+++ b/src/filesinkhelper.ipp
@@ -55,6 +55,7 @@ namespace g3 {
          // Unify the delimeters,. maybe sketchy solution but it seems to work
          // on at least win7 + ubuntu. All bets are off for older windows
          std::replace(path.begin(), path.end(), '\\', '/');
+         const bool is_absolute = !path.empty() && path.front() == '/';  // the root directory must stay the root directory
 
          // clean up in case of multiples
          auto contains_end = [&](std::string & in) -> bool {
@@ -68,7 +69,7 @@ namespace g3 {
             path.erase(path.size() - 1);
          }
 
-         if (!path.empty()) {
+         if (!path.empty() || is_absolute) {
             path.insert(path.end(), '/');
          }
 
-- 
2.43.0


From e1f4b0c191522b9ca1156876098e71a13a2270b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:35 +0000
Subject: [PATCH 15/20] fix: changing to a log file of the same name, within a
 second, must not erase its entries

---
 src/filesinkhelper.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filesinkhelper.ipp b/src/filesinkhelper.ipp
index e57fefa..4ebc447 100644
--- a/src/filesinkhelper.ipp
+++ b/src/filesinkhelper.ipp
@@ -100,7 +100,7 @@ namespace g3 {
 
       bool openLogFile(const std::string &complete_file_with_path, std::ofstream &outstream) {
          std::ios_base::openmode mode = std::ios_base::out; // for clarity: it's really overkill since it's an ofstream
-         mode |= std::ios_base::trunc;
+         mode |= std::ios_base::app; // the name is unique only within a second: never truncate entries that are already there
          outstream.open(complete_file_with_path, mode);
          if (!outstream.is_open()) {
             std::ostringstream ss_error;
-- 
2.43.0


From 94e328fd64a069468a688cefb99c867967d31120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:14 +0000
Subject: [PATCH 16/20] fix: unblock the fatal signal before raising it again
 so that the process dies by it

---
 src/crashhandler_unix.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index 6c0d042..83ed0ea 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -232,6 +232,13 @@ namespace g3 {
                    << __FUNCTION__ << ":" << __LINE__ << ". Exiting due to " << level.text << ", " << signal_number << "   \n\n"
                    << std::flush;
 
+         // The signal is blocked in its own handler, and in a thread that has inherited such a mask:
+         // it would stay pending and the process would exit normally instead
+         sigset_t unblock;
+         sigemptyset(&unblock);
+         sigaddset(&unblock, signal_number);
+         pthread_sigmask(SIG_UNBLOCK, &unblock, nullptr);
+
          raise(signal_number);
 
          // When running as PID1 the above kill doesn't have any effect (execution simply passes through it, contrary
-- 
2.43.0


From ed14519ff7f622be8d6bbc0e2c3ff2c787866625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:15 +0000
Subject: [PATCH 17/20] fix: removing sinks and fatal exit must flush a sink
 that is also held elsewhere

SinkHandle::call, or a user of SinkHandle::sink(), can hold the last reference to a sink
when the worker drops its own. The sink was then not destroyed, and so its queue not
flushed, before the removal returned or the process exited.
---
 src/g3log/logworker.hpp   | 3 +++
 src/g3log/sink.hpp        | 4 ++++
 src/g3log/sinkwrapper.hpp | 1 +
 src/logworker.cpp         | 9 +++++++++
 4 files changed, 17 insertions(+)

diff --git a/src/g3log/logworker.hpp b/src/g3log/logworker.hpp
index 844d91f..912e61c 100644
--- a/src/g3log/logworker.hpp
+++ b/src/g3log/logworker.hpp
@@ -38,6 +38,7 @@ namespace g3 {
 
       void bgSave(g3::LogMessagePtr msgPtr);
       void bgFatal(FatalMessagePtr msgPtr);
+      void flushSinks();
 
       LogWorkerImpl(const LogWorkerImpl&) = delete;
       LogWorkerImpl& operator=(const LogWorkerImpl&) = delete;
@@ -108,6 +109,7 @@ namespace g3 {
                auto bg_removesink_call = [this, weak_ptr_sink] {
                   auto shared_sink = weak_ptr_sink.lock();
                   if (shared_sink) {
+                     shared_sink->flush();  // erase does not destroy the sink, and so not flush it, if it is also held elsewhere
                      _impl._sinks.erase(std::remove(_impl._sinks.begin(), _impl._sinks.end(), shared_sink), _impl._sinks.end());
                   }
                };
@@ -124,6 +126,7 @@ namespace g3 {
       /// handle then the sink will be removed internally but will live on in the client's instance
       void removeAllSinks() {
          auto bg_clear_sink_call = [this]() noexcept {
+            _impl.flushSinks();
             _impl._sinks.clear();
          };
          auto token_cleared = g3::spawn_task(bg_clear_sink_call, _impl._bg.get());
diff --git a/src/g3log/sink.hpp b/src/g3log/sink.hpp
index 61f8850..9ccc8dd 100644
--- a/src/g3log/sink.hpp
+++ b/src/g3log/sink.hpp
@@ -67,6 +67,10 @@ namespace g3 {
             });
          }
 
+         void flush() override {
+            g3::spawn_task([] {}, _bg.get()).wait();
+         }
+
          template <typename Call, typename... Args>
          auto async(Call call, Args&&... args) -> std::future<std::invoke_result_t<decltype(call), T, Args...>> {
             return g3::spawn_task(std::bind(call, _real_sink.get(), std::forward<Args>(args)...), _bg.get());
diff --git a/src/g3log/sinkwrapper.hpp b/src/g3log/sinkwrapper.hpp
index f9c8fc2..9224ea4 100644
--- a/src/g3log/sinkwrapper.hpp
+++ b/src/g3log/sinkwrapper.hpp
@@ -16,6 +16,7 @@ namespace g3 {
       struct SinkWrapper {
          virtual ~SinkWrapper() {}
          virtual void send(LogMessageMover msg) = 0;
+         virtual void flush() = 0;  // returns when everything sent before is processed
       };
    }  // namespace internal
 }  // namespace g3
diff --git a/src/logworker.cpp b/src/logworker.cpp
index b928632..ee5e3eb 100644
--- a/src/logworker.cpp
+++ b/src/logworker.cpp
@@ -58,6 +58,7 @@ namespace g3 {
          sink->send(LogMessageMover(std::move(msg)));
       }
 
+      flushSinks();
       // This clear is absolutely necessary
       // All sinks are forced to receive the fatal message above before we continue
       _sinks.clear();  // flush all queues
@@ -67,6 +68,14 @@ namespace g3 {
       perror("g3log exited after receiving FATAL trigger. Flush message status: ");
    }
 
+   // A sink can be held elsewhere, SinkHandle::call does so for a moment. Destroying the worker's
+   // reference does then not destroy the sink and would not wait for its queue
+   void LogWorkerImpl::flushSinks() {
+      for (auto& sink : _sinks) {
+         sink->flush();
+      }
+   }
+
    LogWorker::~LogWorker() {
       g3::internal::shutDownLoggingForActiveOnly(this);
 
-- 
2.43.0


From e3e01171b45d0fc157308c49446990170b69ca21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:33 +0000
Subject: [PATCH 18/20] fix: the file sink writes a fatal entry at once, it
 might not be destroyed before the process ends

---
 src/filesink.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filesink.cpp b/src/filesink.cpp
index 2e559d0..aaba0e2 100644
--- a/src/filesink.cpp
+++ b/src/filesink.cpp
@@ -63,7 +63,8 @@ namespace g3 {
       auto data = message.get().toString(_log_details_func);
 
       _write_buffer.append(data);
-      if (++_write_counter % _write_to_log_every_x_message == 0) {
+      const bool is_last = message.get().wasFatal();  // the process exits and might not destroy the sink
+      if (++_write_counter % _write_to_log_every_x_message == 0 || is_last) {
          filestream() << _write_buffer << std::flush;
          _write_buffer.clear();
       }
-- 
2.43.0


From 376c5b1e9206af1efe194b7082a881ccd2fac8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:10 +0000
Subject: [PATCH 19/20] fix: a logger must not be destroyed while another
 thread that logs still uses it

---
 src/g3log.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index f47e067..b7db254 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -36,7 +36,9 @@
 namespace {
    std::once_flag g_initialize_flag;
    std::atomic<g3::LogWorker*> g_logger_instance = {nullptr};  // instantiated and OWNED somewhere else (main)
-   std::mutex g_logging_init_mutex;
+   // held while the active logger is used: when it is withdrawn no thread uses it any more and it can be destroyed.
+   // recursive: a fatal signal can interrupt a thread that logs
+   std::recursive_mutex g_logging_init_mutex;
 
    std::unique_ptr<g3::LogMessage> g_first_uninitialized_msg = {nullptr};
    std::once_flag g_set_first_uninitialized_flag;
@@ -59,7 +61,7 @@ namespace g3 {
       std::call_once(g_initialize_flag, [] {
          installCrashHandler();
       });
-      std::unique_lock<std::mutex> lock(g_logging_init_mutex);
+      std::unique_lock<std::recursive_mutex> lock(g_logging_init_mutex);
       if (internal::isLoggingInitialized() || nullptr == bgworker) {
          std::ostringstream exitMsg;
          exitMsg << __FILE__ "->" << __FUNCTION__ << ":" << __LINE__ << std::endl;
@@ -120,7 +122,7 @@ namespace g3 {
        * that is the responsibility of its owner. *
        */
       void shutDownLogging() {
-         std::lock_guard<std::mutex> lock(g_logging_init_mutex);
+         std::lock_guard<std::recursive_mutex> lock(g_logging_init_mutex);
          g_logger_instance = nullptr;
       }
 
@@ -128,7 +130,7 @@ namespace g3 {
        *  threads with a fatal event wait, they must not end the process before the sinks are flushed */
       void shutDownLoggingForFatal() {
          g_fatal_in_progress = true;
-         shutDownLogging();
+         g_logger_instance = nullptr;  // no lock: the thread with the fatal signal might own it, and the logger is not destroyed
       }
 
       /** Same as the Shutdown above but called by the destructor of the LogWorker, thus ensuring that no further
@@ -207,8 +209,10 @@ namespace g3 {
             */
       void pushMessageToLogger(LogMessagePtr incoming) {  // todo rename to Push SavedMessage To Worker
          // Uninitialized messages are ignored but does not CHECK/crash the logger
-         LogWorker* logger = g_logger_instance;  // read once: it may be withdrawn by another thread at any time
+         std::unique_lock<std::recursive_mutex> lock(g_logging_init_mutex);
+         LogWorker* logger = g_logger_instance;
          if (nullptr == logger) {
+            lock.unlock();
             std::call_once(g_set_first_uninitialized_flag, [&] {
                auto first_msg = incoming.release();
                std::string err = {"LOGGER NOT INITIALIZED:\n\t\t"};
@@ -218,7 +222,7 @@ namespace g3 {
                str.append(err); // replace content
                std::cerr << str << std::endl;
                // logging might be getting initialized by another thread
-               std::lock_guard<std::mutex> lock(g_logging_init_mutex);
+               std::lock_guard<std::recursive_mutex> lock(g_logging_init_mutex);
                g_first_uninitialized_msg = std::move(first_msg); });
             return;
          }
@@ -233,7 +237,12 @@ namespace g3 {
           * message and kills the software with the fatal signal.
           */
       void pushFatalMessageToLogger(FatalMessagePtr message) {
-         LogWorker* logger = g_logger_instance;  // read once: it may be withdrawn by another thread at any time
+         std::unique_lock<std::recursive_mutex> lock(g_logging_init_mutex);
+         LogWorker* logger = g_logger_instance;
+         if (nullptr != logger) {
+            logger->fatal(message);
+         }
+         lock.unlock();
          // the threads that flush the sinks can't wait for themselves, for them a second fatal event is the end
          const bool shouldWait = g_fatal_in_progress && !kjellkod::Active::isBackgroundThread();
          if (nullptr == logger && !shouldWait) {
@@ -245,9 +254,6 @@ namespace g3 {
             std::cerr << error.str() << std::flush;
             internal::exitWithDefaultSignalHandler(message.get()->_level, message.get()->_signal_id);
          }
-         if (nullptr != logger) {
-            logger->fatal(message);
-         }
          while (shouldBlockForFatalHandling()) {
             std::this_thread::sleep_for(std::chrono::seconds(1));
          }
-- 
2.43.0


From c891a182dc3f3b4cb546a3195a1e63b582766722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:11 +0000
Subject: [PATCH 20/20] fix: CHECK must not fail for a true condition that is
 not a bool

---
 src/g3log/g3log.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/g3log/g3log.hpp b/src/g3log/g3log.hpp
index 5d1b026..ac19877 100644
--- a/src/g3log/g3log.hpp
+++ b/src/g3log/g3log.hpp
@@ -155,7 +155,7 @@ namespace g3 {
 // 'Design By Contract' stream API. Broken Contracts will exit the application by using fatal signal SIGABRT
 //  For unit testing, you can override the fatal handling using setFatalExitHandler(...). See tes_io.cpp for examples
 #define CHECK(boolean_expression)        \
-   if (true == (boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).stream()
+   if (static_cast<bool>(boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).stream()
 
 
 /** For details please see this
@@ -217,12 +217,12 @@ And here is possible output
 // Calls the signal handler if the contract failed with the default exit for a failed contract. This is typically SIGABRT
 // See g3log, setFatalExitHandler(...) which can be overriden for unit tests (ref test_io.cpp)
 #define CHECKF(boolean_expression, printf_like_message, ...)    \
-   if (true == (boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).capturef(printf_like_message, ##__VA_ARGS__)
+   if (static_cast<bool>(boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).capturef(printf_like_message, ##__VA_ARGS__)
 
 // Backwards compatible. The same as CHECKF.
 // Design By Contract, printf-like API syntax with variadic input parameters.
 // Calls the signal handler if the contract failed. See g3log, setFatalExitHandler(...) which can be overriden for unit tests
 // (ref test_io.cpp)
 #define CHECK_F(boolean_expression, printf_like_message, ...)    \
-   if (true == (boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).capturef(printf_like_message, ##__VA_ARGS__)
+   if (static_cast<bool>(boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).capturef(printf_like_message, ##__VA_ARGS__)
    // clang-format on
\ No newline at end of file
-- 
2.43.0

