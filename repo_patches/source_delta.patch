From d90b7ffef2247d750c9827a9b307483e413bde14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 01/54] fix: operator!= of hashes is the negation of operator==

---
 pwned-lib/hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-lib/hash.hpp b/pwned-lib/hash.hpp
index f391232..b1b3da8 100755
--- a/pwned-lib/hash.hpp
+++ b/pwned-lib/hash.hpp
@@ -96,7 +96,7 @@ inline bool operator==(const Hash &lhs, const Hash &rhs)
 
 inline bool operator!=(const Hash &lhs, const Hash &rhs)
 {
-  return lhs.quad.upper != rhs.quad.upper || lhs.quad.lower != rhs.quad.lower ||  lhs.isValid == rhs.isValid;
+  return lhs.quad.upper != rhs.quad.upper || lhs.quad.lower != rhs.quad.lower || lhs.isValid != rhs.isValid;
 }
 
 inline bool operator<(const Hash &lhs, const Hash &rhs)
-- 
2.43.0


From e1faae4f042bb86af5a3916a18a9cd7a34192208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 02/54] fix: hexToCharSeq fails on an odd number of digits

---
 pwned-lib/util.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pwned-lib/util.cpp b/pwned-lib/util.cpp
index 1b3f0b5..33d403b 100755
--- a/pwned-lib/util.cpp
+++ b/pwned-lib/util.cpp
@@ -260,8 +260,9 @@ bool hexToCharSeq(const std::string &seq, std::string &result)
         return false;
       }
     }
+    return true;
   }
-  return true;
+  return false;
 }
 
 unsigned int popcnt64(uint64_t x)
-- 
2.43.0


From 83b31df8f285a2bcdbf6591639b3dcf199e33573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 03/54] fix: string_format reserves room for the terminator of
 an empty format

---
 pwned-lib/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-lib/util.cpp b/pwned-lib/util.cpp
index 33d403b..e3d56c2 100755
--- a/pwned-lib/util.cpp
+++ b/pwned-lib/util.cpp
@@ -154,7 +154,7 @@ int getMemoryStat(MemoryStat &memoryStat)
 // see https://stackoverflow.com/a/8098080
 std::string string_format(const std::string fmt_str, ...)
 {
-  int n = (int)(2 * fmt_str.size());
+  int n = (int)(2 * fmt_str.size()) + 1;
   std::unique_ptr<char[]> formatted;
   va_list ap;
   while (true)
-- 
2.43.0


From 9bcbd0fdb9047c0c780db6444e5f6f67ea2f696c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 04/54] fix: TermIO::enableEcho turns echo on and leaves the
 other flags alone

---
 pwned-lib/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-lib/util.cpp b/pwned-lib/util.cpp
index e3d56c2..151d806 100755
--- a/pwned-lib/util.cpp
+++ b/pwned-lib/util.cpp
@@ -306,7 +306,7 @@ void TermIO::enableEcho()
   struct termios t;
   tcgetattr(STDIN_FILENO, &t);
   t.c_lflag |= tcflag_t(ICANON);
-  t.c_lflag |= tcflag_t(~ECHO);
+  t.c_lflag |= tcflag_t(ECHO);
   tcsetattr(STDIN_FILENO, TCSANOW, &t);
 }
 
-- 
2.43.0


From 44f513a533d11afa0f9777c7b3c9d237d3e9cec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 05/54] fix: the text of a UUID contains its lower half

---
 pwned-lib/uuid.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pwned-lib/uuid.cpp b/pwned-lib/uuid.cpp
index 3ab142c..79acf40 100755
--- a/pwned-lib/uuid.cpp
+++ b/pwned-lib/uuid.cpp
@@ -28,9 +28,9 @@ std::ostream &operator<<(std::ostream &os, UUID const &uuid)
   const uint32_t a = uint32_t(uuid.uuid[0] >> 32);
   const uint16_t b = uint32_t(uuid.uuid[0] >> 16) & 0xffff;
   const uint16_t c = uint32_t(uuid.uuid[0]) & 0xffffU;
-  const uint16_t d = uint32_t(uuid.uuid[0] >> 48) & 0xffff;
-  const uint16_t e = uint32_t(uuid.uuid[0] >> 32) & 0xffff;
-  const uint32_t f = uint32_t(uuid.uuid[0]) & 0xffffffff;
+  const uint16_t d = uint32_t(uuid.uuid[1] >> 48) & 0xffff;
+  const uint16_t e = uint32_t(uuid.uuid[1] >> 32) & 0xffff;
+  const uint32_t f = uint32_t(uuid.uuid[1]) & 0xffffffff;
   std::ostringstream ss;
   ss << std::hex << std::uppercase << std::setfill('0')
      << std::setw(8) << a << '-'
-- 
2.43.0


From 07e244dd0f544887b1eddc956700e052aaa49adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 06/54] fix: a lookup behind the last record no longer breaks
 all later lookups

---
 pwned-lib/passwordinspector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pwned-lib/passwordinspector.cpp b/pwned-lib/passwordinspector.cpp
index 4951469..d2a7a4a 100755
--- a/pwned-lib/passwordinspector.cpp
+++ b/pwned-lib/passwordinspector.cpp
@@ -81,7 +81,7 @@ PasswordHashAndCount PasswordInspector::binsearch(const Hash &hash, int *readCou
 {
   int nReads = 0;
   std::streamoff lo = 0;
-  std::streamoff hi = mFileSize;
+  std::streamoff hi = mFileSize - std::streamoff(PasswordHashAndCount::size);
   if (mIndexFile.is_open())
   {
     const uint64_t hashMSB = hash.quad.upper >> mShift;
@@ -103,6 +103,7 @@ PasswordHashAndCount PasswordInspector::binsearch(const Hash &hash, int *readCou
     }
     while (hi == int64_t(std::numeric_limits<index_key_t>::max()));
   }
+  mInputFile.clear();
   PasswordHashAndCount phc;
   while (lo <= hi)
   {
-- 
2.43.0


From 0d34843b1248de4cb3779ed56f6ca2f5fd8a34a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 07/54] fix: indexed lookup terminates when no index entry
 exists below or above a hash

---
 pwned-lib/passwordinspector.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pwned-lib/passwordinspector.cpp b/pwned-lib/passwordinspector.cpp
index d2a7a4a..8fba2f3 100755
--- a/pwned-lib/passwordinspector.cpp
+++ b/pwned-lib/passwordinspector.cpp
@@ -93,7 +93,8 @@ PasswordHashAndCount PasswordInspector::binsearch(const Hash &hash, int *readCou
       ++nReads;
       loIdx -= sizeof(index_key_t);
     }
-    while (lo == int64_t(std::numeric_limits<index_key_t>::max()));
+    while (lo == int64_t(std::numeric_limits<index_key_t>::max()) && loIdx >= 0);
+    lo = std::max<std::streamoff>(0, lo);
     std::streamoff hiIdx = idx + (std::streamoff)sizeof(index_key_t);
     do {
       mIndexFile.seekg(hiIdx);
@@ -101,7 +102,12 @@ PasswordHashAndCount PasswordInspector::binsearch(const Hash &hash, int *readCou
       ++nReads;
       hiIdx += sizeof(index_key_t);
     }
-    while (hi == int64_t(std::numeric_limits<index_key_t>::max()));
+    while (hi == int64_t(std::numeric_limits<index_key_t>::max()) && mIndexFile);
+    if (!mIndexFile)
+    {
+      mIndexFile.clear();
+      hi = mFileSize - std::streamoff(PasswordHashAndCount::size);
+    }
   }
   mInputFile.clear();
   PasswordHashAndCount phc;
-- 
2.43.0


From e51af97a7b31f22bbcb697cfa52a4bcc180d8817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 08/54] fix: the lookup tool ends at the end of its input

---
 pwned-lookup-cli/pwned-lookup-cli.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pwned-lookup-cli/pwned-lookup-cli.cpp b/pwned-lookup-cli/pwned-lookup-cli.cpp
index 5727bed..ab24712 100755
--- a/pwned-lookup-cli/pwned-lookup-cli.cpp
+++ b/pwned-lookup-cli/pwned-lookup-cli.cpp
@@ -96,6 +96,10 @@ int main(int argc, const char *argv[])
     pwned::setStdinEcho(false);
     std::cin >> pwd;
     pwned::setStdinEcho(true);
+    if (!std::cin)
+    {
+      break;
+    }
     const pwned::Hash soughtHash(pwd);
     std::cout << "MD5 hash " << soughtHash << std::endl;
     const auto &t0 = std::chrono::high_resolution_clock::now();
-- 
2.43.0


From 8d004f6351307a7dab1d2f79d3258f9d3805b9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 09/54] fix: the index builder ignores an incomplete record at
 the end of its input

The loop evaluated the record left over from a failed read, so a partial
record at the end of the file (or an empty file) produced an index entry
that points nowhere.
---
 pwned-index/index.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pwned-index/index.cpp b/pwned-index/index.cpp
index e40e8bf..cbd7ba9 100644
--- a/pwned-index/index.cpp
+++ b/pwned-index/index.cpp
@@ -128,14 +128,16 @@ int main(int argc, const char *argv[])
   pwned::PasswordHashAndCount phc;
   pwned::index_key_t *indexes = new pwned::index_key_t[maxIdx];
   memset(indexes, 0xff, maxIdx * sizeof(pwned::index_key_t));
-  phc.read(input);
-  pwned::index_key_t lastIdx = pwned::index_key_t(phc.hash.quad.upper >> shift);
-  *(indexes + lastIdx) = 0;
+  pwned::index_key_t lastIdx = 0;
+  if (phc.read(input))
+  {
+    lastIdx = pwned::index_key_t(phc.hash.quad.upper >> shift);
+    *(indexes + lastIdx) = 0;
+  }
   pwned::index_key_t idx = 0;
   uint64_t pos = 0;
-  while (!input.eof())
+  while (phc.read(input))
   {
-    phc.read(input);
     idx = pwned::index_key_t(phc.hash.quad.upper >> shift);
     if (idx > lastIdx)
     {
@@ -145,7 +147,6 @@ int main(int argc, const char *argv[])
       lastIdx = idx;
     }
   }
-  *(indexes + idx) = pos;
   input.close();
 
   std::cout << std::endl
-- 
2.43.0


From a2ecdc27b48c401a821d033b1899d76937ec0cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:19 +0000
Subject: [PATCH 10/54] fix: the progress bar of the merger copes with empty
 input

---
 pwned-merger-cli/progressbar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwned-merger-cli/progressbar.hpp b/pwned-merger-cli/progressbar.hpp
index f1804af..5d81698 100755
--- a/pwned-merger-cli/progressbar.hpp
+++ b/pwned-merger-cli/progressbar.hpp
@@ -62,7 +62,7 @@ public:
   void update(uint64_t value) override
   {
     std::cout << '\r' << begin;
-    const int w = int(uint64_t(width) * value / hi);
+    const int w = (hi > 0) ? int(uint64_t(width) * value / hi) : width;
     for (int i = 0; i < w; ++i)
     {
       std::cout << fill;
@@ -71,7 +71,7 @@ public:
     {
       std::cout << space;
     }
-    const float percent = 100 * float(value) / float(hi);
+    const float percent = (hi > 0) ? 100 * float(value) / float(hi) : 100;
     std::cout << end << std::setw(5) << std::setfill(' ') << pwned::string_format(" %5.1f %% ", percent) << std::flush;
   }
 };
-- 
2.43.0


From 89d134fcbfdd4f0de0e48f04678a357f7e0bb4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:57 +0000
Subject: [PATCH 11/54] fix: merging neither counts records twice nor invents
 records for empty inputs

---
 pwned-merger-cli/mergeoperation.cpp | 46 +++++++++++++----------------
 pwned-merger-cli/mergeoperation.hpp |  2 +-
 2 files changed, 22 insertions(+), 26 deletions(-)

diff --git a/pwned-merger-cli/mergeoperation.cpp b/pwned-merger-cli/mergeoperation.cpp
index eb1887c..b2e4497 100755
--- a/pwned-merger-cli/mergeoperation.cpp
+++ b/pwned-merger-cli/mergeoperation.cpp
@@ -41,6 +41,8 @@ struct SmallestHashFirst
 {
   bool operator()(const MergerInput *lhs, const MergerInput *rhs)
   {
+    if (lhs->isValid != rhs->isValid)
+      return lhs->isValid;
     return lhs->phc.hash > rhs->phc.hash;
   }
 };
@@ -128,12 +130,17 @@ void MergeOperation::execute() noexcept(false)
     throw pwned::OperationException(std::string("Cannot write to file: ") + std::strerror(errno), MergerError::cannotWriteToFile);
     return;
   }
-  pwned::PasswordHashAndCount current = d->pq.top()->phc;
+  pwned::PasswordHashAndCount current;
+  const bool hasData = next(current);
+  if (hasData)
+  {
+    ++d->entriesProcessed;
+  }
   uint64_t updateAfterEntries = std::max<uint64_t>(d->totalEntries / 1000, 1);
-  while (!isCancelled)
+  while (hasData && !isCancelled)
   {
-    const pwned::PasswordHashAndCount &p = next();
-    if (!d->pq.empty())
+    pwned::PasswordHashAndCount p;
+    if (next(p))
     {
       if (d->progressed != nullptr && d->entriesProcessed % updateAfterEntries == 0)
       {
@@ -171,37 +178,26 @@ void MergeOperation::execute() noexcept(false)
   std::cout << "(" << pwned::readableTime(time_span.count()) << ")" << std::endl;
 }
 
-pwned::PasswordHashAndCount MergeOperation::next()
+bool MergeOperation::next(pwned::PasswordHashAndCount &result)
 {
-  pwned::PasswordHashAndCount result;
-  if (!d->pq.empty())
+  while (!d->pq.empty())
   {
     MergerInput *mergerInput = d->pq.top();
-    result = mergerInput->phc;
+    d->pq.pop();
     if (mergerInput->isValid)
     {
+      result = mergerInput->phc;
       mergerInput->read();
-      if (mergerInput->isValid)
-      {
-        d->pq.pop();
-        d->pq.push(mergerInput);
-      }
+      d->pq.push(mergerInput);
+      return true;
     }
-    else
+    if (d->removeInputFilesAfterMerge)
     {
-      d->pq.pop();
-      if (d->removeInputFilesAfterMerge)
-      {
-        mergerInput->deleteFile();
-      }
-      delete mergerInput;
-      if (d->pq.empty())
-      {
-        return pwned::PasswordHashAndCount();
-      }
+      mergerInput->deleteFile();
     }
+    delete mergerInput;
   }
-  return result;
+  return false;
 }
 
 } // namespace merger
diff --git a/pwned-merger-cli/mergeoperation.hpp b/pwned-merger-cli/mergeoperation.hpp
index f831b2c..62fa1e8 100755
--- a/pwned-merger-cli/mergeoperation.hpp
+++ b/pwned-merger-cli/mergeoperation.hpp
@@ -44,7 +44,7 @@ public:
                  bool removeInputFilesAfterMerge,
                  ProgressCallback * = nullptr);
   void execute() noexcept(false) override;
-  pwned::PasswordHashAndCount next();
+  bool next(pwned::PasswordHashAndCount &result);
 };
 
 } // namespace merger
-- 
2.43.0


From 763181047814051d42983fb92d4e9f41cfb59290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:49 +0000
Subject: [PATCH 12/54] fix: waiting, pausing and cancelling operations neither
 loses wakeups nor a cancellation

---
 pwned-lib/operation.cpp      |  5 ++--
 pwned-lib/operationqueue.hpp | 44 +++++++++++++++++++++++++++++-------
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/pwned-lib/operation.cpp b/pwned-lib/operation.cpp
index 8b2af05..1ac5990 100755
--- a/pwned-lib/operation.cpp
+++ b/pwned-lib/operation.cpp
@@ -72,15 +72,16 @@ void Operation::start() noexcept
   {
     std::cerr << "Exception in Operation::execute(): " << e.what() << std::endl;
   }
+  std::lock_guard<std::mutex> lock(mtx);
   isRunning = false;
   isFinished = true;
-  finishedCondition.notify_one();
+  finishedCondition.notify_all();
 }
 
 void Operation::waitForFinished()
 {
   std::unique_lock<std::mutex> lock(mtx);
-  finishedCondition.wait(lock);
+  finishedCondition.wait(lock, [this] { return !isRunning; });
 }
 
 void Operation::cancel()
diff --git a/pwned-lib/operationqueue.hpp b/pwned-lib/operationqueue.hpp
index d85d409..3dd0590 100755
--- a/pwned-lib/operationqueue.hpp
+++ b/pwned-lib/operationqueue.hpp
@@ -19,6 +19,7 @@
 #define __operationqueue_hpp__
 
 #include <thread>
+#include <atomic>
 #include <pthread.h>
 #include <mutex>
 #include <list>
@@ -57,10 +58,23 @@ class OperationQueue
   std::mutex pauseMtx;
   Semaphore guard{std::thread::hardware_concurrency()};
   int threadPriority;
-  bool _isRunning{false};
-  bool _isCancelled{false};
+  std::atomic<bool> _isRunning{false};
+  std::atomic<bool> _isCancelled{false};
+  bool _isPaused{false};
   std::condition_variable pauseCondition;
 
+  bool hasUnscheduled() const
+  {
+    std::lock_guard<std::mutex> lock(mtx);
+    return !unscheduledOps.empty();
+  }
+
+  void setPaused(bool paused)
+  {
+    std::lock_guard<std::mutex> lock(pauseMtx);
+    _isPaused = paused;
+  }
+
 public:
   explicit OperationQueue(int threadPriority = 0)
       : threadPriority(threadPriority)
@@ -76,8 +90,7 @@ public:
   void reset()
   {
     cancel();
-    opThreads.clear();
-    _isRunning = false;
+    waitForFinished();
     _isCancelled = false;
   }
 
@@ -95,7 +108,7 @@ public:
   {
     //std::cout << "operationWait()" << std::endl;
     std::unique_lock<std::mutex> lock(pauseMtx);
-    pauseCondition.wait(lock);
+    pauseCondition.wait(lock, [this] { return !_isPaused; });
     //std::cout << "operationWait() resuming ... " << std::endl;
   }
 
@@ -105,11 +118,12 @@ public:
       return;
     if (_isRunning)
     {
+      std::lock_guard<std::mutex> lock(mtx);
+      setPaused(true);
       for (Operation *op : runningOps)
       {
         op->pause();
       }
-      std::lock_guard<std::mutex> lock(mtx);
       _isRunning = false;
     }
   }
@@ -121,6 +135,7 @@ public:
     if (!_isRunning)
     {
       // std::cout << "OperationQueue::resume() notifying all ..." << std::endl;
+      setPaused(false);
       pauseCondition.notify_all();
       _isRunning = true;
     }
@@ -130,6 +145,8 @@ public:
   {
     std::lock_guard<std::mutex> lock(mtx);
     _isCancelled = true;
+    setPaused(false);
+    pauseCondition.notify_all();
     for (Operation *op : runningOps)
     {
       op->cancel();
@@ -164,12 +181,18 @@ public:
     int rc = pthread_getschedparam(pthread_self(), &policy, &param);
     int parentPriority = (rc == 0) ? param.sched_priority : 0;
     exeThread = runAsync([this] {
-      while (!unscheduledOps.empty())
+      while (hasUnscheduled())
       {
         if (_isCancelled)
           break;
         guard.wait();
         mtx.lock();
+        if (unscheduledOps.empty())
+        {
+          mtx.unlock();
+          guard.notify();
+          break;
+        }
         T *const op = unscheduledOps.top();
         unscheduledOps.pop();
         runningOps.push_back(op);
@@ -197,11 +220,16 @@ public:
 
   void waitForFinished()
   {
+    if (exeThread.joinable())
+    {
+      exeThread.join();
+    }
     for (auto &thread : opThreads)
     {
       thread.join();
     }
-    reset();
+    opThreads.clear();
+    _isRunning = false;
   }
 };
 } // namespace pwned
-- 
2.43.0


From 60ca6d4ef796fa057447834e4ad9ddea8c6d4dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:23 +0000
Subject: [PATCH 13/54] fix: the merger refuses batches of less than two files
 and stops reading keys at the end of input

---
 pwned-merger-cli/pwned-merger-cli.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pwned-merger-cli/pwned-merger-cli.cpp b/pwned-merger-cli/pwned-merger-cli.cpp
index 9d221cd..ca1cff2 100755
--- a/pwned-merger-cli/pwned-merger-cli.cpp
+++ b/pwned-merger-cli/pwned-merger-cli.cpp
@@ -144,6 +144,11 @@ int main(int argc, const char *argv[])
     usage();
     return EXIT_FAILURE;
   }
+  if (maxFilesAtOnce < 2)
+  {
+    std::cerr << "ERROR: at least two files must be processed at once." << std::endl;
+    return EXIT_FAILURE;
+  }
   if (fs::exists(dstFile))
   {
     std::cout << "Destination file '" << dstFile << "' already exists." << std::endl
@@ -182,7 +187,10 @@ int main(int argc, const char *argv[])
     char ch;
     do
     {
-      ch = char(getchar());
+      const int key = getchar();
+      if (key == EOF)
+        break;
+      ch = char(key);
       switch (ch)
       {
       case 'p':
-- 
2.43.0


From e61132b1dd8460f74fa50b510e5550e5bd9eda51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:48 +0000
Subject: [PATCH 14/54] fix: the merger overwrites nothing when the question
 about it remains unanswered

---
 pwned-merger-cli/pwned-merger-cli.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-merger-cli/pwned-merger-cli.cpp b/pwned-merger-cli/pwned-merger-cli.cpp
index ca1cff2..705be43 100755
--- a/pwned-merger-cli/pwned-merger-cli.cpp
+++ b/pwned-merger-cli/pwned-merger-cli.cpp
@@ -153,7 +153,7 @@ int main(int argc, const char *argv[])
   {
     std::cout << "Destination file '" << dstFile << "' already exists." << std::endl
               << "Do you want to overwrite it? (y/n)" << std::endl;
-    char ch;
+    char ch = 0;
     std::cin >> ch;
     if (ch != 'y')
     {
-- 
2.43.0


From 47b5d4eb2f44910ed9ab2922433cda58f6cdb808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:17 +0000
Subject: [PATCH 15/54] fix: a password that only looks hex-encoded is hashed
 as it is written

---
 pwned-lib/userpasswordreader.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pwned-lib/userpasswordreader.cpp b/pwned-lib/userpasswordreader.cpp
index 4de23fc..c42ea87 100755
--- a/pwned-lib/userpasswordreader.cpp
+++ b/pwned-lib/userpasswordreader.cpp
@@ -186,8 +186,10 @@ Hash UserPasswordReader::nextPasswordHash()
       if (std::regex_match(pwd, match, HexRegex))
       {
         std::string dehexed;
-        hexToCharSeq(match[1], dehexed);
-        hash = Hash(dehexed);
+        if (hexToCharSeq(match[1], dehexed))
+        {
+          hash = Hash(dehexed);
+        }
       }
     }
     if (!hash.isValid)
-- 
2.43.0


From 7db86688977313c25249e5a059499aa961fbef3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:14 +0000
Subject: [PATCH 16/54] fix: getMemoryStat ends without /proc/meminfo and
 leaves no figure undefined

---
 pwned-lib/util.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pwned-lib/util.cpp b/pwned-lib/util.cpp
index 151d806..d1d44b5 100755
--- a/pwned-lib/util.cpp
+++ b/pwned-lib/util.cpp
@@ -108,11 +108,11 @@ int getMemoryStat(MemoryStat &memoryStat)
     {"VmallocTotal", &memoryStat.virt.total},
     {"VmallocUsed", &memoryStat.virt.used}
   };
+  memoryStat = MemoryStat();
   std::ifstream meminfo("/proc/meminfo");
-  while (!meminfo.eof())
+  std::string line;
+  while (std::getline(meminfo, line))
   {
-    std::string line;
-    std::getline(meminfo, line);
     for (const auto &m : memTable)
     {
       if (line.size() >= m.first.size() && std::equal(m.first.begin(), m.first.end(), line.begin()))
-- 
2.43.0


From 8f574188fedc0e03a87b199bc6adb111c04f07aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 17/54] fix: converting ends for any memory limit and after a
 read error

---
 pwned-converter-cli/convertoperation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pwned-converter-cli/convertoperation.cpp b/pwned-converter-cli/convertoperation.cpp
index 7213788..9e15ebe 100755
--- a/pwned-converter-cli/convertoperation.cpp
+++ b/pwned-converter-cli/convertoperation.cpp
@@ -83,12 +83,12 @@ void ConvertOperation::execute() noexcept(false)
   static const uint64_t estimatedMemoryOverheadPerEntry = sizeof(uintptr_t);
   static const uint64_t memUsagePerEntry = sizeof(pwned::Hash) + sizeof(uint32_t) + sizeof(pwned::PasswordHashAndCount) + estimatedMemoryOverheadPerEntry;
   int splitFileNum = 0;
-  while (!reader.eof())
+  while (!reader.eof() && !reader.bad())
   {
     uint64_t memUsage = 0;
     ++splitFileNum;
     std::map<pwned::Hash, uint32_t, pwned::HashLess> passwordCountSet;
-    while (!reader.eof() && !reader.bad() && memUsage < d->maxMem)
+    do
     {
       const pwned::Hash &hash = reader.nextPasswordHash();
       if (hash.isValid)
@@ -101,7 +101,7 @@ void ConvertOperation::execute() noexcept(false)
         queue->operationWait();
         isPaused = false;
       }
-    }
+    } while (!reader.eof() && !reader.bad() && memUsage < d->maxMem);
     if (isCancelled)
       return;
     if (isPaused)
-- 
2.43.0


From 592ebfce20e951aadd85c0d12670ace9907cd170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:52 +0000
Subject: [PATCH 18/54] fix: converting files of the same name in parallel
 overwrites nothing, and lost output is reported

---
 pwned-converter-cli/convertoperation.cpp | 13 ++++++++++++-
 pwned-lib/operationexception.hpp         |  3 ++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pwned-converter-cli/convertoperation.cpp b/pwned-converter-cli/convertoperation.cpp
index 9e15ebe..8ad0872 100755
--- a/pwned-converter-cli/convertoperation.cpp
+++ b/pwned-converter-cli/convertoperation.cpp
@@ -17,17 +17,21 @@
 
 #include <iostream>
 #include <map>
+#include <mutex>
 
 #include <boost/filesystem.hpp>
 
 #include <pwned-lib/util.hpp>
 #include <pwned-lib/operationqueue.hpp>
+#include <pwned-lib/operationexception.hpp>
 #include <pwned-lib/userpasswordreader.hpp>
 
 #include "convertoperation.hpp"
 
 namespace fs = boost::filesystem;
 
+static std::mutex outputFileMutex;
+
 class ConvertOperationPrivate
 {
 public:
@@ -147,9 +151,11 @@ void ConvertOperation::execute() noexcept(false)
       return (d->dstPath / (srcFilename.string() + pwned::string_format("-%04x", splitFileNum))).string();
     };
 
+    // no other operation may choose the same name before the file exists
+    std::unique_lock<std::mutex> lock(outputFileMutex);
     fs::path dstFilePath = generatedOutputFilename() + d->outputExt.string();
     int n = splitFileNum;
-    while (fs::exists(dstFilePath) && n < 10000)
+    while (fs::exists(dstFilePath))
     {
       dstFilePath = generatedOutputFilename() + pwned::string_format("-%04x", n) + d->outputExt.string();
       ++n;
@@ -160,6 +166,7 @@ void ConvertOperation::execute() noexcept(false)
       std::cout << output.str();
     }
     std::ofstream f(dstFilePath.string(), std::ios::binary);
+    lock.unlock();
     if (f.is_open())
     {
       for (const auto &phc : passwordList)
@@ -168,6 +175,10 @@ void ConvertOperation::execute() noexcept(false)
       }
       f.close();
     }
+    else
+    {
+      throw pwned::OperationException("Cannot write to file: " + dstFilePath.string(), pwned::OperationException::CannotWriteToFile);
+    }
     if (isPaused)
     {
       queue->operationWait();
diff --git a/pwned-lib/operationexception.hpp b/pwned-lib/operationexception.hpp
index 924a90a..8f3a69d 100644
--- a/pwned-lib/operationexception.hpp
+++ b/pwned-lib/operationexception.hpp
@@ -33,7 +33,8 @@ public:
   enum
   {
     OK = 0,
-    QueueNotSet
+    QueueNotSet,
+    CannotWriteToFile
   };
 
   OperationException(const char *message, int code);
-- 
2.43.0


From e080dd105e66f5db3c180304184aa1263707394f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:52 +0000
Subject: [PATCH 19/54] fix: the converter takes --input, refuses bad options
 and stops reading keys at the end of input

---
 pwned-converter-cli/pwned-converter-cli.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pwned-converter-cli/pwned-converter-cli.cpp b/pwned-converter-cli/pwned-converter-cli.cpp
index e41064e..22babbc 100755
--- a/pwned-converter-cli/pwned-converter-cli.cpp
+++ b/pwned-converter-cli/pwned-converter-cli.cpp
@@ -88,7 +88,7 @@ int main(int argc, const char *argv[])
   bool autoHex;
   unsigned int numThreads;
   desc.add_options()("help", "produce help message")
-  ("input,I", po::value<std::vector<std::string>>(), "set user:pass input file(s)")
+  ("input,I", po::value<std::vector<std::string>>(&filenames), "set user:pass input file(s)")
   ("src,S", po::value<std::string>(&srcDirectory), "set user:pass input directory")
   ("dst,D", po::value<std::string>(&dstDirectory), "set user:pass output directory")
   ("ext", po::value<std::string>(&outputExt)->default_value(DefaultOutputExt), "set extension for output files")
@@ -108,6 +108,7 @@ int main(int argc, const char *argv[])
     std::cerr << "ERROR: " << e.what() << std::endl
               << std::endl;
     usage();
+    return EXIT_FAILURE;
   }
   po::notify(vm);
   if (vm.count("help") > 0)
@@ -181,7 +182,10 @@ int main(int argc, const char *argv[])
     char ch;
     do
     {
-      ch = char(getchar());
+      const int key = getchar();
+      if (key == EOF)
+        break;
+      ch = char(key);
       switch (ch)
       {
       case ' ':
-- 
2.43.0


From 500a86ab93c3bfb1db33a7bd7a27044b549d5a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:47 +0000
Subject: [PATCH 20/54] fix: give unseen transitions a probability of 0 instead
 of throwing

---
 pwned-lib/markovnode.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pwned-lib/markovnode.hpp b/pwned-lib/markovnode.hpp
index f8b5d80..bee5c22 100644
--- a/pwned-lib/markovnode.hpp
+++ b/pwned-lib/markovnode.hpp
@@ -73,7 +73,8 @@ public:
   }
   inline prob_value_type probability(symbol_type c) const
   {
-    return mProbs.at(c);
+    const auto p = mProbs.find(c);
+    return p == mProbs.end() ? prob_value_type(0) : p->second;
   }
   inline count_type count(symbol_type c) const
   {
-- 
2.43.0


From 3d9c28d5ee9d4fcb93c3ced4e2d5233ab39a716f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:47 +0000
Subject: [PATCH 21/54] fix: add up symbol counts with their full width

---
 pwned-lib/markovchain.hpp | 2 +-
 pwned-lib/markovnode.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwned-lib/markovchain.hpp b/pwned-lib/markovchain.hpp
index 4299bf5..f7cb30d 100644
--- a/pwned-lib/markovchain.hpp
+++ b/pwned-lib/markovchain.hpp
@@ -70,7 +70,7 @@ public:
   void update()
   {
     using elem_type = typename decltype(mFirstSymbolCounts)::value_type;
-    const count_type sum = std::accumulate(std::cbegin(mFirstSymbolCounts), std::cend(mFirstSymbolCounts), 0U,
+    const count_type sum = std::accumulate(std::cbegin(mFirstSymbolCounts), std::cend(mFirstSymbolCounts), count_type(0),
                                            [](count_type a, const elem_type &b) -> count_type {
                                              return b.second + a;
                                            });
diff --git a/pwned-lib/markovnode.hpp b/pwned-lib/markovnode.hpp
index bee5c22..1b68982 100644
--- a/pwned-lib/markovnode.hpp
+++ b/pwned-lib/markovnode.hpp
@@ -56,7 +56,7 @@ public:
   void update()
   {
     using elem_type = typename decltype(mCounts)::value_type;
-    const count_type sum = std::accumulate(std::cbegin(mCounts), std::cend(mCounts), 0U,
+    const count_type sum = std::accumulate(std::cbegin(mCounts), std::cend(mCounts), count_type(0),
                                            [](count_type a, const elem_type &b) -> count_type {
                                              return b.second + a;
                                            });
-- 
2.43.0


From cbc9b873463ae63b6a6124342447f9cc8cba3e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:34 +0000
Subject: [PATCH 22/54] fix: save chains without transitions instead of writing
 an empty file

---
 pwned-lib/markovchain.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pwned-lib/markovchain.hpp b/pwned-lib/markovchain.hpp
index f7cb30d..9ba4ac4 100644
--- a/pwned-lib/markovchain.hpp
+++ b/pwned-lib/markovchain.hpp
@@ -166,8 +166,6 @@ public:
   }
   void saveBinary(std::ostream &os)
   {
-    if (mNodes.empty())
-      return;
     os.write(FileHeader, FileHeaderSize);
     write(os, FileVersion);
     write(os, (uint32_t)mFirstSymbolSortedProbs.size());
-- 
2.43.0


From f840a09197b4eb2c4208c89f41a81ab3dd5ef1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:25 +0000
Subject: [PATCH 23/54] fix: report unreadable and malformed Markov files
 instead of crashing on them

---
 pwned-lib/markovchain.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pwned-lib/markovchain.hpp b/pwned-lib/markovchain.hpp
index 9ba4ac4..6b5d724 100644
--- a/pwned-lib/markovchain.hpp
+++ b/pwned-lib/markovchain.hpp
@@ -230,7 +230,6 @@ public:
       const uint32_t firstSymbolCount = read<uint32_t>(is);
       if (is.eof())
         return BAD_SYMBOL_COUNT_PREMATURE_EOF;
-      mFirstSymbolSortedProbs.reserve(firstSymbolCount);
       for (uint32_t i = 0; i < firstSymbolCount; ++i)
       {
         const symbol_type c = read<symbol_type>(is);
@@ -273,6 +272,10 @@ public:
         }
       }
     }
+    else
+    {
+      return BAD_HEADER_PREMATURE_EOF;
+    }
     for (auto &node : mNodes)
     {
       node.second.postprocess();
@@ -341,7 +344,7 @@ private:
     "BAD_SYMBOL_PREMATURE_EOF",
     "BAD_PROBABILITY",
     "BAD_PROBABILITY_PREMATURE_EOF",
-    "BAD_NODE_COUNT"
+    "BAD_NODE_COUNT",
     "BAD_NODE_COUNT_PREMATURE_EOF"
   };
 };
-- 
2.43.0


From fc61d657fd5516f546a723bcfc0369af1263a530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:25 +0000
Subject: [PATCH 24/54] fix: draw random symbols according to their
 probabilities

---
 pwned-lib/markovchain.hpp | 4 ++--
 pwned-lib/markovnode.hpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pwned-lib/markovchain.hpp b/pwned-lib/markovchain.hpp
index 6b5d724..408f04c 100644
--- a/pwned-lib/markovchain.hpp
+++ b/pwned-lib/markovchain.hpp
@@ -318,10 +318,10 @@ public:
     for (const auto &symbol : mFirstSymbolSortedProbs)
     {
       pAccumulated += symbol.second;
-      if (p > pAccumulated)
+      if (p < pAccumulated)
         return symbol.first;
     }
-    return 0;
+    return mFirstSymbolSortedProbs.empty() ? 0 : mFirstSymbolSortedProbs.back().first;
   }
 
 private:
diff --git a/pwned-lib/markovnode.hpp b/pwned-lib/markovnode.hpp
index 1b68982..e91bba8 100644
--- a/pwned-lib/markovnode.hpp
+++ b/pwned-lib/markovnode.hpp
@@ -107,10 +107,10 @@ public:
     for (const auto &successor : mSortedProbs)
     {
       pAccumulated += successor.second;
-      if (p > pAccumulated)
+      if (p < pAccumulated)
         return successor.first;
     }
-    return 0;
+    return mSortedProbs.empty() ? 0 : mSortedProbs.back().first;
   }
   void postprocess()
   {
-- 
2.43.0


From 0be123f3bf38d72c99b130bb36395bdad94ba787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:14 +0000
Subject: [PATCH 25/54] fix: let the Markov tools stop on files they cannot
 read or write

---
 extras/pwned-markov-generator/pwned-markov-generator.cpp | 7 +++++++
 extras/pwned-markov-lookup/pwned-markov-lookup.cpp       | 7 ++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/extras/pwned-markov-generator/pwned-markov-generator.cpp b/extras/pwned-markov-generator/pwned-markov-generator.cpp
index 51594f1..92b34f8 100644
--- a/extras/pwned-markov-generator/pwned-markov-generator.cpp
+++ b/extras/pwned-markov-generator/pwned-markov-generator.cpp
@@ -135,11 +135,13 @@ int main(int argc, char* argv[])
   if (!inputFile.is_open())
   {
     std::cerr << "Cannot read from '" << inputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
   }
   std::ofstream outputFile(outputFilename, std::ios::trunc | std::ios::binary);
   if (!outputFile.is_open())
   {
     std::cerr << "Cannot write to '" << outputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
   }
   std::vector<pwned::UserPasswordReaderOptions> readerOptions{pwned::UserPasswordReaderOptions::autoEvaluateHexEncodedPasswords};
   pwned::UserPasswordReader reader(inputFile, readerOptions);
@@ -176,5 +178,10 @@ int main(int argc, char* argv[])
   chain.saveBinary(outputFile);
   chain.writeJson(std::cout);
   outputFile.close();
+  if (!outputFile)
+  {
+    std::cerr << "ERROR while writing to '" << outputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
   return EXIT_SUCCESS;
 }
diff --git a/extras/pwned-markov-lookup/pwned-markov-lookup.cpp b/extras/pwned-markov-lookup/pwned-markov-lookup.cpp
index 3382206..ea1d859 100644
--- a/extras/pwned-markov-lookup/pwned-markov-lookup.cpp
+++ b/extras/pwned-markov-lookup/pwned-markov-lookup.cpp
@@ -41,7 +41,12 @@ int main(int argc, char *argv[])
   const std::string &inputFilename = argv[1];
   std::ifstream inputFile(inputFilename, std::ios::binary);
   chain_type chain;
-  chain.loadBinary(inputFile);
+  const chain_type::ErrCode rc = chain.loadBinary(inputFile);
+  if (rc != chain_type::OK)
+  {
+    std::cerr << "Cannot load '" << inputFilename << "': " << chain.errString(rc) << std::endl;
+    return EXIT_FAILURE;
+  }
   while (true)
   {
     std::cout << "Type password: " << std::flush;
-- 
2.43.0


From 2bd51fc2ea2dd678f57015cf2c324defd49cf563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:36 +0000
Subject: [PATCH 26/54] fix: tell valid from invalid URIs, accept capital
 letters, and refuse ports above 65535

---
 pwned-server/pwned-server.cpp |  5 ++++
 pwned-server/uri.cpp          | 47 ++++++++++++++++++++++++-----------
 2 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/pwned-server/pwned-server.cpp b/pwned-server/pwned-server.cpp
index 60e6413..1dbabb3 100644
--- a/pwned-server/pwned-server.cpp
+++ b/pwned-server/pwned-server.cpp
@@ -145,6 +145,11 @@ int main(int argc, const char *argv[])
   try
   {
     URI uri(address);
+    if (!uri.isValid())
+    {
+      std::cerr << "ERROR: '" << address << "' is not a valid server address." << std::endl;
+      return EXIT_FAILURE;
+    }
     boost::asio::io_context ioc{numWorkers};
     tcp::acceptor acceptor{ioc, {boost::asio::ip::make_address(uri.host()), uri.port()}};
     std::list<webservice::HttpWorker> workers;
diff --git a/pwned-server/uri.cpp b/pwned-server/uri.cpp
index 6157b35..d074287 100644
--- a/pwned-server/uri.cpp
+++ b/pwned-server/uri.cpp
@@ -22,7 +22,7 @@
 
 #include "uri.hpp"
 
-static const std::regex RE("^([a-z0-9+.-]+):(?:\\/\\/(?:((?:[a-z0-9-._~!$&'()*+,;=:]|%[0-9A-F]{2})*)@)?((?:[a-z0-9-._~!$&'()*+,;=]|%[0-9A-F]{2})*)(?::(\\d*))?(\\/(?:[a-z0-9-._~!$&'()*+,;=:@\\/]|%[0-9A-F]{2})*)?|(\\/?(?:[a-z0-9-._~!$&'()*+,;=:@]|%[0-9A-F]{2})+(?:[a-z0-9-._~!$&'()*+,;=:@\\/]|%[0-9A-F]{2})*)?)(?:\\?((?:[a-z0-9-._~!$&'()*+,;=:\\/?@]|%[0-9A-F]{2})*))?(?:#((?:[a-z0-9-._~!$&'()*+,;=:\\/?@]|%[0-9A-F]{2})*))?$");
+static const std::regex RE("^([a-z0-9+.-]+):(?:\\/\\/(?:((?:[a-z0-9-._~!$&'()*+,;=:]|%[0-9A-F]{2})*)@)?((?:[a-z0-9-._~!$&'()*+,;=]|%[0-9A-F]{2})*)(?::(\\d*))?(\\/(?:[a-z0-9-._~!$&'()*+,;=:@\\/]|%[0-9A-F]{2})*)?|(\\/?(?:[a-z0-9-._~!$&'()*+,;=:@]|%[0-9A-F]{2})+(?:[a-z0-9-._~!$&'()*+,;=:@\\/]|%[0-9A-F]{2})*)?)(?:\\?((?:[a-z0-9-._~!$&'()*+,;=:\\/?@]|%[0-9A-F]{2})*))?(?:#((?:[a-z0-9-._~!$&'()*+,;=:\\/?@]|%[0-9A-F]{2})*))?$", std::regex::ECMAScript | std::regex::icase);
 static const std::map<std::string, URI::port_type> SchemeToPort = {
   { "http", 80 },
   { "https", 443 }
@@ -36,26 +36,29 @@ URI::URI(const std::string &uri)
 void URI::parse(const std::string &uri)
 {
   std::smatch m;
-  mIsValid = true;
-  if (std::regex_search(uri, m, RE))
+  mScheme.clear();
+  mUsername.clear();
+  mPassword.clear();
+  mHost.clear();
+  mPort = 0;
+  mPath.clear();
+  mQuery.clear();
+  mFragment.clear();
+  mIsValid = std::regex_search(uri, m, RE);
+  if (mIsValid)
   {
     if (m.size() > 1)
     {
-      mScheme = m[1].str();
+      mScheme = boost::algorithm::to_lower_copy(m[1].str());
     }
     if (m.size() > 2)
     {
-      std::vector<std::string> kv;
       const std::string &credentials = m[2].str();
-      boost::split(kv, credentials, boost::is_any_of(":"));
-      if (kv.size() == 2)
-      {
-        mUsername = kv[0];
-        mPassword = kv[1];
-      }
-      else
+      const std::string::size_type colon = credentials.find(':');
+      mUsername = credentials.substr(0, colon);
+      if (colon != std::string::npos)
       {
-        mIsValid = false;
+        mPassword = credentials.substr(colon + 1);
       }
     }
     if (m.size() > 3)
@@ -64,7 +67,18 @@ void URI::parse(const std::string &uri)
     }
     if (m.size() > 4 && m[4].str().size() > 0)
     {
-      mPort = uint16_t(std::stoi(m[4].str()));
+      unsigned int port = 0;
+      for (const char digit : m[4].str())
+      {
+        port = 10 * port + (unsigned int)(digit - '0');
+        if (port > 65535)
+        {
+          mIsValid = false;
+          port = 0;
+          break;
+        }
+      }
+      mPort = port_type(port);
     }
     else if (SchemeToPort.find(mScheme) != SchemeToPort.end())
     {
@@ -74,7 +88,7 @@ void URI::parse(const std::string &uri)
     {
       mPath = m[5].str();
     }
-    if (m.size() > 7)
+    if (m.size() > 7 && m[7].length() > 0)
     {
       std::vector<std::string> kv;
       const std::string &p = m[7].str();
@@ -102,6 +116,9 @@ void URI::parse(const std::string &uri)
 
 void URI::parseTarget(const std::string &target)
 {
+  mPath.clear();
+  mQuery.clear();
+  mFragment.clear();
   std::vector<std::string> pathAndQuery;
   boost::split(pathAndQuery, target, boost::is_any_of("?"));
   if (pathAndQuery.size() > 0)
-- 
2.43.0


From f53523af1c326498572265c32e5950f57914552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:09 +0000
Subject: [PATCH 27/54] fix: build the server with current versions of Boost

---
 pwned-server/httpworker.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwned-server/httpworker.cpp b/pwned-server/httpworker.cpp
index c11c864..9569fcf 100644
--- a/pwned-server/httpworker.cpp
+++ b/pwned-server/httpworker.cpp
@@ -142,13 +142,13 @@ void makeResponse(boost::optional<http::response<http::string_body>> &response,
 void HttpWorker::sendResponse(http::request<http::string_body> const &req)
 {
   URI uri;
-  uri.parseTarget(req.target().to_string());
+  uri.parseTarget(std::string(req.target()));
   if (mLogCallback != nullptr)
   {
     std::ostringstream ss;
     ss << std::chrono::system_clock::now() << ' '
        << mSocket.remote_endpoint().address().to_string() << ' '
-       << req.target().to_string();
+       << std::string(req.target());
     (*mLogCallback)(ss.str());
   }
   if (uri.path() == (mBasePath + "/lookup") && uri.query().find("hash") != uri.query().end())
-- 
2.43.0


From cc072507cca74c31c45818d144f3de99821f56a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:59 +0000
Subject: [PATCH 28/54] fix: the server refuses hashes that are none instead of
 looking up zeros

---
 pwned-server/httpworker.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pwned-server/httpworker.cpp b/pwned-server/httpworker.cpp
index 9569fcf..ee2449b 100644
--- a/pwned-server/httpworker.cpp
+++ b/pwned-server/httpworker.cpp
@@ -154,6 +154,11 @@ void HttpWorker::sendResponse(http::request<http::string_body> const &req)
   if (uri.path() == (mBasePath + "/lookup") && uri.query().find("hash") != uri.query().end())
   {
     const pwned::Hash &hash = pwned::Hash::fromHex(uri.query().at("hash"));
+    if (!hash.isValid)
+    {
+      sendBadResponse(http::status::bad_request, "Invalid hash\r\n");
+      return;
+    }
     const auto &t0 = std::chrono::high_resolution_clock::now();
     const pwned::PasswordHashAndCount &phc = mInspector.binsearch(hash);
     const auto &t1 = std::chrono::high_resolution_clock::now();
-- 
2.43.0


From b1c6dfed0edfe13789161b6da0d82635f62d3b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:00 +0000
Subject: [PATCH 29/54] fix: be2le converts each record once and reports files
 it cannot open

---
 deprecated/be2le/be2le.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/deprecated/be2le/be2le.cpp b/deprecated/be2le/be2le.cpp
index 74b3e15..69d1eb3 100755
--- a/deprecated/be2le/be2le.cpp
+++ b/deprecated/be2le/be2le.cpp
@@ -35,12 +35,16 @@ int main(int argc, const char *argv[])
   std::cout << "Input file:  " << inputFilename << std::endl
             << "Output file: " << outputFilename << std::endl
             << "Converting to Little Endian ... " << std::flush;
-  if (in.is_open() && out.is_open())
+  if (!in.is_open() || !out.is_open())
+  {
+    std::cerr << "Cannot open " << (in.is_open() ? outputFilename : inputFilename) << '.' << std::endl;
+    return EXIT_FAILURE;
+  }
+  else
   {
     pwned::PasswordHashAndCount phc;
-    while (!in.eof())
+    while (phc.read(in))
     {
-      phc.read(in);
       phc.hash.toHostByteOrder();
       phc.dump(out);
     }
-- 
2.43.0


From 24d61dada95d268eabc33056516c5ef22ca5f2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:06 +0000
Subject: [PATCH 30/54] fix: the extractors emit no blank passwords and no
 record twice, and stop at bad options

---
 .../pwned-password-extractor.cpp                      |  4 +++-
 .../pwned-test-set-extractor/test-set-extractor.cpp   | 11 +++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/extras/pwned-password-extractor/pwned-password-extractor.cpp b/extras/pwned-password-extractor/pwned-password-extractor.cpp
index 1969d9f..9fbc161 100644
--- a/extras/pwned-password-extractor/pwned-password-extractor.cpp
+++ b/extras/pwned-password-extractor/pwned-password-extractor.cpp
@@ -102,6 +102,7 @@ int main(int argc, const char *argv[])
     std::cerr << "ERROR: " << e.what() << std::endl
               << std::endl;
     usage();
+    return EXIT_FAILURE;
   }
   po::notify(vm);
   if (vm.count("help"))
@@ -212,9 +213,10 @@ int main(int argc, const char *argv[])
     pwned::UserPasswordReader reader(inFile, readerOptions);
     while (!reader.eof())
     {
-      const std::string &pwd = reader.nextPassword().append("\n");
+      std::string pwd = reader.nextPassword();
       if (!pwd.empty())
       {
+        pwd.append("\n");
 #ifndef WITHOUT_BZ2
         if (compress)
         {
diff --git a/extras/pwned-test-set-extractor/test-set-extractor.cpp b/extras/pwned-test-set-extractor/test-set-extractor.cpp
index ef34f0c..0d567f7 100755
--- a/extras/pwned-test-set-extractor/test-set-extractor.cpp
+++ b/extras/pwned-test-set-extractor/test-set-extractor.cpp
@@ -20,6 +20,7 @@
 #include <string>
 #include <random>
 #include <cstdint>
+#include <algorithm>
 
 #include <boost/program_options.hpp>
 #include <boost/filesystem.hpp>
@@ -96,6 +97,7 @@ int main(int argc, const char *argv[])
     std::cerr << "ERROR: " << e.what() << std::endl
               << std::endl;
     usage();
+    return EXIT_FAILURE;
   }
   po::notify(vm);
   if (vm.count("help"))
@@ -119,14 +121,19 @@ int main(int argc, const char *argv[])
     return EXIT_SUCCESS;
   }
 
-  const std::streamoff size = (std::streamoff)boost::filesystem::file_size(inputFilename);
-  const std::streamoff offset = size / N;
+  if (N < 1)
+  {
+    std::cerr << "ERROR: the number of data sets must be positive." << std::endl;
+    return EXIT_FAILURE;
+  }
   std::ifstream in(inputFilename, std::ios::binary);
   if (!in.is_open())
   {
     std::cerr << "Cannot open '" << inputFilename << "' for reading." << std::endl;
     return EXIT_FAILURE;
   }
+  const std::streamoff size = (std::streamoff)boost::filesystem::file_size(inputFilename);
+  const std::streamoff offset = std::max<std::streamoff>(size / N, std::streamoff(pwned::PHC::size));
   std::ofstream out(outputFilename, std::ios::binary | std::ios::trunc);
   if (!out.is_open())
   {
-- 
2.43.0


From d9ab1fbe2fd9ce212f4b16731a33b705f530c8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:12 +0000
Subject: [PATCH 31/54] fix: the index builder refuses bad options, unreadable
 inputs and unwritable outputs

---
 pwned-index/index.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pwned-index/index.cpp b/pwned-index/index.cpp
index cbd7ba9..85ae817 100644
--- a/pwned-index/index.cpp
+++ b/pwned-index/index.cpp
@@ -89,6 +89,7 @@ int main(int argc, const char *argv[])
     std::cerr << "ERROR: " << e.what() << std::endl
               << std::endl;
     usage();
+    return EXIT_FAILURE;
   }
   po::notify(vm);
   if (vm.count("help"))
@@ -120,11 +121,22 @@ int main(int argc, const char *argv[])
     return EXIT_FAILURE;
   }
 
+  if (bits < 1 || bits >= sizeof(pwned::index_key_t) * 8)
+  {
+    std::cerr << "ERROR: the bit count must lie between 1 and " << (sizeof(pwned::index_key_t) * 8 - 1) << '.' << std::endl;
+    return EXIT_FAILURE;
+  }
+
   const unsigned int shift = (unsigned int)(sizeof(pwned::index_key_t) * 8 - bits);
   const pwned::index_key_t maxIdx = pwned::index_key_t(1) + (std::numeric_limits<pwned::index_key_t>::max() >> shift);
 
   std::cout << "Scanning ..." << std::endl;
   std::ifstream input(inputFilename, std::ios::binary);
+  if (!input.is_open())
+  {
+    std::cerr << "ERROR: cannot open '" << inputFilename << "' for reading." << std::endl;
+    return EXIT_FAILURE;
+  }
   pwned::PasswordHashAndCount phc;
   pwned::index_key_t *indexes = new pwned::index_key_t[maxIdx];
   memset(indexes, 0xff, maxIdx * sizeof(pwned::index_key_t));
@@ -155,6 +167,11 @@ int main(int argc, const char *argv[])
   output.write((const char *)indexes, std::streamsize(maxIdx * sizeof(pwned::index_key_t)));
   output.close();
   delete[] indexes;
+  if (!output)
+  {
+    std::cerr << "ERROR: cannot write to '" << outputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
   std::cout << "Ready." << std::endl
             << std::endl;
 
-- 
2.43.0


From d3da0b08f55ca4920d46933351b461115d26f4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:40 +0000
Subject: [PATCH 32/54] fix: request targets with a fragment but no query, or
 with another question mark, are taken apart as RFC 3986 has it

---
 pwned-server/uri.cpp | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/pwned-server/uri.cpp b/pwned-server/uri.cpp
index d074287..3fe4bf3 100644
--- a/pwned-server/uri.cpp
+++ b/pwned-server/uri.cpp
@@ -119,34 +119,28 @@ void URI::parseTarget(const std::string &target)
   mPath.clear();
   mQuery.clear();
   mFragment.clear();
-  std::vector<std::string> pathAndQuery;
-  boost::split(pathAndQuery, target, boost::is_any_of("?"));
-  if (pathAndQuery.size() > 0)
+  const std::string::size_type hash = target.find('#');
+  if (hash != std::string::npos)
   {
-    mPath = pathAndQuery.at(0);
+    mFragment = target.substr(hash + 1);
   }
-  if (pathAndQuery.size() > 1)
+  const std::string pathAndQuery = target.substr(0, hash);
+  const std::string::size_type mark = pathAndQuery.find('?');
+  mPath = pathAndQuery.substr(0, mark);
+  if (mark != std::string::npos)
   {
-    std::vector<std::string> queryAndFragment;
-    boost::split(queryAndFragment, pathAndQuery.at(1), boost::is_any_of("#"));
-    if (queryAndFragment.size() > 0)
+    const std::string query = pathAndQuery.substr(mark + 1);
+    std::vector<std::string> kv;
+    boost::split(kv, query, boost::is_any_of("&"));
+    for (const auto &param : kv)
     {
-      std::vector<std::string> kv;
-      boost::split(kv, queryAndFragment.at(0), boost::is_any_of("&"));
-      for (const auto &param : kv)
+      std::vector<std::string> pair;
+      boost::split(pair, param, boost::is_any_of("="));
+      if (pair.size() == 2)
       {
-        std::vector<std::string> pair;
-        boost::split(pair, param, boost::is_any_of("="));
-        if (pair.size() == 2)
-        {
-          mQuery[pair.at(0)] = pair.at(1);
-        }
+        mQuery[pair.at(0)] = pair.at(1);
       }
     }
-    if (queryAndFragment.size() > 1)
-    {
-      mFragment = queryAndFragment.at(1);
-    }
   }
 }
 
-- 
2.43.0


From af1cde11afc7833264078559276975d2261eb739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:52 +0000
Subject: [PATCH 33/54] fix: converter opens an input when it is converted, and
 does not take one it cannot open for an empty one

---
 pwned-converter-cli/convertoperation.cpp | 10 +++++++---
 pwned-lib/operationexception.hpp         |  3 ++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pwned-converter-cli/convertoperation.cpp b/pwned-converter-cli/convertoperation.cpp
index 8ad0872..3a7fef5 100755
--- a/pwned-converter-cli/convertoperation.cpp
+++ b/pwned-converter-cli/convertoperation.cpp
@@ -46,14 +46,12 @@ public:
       , maxMem(maxMem)
       , options(options)
   {
-    inputFile.open(srcFilename, std::ios::binary);
   }
   const fs::path srcFilePath;
   const fs::path dstPath;
   const fs::path outputExt;
   const uint64_t maxMem;
   const std::vector<pwned::UserPasswordReaderOptions> options;
-  std::ifstream inputFile;
 };
 
 ConvertOperation::ConvertOperation(const std::string &srcFilename,
@@ -83,7 +81,13 @@ void ConvertOperation::execute() noexcept(false)
            << std::endl;
     std::cout << output.str();
   }
-  pwned::UserPasswordReader reader(d->inputFile, d->options);
+  // not opened before it's needed, because all files of a queue opened at once can be too many
+  std::ifstream inputFile(d->srcFilePath.string(), std::ios::binary);
+  if (!inputFile.is_open())
+  {
+    throw pwned::OperationException("Cannot read from file: " + d->srcFilePath.string(), pwned::OperationException::CannotReadFromFile);
+  }
+  pwned::UserPasswordReader reader(inputFile, d->options);
   static const uint64_t estimatedMemoryOverheadPerEntry = sizeof(uintptr_t);
   static const uint64_t memUsagePerEntry = sizeof(pwned::Hash) + sizeof(uint32_t) + sizeof(pwned::PasswordHashAndCount) + estimatedMemoryOverheadPerEntry;
   int splitFileNum = 0;
diff --git a/pwned-lib/operationexception.hpp b/pwned-lib/operationexception.hpp
index 8f3a69d..0b3b92d 100644
--- a/pwned-lib/operationexception.hpp
+++ b/pwned-lib/operationexception.hpp
@@ -34,7 +34,8 @@ public:
   {
     OK = 0,
     QueueNotSet,
-    CannotWriteToFile
+    CannotWriteToFile,
+    CannotReadFromFile
   };
 
   OperationException(const char *message, int code);
-- 
2.43.0


From f1dc5cbca2f6338e4c82b7571c14a859bf38a954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:52 +0000
Subject: [PATCH 34/54] fix: converter notices that an output could not be
 written, and leaves no incomplete one behind

---
 pwned-converter-cli/convertoperation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pwned-converter-cli/convertoperation.cpp b/pwned-converter-cli/convertoperation.cpp
index 3a7fef5..90996dc 100755
--- a/pwned-converter-cli/convertoperation.cpp
+++ b/pwned-converter-cli/convertoperation.cpp
@@ -178,6 +178,12 @@ void ConvertOperation::execute() noexcept(false)
         phc.dump(f);
       }
       f.close();
+      if (!f)
+      {
+        boost::system::error_code ec;
+        fs::remove(dstFilePath, ec);
+        throw pwned::OperationException("Cannot write to file: " + dstFilePath.string(), pwned::OperationException::CannotWriteToFile);
+      }
     }
     else
     {
-- 
2.43.0


From 6225ce3f8473ee5b333ced927faff683606d2c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:52 +0000
Subject: [PATCH 35/54] fix: merger does not take an input it cannot open for
 an empty one

---
 pwned-merger-cli/mergeoperation.cpp | 11 ++++++++++-
 pwned-merger-cli/mergerinput.hpp    |  3 ++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/pwned-merger-cli/mergeoperation.cpp b/pwned-merger-cli/mergeoperation.cpp
index b2e4497..819a225 100755
--- a/pwned-merger-cli/mergeoperation.cpp
+++ b/pwned-merger-cli/mergeoperation.cpp
@@ -50,6 +50,7 @@ struct SmallestHashFirst
 enum MergerError
 {
   noData,
+  cannotReadFromFile,
   cannotWriteToFile,
   cancelled
 };
@@ -64,6 +65,7 @@ public:
   bool removeInputFilesAfterMerge;
   ProgressCallback *progressed;
   uint64_t totalEntries;
+  std::string unreadableFilename;
 
   MergeOperationPrivate(const std::vector<InputFile> &srcFiles,
                         const std::string &dstFilename,
@@ -78,7 +80,10 @@ public:
     for (auto file : srcFiles)
     {
       MergerInput *mi = new MergerInput(file);
-      mi->open();
+      if (!mi->open())
+      {
+        unreadableFilename = mi->path.string();
+      }
       pq.push(mi);
       sum += mi->inputSize.value();
     }
@@ -116,6 +121,10 @@ void MergeOperation::execute() noexcept(false)
   {
     return;
   }
+  if (!d->unreadableFilename.empty())
+  {
+    throw pwned::OperationException("Cannot read from file: " + d->unreadableFilename, MergerError::cannotReadFromFile);
+  }
   {
     std::ostringstream output;
     output << "Merging into " << d->dstFilePath.string()
diff --git a/pwned-merger-cli/mergerinput.hpp b/pwned-merger-cli/mergerinput.hpp
index 2ad6dfc..c03edc0 100755
--- a/pwned-merger-cli/mergerinput.hpp
+++ b/pwned-merger-cli/mergerinput.hpp
@@ -42,13 +42,14 @@ public:
   {
   }
 
-  void open()
+  bool open()
   {
     f.open(path.string(), std::ios::binary);
     if (f.is_open())
     {
       read();
     }
+    return f.is_open();
   }
 
   inline bool read()
-- 
2.43.0


From 69f3180215aa47b9c6ce71984841d6961a78769d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:52 +0000
Subject: [PATCH 36/54] fix: merger notices that the output could not be
 written

---
 pwned-merger-cli/mergeoperation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pwned-merger-cli/mergeoperation.cpp b/pwned-merger-cli/mergeoperation.cpp
index 819a225..7a061f2 100755
--- a/pwned-merger-cli/mergeoperation.cpp
+++ b/pwned-merger-cli/mergeoperation.cpp
@@ -178,6 +178,10 @@ void MergeOperation::execute() noexcept(false)
     }
   }
   d->dstFile.close();
+  if (!d->dstFile)
+  {
+    throw pwned::OperationException("Cannot write to file: " + d->dstFilePath.string(), MergerError::cannotWriteToFile);
+  }
   if (d->progressed != nullptr)
   {
     (*d->progressed)(d->entriesProcessed);
-- 
2.43.0


From 7032124798d7b215e456b640d749c6ab2cb24b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:07 +0000
Subject: [PATCH 37/54] fix: converter and merger report failed operations in
 their exit status; merger stops after one

---
 pwned-converter-cli/pwned-converter-cli.cpp |  2 +-
 pwned-lib/operation.cpp                     |  6 ++++++
 pwned-lib/operation.hpp                     |  7 +++++++
 pwned-lib/operationqueue.hpp                | 12 ++++++++++++
 pwned-merger-cli/pwned-merger-cli.cpp       |  4 +++-
 5 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/pwned-converter-cli/pwned-converter-cli.cpp b/pwned-converter-cli/pwned-converter-cli.cpp
index 22babbc..bf73ce2 100755
--- a/pwned-converter-cli/pwned-converter-cli.cpp
+++ b/pwned-converter-cli/pwned-converter-cli.cpp
@@ -223,5 +223,5 @@ int main(int argc, const char *argv[])
     std::cout << "Total time: " << pwned::readableTime(time_span.count()) << std::endl
               << std::endl;
   }
-  return EXIT_SUCCESS;
+  return opQueue.hasFailed() ? EXIT_FAILURE : EXIT_SUCCESS;
 }
diff --git a/pwned-lib/operation.cpp b/pwned-lib/operation.cpp
index 1ac5990..8409897 100755
--- a/pwned-lib/operation.cpp
+++ b/pwned-lib/operation.cpp
@@ -58,6 +58,11 @@ void Operation::wait() noexcept(false)
   }
 }
 
+bool Operation::hasFailed() const noexcept
+{
+  return isFailed;
+}
+
 void Operation::start() noexcept
 {
   if (isCancelled)
@@ -71,6 +76,7 @@ void Operation::start() noexcept
   catch (OperationException &e)
   {
     std::cerr << "Exception in Operation::execute(): " << e.what() << std::endl;
+    isFailed = true;
   }
   std::lock_guard<std::mutex> lock(mtx);
   isRunning = false;
diff --git a/pwned-lib/operation.hpp b/pwned-lib/operation.hpp
index e318343..bf47162 100755
--- a/pwned-lib/operation.hpp
+++ b/pwned-lib/operation.hpp
@@ -40,6 +40,7 @@ protected:
   std::atomic<bool> isFinished{false};
   std::atomic<bool> isCancelled{false};
   std::atomic<bool> isPaused{false};
+  std::atomic<bool> isFailed{false};
   std::mutex mtx;
   std::condition_variable finishedCondition;
   OperationQueue<Operation> *queue{nullptr};
@@ -61,6 +62,12 @@ public:
          */
   void pause() noexcept;
 
+  /**
+         * Description: Tells if `execute()` has thrown an `OperationException`.
+         * Parameters: none
+         */
+  bool hasFailed() const noexcept;
+
   /**
          * Description: Starts the operation by calling the abstract method `execute()`.
          * Parameters: none
diff --git a/pwned-lib/operationqueue.hpp b/pwned-lib/operationqueue.hpp
index 3dd0590..caea79e 100755
--- a/pwned-lib/operationqueue.hpp
+++ b/pwned-lib/operationqueue.hpp
@@ -60,6 +60,7 @@ class OperationQueue
   int threadPriority;
   std::atomic<bool> _isRunning{false};
   std::atomic<bool> _isCancelled{false};
+  std::atomic<bool> _hasFailed{false};
   bool _isPaused{false};
   std::condition_variable pauseCondition;
 
@@ -92,6 +93,7 @@ public:
     cancel();
     waitForFinished();
     _isCancelled = false;
+    _hasFailed = false;
   }
 
   inline bool isRunning() const
@@ -104,6 +106,12 @@ public:
     return _isCancelled;
   }
 
+  // whether any of the operations has failed
+  inline bool hasFailed() const
+  {
+    return _hasFailed;
+  }
+
   void operationWait()
   {
     //std::cout << "operationWait()" << std::endl;
@@ -171,6 +179,10 @@ public:
   {
     std::lock_guard<std::mutex> lock(mtx);
     runningOps.remove(op);
+    if (op->hasFailed())
+    {
+      _hasFailed = true;
+    }
     delete op;
   }
 
diff --git a/pwned-merger-cli/pwned-merger-cli.cpp b/pwned-merger-cli/pwned-merger-cli.cpp
index 705be43..4f7517c 100755
--- a/pwned-merger-cli/pwned-merger-cli.cpp
+++ b/pwned-merger-cli/pwned-merger-cli.cpp
@@ -237,6 +237,8 @@ int main(int argc, const char *argv[])
     opQueue.add(op);
     opQueue.execute(true);
     opQueue.waitForFinished();
+    if (opQueue.hasFailed())
+      break;
     if (!opQueue.isCancelled())
     {
       inputFiles = std::vector<merger::InputFile>(b, inputFiles.end());
@@ -257,5 +259,5 @@ int main(int argc, const char *argv[])
   {
     fs::remove(intermediateFile);
   }
-  return EXIT_SUCCESS;
+  return opQueue.hasFailed() ? EXIT_FAILURE : EXIT_SUCCESS;
 }
-- 
2.43.0


From e4a9f841aa65ccf5c368f712c4a9e569365bae83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:07 +0000
Subject: [PATCH 38/54] fix: merger does not overwrite one of its inputs

---
 pwned-merger-cli/pwned-merger-cli.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pwned-merger-cli/pwned-merger-cli.cpp b/pwned-merger-cli/pwned-merger-cli.cpp
index 4f7517c..8aab9c2 100755
--- a/pwned-merger-cli/pwned-merger-cli.cpp
+++ b/pwned-merger-cli/pwned-merger-cli.cpp
@@ -149,6 +149,15 @@ int main(int argc, const char *argv[])
     std::cerr << "ERROR: at least two files must be processed at once." << std::endl;
     return EXIT_FAILURE;
   }
+  for (const auto &filename : filenames)
+  {
+    boost::system::error_code ec;
+    if (fs::equivalent(filename, dstFile, ec))
+    {
+      std::cerr << "ERROR: '" << filename << "' cannot be input and destination file at the same time." << std::endl;
+      return EXIT_FAILURE;
+    }
+  }
   if (fs::exists(dstFile))
   {
     std::cout << "Destination file '" << dstFile << "' already exists." << std::endl
-- 
2.43.0


From 284a78200f4247289f894db5afd4c10a7897c7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:48 +0000
Subject: [PATCH 39/54] fix: index, be2le, Markov generator and extractors do
 not overwrite their input

---
 deprecated/be2le/be2le.cpp                    | 20 +++++++++++++++++--
 .../pwned-markov-generator.cpp                |  8 ++++++++
 .../pwned-password-extractor.cpp              | 11 ++++++++++
 .../test-set-extractor.cpp                    |  8 ++++++++
 pwned-index/index.cpp                         |  8 ++++++++
 5 files changed, 53 insertions(+), 2 deletions(-)

diff --git a/deprecated/be2le/be2le.cpp b/deprecated/be2le/be2le.cpp
index 69d1eb3..33ead2e 100755
--- a/deprecated/be2le/be2le.cpp
+++ b/deprecated/be2le/be2le.cpp
@@ -19,8 +19,13 @@
 #include <fstream>
 #include <string>
 
+#include <boost/filesystem.hpp>
+#include <boost/system/error_code.hpp>
+
 #include <pwned-lib/passwordhashandcount.hpp>
 
+namespace fs = boost::filesystem;
+
 int main(int argc, const char *argv[])
 {
   if (argc < 3)
@@ -30,14 +35,25 @@ int main(int argc, const char *argv[])
   }
   const std::string &inputFilename = argv[1];
   const std::string &outputFilename = argv[2];
+  boost::system::error_code ec;
+  if (fs::equivalent(inputFilename, outputFilename, ec))
+  {
+    std::cerr << "ERROR: '" << inputFilename << "' cannot be input and output file at the same time." << std::endl;
+    return EXIT_FAILURE;
+  }
   std::ifstream in(inputFilename, std::ios::binary);
+  if (!in.is_open())
+  {
+    std::cerr << "Cannot open " << inputFilename << '.' << std::endl;
+    return EXIT_FAILURE;
+  }
   std::ofstream out(outputFilename, std::ios::binary | std::ios::trunc);
   std::cout << "Input file:  " << inputFilename << std::endl
             << "Output file: " << outputFilename << std::endl
             << "Converting to Little Endian ... " << std::flush;
-  if (!in.is_open() || !out.is_open())
+  if (!out.is_open())
   {
-    std::cerr << "Cannot open " << (in.is_open() ? outputFilename : inputFilename) << '.' << std::endl;
+    std::cerr << "Cannot open " << outputFilename << '.' << std::endl;
     return EXIT_FAILURE;
   }
   else
diff --git a/extras/pwned-markov-generator/pwned-markov-generator.cpp b/extras/pwned-markov-generator/pwned-markov-generator.cpp
index 92b34f8..5bc5625 100644
--- a/extras/pwned-markov-generator/pwned-markov-generator.cpp
+++ b/extras/pwned-markov-generator/pwned-markov-generator.cpp
@@ -25,6 +25,7 @@
 
 #include <boost/program_options.hpp>
 #include <boost/filesystem.hpp>
+#include <boost/system/error_code.hpp>
 #include <boost/locale/encoding_utf.hpp>
 
 #include <pwned-lib/userpasswordreader.hpp>
@@ -131,6 +132,13 @@ int main(int argc, char* argv[])
     return EXIT_FAILURE;
   }
 
+  boost::system::error_code ec;
+  if (fs::equivalent(inputFilename, outputFilename, ec))
+  {
+    std::cerr << "ERROR: '" << inputFilename << "' cannot be input and output file at the same time." << std::endl;
+    return EXIT_FAILURE;
+  }
+
   std::ifstream inputFile(inputFilename);
   if (!inputFile.is_open())
   {
diff --git a/extras/pwned-password-extractor/pwned-password-extractor.cpp b/extras/pwned-password-extractor/pwned-password-extractor.cpp
index 9fbc161..a18fa57 100644
--- a/extras/pwned-password-extractor/pwned-password-extractor.cpp
+++ b/extras/pwned-password-extractor/pwned-password-extractor.cpp
@@ -25,6 +25,7 @@
 #include <boost/program_options.hpp>
 #include <boost/algorithm/string/predicate.hpp>
 #include <boost/filesystem.hpp>
+#include <boost/system/error_code.hpp>
 
 #ifndef WITHOUT_BZ2
 #include <bzlib.h>
@@ -156,6 +157,16 @@ int main(int argc, const char *argv[])
     return EXIT_FAILURE;
   }
 
+  for (const auto &inputFilename : inputFilenames)
+  {
+    boost::system::error_code ec;
+    if (fs::equivalent(inputFilename, outputFilename, ec))
+    {
+      std::cerr << "ERROR: '" << inputFilename << "' cannot be input and output file at the same time." << std::endl;
+      return EXIT_FAILURE;
+    }
+  }
+
   FILE *outFile = fopen(outputFilename.c_str(), "wb+");
   if (outFile == NULL)
   {
diff --git a/extras/pwned-test-set-extractor/test-set-extractor.cpp b/extras/pwned-test-set-extractor/test-set-extractor.cpp
index 0d567f7..83ef3cc 100755
--- a/extras/pwned-test-set-extractor/test-set-extractor.cpp
+++ b/extras/pwned-test-set-extractor/test-set-extractor.cpp
@@ -24,11 +24,13 @@
 
 #include <boost/program_options.hpp>
 #include <boost/filesystem.hpp>
+#include <boost/system/error_code.hpp>
 
 #include <pwned-lib/passwordhashandcount.hpp>
 #include <pwned-lib/passwordinspector.hpp>
 
 namespace po = boost::program_options;
+namespace fs = boost::filesystem;
 
 po::options_description desc("Allowed options");
 
@@ -126,6 +128,12 @@ int main(int argc, const char *argv[])
     std::cerr << "ERROR: the number of data sets must be positive." << std::endl;
     return EXIT_FAILURE;
   }
+  boost::system::error_code ec;
+  if (fs::equivalent(inputFilename, outputFilename, ec))
+  {
+    std::cerr << "ERROR: '" << inputFilename << "' cannot be input and output file at the same time." << std::endl;
+    return EXIT_FAILURE;
+  }
   std::ifstream in(inputFilename, std::ios::binary);
   if (!in.is_open())
   {
diff --git a/pwned-index/index.cpp b/pwned-index/index.cpp
index 85ae817..0e153ea 100644
--- a/pwned-index/index.cpp
+++ b/pwned-index/index.cpp
@@ -24,6 +24,7 @@
 
 #include <boost/program_options.hpp>
 #include <boost/filesystem.hpp>
+#include <boost/system/error_code.hpp>
 
 #include <pwned-lib/passwordhashandcount.hpp>
 #include <pwned-lib/util.hpp>
@@ -121,6 +122,13 @@ int main(int argc, const char *argv[])
     return EXIT_FAILURE;
   }
 
+  boost::system::error_code ec;
+  if (fs::equivalent(inputFilename, outputFilename, ec))
+  {
+    std::cerr << "ERROR: '" << inputFilename << "' cannot be input and output file at the same time." << std::endl;
+    return EXIT_FAILURE;
+  }
+
   if (bits < 1 || bits >= sizeof(pwned::index_key_t) * 8)
   {
     std::cerr << "ERROR: the bit count must lie between 1 and " << (sizeof(pwned::index_key_t) * 8 - 1) << '.' << std::endl;
-- 
2.43.0


From cf62bc933194c798b79446de428144035401abbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:49 +0000
Subject: [PATCH 40/54] fix: be2le and the extractors notice that their output
 could not be written

---
 deprecated/be2le/be2le.cpp                    |  6 +++++
 .../pwned-password-extractor.cpp              | 27 ++++++++++++++++---
 .../test-set-extractor.cpp                    |  6 +++++
 3 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/deprecated/be2le/be2le.cpp b/deprecated/be2le/be2le.cpp
index 33ead2e..2aefd28 100755
--- a/deprecated/be2le/be2le.cpp
+++ b/deprecated/be2le/be2le.cpp
@@ -65,6 +65,12 @@ int main(int argc, const char *argv[])
       phc.dump(out);
     }
   }
+  out.close();
+  if (!out)
+  {
+    std::cerr << "ERROR: cannot write to '" << outputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
   std::cout << std::endl
             << "Ready." << std::endl;
   return EXIT_SUCCESS;
diff --git a/extras/pwned-password-extractor/pwned-password-extractor.cpp b/extras/pwned-password-extractor/pwned-password-extractor.cpp
index a18fa57..3cbf850 100644
--- a/extras/pwned-password-extractor/pwned-password-extractor.cpp
+++ b/extras/pwned-password-extractor/pwned-password-extractor.cpp
@@ -242,13 +242,30 @@ int main(int argc, const char *argv[])
         }
         else
         {
-          fwrite(pwd.c_str(), pwd.size(), 1, outFile);
+          if (fwrite(pwd.c_str(), pwd.size(), 1, outFile) != 1)
+          {
+            std::cerr << "ERROR while writing to '" << outputFilename << "'." << std::endl;
+            fclose(outFile);
+            return EXIT_FAILURE;
+          }
         }
 #else
-        fwrite(pwd.c_str(), pwd.size(), 1, outFile);
+        if (fwrite(pwd.c_str(), pwd.size(), 1, outFile) != 1)
+        {
+          std::cerr << "ERROR while writing to '" << outputFilename << "'." << std::endl;
+          fclose(outFile);
+          return EXIT_FAILURE;
+        }
 #endif
       }
     }
+    // what is listed as processed must have been written
+    if (fflush(outFile) != 0)
+    {
+      std::cerr << "ERROR while writing to '" << outputFilename << "'." << std::endl;
+      fclose(outFile);
+      return EXIT_FAILURE;
+    }
     readyFile << inputFilename << std::endl << std::flush;
     inFile.close();
     std::cout << std::endl;
@@ -268,7 +285,11 @@ int main(int argc, const char *argv[])
   }
 #endif
 
-  fclose(outFile);
+  if (fclose(outFile) != 0)
+  {
+    std::cerr << "ERROR while writing to '" << outputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
 
   std::cout << std::endl
             << "Ready." << std::endl;
diff --git a/extras/pwned-test-set-extractor/test-set-extractor.cpp b/extras/pwned-test-set-extractor/test-set-extractor.cpp
index 83ef3cc..ef0c8e2 100755
--- a/extras/pwned-test-set-extractor/test-set-extractor.cpp
+++ b/extras/pwned-test-set-extractor/test-set-extractor.cpp
@@ -201,6 +201,12 @@ int main(int argc, const char *argv[])
     }
   }
 
+  out.close();
+  if (!out)
+  {
+    std::cerr << "ERROR: cannot write to '" << outputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
   std::cout << std::endl
             << "Ready." << std::endl;
   return EXIT_SUCCESS;
-- 
2.43.0


From 75f08d466884e7882226d6a9bd8ca19b5d0ccc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:39 +0000
Subject: [PATCH 41/54] fix: a connection broken before its request is logged
 does not stop the server

---
 pwned-server/httpworker.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pwned-server/httpworker.cpp b/pwned-server/httpworker.cpp
index ee2449b..e965737 100644
--- a/pwned-server/httpworker.cpp
+++ b/pwned-server/httpworker.cpp
@@ -146,8 +146,10 @@ void HttpWorker::sendResponse(http::request<http::string_body> const &req)
   if (mLogCallback != nullptr)
   {
     std::ostringstream ss;
+    beast::error_code ec; // the connection may be broken already
+    const tcp::endpoint &remote = mSocket.remote_endpoint(ec);
     ss << std::chrono::system_clock::now() << ' '
-       << mSocket.remote_endpoint().address().to_string() << ' '
+       << remote.address().to_string() << ' '
        << std::string(req.target());
     (*mLogCallback)(ss.str());
   }
-- 
2.43.0


From 39a77f2d2dd51b59711d542026c336b24a60b236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:52 +0000
Subject: [PATCH 42/54] fix: the server does not answer from a database it
 cannot open

---
 pwned-server/httpworker.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pwned-server/httpworker.cpp b/pwned-server/httpworker.cpp
index e965737..62a4051 100644
--- a/pwned-server/httpworker.cpp
+++ b/pwned-server/httpworker.cpp
@@ -16,6 +16,7 @@
  */
 
 #include <iostream>
+#include <stdexcept>
 
 #include <boost/property_tree/ptree.hpp>
 #include <boost/property_tree/json_parser.hpp>
@@ -49,6 +50,10 @@ HttpWorker::HttpWorker(
     , mLogCallback(logCallback)
     , mLastUpdated(fs::last_write_time(fs::path(inputFilename)))
 {
+  if (!mInspector.isOpen())
+  {
+    throw std::runtime_error("cannot open '" + inputFilename + "' for reading.");
+  }
 }
 
 void HttpWorker::start()
-- 
2.43.0


From 96819b9ee2fb8623c098b79dd5812e9020cb4633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:52 +0000
Subject: [PATCH 43/54] fix: the lookup tool does not answer from a database it
 cannot open

---
 pwned-lookup-cli/pwned-lookup-cli.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pwned-lookup-cli/pwned-lookup-cli.cpp b/pwned-lookup-cli/pwned-lookup-cli.cpp
index ab24712..7915919 100755
--- a/pwned-lookup-cli/pwned-lookup-cli.cpp
+++ b/pwned-lookup-cli/pwned-lookup-cli.cpp
@@ -89,6 +89,11 @@ int main(int argc, const char *argv[])
     return EXIT_FAILURE;
   }
   pwned::PasswordInspector inspector(inputFilename, indexFilename);
+  if (!inspector.isOpen())
+  {
+    std::cerr << "ERROR: cannot open '" << inputFilename << "' for reading." << std::endl;
+    return EXIT_FAILURE;
+  }
   for (;;)
   {
     std::cout << "Password? ";
-- 
2.43.0


From 65abab15ce67343d28908b09ae859044b2f81162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:52 +0000
Subject: [PATCH 44/54] fix: the test set extractor does not take hashes for
 missing if it cannot look them up

---
 extras/pwned-test-set-extractor/test-set-extractor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extras/pwned-test-set-extractor/test-set-extractor.cpp b/extras/pwned-test-set-extractor/test-set-extractor.cpp
index ef0c8e2..1868c8f 100755
--- a/extras/pwned-test-set-extractor/test-set-extractor.cpp
+++ b/extras/pwned-test-set-extractor/test-set-extractor.cpp
@@ -158,6 +158,11 @@ int main(int argc, const char *argv[])
     std::mt19937_64 gen;
     gen.seed(31337);
     pwned::PasswordInspector inspector(inputFilename);
+    if (!inspector.isOpen())
+    {
+      std::cerr << "Cannot open '" << inputFilename << "' for reading." << std::endl;
+      return EXIT_FAILURE;
+    }
     for (auto i = 0; i < N; ++i)
     {
       pwned::Hash hash(gen(), gen());
-- 
2.43.0


From b58129fdab9542f5188666d618f8b61f14e873d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:55 +0000
Subject: [PATCH 45/54] fix: the password extractor lists files as processed
 after their compressed passwords are written

---
 .../pwned-password-extractor.cpp                 | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/extras/pwned-password-extractor/pwned-password-extractor.cpp b/extras/pwned-password-extractor/pwned-password-extractor.cpp
index 3cbf850..8ac13c0 100644
--- a/extras/pwned-password-extractor/pwned-password-extractor.cpp
+++ b/extras/pwned-password-extractor/pwned-password-extractor.cpp
@@ -175,6 +175,7 @@ int main(int argc, const char *argv[])
   }
 
 #ifndef WITHOUT_BZ2
+  std::vector<std::string> compressedFilenames;
   int bzError = BZ_OK;
   BZFILE *bzFile = nullptr;
   if (compress)
@@ -266,6 +267,14 @@ int main(int argc, const char *argv[])
       fclose(outFile);
       return EXIT_FAILURE;
     }
+#ifndef WITHOUT_BZ2
+    if (compress)
+    {
+      // compressed passwords are not in the file until the BZ2 stream is closed
+      compressedFilenames.push_back(inputFilename);
+    }
+    else
+#endif
     readyFile << inputFilename << std::endl << std::flush;
     inFile.close();
     std::cout << std::endl;
@@ -291,6 +300,13 @@ int main(int argc, const char *argv[])
     return EXIT_FAILURE;
   }
 
+#ifndef WITHOUT_BZ2
+  for (const auto &filename : compressedFilenames)
+  {
+    readyFile << filename << std::endl;
+  }
+#endif
+
   std::cout << std::endl
             << "Ready." << std::endl;
   return EXIT_SUCCESS;
-- 
2.43.0


From 0d477b6ff35628ff7b60fbd1607df4c401b6e7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:40 +0000
Subject: [PATCH 46/54] fix: the converter reports an input it cannot read to
 its end

---
 pwned-converter-cli/convertoperation.cpp | 4 ++++
 pwned-lib/userpasswordreader.cpp         | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/pwned-converter-cli/convertoperation.cpp b/pwned-converter-cli/convertoperation.cpp
index 90996dc..a3b1da0 100755
--- a/pwned-converter-cli/convertoperation.cpp
+++ b/pwned-converter-cli/convertoperation.cpp
@@ -112,6 +112,10 @@ void ConvertOperation::execute() noexcept(false)
     } while (!reader.eof() && !reader.bad() && memUsage < d->maxMem);
     if (isCancelled)
       return;
+    if (reader.bad())
+    {
+      throw pwned::OperationException("Cannot read from file: " + d->srcFilePath.string(), pwned::OperationException::CannotReadFromFile);
+    }
     if (isPaused)
     {
       queue->operationWait();
diff --git a/pwned-lib/userpasswordreader.cpp b/pwned-lib/userpasswordreader.cpp
index c42ea87..a7d6295 100755
--- a/pwned-lib/userpasswordreader.cpp
+++ b/pwned-lib/userpasswordreader.cpp
@@ -158,6 +158,8 @@ std::string UserPasswordReader::nextPassword()
   if (input.eof() || input.bad())
     return std::string();
   std::getline(input, currentLine);
+  if (input.bad()) // the rest of the line could not be read
+    return std::string();
   ++lineNo;
   if (currentLine.size() > 200 || currentLine.size() < 1) // assume no user:pass line is longer than 200 characters
     return std::string();
-- 
2.43.0


From da974b78955b368910387b251b52fbbc39c8af0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:40 +0000
Subject: [PATCH 47/54] fix: the merger reports an input it cannot read to its
 end

---
 pwned-merger-cli/mergeoperation.cpp | 4 ++++
 pwned-merger-cli/mergerinput.hpp    | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pwned-merger-cli/mergeoperation.cpp b/pwned-merger-cli/mergeoperation.cpp
index 7a061f2..2559a6b 100755
--- a/pwned-merger-cli/mergeoperation.cpp
+++ b/pwned-merger-cli/mergeoperation.cpp
@@ -202,6 +202,10 @@ bool MergeOperation::next(pwned::PasswordHashAndCount &result)
       result = mergerInput->phc;
       mergerInput->read();
       d->pq.push(mergerInput);
+      if (mergerInput->f.bad())
+      {
+        throw pwned::OperationException("Cannot read from file: " + mergerInput->path.string(), MergerError::cannotReadFromFile);
+      }
       return true;
     }
     if (d->removeInputFilesAfterMerge)
diff --git a/pwned-merger-cli/mergerinput.hpp b/pwned-merger-cli/mergerinput.hpp
index c03edc0..f4cfdea 100755
--- a/pwned-merger-cli/mergerinput.hpp
+++ b/pwned-merger-cli/mergerinput.hpp
@@ -49,7 +49,7 @@ public:
     {
       read();
     }
-    return f.is_open();
+    return f.is_open() && !f.bad();
   }
 
   inline bool read()
-- 
2.43.0


From 6c6cf543f1bcae3b35f3d20822f6e50279e39892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:40 +0000
Subject: [PATCH 48/54] fix: the index builder reports a database it cannot
 read to its end

---
 pwned-index/index.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pwned-index/index.cpp b/pwned-index/index.cpp
index 0e153ea..b567161 100644
--- a/pwned-index/index.cpp
+++ b/pwned-index/index.cpp
@@ -167,6 +167,13 @@ int main(int argc, const char *argv[])
       lastIdx = idx;
     }
   }
+  if (input.bad())
+  {
+    std::cerr << std::endl
+              << "ERROR: cannot read from '" << inputFilename << "'." << std::endl;
+    delete[] indexes;
+    return EXIT_FAILURE;
+  }
   input.close();
 
   std::cout << std::endl
-- 
2.43.0


From f12d403e4d30c3d6be5a3b027e5bea8e26c4beb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:40 +0000
Subject: [PATCH 49/54] fix: lookups in a database that cannot be read are
 reported instead of answered with 0

---
 pwned-lib/passwordinspector.cpp       |  5 +++++
 pwned-lookup-cli/pwned-lookup-cli.cpp | 11 ++++++++++-
 pwned-server/httpworker.cpp           | 11 ++++++++++-
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/pwned-lib/passwordinspector.cpp b/pwned-lib/passwordinspector.cpp
index 8fba2f3..7ca2037 100755
--- a/pwned-lib/passwordinspector.cpp
+++ b/pwned-lib/passwordinspector.cpp
@@ -18,6 +18,7 @@
 #include <iostream>
 #include <algorithm>
 #include <limits>
+#include <stdexcept>
 #include <cmath>
 
 #pragma GCC diagnostic push
@@ -118,6 +119,10 @@ PasswordHashAndCount PasswordInspector::binsearch(const Hash &hash, int *readCou
     pos = std::max<int64_t>(0, pos);
     phc.read(mInputFile, pos);
     ++nReads;
+    if (mInputFile.bad())
+    {
+      throw std::runtime_error("cannot read from the database.");
+    }
     if (hash > phc.hash)
     {
       lo = pos + std::streamoff(PasswordHashAndCount::size);
diff --git a/pwned-lookup-cli/pwned-lookup-cli.cpp b/pwned-lookup-cli/pwned-lookup-cli.cpp
index 7915919..509194e 100755
--- a/pwned-lookup-cli/pwned-lookup-cli.cpp
+++ b/pwned-lookup-cli/pwned-lookup-cli.cpp
@@ -108,7 +108,16 @@ int main(int argc, const char *argv[])
     const pwned::Hash soughtHash(pwd);
     std::cout << "MD5 hash " << soughtHash << std::endl;
     const auto &t0 = std::chrono::high_resolution_clock::now();
-    const pwned::PasswordHashAndCount &phc = inspector.binsearch(soughtHash);
+    pwned::PasswordHashAndCount phc;
+    try
+    {
+      phc = inspector.binsearch(soughtHash);
+    }
+    catch (const std::runtime_error &e)
+    {
+      std::cerr << "ERROR: " << e.what() << std::endl;
+      return EXIT_FAILURE;
+    }
     const auto &t1 = std::chrono::high_resolution_clock::now();
     std::chrono::duration<double> time_span = std::chrono::duration_cast<std::chrono::duration<double>>(t1 - t0);
     if (phc.count > 0)
diff --git a/pwned-server/httpworker.cpp b/pwned-server/httpworker.cpp
index 62a4051..85ec16d 100644
--- a/pwned-server/httpworker.cpp
+++ b/pwned-server/httpworker.cpp
@@ -167,7 +167,16 @@ void HttpWorker::sendResponse(http::request<http::string_body> const &req)
       return;
     }
     const auto &t0 = std::chrono::high_resolution_clock::now();
-    const pwned::PasswordHashAndCount &phc = mInspector.binsearch(hash);
+    pwned::PasswordHashAndCount phc;
+    try
+    {
+      phc = mInspector.binsearch(hash);
+    }
+    catch (const std::runtime_error &)
+    {
+      sendBadResponse(http::status::internal_server_error, "Lookup failed\r\n");
+      return;
+    }
     const auto &t1 = std::chrono::high_resolution_clock::now();
     const double duration = 1e3 * std::chrono::duration_cast<std::chrono::duration<double>>(t1 - t0).count();
     pt::ptree response;
-- 
2.43.0


From 0e967e58a0db1b5b4df5c5241fa896658123b7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:40 +0000
Subject: [PATCH 50/54] fix: the test set extractor reports a database it
 cannot read

---
 .../test-set-extractor.cpp                       | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/extras/pwned-test-set-extractor/test-set-extractor.cpp b/extras/pwned-test-set-extractor/test-set-extractor.cpp
index 1868c8f..2095ef5 100755
--- a/extras/pwned-test-set-extractor/test-set-extractor.cpp
+++ b/extras/pwned-test-set-extractor/test-set-extractor.cpp
@@ -166,7 +166,16 @@ int main(int argc, const char *argv[])
     for (auto i = 0; i < N; ++i)
     {
       pwned::Hash hash(gen(), gen());
-      pwned::PHC p = inspector.binsearch(hash);
+      pwned::PHC p;
+      try
+      {
+        p = inspector.binsearch(hash);
+      }
+      catch (const std::runtime_error &e)
+      {
+        std::cerr << "ERROR: " << e.what() << std::endl;
+        return EXIT_FAILURE;
+      }
       if (p.count == 0)
       {
         if (writeLoadTestUrls)
@@ -206,6 +215,11 @@ int main(int argc, const char *argv[])
     }
   }
 
+  if (in.bad())
+  {
+    std::cerr << "ERROR: cannot read from '" << inputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
   out.close();
   if (!out)
   {
-- 
2.43.0


From b56f16649fb88a33915fe409bf22b6cee3ef3faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:40 +0000
Subject: [PATCH 51/54] fix: a Markov chain that cannot be read to its end is
 reported

---
 pwned-lib/markovchain.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pwned-lib/markovchain.hpp b/pwned-lib/markovchain.hpp
index 408f04c..4052000 100644
--- a/pwned-lib/markovchain.hpp
+++ b/pwned-lib/markovchain.hpp
@@ -218,35 +218,35 @@ public:
     {
       char hdr[FileHeaderSize] = {0, 0, 0, 0};
       is.read(reinterpret_cast<char*>(hdr), FileHeaderSize);
-      if (is.eof())
+      if (!is)
         return BAD_HEADER_PREMATURE_EOF;
       if (memcmp(hdr, FileHeader, FileHeaderSize) != 0)
         return BAD_HEADER;
       uint8_t version = read<uint8_t>(is);
-      if (is.eof())
+      if (!is)
         return BAD_VERSION_PREMATURE_EOF;
       if (version != FileVersion)
         return BAD_VERSION;
       const uint32_t firstSymbolCount = read<uint32_t>(is);
-      if (is.eof())
+      if (!is)
         return BAD_SYMBOL_COUNT_PREMATURE_EOF;
       for (uint32_t i = 0; i < firstSymbolCount; ++i)
       {
         const symbol_type c = read<symbol_type>(is);
-        if (is.eof())
+        if (!is)
           return BAD_SYMBOL_PREMATURE_EOF;
         const prob_value_type p = read<prob_value_type>(is);
-        if (is.eof())
+        if (!is)
           return BAD_PROBABILITY_PREMATURE_EOF;
         mFirstSymbolSortedProbs.emplace_back(c, p);
       }
       const uint32_t symbolCount = read<uint32_t>(is);
-      if (is.eof())
+      if (!is)
         return BAD_SYMBOL_COUNT_PREMATURE_EOF;
       for (uint32_t i = 0; i < symbolCount; ++i)
       {
         symbol_type c = read<symbol_type>(is);
-        if (is.eof())
+        if (!is)
           return BAD_SYMBOL_PREMATURE_EOF;
         if (mNodes.find(c) == mNodes.end())
         {
@@ -257,16 +257,16 @@ public:
           return BAD_SYMBOL;
         }
         const uint32_t nodeCount = read<uint32_t>(is);
-        if (is.eof())
+        if (!is)
           return BAD_NODE_COUNT_PREMATURE_EOF;
         node_type &currentNode = mNodes[c];
         for (uint32_t j = 0; j < nodeCount; ++j)
         {
           const symbol_type symbol = read<symbol_type>(is);
-          if (is.eof())
+          if (!is)
             return BAD_SYMBOL_PREMATURE_EOF;
           const prob_value_type probability = read<prob_value_type>(is);
-          if (is.eof())
+          if (!is)
             return BAD_PROBABILITY_PREMATURE_EOF;
           currentNode.addSuccessor(symbol, probability);
         }
-- 
2.43.0


From f5c21a32ce3cc5f41ea73bf69129a2750ce2996f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:40 +0000
Subject: [PATCH 52/54] fix: the Markov generator ends with an error on a list
 it cannot read

---
 extras/pwned-markov-generator/pwned-markov-generator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/extras/pwned-markov-generator/pwned-markov-generator.cpp b/extras/pwned-markov-generator/pwned-markov-generator.cpp
index 5bc5625..27e9a5a 100644
--- a/extras/pwned-markov-generator/pwned-markov-generator.cpp
+++ b/extras/pwned-markov-generator/pwned-markov-generator.cpp
@@ -162,7 +162,7 @@ int main(int argc, char* argv[])
   {
     std::cout << "Reading from '" << inputFilename << "' (" << fileSize << " bytes) ..." << std::endl;
   }
-  while (!reader.eof())
+  while (!reader.eof() && !reader.bad())
   {
     const std::string &pwd = reader.nextPassword();
     bool ok = chain.train(pwd);
@@ -178,6 +178,11 @@ int main(int argc, char* argv[])
       ++n;
     }
   }
+  if (reader.bad())
+  {
+    std::cerr << "ERROR while reading from '" << inputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
   chain.update();
   if (verbosity.level > 0)
   {
-- 
2.43.0


From c1a9260a68f189754924506cda1743e0d560604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:40 +0000
Subject: [PATCH 53/54] fix: the password extractor does not hang on a file it
 cannot read

---
 .../pwned-password-extractor/pwned-password-extractor.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/extras/pwned-password-extractor/pwned-password-extractor.cpp b/extras/pwned-password-extractor/pwned-password-extractor.cpp
index 8ac13c0..3dc11ba 100644
--- a/extras/pwned-password-extractor/pwned-password-extractor.cpp
+++ b/extras/pwned-password-extractor/pwned-password-extractor.cpp
@@ -223,7 +223,7 @@ int main(int argc, const char *argv[])
     }
     std::cout << inputFilename << std::flush;
     pwned::UserPasswordReader reader(inFile, readerOptions);
-    while (!reader.eof())
+    while (!reader.eof() && !reader.bad())
     {
       std::string pwd = reader.nextPassword();
       if (!pwd.empty())
@@ -260,6 +260,12 @@ int main(int argc, const char *argv[])
 #endif
       }
     }
+    if (reader.bad())
+    {
+      std::cerr << std::endl
+                << "WARNING! Cannot read all of '" << inputFilename << "'. Skipping the rest ..." << std::endl;
+      continue;
+    }
     // what is listed as processed must have been written
     if (fflush(outFile) != 0)
     {
-- 
2.43.0


From 7a5b7738fcf70338c70e19871f4a73194adb511c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:40 +0000
Subject: [PATCH 54/54] fix: be2le reports an input it cannot read to its end

---
 deprecated/be2le/be2le.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/deprecated/be2le/be2le.cpp b/deprecated/be2le/be2le.cpp
index 2aefd28..8a55ef2 100755
--- a/deprecated/be2le/be2le.cpp
+++ b/deprecated/be2le/be2le.cpp
@@ -65,6 +65,11 @@ int main(int argc, const char *argv[])
       phc.dump(out);
     }
   }
+  if (in.bad())
+  {
+    std::cerr << "ERROR: cannot read from '" << inputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
   out.close();
   if (!out)
   {
-- 
2.43.0

