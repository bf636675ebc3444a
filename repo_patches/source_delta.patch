From 0709f5980e1364d6c130a510f58399fb1c758897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 01/68] fix: add the missing semicolon after an assert so that
 Timer compiles

---
 src/common/maf/messaging/Timer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Timer.cpp b/src/common/maf/messaging/Timer.cpp
index fbef7a8..fe36ba5 100644
--- a/src/common/maf/messaging/Timer.cpp
+++ b/src/common/maf/messaging/Timer.cpp
@@ -222,8 +222,8 @@ void TimerMgr::stop(TimerDataPtr record) {
 void TimerMgr::onTimerModified() {
   auto thisProcessorInstance = this_processor::instance();
   assert(thisProcessorInstance &&
-         "Timer must be triggered in thread of a mesasging::Processor")
-      thisProcessorInstance->executeAsync([this] { this->checkAllTimers(); });
+         "Timer must be triggered in thread of a mesasging::Processor");
+  thisProcessorInstance->executeAsync([this] { this->checkAllTimers(); });
 }
 
 void TimerMgr::onShortestTimerExpired(const TimerDataPtr& record) {
-- 
2.43.0


From bdc8b8bbcce8f0598219c28eedfa9ad1f324099b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 02/68] fix: ThreadSafeQueue: close and push must not slip past
 a waiter or a close

close() set its flag and notified without the lock, so a consumer that had just
evaluated its predicate went to sleep after the notification and never woke;
push() looked at the flag before taking the lock, so an item could be accepted
after close() (and the clear() following it) had returned.
---
 include/maf/threading/ThreadSafeQueue.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/maf/threading/ThreadSafeQueue.h b/include/maf/threading/ThreadSafeQueue.h
index 7e1d6ad..ca5842d 100644
--- a/include/maf/threading/ThreadSafeQueue.h
+++ b/include/maf/threading/ThreadSafeQueue.h
@@ -24,6 +24,7 @@ class ThreadSafeQueue {
   void push(const value_type &data) {
     if (!isClosed()) {
       std::lock_guard lock(queue_);
+      if (isClosed()) return;
       queue_->push(data);
       queueNotEmpty_.notify_one();
     }
@@ -31,6 +32,7 @@ class ThreadSafeQueue {
   void push(value_type &&data) {
     if (!isClosed()) {
       std::lock_guard lock(queue_);
+      if (isClosed()) return;
       queue_->emplace(std::move(data));
       queueNotEmpty_.notify_one();
     }
@@ -45,6 +47,7 @@ class ThreadSafeQueue {
   void push(const _Sequence &seq) {
     if (!isClosed()) {
       std::lock_guard lock(queue_);
+      if (isClosed()) return;
       for (auto &item : seq) {
         queue_->push(item);
       }
@@ -109,9 +112,11 @@ class ThreadSafeQueue {
   void reOpen() { closed_.store(false, std::memory_order_release); }
 
   void close() {
-    bool alreadyClosed = false;
-    closed_.compare_exchange_strong(alreadyClosed, true);
-    if (!alreadyClosed) {
+    if (!isClosed()) {
+      // a waiter that has just found the queue empty and still open must be
+      // asleep before it gets notified, or it would miss the notification
+      std::lock_guard lock(queue_);
+      closed_.store(true, std::memory_order_release);
       queueNotEmpty_.notify_all();
     }
   }
-- 
2.43.0


From 4a365c2d49aa34513ce5a3c39a94c945538e23a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 03/68] fix: ThreadSafeQueue::reOpen must exclude a waiter that
 is just leaving because of close

---
 include/maf/threading/ThreadSafeQueue.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/maf/threading/ThreadSafeQueue.h b/include/maf/threading/ThreadSafeQueue.h
index ca5842d..f9b8308 100644
--- a/include/maf/threading/ThreadSafeQueue.h
+++ b/include/maf/threading/ThreadSafeQueue.h
@@ -109,7 +109,12 @@ class ThreadSafeQueue {
     return false;
   }
 
-  void reOpen() { closed_.store(false, std::memory_order_release); }
+  void reOpen() {
+    // a waiter woken up by close() must not find the queue reopened between
+    // its two looks at the flag, it would take an item from an empty queue
+    std::lock_guard lock(queue_);
+    closed_.store(false, std::memory_order_release);
+  }
 
   void close() {
     if (!isClosed()) {
-- 
2.43.0


From bc2f7751ae949b08b8a2155579a233baa7be7648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 04/68] fix: wrappers made by will*ExecuteOnThis must keep
 their task after the first call

They moved the task out of the wrapper, so calling a wrapper a second time
queued an empty function that threw bad_function_call on the processor.
---
 src/common/maf/messaging/Processor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 1f9517c..5116b2d 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -343,7 +343,7 @@ Processor::Executor Processor::getBlockingExecutor() {
 Execution Processor::willExecuteOnThis(Execution exec) {
   return [wprocessor = this->weak_from_this(), exec = move(exec)]() mutable {
     if (auto processor = wprocessor.lock()) {
-      processor->execute(move(exec));
+      processor->execute(exec);
     }
   };
 }
@@ -351,7 +351,7 @@ Execution Processor::willExecuteOnThis(Execution exec) {
 Execution Processor::willAsyncExecuteOnThis(Execution exec) {
   return [wprocessor = this->weak_from_this(), exec = move(exec)]() mutable {
     if (auto processor = wprocessor.lock()) {
-      processor->executeAsync(move(exec));
+      processor->executeAsync(exec);
     }
   };
 }
@@ -359,7 +359,7 @@ Execution Processor::willAsyncExecuteOnThis(Execution exec) {
 Execution Processor::willBlockingExecuteOnThis(Execution exec) {
   return [wprocessor = this->weak_from_this(), exec = move(exec)]() mutable {
     if (auto processor = wprocessor.lock()) {
-      processor->waitableExecute(move(exec)).wait();
+      processor->waitableExecute(exec).wait();
     }
   };
 }
-- 
2.43.0


From 07864224a4c5bb7b6bde5bc792c8b420fbabd308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:08 +0000
Subject: [PATCH 05/68] fix: executors of a stopped processor must not report
 that they took the callback

---
 src/common/maf/messaging/Processor.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 5116b2d..7c9f047 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -41,8 +41,7 @@ class AsyncExecutor : public util::ExecutorIF {
   AsyncExecutor(ProcessorRef &&cr) : compref{std::move(cr)} {}
   bool execute(CallbackType callback) noexcept override {
     if (auto comp = compref.lock()) {
-      comp->executeAsync(std::move(callback));
-      return true;
+      return comp->executeAsync(std::move(callback));
     }
     return false;
   }
@@ -55,8 +54,7 @@ class DefaultExecutor : public util::ExecutorIF {
   DefaultExecutor(ProcessorRef &&cr) : compref{std::move(cr)} {}
   bool execute(CallbackType callback) noexcept override {
     if (auto comp = compref.lock()) {
-      comp->execute(std::move(callback));
-      return true;
+      return comp->execute(std::move(callback));
     }
     return false;
   }
-- 
2.43.0


From 56a04561b34290a29cf87154d1ed31cb3f5cf490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 06/68] fix: a slot that disconnects itself must stay alive
 until it returns

---
 include/maf/utils/SignalSlots.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 5760d34..0e43b39 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -61,7 +61,9 @@ class SingleSlotKeeper {
     if (valid()) {
       assert(!notifying_ && "Cyclic connection detected!");
       notifying_ = true;
-      mySlot()->operator()(args...);
+      // the slot may disconnect itself, it must live until it returns
+      auto slot = mySlot();
+      slot->operator()(args...);
       notifying_ = false;
     }
   }
@@ -113,7 +115,9 @@ class MultiSlotKeeper {
         if (!*it) {  // this this slot is disconnected;
           it = slots_.erase(it);
         } else {
-          std::invoke(*(*it), args...);
+          // the slot may disconnect itself, it must live until it returns
+          auto slot = *it;
+          std::invoke(*slot, args...);
           ++it;
         }
       }
-- 
2.43.0


From 6ff9ba1f74d4e3599d7a5b3a297ccf949402f52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 07/68] fix: a slot that throws must leave its signal able to
 notify again

---
 include/maf/utils/SignalSlots.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 0e43b39..2741a02 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -33,6 +33,18 @@ using Slot_ = function<void(ConstRef_<Args_>...)>;
 template <class... Args_>
 using SlotPtr_ = shared_ptr<Slot_<Args_...>>;
 
+struct NotifyingScope_ {
+  explicit NotifyingScope_(bool& notifying) : notifying_{notifying} {
+    notifying_ = true;
+  }
+  ~NotifyingScope_() { notifying_ = false; }
+  NotifyingScope_(const NotifyingScope_&) = delete;
+  NotifyingScope_& operator=(const NotifyingScope_&) = delete;
+
+ private:
+  bool& notifying_;
+};
+
 template <class... Args_>
 class SingleSlotKeeper {
  public:
@@ -60,11 +72,10 @@ class SingleSlotKeeper {
   void notify(ConstRef_<Args_>... args) const {
     if (valid()) {
       assert(!notifying_ && "Cyclic connection detected!");
-      notifying_ = true;
+      NotifyingScope_ scope{notifying_};
       // the slot may disconnect itself, it must live until it returns
       auto slot = mySlot();
       slot->operator()(args...);
-      notifying_ = false;
     }
   }
 
@@ -109,7 +120,7 @@ class MultiSlotKeeper {
   void notify(ConstRef_<Args_>... args) const {
     if (valid()) {
       assert(!notifying_ && "Cyclic connection detected");
-      notifying_ = true;
+      NotifyingScope_ scope{notifying_};
 
       for (auto it = begin(slots_); it != end(slots_);) {
         if (!*it) {  // this this slot is disconnected;
@@ -121,7 +132,6 @@ class MultiSlotKeeper {
           ++it;
         }
       }
-      notifying_ = false;
     }
   }
 
-- 
2.43.0


From 7d4fa590d47904a144fb6c86c65af7d01c3cf68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 08/68] fix: clearing a signal from one of its slots must not
 invalidate the running notification

---
 include/maf/utils/SignalSlots.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 2741a02..bc4088e 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -152,7 +152,15 @@ class MultiSlotKeeper {
 
   bool valid() const { return !slots_.empty(); }
 
-  void clear() { slots_.clear(); }
+  void clear() {
+    if (!notifying_) {
+      slots_.clear();
+    } else {  // the notification removes them when it comes across
+      for (auto& slot : slots_) {
+        slot.reset();
+      }
+    }
+  }
 
   bool has(const SlotPtrType& s) const {
     return find(begin(slots_), end(slots_), s) != end(slots_);
-- 
2.43.0


From b3d139c1231421d82f64d72e31607da36b0f7115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 09/68] fix: destroying a moved-from signal must not
 dereference its null keeper

---
 include/maf/utils/SignalSlots.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index bc4088e..1c2f881 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -337,7 +337,11 @@ class BasicSignal_ {
   BasicSignal_& operator=(const BasicSignal_&) = delete;
   BasicSignal_(BasicSignal_&&) = default;
   BasicSignal_& operator=(BasicSignal_&&) = default;
-  ~BasicSignal_() { disconnect(); }
+  ~BasicSignal_() {
+    if (slotKeeper_) {  // not moved
+      disconnect();
+    }
+  }
 
   void operator()(ConstRef_<Args_>... args) const { notify(args...); }
 
-- 
2.43.0


From c952460bb6270deeb0ba21e19acae3ed521ae545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 10/68] fix: asking whether a signal is connected must not wait
 for a running notification nor count removed slots

---
 include/maf/utils/SignalSlots.h | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 1c2f881..6e074ee 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -7,6 +7,7 @@
 
 //#include <algorithm>
 #include <array>
+#include <atomic>
 #include <cassert>
 #include <future>
 #include <list>
@@ -54,6 +55,7 @@ class SingleSlotKeeper {
   bool add(SlotPtrType s) {
     if (!mySlot()) {
       mySlot() = move(s);
+      count_ = 1;
       return true;
     }
     return false;
@@ -83,10 +85,12 @@ class SingleSlotKeeper {
   void clear() {
     if (mySlot()) {
       mySlot().reset();
+      count_ = 0;
     }
   }
   bool has(const SlotPtrType& s) const { return s == mySlot(); }
-  size_t size() const { return mySlot() ? 1 : 0; }
+  // may be asked without the lock, hence also during a notification
+  size_t size() const { return count_; }
 
   SlotPtrType lastSlot() const { return mySlot(); }
 
@@ -95,6 +99,7 @@ class SingleSlotKeeper {
   const SlotPtrType& mySlot() const { return slots_.front(); }
 
   SlotsType slots_;
+  atomic_size_t count_ = 0;
   mutable bool notifying_ = false;
 };
 
@@ -106,19 +111,19 @@ class MultiSlotKeeper {
 
   bool add(SlotPtrType s) {
     slots_.push_back(move(s));
+    ++count_;
     return true;
   }
 
   bool addUnique(SlotPtrType s) {
     if (!has(s)) {
-      slots_.push_back(move(s));
-      return true;
+      return add(move(s));
     }
     return false;
   }
 
   void notify(ConstRef_<Args_>... args) const {
-    if (valid()) {
+    if (!slots_.empty()) {
       assert(!notifying_ && "Cyclic connection detected");
       NotifyingScope_ scope{notifying_};
 
@@ -136,23 +141,27 @@ class MultiSlotKeeper {
   }
 
   bool remove(const SlotPtrType& s) {
+    if (!s) return false;
     if (!notifying_) {
       if (auto i = find(begin(slots_), end(slots_), s); i != end(slots_)) {
         slots_.erase(i);
+        --count_;
         return true;
       }
     } else {
       if (auto i = find(begin(slots_), end(slots_), s); i != end(slots_)) {
         i->reset();
+        --count_;
         return true;
       }
     }
     return false;
   }
 
-  bool valid() const { return !slots_.empty(); }
+  bool valid() const { return size() != 0; }
 
   void clear() {
+    count_ = 0;
     if (!notifying_) {
       slots_.clear();
     } else {  // the notification removes them when it comes across
@@ -166,12 +175,15 @@ class MultiSlotKeeper {
     return find(begin(slots_), end(slots_), s) != end(slots_);
   }
 
-  size_t size() const { return slots_.size(); }
+  // The connected slots only, not those the next notification removes. May be
+  // asked without the lock, hence also during a notification.
+  size_t size() const { return count_; }
 
   SlotPtrType lastSlot() const { return slots_.back(); }
 
  protected:
   mutable SlotsType slots_;
+  atomic_size_t count_ = 0;
   mutable bool notifying_ = false;
 };
 
@@ -492,9 +504,11 @@ class BasicSignal_ {
 
   void disconnect() { keeper()->clear(); }
 
-  bool connected() const { return keeper()->valid(); }
+  // Whoever asks must not wait for a running notification, the notified slots
+  // may be waiting for it.
+  bool connected() const { return connectionCount() != 0; }
 
-  size_t connectionCount() const { return keeper()->size(); }
+  size_t connectionCount() const { return keeper().lockee().size(); }
 
  protected:
   template <class OtherKeeper_, class... OtherArgs>
-- 
2.43.0


From fa89e4b62e450d8837da7f7a1ef63f2c24fd6e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 11/68] fix: the single-connection signal and observable on a
 shared mutex must keep a single connection

---
 include/maf/utils/Observable.h  | 2 +-
 include/maf/utils/SignalSlots.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/maf/utils/Observable.h b/include/maf/utils/Observable.h
index 1d362a6..c4cbf28 100644
--- a/include/maf/utils/Observable.h
+++ b/include/maf/utils/Observable.h
@@ -628,7 +628,7 @@ using SharedMutexObservable =
     BasicObservableTS<threading::MutexReference<std::recursive_mutex>, Args...>;
 template <class... Args>
 using SharedMutexSCObservable =
-    BasicObservableTS<threading::MutexReference<std::recursive_mutex>, Args...>;
+    SCBasicObservableTS<threading::MutexReference<std::recursive_mutex>, Args...>;
 
 template <class... _Args, class _Callback>
 auto waitableConnect(BasicObservable_<_Args...>& o, _Callback callback) {
diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 6e074ee..fa0949d 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -639,7 +639,7 @@ using SharedMutexSignal =
     BasicSignalTS<threading::MutexReference<std::recursive_mutex>, Args...>;
 template <class... Args>
 using SharedMutexSCSignal =
-    BasicSignalTS<threading::MutexReference<std::recursive_mutex>, Args...>;
+    SCBasicSignalTS<threading::MutexReference<std::recursive_mutex>, Args...>;
 
 template <template <class, class...> class Signal_, class SlotKeeper_,
           typename... Args_>
-- 
2.43.0


From 951a2caa7c948fcc2583399b206613230b5e43ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 12/68] fix: blocking calls must not report a callback that was
 dropped, or has thrown, as executed

---
 include/maf/messaging/Processor.h      | 2 +-
 src/common/maf/messaging/Processor.cpp | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/maf/messaging/Processor.h b/include/maf/messaging/Processor.h
index 96966ed..e92cb7c 100644
--- a/include/maf/messaging/Processor.h
+++ b/include/maf/messaging/Processor.h
@@ -89,7 +89,7 @@ class Processor final : pattern::Unasignable,
                        bool> = true>
   auto waitableExecute(Callable &&cb) -> std::invoke_result_t<Callable> {
     std::invoke_result_t<Callable> ret;
-    this->waitableExecute([&] { ret = cb(); }).wait();
+    this->waitableExecute([&] { ret = cb(); }).get();
     return ret;
   }
 
diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 7c9f047..92867dd 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -67,11 +67,14 @@ class WaitableExecutor : public util::ExecutorIF {
   bool execute(CallbackType callback) noexcept override {
     if (auto comp = compref.lock()) {
       try {
-        comp->waitableExecute(callback).wait();
+        comp->waitableExecute(callback).get();
         return true;
-      } catch (const std::future_error &e) {
+      } catch (const std::future_error &e) {  // callback was dropped
         MAF_LOGGER_ERROR("Cauth exception when execute callback: ", e.what());
         return false;
+      } catch (...) {
+        MAF_LOGGER_ERROR("The callback has thrown an exception");
+        return true;
       }
     }
     return false;
-- 
2.43.0


From 8bbf8501e4f7ae9ca2f5e0e8f4d421b550a0d71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 13/68] fix: connecting a message handler must not hold the
 handlers map while it waits for running handlers

---
 src/common/maf/messaging/Processor.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 92867dd..64a948d 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -120,7 +120,8 @@ struct ProcessorDataPrv {
 
   void cleanupUnconnectedMsgHandlers() {
     for (auto it = msgHandlersMap->begin(); it != msgHandlersMap->end();) {
-      if (!it->second->connected()) {
+      // whoever is using the handlers outside of the lock may connect to them
+      if (it->second.use_count() == 1 && !it->second->connected()) {
         it = msgHandlersMap->erase(it);
       } else {
         ++it;
@@ -368,11 +369,17 @@ Execution Processor::willBlockingExecuteOnThis(Execution exec) {
 MsgConnection Processor::connect(const MessageID &msgid,
                                  MessageProcessingCallback processMsgCallback) {
   using namespace std;
-  lock_guard lock(d_->msgHandlersMap);
-  auto &handlers = (*d_->msgHandlersMap)[msgid];
-  if (!handlers) {
-    handlers = std::make_shared<Handlers>();
+  HandlersPtr handlers;
+  {
+    lock_guard lock(d_->msgHandlersMap);
+    auto &msgHandlers = (*d_->msgHandlersMap)[msgid];
+    if (!msgHandlers) {
+      msgHandlers = std::make_shared<Handlers>();
+    }
+    handlers = msgHandlers;
   }
+  // connecting waits for the handlers that are running, which may in turn need
+  // the map
   return new SSConnection(handlers->connect(move(processMsgCallback)));
 }
 
-- 
2.43.0


From 28119e98ed9c448e497c0feb26be8aa23c6220b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 14/68] fix: sendToAll must not hold the router while it runs
 the handlers of the calling processor

---
 src/common/maf/messaging/Router.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Router.cpp b/src/common/maf/messaging/Router.cpp
index 4602149..889d420 100644
--- a/src/common/maf/messaging/Router.cpp
+++ b/src/common/maf/messaging/Router.cpp
@@ -41,8 +41,9 @@ bool Router::postToAll(const Message &msg) {
 
 Processor::CompleteSignal Router::sendToAll(const Message &msg) {
   auto msgMessageHandledSignals = vector<Processor::CompleteSignal>{};
-  auto atProcessors = messageprocessors_.atomic();
-  for (const auto &comp : *atProcessors) {
+  // the handlers of the calling processor run right here and may route as well
+  auto processors = Processors{*messageprocessors_.atomic()};
+  for (const auto &comp : processors) {
     if (auto sig = askThenSend(comp, std::move(msg)); sig.valid()) {
       msgMessageHandledSignals.emplace_back(move(sig));
     }
-- 
2.43.0


From 057a4dd16f52c5cd786e624039622a7237634b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 15/68] fix: of several threads creating a processor with one
 id only one must succeed

---
 src/common/maf/messaging/Processor.cpp | 4 +---
 src/common/maf/messaging/Router.cpp    | 1 +
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 64a948d..aa6c00a 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -178,10 +178,8 @@ ProcessorInstance Processor::create(ProcessorID id) {
   auto comp = ProcessorInstance{new Processor{std::move(id)}};
 
   if (willJoinRouting) {
-    if (Router::instance().findProcessor(comp->id())) {
+    if (!Router::instance().addProcessor(comp)) {
       comp.reset();
-    } else {
-      Router::instance().addProcessor(comp);
     }
   }
   return comp;
diff --git a/src/common/maf/messaging/Router.cpp b/src/common/maf/messaging/Router.cpp
index 889d420..fca6047 100644
--- a/src/common/maf/messaging/Router.cpp
+++ b/src/common/maf/messaging/Router.cpp
@@ -77,6 +77,7 @@ bool Router::addProcessor(ProcessorInstance comp) {
       informNewProcessorAboutJoinedOnes(comp, *joinedProcessors);
       notifyAllAboutNewProcessor(*joinedProcessors, comp);
       joinedProcessors->insert(move(comp));
+      return true;
     }
   }
   return false;
-- 
2.43.0


From b9e2e727007850e635d9fb3739c4adab44977e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 16/68] fix: leaving the routing must remove the leaving
 processor only and tell exactly those it leaves behind

---
 src/common/maf/messaging/Router.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/common/maf/messaging/Router.cpp b/src/common/maf/messaging/Router.cpp
index fca6047..c26fc5c 100644
--- a/src/common/maf/messaging/Router.cpp
+++ b/src/common/maf/messaging/Router.cpp
@@ -84,9 +84,16 @@ bool Router::addProcessor(ProcessorInstance comp) {
 }
 
 bool Router::removeProcessor(const ProcessorInstance &comp) {
-  if (messageprocessors_.atomic()->erase(comp) != 0) {
-    postToAll(ProcessorStatusUpdateMsg{
-        comp, ProcessorStatusUpdateMsg::Status::UnReachable});
+  auto atProcessors = messageprocessors_.atomic();
+  // a stopped processor must not take a new one with the same id away
+  if (auto it = atProcessors->find(comp);
+      it != atProcessors->end() && *it == comp) {
+    atProcessors->erase(it);
+    auto msg = ProcessorStatusUpdateMsg{
+        comp, ProcessorStatusUpdateMsg::Status::UnReachable};
+    for (const auto &joinedProcessor : *atProcessors) {
+      askThenPost(joinedProcessor, msg);
+    }
     return true;
   }
   return false;
-- 
2.43.0


From 00a9c9cd5965718e7510b297fc9d0ed21f05f9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 17/68] fix: disconnecting one message type must not make
 disconnected handlers of other types unable to reconnect

---
 src/common/maf/messaging/Processor.cpp | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index aa6c00a..dcdfa29 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -118,17 +118,6 @@ struct ProcessorDataPrv {
     return it != msgHandlersMap->end() && it->second->connected();
   }
 
-  void cleanupUnconnectedMsgHandlers() {
-    for (auto it = msgHandlersMap->begin(); it != msgHandlersMap->end();) {
-      // whoever is using the handlers outside of the lock may connect to them
-      if (it->second.use_count() == 1 && !it->second->connected()) {
-        it = msgHandlersMap->erase(it);
-      } else {
-        ++it;
-      }
-    }
-  }
-
   void closeAndClearExecutionsQueue() {
     pendingExecutions.close();
     pendingExecutions.clear();
@@ -384,7 +373,6 @@ MsgConnection Processor::connect(const MessageID &msgid,
 void Processor::disconnect(const MessageID &msgid) {
   std::lock_guard lock(d_->msgHandlersMap);
   d_->msgHandlersMap->erase(msgid);
-  d_->cleanupUnconnectedMsgHandlers();
 }
 
 size_t Processor::pendingCout() const { return d_->pendingExecutions.size(); }
-- 
2.43.0


From 1cd037542de1fc207335974ebd9dc7af41a3ca12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 18/68] fix: runUntil must return after its deadline even when
 tasks keep coming

---
 src/common/maf/messaging/Processor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index dcdfa29..de907b8 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -212,6 +212,10 @@ void Processor::runUntil(ExecutionDeadline deadline) {
 
   while (d_->pendingExecutions.waitUntil(exc, deadline)) {
     invoke(exc);
+    // a queue that never gets empty must not keep it running for ever
+    if (std::chrono::system_clock::now() >= deadline) {
+      break;
+    }
   }
 }
 
-- 
2.43.0


From 6ba004de9d6b9011e6940925042717324fcb90ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 19/68] fix: a timer callback must survive starting its own
 timer anew

---
 src/common/maf/messaging/Timer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/Timer.cpp b/src/common/maf/messaging/Timer.cpp
index fe36ba5..2725367 100644
--- a/src/common/maf/messaging/Timer.cpp
+++ b/src/common/maf/messaging/Timer.cpp
@@ -46,7 +46,11 @@ struct TimerData {
     deadline = Clock::now() + duration;
   }
   bool expired() const { return deadline <= Clock::now(); }
-  void onExpired() { callback(); }
+  void onExpired() {
+    // the callback may start this timer anew with another callback
+    auto cb = callback;
+    cb();
+  }
   void reset(TimeOutCallback&& cb, ExecutionTimeout d, bool cc = false) {
     callback = move(cb);
     deadline = Clock::now() + d;
-- 
2.43.0


From bd521b4b7b120bf4cfa04aa71ba373583ad3c564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 20/68] fix: restarting a timer that is not running must start
 it again

---
 src/common/maf/messaging/Timer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/Timer.cpp b/src/common/maf/messaging/Timer.cpp
index 2725367..6c1c670 100644
--- a/src/common/maf/messaging/Timer.cpp
+++ b/src/common/maf/messaging/Timer.cpp
@@ -241,8 +241,14 @@ void TimerMgr::onShortestTimerExpired(const TimerDataPtr& record) {
 }
 
 void TimerMgr::restart(const TimerDataPtr& r) {
+  if (!r->callback) {  // never started
+    return;
+  }
+  auto wasRunning = r->running;
   r->restart();
-  if (r == records_.front()) {
+  if (!wasRunning) {
+    add(r);
+  } else if (!records_.empty() && r == records_.front()) {
     pop_heap(begin(), end(), timerGreater);
     push_heap(begin(), end(), timerGreater);
   } else {
-- 
2.43.0


From 83cef1e65ee82888d8c25db4d0d2eb5fd4ce32a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:36 +0000
Subject: [PATCH 21/68] fix: a timer stopped or destroyed by another thread
 must not make its processor spin for ever

---
 src/common/maf/messaging/Timer.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Timer.cpp b/src/common/maf/messaging/Timer.cpp
index 6c1c670..85d23af 100644
--- a/src/common/maf/messaging/Timer.cpp
+++ b/src/common/maf/messaging/Timer.cpp
@@ -3,6 +3,7 @@
 #include <maf/messaging/Timer.h>
 
 #include <algorithm>
+#include <atomic>
 #include <cassert>
 #include <memory>
 #include <thread>
@@ -32,7 +33,8 @@ struct TimerData {
   DeadLine deadline = Clock::now();
   ExecutionTimeout duration;
   bool cyclic = false;
-  bool running = false;
+  // a timer may be stopped or destroyed by another thread than its processor's
+  std::atomic_bool running = false;
 
   TimerData() = default;
   TimerData(TimeOutCallback cb, ExecutionTimeout interval, bool cc = false)
@@ -199,6 +201,9 @@ void TimerMgr::checkAllTimers() {
     // shortest timer might be stopped while waiting
     if (timer->running) {
       onShortestTimerExpired(timer);
+    } else if (timer == getShortestTimer()) {
+      // stopped by another thread, which could not remove it
+      removeShortestTimer();
     }
   }
 }
@@ -244,7 +249,7 @@ void TimerMgr::restart(const TimerDataPtr& r) {
   if (!r->callback) {  // never started
     return;
   }
-  auto wasRunning = r->running;
+  bool wasRunning = r->running;
   r->restart();
   if (!wasRunning) {
     add(r);
@@ -259,6 +264,11 @@ void TimerMgr::restart(const TimerDataPtr& r) {
 
 void TimerMgr::add(TimerDataPtr newRecord) {
   using namespace std;
+  if (std::find(begin(), end(), newRecord) != end()) {
+    // stopped by another thread, which could not remove it
+    refresh();
+    return;
+  }
   records_.push_back(move(newRecord));
   push_heap(begin(), end(), timerGreater);
 }
-- 
2.43.0


From b3eab5a825cb0a5b1e6af7ec7773b5ad43dee92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:36 +0000
Subject: [PATCH 22/68] fix: a timer started while another one expires must not
 be dropped in its place

---
 src/common/maf/messaging/Timer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Timer.cpp b/src/common/maf/messaging/Timer.cpp
index 85d23af..80c42cd 100644
--- a/src/common/maf/messaging/Timer.cpp
+++ b/src/common/maf/messaging/Timer.cpp
@@ -193,7 +193,8 @@ void TimerMgr::checkAllTimers() {
       break;
     }
 
-    if (!timer->expired()) {
+    // a timer that is due even earlier might be started while waiting
+    if (timer != getShortestTimer() || !timer->expired()) {
       continue;
     }
 
@@ -201,7 +202,7 @@ void TimerMgr::checkAllTimers() {
     // shortest timer might be stopped while waiting
     if (timer->running) {
       onShortestTimerExpired(timer);
-    } else if (timer == getShortestTimer()) {
+    } else {
       // stopped by another thread, which could not remove it
       removeShortestTimer();
     }
-- 
2.43.0


From 9349e4dc297b0c792b6482fec98ca04a3ab241d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 23/68] fix: a second SyncTimer::start must not revive the
 start that was stopped for it nor hold the lock in the callback

---
 src/common/maf/messaging/SyncTimer.cpp | 31 ++++++++++++++++++--------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/common/maf/messaging/SyncTimer.cpp b/src/common/maf/messaging/SyncTimer.cpp
index 0d492b8..05ea8e0 100644
--- a/src/common/maf/messaging/SyncTimer.cpp
+++ b/src/common/maf/messaging/SyncTimer.cpp
@@ -16,10 +16,12 @@ struct SyncTimerDataPrv {
   std::recursive_mutex mutex;
   bool running = false;
   bool cyclic = false;
+  // counts the starts, a waiting start ends when a newer one has begun
+  unsigned generation = 0;
 };
 
 SyncTimer::SyncTimer(bool cyclic)
-    : d_{new SyncTimerDataPrv{{}, {}, false, cyclic}} {}
+    : d_{new SyncTimerDataPrv{{}, {}, false, cyclic, 0}} {}
 
 SyncTimer::~SyncTimer() {
   stop();
@@ -43,25 +45,33 @@ void SyncTimer::start(std::chrono::milliseconds milliseconds,
 
     std::unique_lock lock(d_->mutex);
     d_->running = true;
+    const auto generation = ++d_->generation;
+    d_->timeoutCondition.notify_all();
+    auto stopped = [this, generation] {
+      return !d_->running || d_->generation != generation;
+    };
 
     do {
-      if (!d_->timeoutCondition.wait_for(lock, milliseconds,
-                                         [this] { return !d_->running; })) {
+      if (!d_->timeoutCondition.wait_for(lock, milliseconds, stopped)) {
+        // nobody has to wait for the callback, which may use this timer itself
+        lock.unlock();
         if (executor) {
-          executor->execute(d_->cyclic ? callback : std::move(callback));
+          executor->execute(callback);
         } else {
           callback();
         }
+        lock.lock();
       }
 
-      if (!d_->running)  // restarted
-      {
+      if (stopped()) {
         break;
       }
 
     } while (d_->cyclic);
 
-    d_->running = false;
+    if (d_->generation == generation) {
+      d_->running = false;
+    }
   }
 }
 
@@ -71,11 +81,14 @@ void SyncTimer::stop() {
   std::lock_guard lock(d_->mutex);
   if (d_->running) {
     d_->running = false;
-    d_->timeoutCondition.notify_one();
+    d_->timeoutCondition.notify_all();
   }
 }
 
-bool SyncTimer::running() { return d_->running; }
+bool SyncTimer::running() {
+  std::lock_guard lock(d_->mutex);
+  return d_->running;
+}
 
 void SyncTimer::setCyclic(bool cyclic) {
   std::lock_guard lock(d_->mutex);
-- 
2.43.0


From ab8e4abeaa363d4742b3214a597f3da5611013fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 24/68] fix: SyncTimer::restart must begin the waiting interval
 again

---
 src/common/maf/messaging/SyncTimer.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/common/maf/messaging/SyncTimer.cpp b/src/common/maf/messaging/SyncTimer.cpp
index 05ea8e0..bdc1f4e 100644
--- a/src/common/maf/messaging/SyncTimer.cpp
+++ b/src/common/maf/messaging/SyncTimer.cpp
@@ -18,10 +18,12 @@ struct SyncTimerDataPrv {
   bool cyclic = false;
   // counts the starts, a waiting start ends when a newer one has begun
   unsigned generation = 0;
+  // counts the restarts, a start that is waiting begins its wait again
+  unsigned restarts = 0;
 };
 
 SyncTimer::SyncTimer(bool cyclic)
-    : d_{new SyncTimerDataPrv{{}, {}, false, cyclic, 0}} {}
+    : d_{new SyncTimerDataPrv{{}, {}, false, cyclic, 0, 0}} {}
 
 SyncTimer::~SyncTimer() {
   stop();
@@ -51,8 +53,17 @@ void SyncTimer::start(std::chrono::milliseconds milliseconds,
       return !d_->running || d_->generation != generation;
     };
 
+    auto restarts = d_->restarts;
+    auto interrupted = [this, &stopped, &restarts] {
+      return stopped() || d_->restarts != restarts;
+    };
+
     do {
-      if (!d_->timeoutCondition.wait_for(lock, milliseconds, stopped)) {
+      while (d_->timeoutCondition.wait_for(lock, milliseconds, interrupted) &&
+             !stopped()) {
+        restarts = d_->restarts;
+      }
+      if (!stopped()) {
         // nobody has to wait for the callback, which may use this timer itself
         lock.unlock();
         if (executor) {
@@ -75,7 +86,11 @@ void SyncTimer::start(std::chrono::milliseconds milliseconds,
   }
 }
 
-void SyncTimer::restart() { d_->timeoutCondition.notify_one(); }
+void SyncTimer::restart() {
+  std::lock_guard lock(d_->mutex);
+  ++d_->restarts;
+  d_->timeoutCondition.notify_all();
+}
 
 void SyncTimer::stop() {
   std::lock_guard lock(d_->mutex);
-- 
2.43.0


From eae5bee4320bb87703aee9b27adf1978527dc203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 25/68] fix: waiting for a cancelled waitable invocation must
 not hang

---
 include/maf/utils/SignalSlots.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index fa0949d..3022429 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -700,7 +700,11 @@ class FutureInvocation {
     }
     return false;
   }
-  void cancel() { signalConnection_.disconnect(); }
+  void cancel() {
+    signalConnection_.disconnect();
+    // the slot holds the promise, whoever waits for it must not wait for ever
+    signalConnection_ = {};
+  }
 
  private:
   ConnectionType signalConnection_;
-- 
2.43.0


From 7e9c113ce1aabb3096e04ba28dbab6b193fba65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 26/68] fix: waitableConnect must not lose a notification that
 comes at once

---
 include/maf/utils/SignalSlots.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 3022429..9c8a8b8 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -729,7 +729,9 @@ template <template <class, class...> class Signal_, class SlotKeeper_,
         prom->set_value({args...});
       });
 
-  if (connection.connected()) {
+  // the very first notification may have come and disconnected it already
+  if (connection.connected() ||
+      f.wait_for(chrono::seconds{0}) == future_status::ready) {
     FutureType ret(move(connection), move(sl), move(f));
     return ret;
   }
-- 
2.43.0


From e223b1188598178d86994185396b1fc4969ee2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 27/68] fix: a connection-aware slot on an executor must not
 share its connection with the notifying thread nor leak it

---
 include/maf/utils/SignalSlots.h | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 9c8a8b8..cfd4591 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -371,17 +371,13 @@ class BasicSignal_ {
 
   ConnectionType connect(ConnectionAwareSlotType cas) {
     auto ps = makeSlotPtr({});
-    auto conPtr = ConnectionPtrType{new ConnectionType{sharedKeeper(), ps}};
-    *ps = [cas{move(cas)},
-           conPtr = move(conPtr)](ConstRef_<Args_>... args) mutable {
-      cas(conPtr, args...);
-      // Fix issue memory leadk due to cyclick reference
-      // Slot holds a connection shared_ptr
-      // this conPtr holds a slot shared_ptr after conPtr->disconnect() is
-      // called
-      if (conPtr->holdingConnector()) {
-        conPtr->clear();
-      }
+    // Every invocation gets a connection of its own: it may be used by an
+    // executor's thread, and once disconnected it holds the slot, which hence
+    // must not hold it.
+    *ps = [cas{move(cas)}, hub = weak_ptr<ConnectableIF>{sharedKeeper()},
+           slot = weak_ptr<void>{ps}](ConstRef_<Args_>... args) {
+      cas(ConnectionPtrType{new ConnectionType{hub, weak_ptr<void>{slot}}},
+          args...);
     };
     return saveSlot(move(ps));
   }
-- 
2.43.0


From 1c69e1ce567520826b1815fc7cd3040aed36db7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:11 +0000
Subject: [PATCH 28/68] fix: a slot tracking an object must neither run on its
 executor after the object is gone nor wait there for the notification

---
 include/maf/utils/SignalSlots.h | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index cfd4591..c21ea7c 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -402,8 +402,15 @@ class BasicSignal_ {
   ConnectionType connect(TrackableObjPtrType obj, SlotType s,
                          SlotInvokerPtr executor) {
     assert(executor && "executor must not be null");
-    return connect(move(obj),
-                   combineSlotWithExecutor<Args_...>(move(s), move(executor)));
+    // the object must be alive when the executor gets to the slot
+    auto ifAlive = SlotType{
+        [sl{move(s)}, ref = weak_ptr<void>{obj}](ConstRef_<Args_>... args) {
+          if (auto trackedObj = ref.lock()) {
+            sl(args...);
+          }
+        }};
+    return connect(move(obj), combineSlotWithExecutor<ConstRef_<Args_>...>(
+                                  move(ifAlive), move(executor)));
   }
 
   template <
@@ -484,15 +491,13 @@ class BasicSignal_ {
     static_assert(is_class_method_notifiable_v<_R, _Class>,
                   "Cannot bind method due to not invocable with signal's args");
     assert(executor);
+    // disconnected by the notifying thread when the object is gone: it may be
+    // waiting for the executor, which hence must not wait for it
     return this->connect(
-        [wptr(weak_ptr(ptr)), method](ConnectionPtrType con,
-                                      ConstRef_<Args_>... args) {
-          if (auto ptr = wptr.lock()) {
-            (ptr.get()->*method)(args...);
-          } else {
-            con->disconnect();
-          }
-        },
+        TrackableObjPtrType{ptr},
+        SlotType{[raw{ptr.get()}, method](ConstRef_<Args_>... args) {
+          (raw->*method)(args...);
+        }},
         move(executor));
   }
 
-- 
2.43.0


From 1fa41ff31ef7ce127af54dafd2935091e06ffafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:29 +0000
Subject: [PATCH 29/68] fix: a Runnable must not be auto-deleted at random

---
 include/maf/threading/Runnable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maf/threading/Runnable.h b/include/maf/threading/Runnable.h
index 1726576..26ad003 100644
--- a/include/maf/threading/Runnable.h
+++ b/include/maf/threading/Runnable.h
@@ -12,7 +12,7 @@ public:
   virtual ~Runnable() {}
 
 private:
-  bool _autoDeleted;
+  bool _autoDeleted = false;
 };
 
 inline void run(Runnable *runner) {
-- 
2.43.0


From 9e03641f1346f0912dc13edd0eeb6c1113b34f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:29 +0000
Subject: [PATCH 30/68] fix: connecting a std::function slot to an observable
 must tell it the current state like any other slot

---
 include/maf/utils/Observable.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/maf/utils/Observable.h b/include/maf/utils/Observable.h
index c4cbf28..b3ac5d9 100644
--- a/include/maf/utils/Observable.h
+++ b/include/maf/utils/Observable.h
@@ -111,7 +111,6 @@ class ObservableBasic_ : public BasicSignal<SlotsKeeper_, SubStates_...> {
 
  public:
   using SlotsKeeperType = SlotsKeeper_;
-  using Base_::connect;
   using State = tuple<PurgeType_<SubStates_>...>;
   ObservableBasic_() = default;
   ObservableBasic_(ObservableBasic_&&) = default;
-- 
2.43.0


From 3ce982b16ed001081c8ee9d977b4f14de6c79ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:49 +0000
Subject: [PATCH 31/68] fix: a pool of a varying number of threads must not
 change its list of threads unguarded

---
 include/maf/threading/ThreadPoolImplBase.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/maf/threading/ThreadPoolImplBase.h b/include/maf/threading/ThreadPoolImplBase.h
index 6392ea2..1ffaffe 100644
--- a/include/maf/threading/ThreadPoolImplBase.h
+++ b/include/maf/threading/ThreadPoolImplBase.h
@@ -36,7 +36,8 @@ public:
   ~ThreadPoolImplBase() { shutdown(); }
 
   void tryLaunchNewThread() {
-    if (_pool.size() < _maxThreadCount) {
+    std::lock_guard<std::mutex> lock(_poolMutex);
+    if (_pool.size() < _maxThreadCount && !_taskQueue.isClosed()) {
       try {
         _pool.emplace_back(
             std::thread{&ThreadPoolImplBase::coptRunPendingTask, this});
@@ -51,6 +52,7 @@ public:
   unsigned int maxThreadCount() const { return _maxThreadCount; }
 
   unsigned int activeThreadCount() {
+    std::lock_guard<std::mutex> lock(_poolMutex);
     return static_cast<unsigned int>(_pool.size());
   }
 
@@ -89,11 +91,12 @@ private:
   }
 
   std::vector<std::thread> _pool;
+  std::mutex _poolMutex;
   std::once_flag _shutdowned;
   TaskQueue _taskQueue;
   std::list<Task> _runningTasks;
   std::mutex _runningTaskMutex;
-  unsigned int _maxThreadCount;
+  std::atomic<unsigned int> _maxThreadCount;
   TaskExc _fRun;
   TaskExc _fStop;
   TaskExc _fDone;
@@ -120,7 +123,14 @@ private:
   }
 
   void waitForThreadsExited() {
-    for (auto &th : _pool) {
+    std::vector<std::thread> threads;
+    {
+      // none is launched any more, the queue is closed; the last tasks might
+      // still ask for the threads, so don't lock them out while joining
+      std::lock_guard<std::mutex> lock(_poolMutex);
+      threads.swap(_pool);
+    }
+    for (auto &th : threads) {
       if (th.joinable()) {
         th.join();
       }
-- 
2.43.0


From ff895ba33353e6a88bc150a42a87534b8ab935ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 32/68] fix: a thread pool must not leak a task it gets after
 its shutdown

---
 include/maf/threading/ThreadPoolImplBase.h |  6 +++++-
 include/maf/threading/ThreadSafeQueue.h    | 13 +++++++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/maf/threading/ThreadPoolImplBase.h b/include/maf/threading/ThreadPoolImplBase.h
index 1ffaffe..1c87122 100644
--- a/include/maf/threading/ThreadPoolImplBase.h
+++ b/include/maf/threading/ThreadPoolImplBase.h
@@ -47,7 +47,11 @@ public:
     }
   }
 
-  void run(Task task) { _taskQueue.push(std::move(task)); }
+  void run(Task task) {
+    if (!_taskQueue.push(task)) {  // too late, it is never going to be started
+      _fDone(task);
+    }
+  }
 
   unsigned int maxThreadCount() const { return _maxThreadCount; }
 
diff --git a/include/maf/threading/ThreadSafeQueue.h b/include/maf/threading/ThreadSafeQueue.h
index f9b8308..6046047 100644
--- a/include/maf/threading/ThreadSafeQueue.h
+++ b/include/maf/threading/ThreadSafeQueue.h
@@ -21,21 +21,26 @@ class ThreadSafeQueue {
   ThreadSafeQueue() : closed_(false) {}
   ~ThreadSafeQueue() { close(); }
   bool empty() { return queue_.atomic()->empty(); }
-  void push(const value_type &data) {
+  // returns false if nothing was pushed because the queue is closed
+  bool push(const value_type &data) {
     if (!isClosed()) {
       std::lock_guard lock(queue_);
-      if (isClosed()) return;
+      if (isClosed()) return false;
       queue_->push(data);
       queueNotEmpty_.notify_one();
+      return true;
     }
+    return false;
   }
-  void push(value_type &&data) {
+  bool push(value_type &&data) {
     if (!isClosed()) {
       std::lock_guard lock(queue_);
-      if (isClosed()) return;
+      if (isClosed()) return false;
       queue_->emplace(std::move(data));
       queueNotEmpty_.notify_one();
+      return true;
     }
+    return false;
   }
 
   template <
-- 
2.43.0


From 8b560f83db966d6dd299af9ea78e02636efbaee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:52 +0000
Subject: [PATCH 33/68] fix: a task taken just before the shutdown of its
 thread pool must not run without being told to stop

---
 include/maf/threading/ThreadPoolImplBase.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/maf/threading/ThreadPoolImplBase.h b/include/maf/threading/ThreadPoolImplBase.h
index 1c87122..559e046 100644
--- a/include/maf/threading/ThreadPoolImplBase.h
+++ b/include/maf/threading/ThreadPoolImplBase.h
@@ -83,7 +83,10 @@ private:
   // copt = Called On Pool Threads
   void coptRun(Task task) {
     addToRunningTasks(task);
-    _fRun(task);
+    // a shutdown that came before cannot tell the task to stop any more
+    if (!_taskQueue.isClosed()) {
+      _fRun(task);
+    }
     removeFromRunningTasks(task);
     _fDone(task);
   }
-- 
2.43.0


From a87d16bf33a019af266dcdcf216d7e682efd4689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 34/68] fix: answering a request that another thread has just
 answered or aborted must not crash

---
 src/common/maf/messaging/client-server/ServiceProvider.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index b1c8169..4163093 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -71,9 +71,12 @@ ActionCallStatus ServiceProvider::respondToRequest(const CSMessagePtr &csMsg) {
     request = getRequestInfo(csMsg, false);
   } else {
     request = getRequestInfo(csMsg, true);
-    request->invalidate();
   }
+  // null if it was answered or aborted by another thread in the meantime
   if (request) {
+    if (csMsg->operationCode() != OpCode::PartialRequestUpdate) {
+      request->invalidate();
+    }
     return sendBackMessageToClient(csMsg);
   } else {
     return ActionCallStatus::FailedUnknown;
-- 
2.43.0


From 4be64b6c9de288e0ebd86df05deb3e70581cfc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:49 +0000
Subject: [PATCH 35/68] fix: a partial update must not end a synchronous
 request, nor must the response after it throw

---
 .../client-server/ServiceRequester.cpp        | 23 ++++++++++++-------
 .../client-server/ServiceRequester.h          | 17 ++++++++++----
 2 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 7d803fb..ca92821 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -177,10 +177,12 @@ RegID ServiceRequester::sendMessageAsync(const OpID &operationID,
                                          OpCode operationCode,
                                          const CSPayloadIFPtr &msgContent,
                                          CSPayloadProcessCallback callback,
-                                         ActionCallStatus *callStatus) {
+                                         ActionCallStatus *callStatus,
+                                         bool wantsUpdates) {
   auto csMsg = this->createCSMessage(operationID, operationCode, msgContent);
   return storeAndSendRequestToServer(requestEntriesMap_, csMsg,
-                                     std::move(callback), callStatus);
+                                     std::move(callback), callStatus,
+                                     wantsUpdates);
 }
 
 CSPayloadIFPtr ServiceRequester::sendMessageSync(
@@ -202,8 +204,10 @@ CSPayloadIFPtr ServiceRequester::sendMessageSync(
         asyncResponse->set_value(msg);
       };
 
+  // there's nobody to tell partial updates, only the final response counts
   auto regID = sendMessageAsync(operationID, opCode, msgContent,
-                                std::move(onSyncMsgCallback), callStatus);
+                                std::move(onSyncMsgCallback), callStatus,
+                                /*wantsUpdates=*/false);
 
   if (regID.valid()) {
     try {
@@ -450,9 +454,11 @@ void ServiceRequester::onRequestResult(const CSMessagePtr &msg) {
       for (auto itRegEntry = regEntries.begin(); itRegEntry != regEntries.end();
            ++itRegEntry) {
         if (itRegEntry->requestID == msg->requestID()) {
-          callback = itRegEntry->callback;
           if (msg->operationCode() != OpCode::PartialRequestUpdate) {
+            callback = std::move(itRegEntry->callback);
             regEntries.erase(itRegEntry);
+          } else if (itRegEntry->wantsUpdates) {
+            callback = itRegEntry->callback;
           }
           found = true;
           break;
@@ -500,11 +506,12 @@ ActionCallStatus ServiceRequester::sendMessageToServer(
 
 RegID ServiceRequester::storeAndSendRequestToServer(
     RegEntriesMap &regEntriesMap, const CSMessagePtr &outgoingMsg,
-    CSPayloadProcessCallback callback, ActionCallStatus *callStatus) {
+    CSPayloadProcessCallback callback, ActionCallStatus *callStatus,
+    bool wantsUpdates) {
   RegID regID;
 
   storeRegEntry(regEntriesMap, outgoingMsg->operationID(), std::move(callback),
-                regID);
+                regID, wantsUpdates);
 
   outgoingMsg->setRequestID(regID.requestID);
   auto status = sendMessageToServer(outgoingMsg);
@@ -521,13 +528,13 @@ RegID ServiceRequester::storeAndSendRequestToServer(
 size_t ServiceRequester::storeRegEntry(RegEntriesMap &regInfoEntries,
                                        const OpID &propertyID,
                                        CSPayloadProcessCallback callback,
-                                       RegID &regID) {
+                                       RegID &regID, bool wantsUpdates) {
   RegID::allocateUniqueID(regID, idMgr_);
   regID.opID = propertyID;
 
   std::lock_guard lock(regInfoEntries);
   auto &regEntries = (*regInfoEntries)[propertyID];
-  regEntries.emplace_back(regID.requestID, std::move(callback));
+  regEntries.emplace_back(regID.requestID, std::move(callback), wantsUpdates);
   // means that already sent register for this propertyID to service
   return regEntries.size();
 }
diff --git a/src/common/maf/messaging/client-server/ServiceRequester.h b/src/common/maf/messaging/client-server/ServiceRequester.h
index 90a15f4..6aae837 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.h
+++ b/src/common/maf/messaging/client-server/ServiceRequester.h
@@ -22,10 +22,14 @@ struct ServiceRequester : public ServiceRequesterIF {
   struct RegEntry {
     RegID::RequestIDType requestID;
     CSPayloadProcessCallback callback;
+    bool wantsUpdates = true;  // or only the final response
 
     RegEntry() = default;
-    RegEntry(RegID::RequestIDType requestID, CSPayloadProcessCallback callback)
-        : requestID(requestID), callback(std::move(callback)) {}
+    RegEntry(RegID::RequestIDType requestID, CSPayloadProcessCallback callback,
+             bool wantsUpdates = true)
+        : requestID(requestID),
+          callback(std::move(callback)),
+          wantsUpdates(wantsUpdates) {}
   };
 
   struct SyncRegEntry {
@@ -104,7 +108,8 @@ struct ServiceRequester : public ServiceRequesterIF {
   RegID sendMessageAsync(const OpID &operationID, OpCode operationCode,
                          const CSPayloadIFPtr &msgContent,
                          CSPayloadProcessCallback callback,
-                         ActionCallStatus *callStatus);
+                         ActionCallStatus *callStatus,
+                         bool wantsUpdates = true);
 
   CSPayloadIFPtr sendMessageSync(const OpID &operationID, OpCode opCode,
                                  const CSPayloadIFPtr &msgContent,
@@ -123,10 +128,12 @@ struct ServiceRequester : public ServiceRequesterIF {
   RegID storeAndSendRequestToServer(RegEntriesMap &regEntriesMap,
                                     const CSMessagePtr &outgoingMsg,
                                     CSPayloadProcessCallback callback,
-                                    ActionCallStatus *callStatus);
+                                    ActionCallStatus *callStatus,
+                                    bool wantsUpdates);
 
   size_t storeRegEntry(RegEntriesMap &regInfoEntries, const OpID &propertyID,
-                       CSPayloadProcessCallback callback, RegID &regID);
+                       CSPayloadProcessCallback callback, RegID &regID,
+                       bool wantsUpdates = true);
 
   size_t removeRegEntry(RegEntriesMap &regInfoEntriesMap, const RegID &regID);
 
-- 
2.43.0


From 5e5c23292c78d61da190cc7a7217e1e146ded414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:49 +0000
Subject: [PATCH 36/68] fix: setting the abort callback of an invalid request
 must not call it with the request locked

---
 src/common/maf/messaging/client-server/Request.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/Request.cpp b/src/common/maf/messaging/client-server/Request.cpp
index e71fb72..adf52df 100644
--- a/src/common/maf/messaging/client-server/Request.cpp
+++ b/src/common/maf/messaging/client-server/Request.cpp
@@ -71,8 +71,10 @@ CSPayloadIFPtr Request::getInput() {
 }
 
 void Request::onAborted(AbortRequestCallback abortCallback) {
-  std::lock_guard lock(_mutex);
+  std::unique_lock lock(_mutex);
   if (!_valid) {
+    // unlock because the callback may well ask something of this request
+    lock.unlock();
     abortCallback();
   } else {
     _abortCallback = std::move(abortCallback);
-- 
2.43.0


From 8e04ef4ef8724643c2bdf9469b319be50fc1532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:47 +0000
Subject: [PATCH 37/68] fix: a request sent while its service goes away must
 not wait for ever

---
 .../messaging/client-server/ServiceRequester.cpp   | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index ca92821..af57097 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -166,7 +166,7 @@ void ServiceRequester::init() {}
 void ServiceRequester::deinit() {
   // Prematurely cancel the blocking requests that offers a chance to
   // waiting-thread to exit sooner then prevent some of tricky problems
-  requestEntriesMap_.atomic()->clear();
+  clearAllRequests();
 }
 
 bool ServiceRequester::serviceUnavailable() const noexcept {
@@ -488,11 +488,14 @@ void ServiceRequester::onRequestResult(const CSMessagePtr &msg) {
 }
 
 void ServiceRequester::clearAllRequests() {
-  requestEntriesMap_.atomic()->clear();
+  // the callbacks (and what they own) must be destroyed with nothing locked
+  std::map<OpID, std::list<RegEntry>> entries;
+  requestEntriesMap_.atomic()->swap(entries);
 }
 
 void ServiceRequester::clearAllRegisterEntries() {
-  registerEntriesMap_.atomic()->clear();
+  std::map<OpID, std::list<RegEntry>> entries;
+  registerEntriesMap_.atomic()->swap(entries);
 }
 
 ActionCallStatus ServiceRequester::sendMessageToServer(
@@ -514,7 +517,10 @@ RegID ServiceRequester::storeAndSendRequestToServer(
                 regID, wantsUpdates);
 
   outgoingMsg->setRequestID(regID.requestID);
-  auto status = sendMessageToServer(outgoingMsg);
+  // The service might have gone since its availability was checked, then the
+  // requests have already been cleared and nobody would clear this one
+  auto status = serviceUnavailable() ? ActionCallStatus::ServiceUnavailable
+                                     : sendMessageToServer(outgoingMsg);
   if (status != ActionCallStatus::Success) {
     removeRegEntry(regEntriesMap, regID);
     regID.clear();
-- 
2.43.0


From 26d04af04c0e3f7b8d48a562b10d60517ca2533c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:03 +0000
Subject: [PATCH 38/68] fix: callbacks of removed requests and registrations
 must not be destroyed with their list locked

---
 .../maf/messaging/client-server/ServiceRequester.cpp      | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index af57097..4845a02 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -86,6 +86,8 @@ void ServiceRequester::abortRequest(const RegID &regID,
   );
 
   bool found = false;
+  // its callback must be destroyed with nothing locked
+  std::list<RegEntry> removed;
 
   {  // create {block} for releasing lock on _requestEntriesMap
     std::lock_guard lock(requestEntriesMap_);
@@ -96,7 +98,7 @@ void ServiceRequester::abortRequest(const RegID &regID,
       for (auto requestEntryIt = listOfRequests.begin();
            requestEntryIt != listOfRequests.end(); ++requestEntryIt) {
         if (requestEntryIt->requestID == regID.requestID) {
-          listOfRequests.erase(requestEntryIt);
+          removed.splice(removed.end(), listOfRequests, requestEntryIt);
           found = true;
           break;
         }
@@ -547,13 +549,15 @@ size_t ServiceRequester::storeRegEntry(RegEntriesMap &regInfoEntries,
 
 size_t ServiceRequester::removeRegEntry(RegEntriesMap &regInfoEntriesMap,
                                         const RegID &regID) {
+  // its callback must be destroyed with nothing locked
+  std::list<RegEntry> removed;
   std::lock_guard lock(regInfoEntriesMap);
   auto itEntries = regInfoEntriesMap->find(regID.opID);
   if (itEntries != regInfoEntriesMap->end()) {
     auto &entries = itEntries->second;
     for (auto itEntry = std::begin(entries); itEntry != std::end(entries);) {
       if (itEntry->requestID == regID.requestID) {
-        entries.erase(itEntry);
+        removed.splice(removed.end(), entries, itEntry);
         break;
       }
       ++itEntry;
-- 
2.43.0


From 839377b2b681aca4a6edb7b1847dbfbf26cd1fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:26 +0000
Subject: [PATCH 39/68] fix: clients must be told the changes of a property in
 one order, the last one last, and a listener may register from its callback

---
 .../client-server/ServiceProvider.cpp         | 92 +++++++++++++++----
 .../messaging/client-server/ServiceProvider.h | 10 +-
 2 files changed, 84 insertions(+), 18 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index 4163093..df3d299 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -92,11 +92,15 @@ ActionCallStatus ServiceProvider::setStatus(const OpID &propertyID,
     if (!currentProperty || !currentProperty->equal(newProperty.get())) {
       currentProperty = newProperty;
       notify = true;
+      statusUpdates_.atomic()->push_back([this, propertyID, newProperty] {
+        broadcast(propertyID, OpCode::StatusRegister, newProperty);
+      });
     }
   }
 
   if (notify) {
-    return broadcast(propertyID, OpCode::StatusRegister, newProperty);
+    tellStatusUpdates();
+    return ActionCallStatus::Success;
   } else {
     MAF_LOGGER_INFO("Don't set status of property `", propertyID,
                     "` due to unchanged!");
@@ -106,11 +110,49 @@ ActionCallStatus ServiceProvider::setStatus(const OpID &propertyID,
 
 ActionCallStatus ServiceProvider::removeProperty(const OpID &propertyID,
                                                  bool notify) {
-  propertyMap_.atomic()->erase(propertyID);
-  if (notify) {
-    return broadcast(propertyID, OpCode::StatusRegister, {});
-  } else {
-    return ActionCallStatus::Success;
+  {
+    std::lock_guard lock(propertyMap_);
+    propertyMap_->erase(propertyID);
+    if (notify) {
+      statusUpdates_.atomic()->push_back([this, propertyID] {
+        broadcast(propertyID, OpCode::StatusRegister, {});
+      });
+    }
+  }
+
+  tellStatusUpdates();
+  return ActionCallStatus::Success;
+}
+
+void ServiceProvider::tellStatusUpdates() {
+  // Whoever comes first tells the updates of all, one after the other and with
+  // nothing locked, so that everyone is told about them in the same order
+  std::exception_ptr error;
+  while (true) {
+    std::function<void()> tell;
+    {
+      std::lock_guard lock(statusUpdates_);
+      if (tellingStatusUpdates_ || statusUpdates_->empty()) {
+        break;
+      }
+      tell = std::move(statusUpdates_->front());
+      statusUpdates_->pop_front();
+      tellingStatusUpdates_ = true;
+    }
+
+    try {
+      tell();
+    } catch (...) {
+      error = std::current_exception();
+    }
+    tell = nullptr;
+
+    std::lock_guard lock(statusUpdates_);
+    tellingStatusUpdates_ = false;
+  }
+
+  if (error) {
+    std::rethrow_exception(error);
   }
 }
 
@@ -128,10 +170,16 @@ ActionCallStatus ServiceProvider::broadcast(const OpID &propertyID,
 
 void ServiceProvider::broadcastServerSide(const OpID &opID,
                                           const CSPayloadIFPtr &payload) {
-  LOCK(serverSideListenersMap_);
-  auto it = serverSideListenersMap_->find(opID);
-  if (it != serverSideListenersMap_->end()) {
-    it->second.notify(payload);
+  PropertyStatusChangedSignal *listeners = nullptr;
+  {
+    LOCK(serverSideListenersMap_);
+    auto it = serverSideListenersMap_->find(opID);
+    if (it != serverSideListenersMap_->end()) {
+      listeners = &it->second;  // never removed from the map
+    }
+  }
+  if (listeners) {
+    listeners->notify(payload);
   }
 }
 
@@ -191,8 +239,8 @@ ActionCallStatus ServiceProvider::broadcastToClients(
     // success when succeeded to send msg to at least one receiver
     success = (busyReceivers.size() != addresses.size());
   }
-  return success ? ActionCallStatus::ReceiverUnavailable
-                 : ActionCallStatus::Success;
+  return success || addresses.empty() ? ActionCallStatus::Success
+                                      : ActionCallStatus::ReceiverUnavailable;
 }
 
 CSPayloadIFPtr ServiceProvider::getStatus(const OpID &propertyID) {
@@ -363,15 +411,25 @@ bool ServiceProvider::unregisterRequestHandler(const OpID &opID) {
 
 signal_slots::Connection ServiceProvider::registerNotification(
     const OpID &opID, CSPayloadProcessCallback callback) {
-  LOCK(serverSideListenersMap_);
-  return (*serverSideListenersMap_)[opID].connect(move(callback));
+  PropertyStatusChangedSignal *listeners = nullptr;
+  {
+    LOCK(serverSideListenersMap_);
+    listeners = &(*serverSideListenersMap_)[opID];
+  }
+  return listeners->connect(move(callback));
 }
 
 void ServiceProvider::updateLatestStatus(const CSMessagePtr &registerMsg) {
-  if (auto currentStatus = getStatus(registerMsg->operationID())) {
-    registerMsg->setPayload(currentStatus);
-    sendBackMessageToClient(registerMsg);
+  {
+    std::lock_guard lock(propertyMap_);
+    if (auto itStatus = propertyMap_->find(registerMsg->operationID());
+        itStatus != propertyMap_->end() && itStatus->second) {
+      registerMsg->setPayload(itStatus->second);
+      statusUpdates_.atomic()->push_back(
+          [this, registerMsg] { sendBackMessageToClient(registerMsg); });
+    }
   }
+  tellStatusUpdates();
 }
 
 void ServiceProvider::onStatusGetRequest(const CSMessagePtr &getMsg) {
diff --git a/src/common/maf/messaging/client-server/ServiceProvider.h b/src/common/maf/messaging/client-server/ServiceProvider.h
index 8238614..f63c23f 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.h
+++ b/src/common/maf/messaging/client-server/ServiceProvider.h
@@ -3,6 +3,8 @@
 #include <maf/threading/Lockable.h>
 
 #include <atomic>
+#include <deque>
+#include <functional>
 #include <list>
 #include <map>
 #include <set>
@@ -21,12 +23,13 @@ class ServiceProvider : public ServiceProviderIF,
 
   using RequestPtr                                = std::shared_ptr<Request>;
   using PropertyPtr                               = CSPayloadIFPtr;
-  using PropertyStatusChangedSignal               = signal_slots::SignalST<PropertyPtr>;
+  using PropertyStatusChangedSignal               = signal_slots::Signal<PropertyPtr>;
   using RequestMap                                = OpIDMap<std::list<RequestPtr>>;
   using PropertyMap                               = OpIDMap<PropertyPtr>;
   using ServerSideListenersMap                    = OpIDMap<PropertyStatusChangedSignal>;
   using RequestHandlerMap                         = OpIDMap<RequestHandlerFunction>;
   using Address2OpIDsMap                          = threading::Lockable<std::map<Address, std::set<OpID>>>;
+  using StatusUpdates                             = threading::Lockable<std::deque<std::function<void()>>>;
   // clang-format on
  public:
   ServiceProvider(ServiceID sid, std::weak_ptr<ServerIF> server);
@@ -88,6 +91,7 @@ class ServiceProvider : public ServiceProviderIF,
   void onActionRequest(const CSMessagePtr &msg);
   void updateLatestStatus(const CSMessagePtr &registerMsg);
   void onStatusGetRequest(const CSMessagePtr &getMsg);
+  void tellStatusUpdates();
   RequestHandlerFunction getRequestHandlerCallback(const OpID &opID);
 
  private:
@@ -99,6 +103,10 @@ class ServiceProvider : public ServiceProviderIF,
   PropertyMap                  propertyMap_;
   ServerSideListenersMap       serverSideListenersMap_;
   RequestHandlerMap            requestHandlerMap_;
+  // what is still to be told about properties, in the order of their changes
+  // (added to with propertyMap_ locked)
+  StatusUpdates                statusUpdates_;
+  bool                         tellingStatusUpdates_ = false;
   std::atomic<Availability>    availability_ = Availability::Unavailable;
   // clang-format on
 };
-- 
2.43.0


From 37b5261fa7799269cef3b080954078cc87991682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:40 +0000
Subject: [PATCH 40/68] fix: every registration must be known to the service on
 its own, and a removed or outdated property must not be read from the cache

---
 .../client-server/ServiceProvider.cpp         |  15 ++-
 .../messaging/client-server/ServiceProvider.h |   2 +-
 .../client-server/ServiceRequester.cpp        | 109 +++++++++++-------
 .../client-server/ServiceRequester.h          |   4 +-
 4 files changed, 86 insertions(+), 44 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index df3d299..4af0b68 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -349,11 +349,22 @@ void ServiceProvider::invalidateAndRemoveAllRequests() {
 void ServiceProvider::saveRegisterInfo(const CSMessagePtr &msg) {
   MAF_LOGGER_INFO("Client from ", msg->sourceAddress().get_name(),
                   " registers for property: ", msg->operationID());
-  (*regEntriesMap_.atomic())[msg->sourceAddress()].insert(msg->operationID());
+  (*regEntriesMap_.atomic())[msg->sourceAddress()][msg->operationID()].insert(
+      msg->requestID());
 }
 
 void ServiceProvider::removeRegisterInfo(const CSMessagePtr &msg) {
-  (*regEntriesMap_.atomic())[msg->sourceAddress()].erase(msg->operationID());
+  // Only this very registration, that of another one for the same property
+  // might come before or after it
+  std::lock_guard lock(regEntriesMap_);
+  auto &registeredOpIDs = (*regEntriesMap_)[msg->sourceAddress()];
+  if (auto it = registeredOpIDs.find(msg->operationID());
+      it != registeredOpIDs.end()) {
+    it->second.erase(msg->requestID());
+    if (it->second.empty()) {
+      registeredOpIDs.erase(it);
+    }
+  }
 }
 
 void ServiceProvider::removeAllRegisterInfo() {
diff --git a/src/common/maf/messaging/client-server/ServiceProvider.h b/src/common/maf/messaging/client-server/ServiceProvider.h
index f63c23f..3ad9a5d 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.h
+++ b/src/common/maf/messaging/client-server/ServiceProvider.h
@@ -28,7 +28,7 @@ class ServiceProvider : public ServiceProviderIF,
   using PropertyMap                               = OpIDMap<PropertyPtr>;
   using ServerSideListenersMap                    = OpIDMap<PropertyStatusChangedSignal>;
   using RequestHandlerMap                         = OpIDMap<RequestHandlerFunction>;
-  using Address2OpIDsMap                          = threading::Lockable<std::map<Address, std::set<OpID>>>;
+  using Address2OpIDsMap                          = threading::Lockable<std::map<Address, std::map<OpID, std::set<RequestID>>>>;
   using StatusUpdates                             = threading::Lockable<std::deque<std::function<void()>>>;
   // clang-format on
  public:
diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 4845a02..568d032 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -33,13 +33,9 @@ bool ServiceRequester::onIncomingMessage(const CSMessagePtr &csMsg) {
   if (csMsg && csMsg->serviceID() == serviceID()) {
     switch (csMsg->operationCode()) {
       case OpCode::SignalRegister:
+      case OpCode::StatusRegister:
         onRegistersUpdated(csMsg);
         break;
-      case OpCode::StatusRegister: {
-        if (onRegistersUpdated(csMsg)) {
-          cachePropertyStatus(csMsg->operationID(), csMsg->payload());
-        }
-      } break;
       case OpCode::PartialRequestUpdate:
       case OpCode::Request:
       case OpCode::StatusGet:
@@ -297,27 +293,23 @@ RegID ServiceRequester::registerNotification(const OpID &opID, OpCode opCode,
                           {});
 
   RegID regID;
-  auto sameRegisterCount =
-      storeRegEntry(registerEntriesMap_, opID, callback, regID);
-  if (sameRegisterCount == 1) {
-    auto registerMessage = createCSMessage(opID, opCode);
-
-    registerMessage->setRequestID(regID.requestID);
+  if (storeRegEntry(registerEntriesMap_, opID, std::move(callback), regID) ==
+      1) {
+    // whatever is known from former registrations might be out of date
+    removeCachedProperty(opID);
+  }
 
-    auto status = sendMessageToServer(registerMessage);
-    if (status != ActionCallStatus::Success) {
-      removeRegEntry(registerEntriesMap_, regID);
-      regID.clear();
-    }
+  auto registerMessage = createCSMessage(opID, opCode);
+  registerMessage->setRequestID(regID.requestID);
 
-    assign_ptr(callStatus, status);
-  } else if (opCode == OpCode::StatusRegister) {
-    if (auto cachedProperty = getCachedProperty(opID)) {
-      callback(cachedProperty);
-    }
-    assign_ptr(callStatus, ActionCallStatus::Success);
+  auto status = sendMessageToServer(registerMessage);
+  if (status != ActionCallStatus::Success) {
+    removeRegEntry(registerEntriesMap_, regID);
+    regID.clear();
   }
 
+  assign_ptr(callStatus, status);
+
   return regID;
 }
 
@@ -354,14 +346,12 @@ ActionCallStatus ServiceRequester::unregister(const RegID &regID) {
     auto propertyID = regID.opID;
     auto totalRemainer = removeRegEntry(registerEntriesMap_, regID);
     if (totalRemainer == 0) {
-      // send unregister if no one from client side interested
-      // in this propertyID anymore
       removeCachedProperty(propertyID);
-      if (serviceUnavailable()) {
-        callstatus = ActionCallStatus::ServiceUnavailable;
-      } else {
-        sendMessageToServer(createCSMessage(propertyID, OpCode::Unregister));
-      }
+    }
+    if (!serviceUnavailable()) {
+      sendUnregister(regID);
+    } else if (totalRemainer == 0) {
+      callstatus = ActionCallStatus::ServiceUnavailable;
     }
   } else {
     callstatus = ActionCallStatus::InvalidParam;
@@ -376,23 +366,43 @@ ActionCallStatus ServiceRequester::unregisterAll(const OpID &propertyID) {
   if (serviceUnavailable()) {
     callstatus = ActionCallStatus::ServiceUnavailable;
   } else {
-    registerEntriesMap_.atomic()->erase(propertyID);
-    sendMessageToServer(createCSMessage(propertyID, OpCode::Unregister));
+    // the callbacks must be destroyed with nothing locked
+    std::list<RegEntry> removed;
+    {
+      std::lock_guard lock(registerEntriesMap_);
+      if (auto it = registerEntriesMap_->find(propertyID);
+          it != registerEntriesMap_->end()) {
+        removed.swap(it->second);
+        registerEntriesMap_->erase(it);
+      }
+    }
+    for (const auto &entry : removed) {
+      RegID regID;
+      regID.requestID = entry.requestID;
+      regID.opID = propertyID;
+      sendUnregister(regID);
+    }
     removeCachedProperty(propertyID);
   }
 
   return callstatus;
 }
 
+void ServiceRequester::sendUnregister(const RegID &regID) {
+  auto msg = createCSMessage(regID.opID, OpCode::Unregister);
+  msg->setRequestID(regID.requestID);
+  sendMessageToServer(msg);
+}
+
 CSPayloadIFPtr ServiceRequester::getStatus(const OpID &propertyID,
                                            ActionCallStatus *callStatus,
                                            RequestTimeoutMs timeout) {
   if (serviceUnavailable()) {
     assign_ptr(callStatus, ActionCallStatus::ServiceUnavailable);
     return getCachedProperty(propertyID);
-  } else if (subscribingProperty(propertyID)) {
+  } else if (auto property = getSubscribedProperty(propertyID)) {
     assign_ptr(callStatus, ActionCallStatus::Success);
-    return getCachedProperty(propertyID);
+    return property;
   } else {
     SET_ERROR_AND_RETURN_IF(serviceUnavailable(), callStatus,
                             ActionCallStatus::ServiceUnavailable, {});
@@ -409,16 +419,16 @@ ActionCallStatus ServiceRequester::getStatus(
   if (serviceUnavailable()) {
     callback(getCachedProperty(propertyID));
     callstatus = ActionCallStatus::ServiceUnavailable;
-  } else if (subscribingProperty(propertyID)) {
-    callback(getCachedProperty(propertyID));
+  } else if (auto property = getSubscribedProperty(propertyID)) {
+    callback(property);
   } else {
     sendMessageAsync(propertyID, OpCode::StatusGet, {}, std::move(callback),
-                     nullptr);
+                     &callstatus);
   }
   return callstatus;
 }
 
-bool ServiceRequester::onRegistersUpdated(const CSMessagePtr &msg) {
+void ServiceRequester::onRegistersUpdated(const CSMessagePtr &msg) {
   std::vector<decltype(RegEntry::callback)> callbacks;
 
   {
@@ -426,11 +436,20 @@ bool ServiceRequester::onRegistersUpdated(const CSMessagePtr &msg) {
     auto it = registerEntriesMap_->find(msg->operationID());
     if (it != registerEntriesMap_->end()) {
       for (auto &regEntry : it->second) {
-        callbacks.push_back(regEntry.callback);
+        // the answer to a registration is only for this one
+        if (msg->requestID() == RequestIDInvalid ||
+            msg->requestID() == regEntry.requestID) {
+          callbacks.push_back(regEntry.callback);
+        }
       }
     }
   }
 
+  // must be known before the callbacks ask for it
+  if (!callbacks.empty() && msg->operationCode() == OpCode::StatusRegister) {
+    cachePropertyStatus(msg->operationID(), msg->payload());
+  }
+
   if (auto payload = msg->payload()) {
     for (auto &callback : callbacks) {
       // the payload must be cloned here due to state of
@@ -442,7 +461,6 @@ bool ServiceRequester::onRegistersUpdated(const CSMessagePtr &msg) {
       callback(payload);
     }
   }
-  return !callbacks.empty();
 }
 
 void ServiceRequester::onRequestResult(const CSMessagePtr &msg) {
@@ -587,7 +605,12 @@ CSPayloadIFPtr ServiceRequester::getCachedProperty(
 
 void ServiceRequester::cachePropertyStatus(const OpID &propertyID,
                                            CSPayloadIFPtr &&property) {
-  propertiesCache_.atomic()->insert_or_assign(propertyID, std::move(property));
+  if (property) {
+    propertiesCache_.atomic()->insert_or_assign(propertyID,
+                                                std::move(property));
+  } else {
+    removeCachedProperty(propertyID);  // it was removed from the service
+  }
 }
 
 void ServiceRequester::removeCachedProperty(const OpID &propertyID) {
@@ -604,5 +627,11 @@ bool ServiceRequester::subscribingProperty(const OpID &propertyID) const {
   return registerEntriesMap_->find(propertyID) != registerEntriesMap_->end();
 }
 
+CSPayloadIFPtr ServiceRequester::getSubscribedProperty(
+    const OpID &propertyID) const {
+  return subscribingProperty(propertyID) ? getCachedProperty(propertyID)
+                                         : CSPayloadIFPtr{};
+}
+
 }  // namespace messaging
 }  // namespace maf
diff --git a/src/common/maf/messaging/client-server/ServiceRequester.h b/src/common/maf/messaging/client-server/ServiceRequester.h
index 6aae837..7f67bcc 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.h
+++ b/src/common/maf/messaging/client-server/ServiceRequester.h
@@ -119,7 +119,8 @@ struct ServiceRequester : public ServiceRequesterIF {
   CSMessagePtr createCSMessage(const OpID &opID, OpCode opCode,
                                const CSPayloadIFPtr &msgContent = nullptr);
 
-  bool onRegistersUpdated(const CSMessagePtr &msg);
+  void onRegistersUpdated(const CSMessagePtr &msg);
+  void sendUnregister(const RegID &regID);
   void onRequestResult(const CSMessagePtr &msg);
   void clearAllRequests();
   void clearAllRegisterEntries();
@@ -142,6 +143,7 @@ struct ServiceRequester : public ServiceRequesterIF {
   void removeCachedProperty(const OpID &propertyID);
   bool cachedPropertyUpToDate(const OpID &propertyID) const;
   bool subscribingProperty(const OpID &propertyID) const;
+  CSPayloadIFPtr getSubscribedProperty(const OpID &propertyID) const;
 
   RegEntriesMap registerEntriesMap_;
   RegEntriesMap requestEntriesMap_;
-- 
2.43.0


From 6b804b80d0b3d15a31e1ec78ca66ea1a97849bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:40 +0000
Subject: [PATCH 41/68] fix: observers of a service must be told its states in
 one order, the last one last, with nothing locked

---
 .../messaging/client-server/ClientBase.cpp    |  21 +++-
 .../client-server/ServiceProvider.cpp         |  33 ++++--
 .../messaging/client-server/ServiceProvider.h |   4 +
 .../client-server/ServiceRequester.cpp        | 112 +++++++++++-------
 .../client-server/ServiceRequester.h          |  13 +-
 5 files changed, 125 insertions(+), 58 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ClientBase.cpp b/src/common/maf/messaging/client-server/ClientBase.cpp
index ce63a62..dffe9a5 100644
--- a/src/common/maf/messaging/client-server/ClientBase.cpp
+++ b/src/common/maf/messaging/client-server/ClientBase.cpp
@@ -14,8 +14,10 @@ void ClientBase::onServerStatusChanged(Availability oldStatus,
                                        Availability newStatus) noexcept {
   if (newStatus != Availability::Available) {
     _serviceStatusMap.atomic()->clear();
-    std::lock_guard lock(_requestersMap);
-    for (auto &[sid, requester] : *_requestersMap) {
+    // observers might ask for a requester, then nothing must be locked
+    std::map<ServiceID, ServiceRequesterIFPtr> requesters =
+        *_requestersMap.atomic();
+    for (auto &[sid, requester] : requesters) {
       requester->onServiceStatusChanged(sid, oldStatus, newStatus);
     }
   }
@@ -28,10 +30,17 @@ void ClientBase::onServiceStatusChanged(const ServiceID &sid,
                   "]: ", oldStatus, "-->", newStatus);
 
   (*_serviceStatusMap.atomic())[sid] = newStatus;
-  std::lock_guard lock(_requestersMap);
-  auto itProxy = _requestersMap->find(sid);
-  if (itProxy != _requestersMap->end()) {
-    itProxy->second->onServiceStatusChanged(sid, oldStatus, newStatus);
+  // observers might ask for a requester, then nothing must be locked
+  ServiceRequesterIFPtr requester;
+  {
+    std::lock_guard lock(_requestersMap);
+    if (auto itProxy = _requestersMap->find(sid);
+        itProxy != _requestersMap->end()) {
+      requester = itProxy->second;
+    }
+  }
+  if (requester) {
+    requester->onServiceStatusChanged(sid, oldStatus, newStatus);
   } else {
     MAF_LOGGER_WARN("There's no proxy for this service id: ", sid);
   }
diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index 4af0b68..26f9b55 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -264,18 +264,33 @@ void ServiceProvider::deinit() {
 }
 
 void ServiceProvider::startServing() {
-  availability_ = Availability::Available;
-  if (auto server = server_.lock()) {
-    server->onServiceStatusChanged(serviceID(), Availability::Unavailable,
-                                   Availability::Available);
-  }
+  changeAvailability(Availability::Available);
 }
 
 void ServiceProvider::stopServing() {
-  availability_ = Availability::Unavailable;
-  if (auto server = server_.lock()) {
-    server->onServiceStatusChanged(serviceID(), Availability::Available,
-                                   Availability::Unavailable);
+  changeAvailability(Availability::Unavailable);
+}
+
+void ServiceProvider::changeAvailability(Availability newAvailability) {
+  std::unique_lock lock(availabilityChanges_);
+  availability_ = newAvailability;
+  availabilityChanges_->push_back(newAvailability);
+  // Whoever comes first announces the changes of all, one after the other and
+  // with nothing locked, so that the last one announced is the latest
+  while (!announcing_ && !availabilityChanges_->empty()) {
+    auto announced = availabilityChanges_->front();
+    availabilityChanges_->pop_front();
+    announcing_ = true;
+    lock.unlock();
+    if (auto server = server_.lock()) {
+      server->onServiceStatusChanged(serviceID(),
+                                     announced == Availability::Available
+                                         ? Availability::Unavailable
+                                         : Availability::Available,
+                                     announced);
+    }
+    lock.lock();
+    announcing_ = false;
   }
 }
 
diff --git a/src/common/maf/messaging/client-server/ServiceProvider.h b/src/common/maf/messaging/client-server/ServiceProvider.h
index 3ad9a5d..486f1c0 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.h
+++ b/src/common/maf/messaging/client-server/ServiceProvider.h
@@ -29,6 +29,7 @@ class ServiceProvider : public ServiceProviderIF,
   using ServerSideListenersMap                    = OpIDMap<PropertyStatusChangedSignal>;
   using RequestHandlerMap                         = OpIDMap<RequestHandlerFunction>;
   using Address2OpIDsMap                          = threading::Lockable<std::map<Address, std::map<OpID, std::set<RequestID>>>>;
+  using AvailabilityChanges                       = threading::Lockable<std::deque<Availability>>;
   using StatusUpdates                             = threading::Lockable<std::deque<std::function<void()>>>;
   // clang-format on
  public:
@@ -92,6 +93,7 @@ class ServiceProvider : public ServiceProviderIF,
   void updateLatestStatus(const CSMessagePtr &registerMsg);
   void onStatusGetRequest(const CSMessagePtr &getMsg);
   void tellStatusUpdates();
+  void changeAvailability(Availability newAvailability);
   RequestHandlerFunction getRequestHandlerCallback(const OpID &opID);
 
  private:
@@ -108,6 +110,8 @@ class ServiceProvider : public ServiceProviderIF,
   StatusUpdates                statusUpdates_;
   bool                         tellingStatusUpdates_ = false;
   std::atomic<Availability>    availability_ = Availability::Unavailable;
+  AvailabilityChanges          availabilityChanges_;   // still to be announced
+  bool                         announcing_ = false;
   // clang-format on
 };
 
diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 568d032..e1fc0cb 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -6,6 +6,7 @@
 #include <maf/messaging/client-server/Exceptions.h>
 #include <maf/utils/Pointers.h>
 
+#include <algorithm>
 #include <variant>
 
 #define SET_ERROR_AND_RETURN_IF(condition, pErrorStore, errorValue, \
@@ -118,30 +119,34 @@ void ServiceRequester::abortRequest(const RegID &regID,
 void ServiceRequester::registerServiceStatusObserver(
     ServiceStatusObserverPtr observer) {
   if (observer) {
-    Availability currentServiceStatus;
     {
       // both getting serviceStatus and pushing observer
       // to list must be in critical section to make sure
       // observer will never be missed the latest status event
       std::lock_guard lock(serviceStatusObservers_);
-      currentServiceStatus = serviceStatus();
       serviceStatusObservers_->push_back(observer);
+      if (serviceStatus() == Availability::Available) {
+        statusUpdates_.push_back({{observer},
+                                  Availability::Unknown,
+                                  Availability::Available});
+      }
     }
-
-    if (currentServiceStatus == Availability::Available) {
-      // dont execute notification in critical section,
-      // that might block other thread to update service status
-      // when status has changed
-      observer->onServiceStatusChanged(serviceID(), Availability::Unknown,
-                                       Availability::Available);
-    }
+    tellServiceStatusUpdates();
   }
 }
 
 void ServiceRequester::unregisterServiceStatusObserver(
     const ServiceStatusObserverPtr &observer) {
-  serviceStatusObservers_.atomic()->remove_if(
-      [&observer](const auto &obsv) { return obsv == observer; });
+  // to be destroyed, if nobody else has it, with nothing locked
+  std::list<ServiceStatusObserverPtr> removed;
+  std::lock_guard lock(serviceStatusObservers_);
+  for (auto it = serviceStatusObservers_->begin();
+       it != serviceStatusObservers_->end();) {
+    auto current = it++;
+    if (*current == observer) {
+      removed.splice(removed.end(), *serviceStatusObservers_, current);
+    }
+  }
 }
 
 CSPayloadIFPtr ServiceRequester::sendRequest(const OpID &opID,
@@ -247,42 +252,69 @@ void ServiceRequester::onServiceStatusChanged(const ServiceID &sid,
                                               Availability oldStatus,
                                               Availability newStatus) {
   MAF_LOGGER_INFO("Server status change from ", oldStatus, " to ", newStatus);
-  if ((sid == serviceID()) && (newStatus != serviceStatus_)) {
-    serviceStatus_ = newStatus;
+  if (sid == serviceID()) {
+    {
+      std::lock_guard lock(serviceStatusObservers_);
+      if (newStatus == serviceStatus_) {
+        return;
+      }
+      serviceStatus_ = newStatus;
+      statusUpdates_.push_back(
+          {*serviceStatusObservers_, oldStatus, newStatus});
+    }
     if (newStatus == Availability::Unavailable) {
-      serviceStatus_ = Availability::Unavailable;
       clearAllRequests();
       clearAllRegisterEntries();
     }
-    forwardServiceStatusToObservers(sid, oldStatus, newStatus);
+    tellServiceStatusUpdates();
   }
 }
 
-void ServiceRequester::forwardServiceStatusToObservers(const ServiceID &sid,
-                                                       Availability oldStatus,
-                                                       Availability newStatus) {
-  std::lock_guard lock(serviceStatusObservers_);
-  for (auto itO = std::begin(*serviceStatusObservers_);
-       itO != std::end(*serviceStatusObservers_);) {
-    try {
-      (*itO)->onServiceStatusChanged(sid, oldStatus, newStatus);
-    } catch (const UnavailableException &) {
-      MAF_LOGGER_WARN(
-          "An observer of ", sid,
-          " is no longer available, then remove it from list observers");
-      itO = serviceStatusObservers_->erase(itO);
-      continue;
-    } catch (const std::exception &e) {
-      MAF_LOGGER_WARN("EXCEPTION: ", e.what(),
-                      " when notify service status change of ", sid);
-      throw;
-    } catch (...) {
-      MAF_LOGGER_WARN(
-          "UNKNOWN EXCEPTION occurred when notify service status change of ",
-          sid);
-      throw;
+void ServiceRequester::tellServiceStatusUpdates() {
+  // Whoever comes first tells the updates of all, one after the other and with
+  // nothing locked, so that the last one an observer is told is the latest
+  std::unique_lock lock(serviceStatusObservers_);
+  while (!tellingStatusUpdates_ && !statusUpdates_.empty()) {
+    auto update = std::move(statusUpdates_.front());
+    statusUpdates_.pop_front();
+    tellingStatusUpdates_ = true;
+    lock.unlock();
+    for (const auto &observer : update.observers) {
+      tellServiceStatus(observer, update.oldStatus, update.newStatus);
     }
-    ++itO;
+    update.observers.clear();
+    lock.lock();
+    tellingStatusUpdates_ = false;
+  }
+}
+
+void ServiceRequester::tellServiceStatus(
+    const ServiceStatusObserverPtr &observer, Availability oldStatus,
+    Availability newStatus) {
+  {
+    std::lock_guard lock(serviceStatusObservers_);
+    if (std::find(serviceStatusObservers_->begin(),
+                  serviceStatusObservers_->end(),
+                  observer) == serviceStatusObservers_->end()) {
+      return;  // unregistered in the meantime
+    }
+  }
+  try {
+    observer->onServiceStatusChanged(serviceID(), oldStatus, newStatus);
+  } catch (const UnavailableException &) {
+    MAF_LOGGER_WARN(
+        "An observer of ", serviceID(),
+        " is no longer available, then remove it from list observers");
+    unregisterServiceStatusObserver(observer);
+  } catch (const std::exception &e) {
+    MAF_LOGGER_WARN("EXCEPTION: ", e.what(),
+                    " when notify service status change of ", serviceID());
+    throw;
+  } catch (...) {
+    MAF_LOGGER_WARN(
+        "UNKNOWN EXCEPTION occurred when notify service status change of ",
+        serviceID());
+    throw;
   }
 }
 
diff --git a/src/common/maf/messaging/client-server/ServiceRequester.h b/src/common/maf/messaging/client-server/ServiceRequester.h
index 7f67bcc..ecd9293 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.h
+++ b/src/common/maf/messaging/client-server/ServiceRequester.h
@@ -46,6 +46,10 @@ struct ServiceRequester : public ServiceRequesterIF {
   using ServiceStatusObserverPtr = ServiceRequesterIF::ServiceStatusObserverPtr;
   using ServiceStatusObservers =
       threading::Lockable<std::list<ServiceStatusObserverPtr>>;
+  struct ServiceStatusUpdate {
+    std::list<ServiceStatusObserverPtr> observers;
+    Availability oldStatus, newStatus;
+  };
 
   ServiceRequester(const ServiceID &sid, std::weak_ptr<ClientIF> client);
   ~ServiceRequester();
@@ -96,9 +100,9 @@ struct ServiceRequester : public ServiceRequesterIF {
                               Availability newStatus) override;
 
  private:
-  void forwardServiceStatusToObservers(const ServiceID &sid,
-                                       Availability oldStatus,
-                                       Availability newStatus);
+  void tellServiceStatusUpdates();
+  void tellServiceStatus(const ServiceStatusObserverPtr &observer,
+                         Availability oldStatus, Availability newStatus);
 
   RegID registerNotification(const OpID &opID, OpCode opCode,
                              CSPayloadProcessCallback callback,
@@ -148,6 +152,9 @@ struct ServiceRequester : public ServiceRequesterIF {
   RegEntriesMap registerEntriesMap_;
   RegEntriesMap requestEntriesMap_;
   ServiceStatusObservers serviceStatusObservers_;
+  // what is still to be told to the observers (guarded by their lock)
+  std::list<ServiceStatusUpdate> statusUpdates_;
+  bool tellingStatusUpdates_ = false;
   CSMsgContentMap propertiesCache_;
   std::weak_ptr<ClientIF> client_;
   CSIDManager idMgr_;
-- 
2.43.0


From 44b4cdc2dea83c3262bb71bd716865b2ef69afa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:06 +0000
Subject: [PATCH 42/68] fix: a message the local IPC sender could not transfer
 must not be reported as sent, nor may its receiver's end kill the sender

---
 .../ipc/LocalIPCBufferSenderImpl.cpp          | 95 ++++++++-----------
 .../client-server/ipc/SocketShared.h          | 19 +++-
 2 files changed, 58 insertions(+), 56 deletions(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
index abdfb42..5999bb8 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
@@ -1,5 +1,7 @@
 #include "LocalIPCBufferSenderImpl.h"
 
+#include <limits>
+
 #define ns_global
 
 namespace maf {
@@ -9,17 +11,32 @@ namespace local {
 
 namespace {
 
-static bool connectable(sockaddr_un *sockaddr) {
+static bool connectable(const SocketPath &sockpath) {
+  if (!isValidSocketPath(sockpath)) {
+    return false;
+  }
   AutoCloseFD<SockFD> fd;
   if (fd = socket(AF_UNIX, SOCK_STREAM, 0); fd == INVALID_FD) {
     MAF_SOCKET_ERROR("Cannot create socket");
-  } else {
-    if (connect(fd, _2sockAddr(sockaddr), sizeof(sockaddr_un)) == INVALID_FD) {
-      // MAF_SOCKET_ERROR("Cannot connect to socket");
-      fd.reset();
+    return false;
+  }
+  auto addr = createUnixAbstractSocketAddr(sockpath);
+  return connectTo(fd, addr);
+}
+
+// Sends everything or fails; a receiver that closes the connection meanwhile
+// must not kill this process with SIGPIPE
+static bool sendAll(SockFD fd, const char *bytes, size_t size) {
+  while (size > 0) {
+    auto sent = ns_global::send(fd, bytes, size, MSG_NOSIGNAL);
+    if (sent >= 0) {
+      bytes += sent;
+      size -= static_cast<size_t>(sent);
+    } else if (errno != EINTR) {
+      return false;
     }
   }
-  return fd != INVALID_FD;
+  return true;
 }
 }  // namespace
 
@@ -30,60 +47,32 @@ ActionCallStatus LocalIPCBufferSenderImpl::send(const Buffer &payload,
 
 Availability LocalIPCBufferSenderImpl::checkReceiverStatus(
     const Address &destination) const {
-  static thread_local sockaddr_un destSockAddr;
-  static thread_local Address destAddr;
-  if (destination != destAddr) {
-    destAddr = destination;
-    destSockAddr = createUnixAbstractSocketAddr(destAddr.get_name());
-  }
-
-  return connectable(&destSockAddr) ? Availability::Available
-                                    : Availability::Unavailable;
+  return connectable(destination.get_name()) ? Availability::Available
+                                             : Availability::Unavailable;
 }
 
 ActionCallStatus LocalIPCBufferSenderImpl::send(const Buffer &payload,
                                                 const SocketPath &sockpath) {
-  ActionCallStatus acs = ActionCallStatus::FailedUnknown;
-  if (auto fd = connectToSocket(sockpath); fd != INVALID_FD) {
-    SizeType totalWritten = 0;
-    SizeType payloadSize = static_cast<SizeType>(payload.length());
-
-    // First write is to send payload size to receiver to reserve a buffer
-    if (auto written = ns_global::write(
-            fd, reinterpret_cast<char *>(&payloadSize), sizeof(SizeType));
-        written == sizeof(SizeType)) {
-      // Second write is to send payload content
-      do {
-        if (written = ns_global::write(fd, payload.data() + totalWritten,
-                                       payloadSize - totalWritten);
-            written != -1) {
-          totalWritten += written;
-        } else {
-          MAF_SOCKET_ERROR("Failed to send bytes to receiver, total written = ",
-                           totalWritten);
-          acs = ActionCallStatus::FailedUnknown;
-          break;
-        }
-      } while (totalWritten < payloadSize);
+  if (payload.length() > std::numeric_limits<SizeType>::max()) {
+    MAF_LOGGER_ERROR("Payload is too large to be sent: ", payload.length());
+    return ActionCallStatus::FailedUnknown;
+  }
 
-      acs = ActionCallStatus::Success;
-    } else {
-      MAF_SOCKET_ERROR("Failed to send payload size[", payloadSize,
-                       "] to receiver");
-    }
+  auto fd = connectToSocket(sockpath);
+  if (fd == INVALID_FD) {
+    return ActionCallStatus::ReceiverUnavailable;
+  }
 
-    if (acs != ActionCallStatus::Success) {
-      if (totalWritten == 0) {
-      } else {
-        // ec = FailedUnknown, must provide more info for debugging purpose
-        MAF_LOGGER_ERROR("Failed to send payload to receiver, expected is ",
-                         sizeof(SizeType), ", sent was ", totalWritten);
-      }
-    }
-  } else {
-    acs = ActionCallStatus::ReceiverUnavailable;
+  // The payload size goes first, so that receiver knows what to wait for
+  auto payloadSize = static_cast<SizeType>(payload.length());
+  if (!sendAll(fd, reinterpret_cast<const char *>(&payloadSize),
+               sizeof(payloadSize)) ||
+      !sendAll(fd, payload.data(), payload.length())) {
+    MAF_SOCKET_ERROR("Failed to send payload of size ", payloadSize,
+                     " to receiver ", sockpath);
+    return ActionCallStatus::FailedUnknown;
   }
-  return acs;
+  return ActionCallStatus::Success;
 }
 
 }  // namespace local
diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h b/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h
index 08a58f3..f7a8433 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h
@@ -1,12 +1,15 @@
 #pragma once
 
-#include <error.h>
+#include <errno.h>
 #include <maf/logging/Logger.h>
 #include <maf/messaging/client-server/Address.h>
 #include <sys/socket.h>
 #include <sys/un.h>
 #include <unistd.h>
 
+#include <cstring>
+#include <string>
+
 namespace maf {
 namespace messaging {
 namespace ipc {
@@ -25,7 +28,9 @@ class AutoCloseFD {
 
 public:
   AutoCloseFD(FileDescriptor fd_ = INVALID_VALUE) : fd{fd_} {}
-  AutoCloseFD(AutoCloseFD &&rhs) { takefrom(std::move(rhs)); }
+  AutoCloseFD(AutoCloseFD &&rhs) : fd{INVALID_VALUE} {
+    takefrom(std::move(rhs));
+  }
   AutoCloseFD &operator=(AutoCloseFD &&rhs) {
     takefrom(std::move(rhs));
     return *this;
@@ -72,6 +77,14 @@ template <typename SockAddress> inline sockaddr *_2sockAddr(SockAddress *sa) {
   return reinterpret_cast<sockaddr *>(sa);
 }
 
+inline bool connectTo(SockFD fd, sockaddr_un &addr) {
+  int result = -1;
+  do {
+    result = connect(fd, _2sockAddr(&addr), sizeof(addr));
+  } while (result == -1 && errno == EINTR);
+  return result == 0;
+}
+
 inline AutoCloseFD<SockFD> connectToSocket(const std::string &sockpath) {
   AutoCloseFD<SockFD> fd;
   if (isValidSocketPath(sockpath)) {
@@ -79,7 +92,7 @@ inline AutoCloseFD<SockFD> connectToSocket(const std::string &sockpath) {
       MAF_SOCKET_ERROR("Could not allocate new socket");
     } else {
       auto addr = createUnixAbstractSocketAddr(sockpath);
-      if (connect(fd, _2sockAddr(&addr), sizeof(addr)) == INVALID_FD) {
+      if (!connectTo(fd, addr)) {
         MAF_SOCKET_ERROR("Can't connect to address ", sockpath);
         fd.reset();
       }
-- 
2.43.0


From 02f9c1a0d5e39bd58ffa7464ed47ec1942b4ec70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:06 +0000
Subject: [PATCH 43/68] fix: the local IPC receiver must survive partial
 messages, stalled peers and failing calls, and end whenever it is stopped

---
 .../ipc/LocalIPCBufferReceiverImpl.cpp        | 295 +++++++++---------
 .../ipc/LocalIPCBufferReceiverImpl.h          |  26 +-
 2 files changed, 167 insertions(+), 154 deletions(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
index 9a22f2a..59788e9 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
@@ -1,10 +1,10 @@
 #include "LocalIPCBufferReceiverImpl.h"
 
-#include <arpa/inet.h>
 #include <maf/logging/Logger.h>
-#include <netinet/in.h>
-#include <stdlib.h>
-#include <sys/stat.h>
+#include <poll.h>
+
+#include <algorithm>
+#include <exception>
 
 #include "SocketShared.h"
 
@@ -13,75 +13,91 @@ namespace messaging {
 namespace ipc {
 namespace local {
 
-LocalIPCBufferReceiverImpl::~LocalIPCBufferReceiverImpl() { stop(); }
+static constexpr int MAX_PENDING_CONNECTIONS = 5;
+static constexpr int ACCEPT_RETRY_DELAY_MS = 50;
+static constexpr size_t MAX_BYTES_PER_READ = 64 * 1024;
+
+struct LocalIPCBufferReceiverImpl::Connection {
+  explicit Connection(AutoCloseFD<SockFD> &&sd) : fd{std::move(sd)} {}
+  AutoCloseFD<SockFD> fd;
+  SizeType length = 0;
+  size_t received = 0;  // the bytes of length included
+  srz::Buffer payload;
+};
+
+LocalIPCBufferReceiverImpl::~LocalIPCBufferReceiverImpl() { deinit(); }
 
 bool LocalIPCBufferReceiverImpl::init(const Address &addr) {
-  bool startable = false;
-  myaddr_ = addr;
-  auto sockpath = myaddr_.get_name();
-  if (isValidSocketPath(sockpath)) {
-    mySockAddr_ = createUnixAbstractSocketAddr(sockpath);
-    setState(State::Initialized);
-    // Create the socket.
-    int opt = true;
-    fdMySock_ = socket(AF_UNIX, SOCK_STREAM, 0);
-    if (fdMySock_ != INVALID_FD &&
-        (setsockopt(fdMySock_, SOL_SOCKET, SO_REUSEADDR,
-                    reinterpret_cast<char *>(&opt), sizeof(opt)) >= 0)) {
-      if (bind(fdMySock_, _2sockAddr(&mySockAddr_), sizeof(mySockAddr_)) >= 0) {
-        // Max 5 pending connections
-        if (listen(fdMySock_, 5) == 0) {
-          MAF_LOGGER_INFO("Listening on address ", myaddr_.dump());
-          setState(State::Initialized);
-          startable = true;
-        } else {
-          MAF_LOGGER_ERROR("Could not listen on socket");
-        }
-      } else {
-        MAF_LOGGER_ERROR("Coud not bind socket to address ", myaddr_.dump());
-      }
-    }
+  std::lock_guard lock(mutex_);
+  if (state_ == State::Running || !isValidSocketPath(addr.get_name())) {
+    return false;
   }
+  myaddr_ = addr;
+  state_ = State::Uninitialized;
+  fdMySock_.reset();
 
-  return startable;
+  AutoCloseFD<SockFD> fd;
+  if (fd = socket(AF_UNIX, SOCK_STREAM, 0); fd == INVALID_FD) {
+    MAF_SOCKET_ERROR("Could not allocate new socket");
+    return false;
+  }
+  auto mySockAddr = createUnixAbstractSocketAddr(myaddr_.get_name());
+  if (bind(fd, _2sockAddr(&mySockAddr), sizeof(mySockAddr)) == -1) {
+    MAF_SOCKET_ERROR("Coud not bind socket to address ", myaddr_.dump());
+    return false;
+  }
+  if (listen(fd, MAX_PENDING_CONNECTIONS) == -1) {
+    MAF_SOCKET_ERROR("Could not listen on socket");
+    return false;
+  }
+  MAF_LOGGER_INFO("Listening on address ", myaddr_.dump());
+  fdMySock_ = std::move(fd);
+  state_ = State::Initialized;
+  return true;
 }
 
 bool LocalIPCBufferReceiverImpl::start() {
-  try {
-    if (getState() == State::Initialized) {
-      setState(State::Running);
-      waitAndProcessConnections();
-    } else {
+  {
+    std::lock_guard lock(mutex_);
+    if (state_ != State::Initialized) {
       return false;
     }
-  } catch (StoppedInterruption) {
+    state_ = State::Running;
+  }
+
+  bool success = true;
+  try {
+    waitAndProcessConnections();
+  } catch (const std::exception &e) {
+    MAF_LOGGER_ERROR("Receiver stopped due to an exception: ", e.what());
+    success = false;
   } catch (...) {
-    return false;
+    success = false;
   }
-  return true;
+
+  // From now on, nobody can connect to this address
+  std::lock_guard lock(mutex_);
+  state_ = State::Stopped;
+  fdMySock_.reset();
+  return success;
 }
 
 void LocalIPCBufferReceiverImpl::stop() {
-  if (running()) {
-    auto currentState = getState();
-    setState(State::Stopped);
-    // trying connect to socket to wake the running thread
-    if (currentState == State::WaitingConnection) {
-      connectToSocket(myaddr_.get_name());
-    }
+  std::lock_guard lock(mutex_);
+  if (state_ == State::Initialized) {
+    state_ = State::Stopped;
+    fdMySock_.reset();
+  } else if (state_ == State::Running) {
+    state_ = State::Stopped;
+    // Wakes up the running thread
+    shutdown(fdMySock_, SHUT_RDWR);
   }
 }
 
-void LocalIPCBufferReceiverImpl::deinit() {}
+void LocalIPCBufferReceiverImpl::deinit() { stop(); }
 
 bool LocalIPCBufferReceiverImpl::running() const {
-  switch (getState()) {
-    case State::Running:
-    case State::WaitingConnection:
-      return true;
-    default:
-      return false;
-  }
+  return getState() == State::Running;
 }
 
 const Address &LocalIPCBufferReceiverImpl::address() const { return myaddr_; }
@@ -90,107 +106,106 @@ void LocalIPCBufferReceiverImpl::setObserver(BytesComeCallback callback) {
   bytesComeCallback_ = std::move(callback);
 }
 
-bool LocalIPCBufferReceiverImpl::waitAndProcessConnections() {
-  auto maxSd = INVALID_FD;
-  socklen_t sockLen = sizeof(mySockAddr_);
-  std::vector<int> fdClientSocks(MAXCLIENTS, 0);
-  fd_set readfds;
-  do {
-    // clear the socket set
-    FD_ZERO(&readfds);
-
-    // add master socket to set
-    FD_SET(fdMySock_, &readfds);
-    maxSd = fdMySock_;
-
-    // add child sockets to set
-    for (size_t i = 0; i < MAXCLIENTS; i++) {
-      // socket descriptor
-      auto sd = fdClientSocks[i];
-
-      // if valid socket descriptor then add to read list
-      if (sd > 0) FD_SET(sd, &readfds);
-
-      // highest file descriptor number, need it for the select function
-      if (sd > maxSd) maxSd = sd;
-    }
-
-    timeval timeout = {1, 0};
+void LocalIPCBufferReceiverImpl::waitAndProcessConnections() {
+  std::vector<Connection> connections;
+  std::vector<pollfd> pollfds;
+  bool acceptable = true;
 
-    changeCurrentStateAndInterruptIfStop(State::Running,
-                                         State::WaitingConnection);
-
-    auto totalSD = select(maxSd + 1, &readfds, nullptr, nullptr, &timeout);
+  while (running()) {
+    pollfds.clear();
+    for (auto &connection : connections) {
+      pollfds.push_back({connection.fd, POLLIN, 0});
+    }
+    pollfds.push_back({fdMySock_, static_cast<short>(acceptable ? POLLIN : 0), 0});
 
-    changeCurrentStateAndInterruptIfStop(State::WaitingConnection,
-                                         State::Running);
+    auto ready = poll(pollfds.data(), pollfds.size(),
+                      acceptable ? -1 : ACCEPT_RETRY_DELAY_MS);
+    if (!running()) {
+      break;
+    }
 
-    if (totalSD <= 0) {
+    acceptable = true;
+    if (ready <= 0) {
       continue;
     }
 
-    // If something happened on the master socket ,
-    // then its an incoming connection
-    if (FD_ISSET(fdMySock_, &readfds)) {
-      auto acceptedSD = accept(fdMySock_, _2sockAddr(&mySockAddr_), &sockLen);
-      if (acceptedSD < 0) {
-        MAF_LOGGER_ERROR("Failed on accepting new socket connection");
-        return false;
+    // In the order of their acceptance, so that messages sent one after the
+    // other are received one after the other
+    for (size_t i = 0; i < connections.size(); ++i) {
+      if (pollfds[i].revents != 0 && !receive(connections[i])) {
+        connections[i].fd.reset();
       }
+    }
+    connections.erase(std::remove_if(connections.begin(), connections.end(),
+                                     [](Connection &connection) {
+                                       return connection.fd == INVALID_FD;
+                                     }),
+                      connections.end());
+
+    if (pollfds.back().revents != 0) {
+      acceptable = accept(connections);
+    }
+  }
+}
 
-      // add new socket to array of sockets
-      for (size_t i = 0; i < MAXCLIENTS; i++) {
-        // if position is empty
-        if (fdClientSocks[i] == 0) {
-          fdClientSocks[i] = acceptedSD;
-          break;
-        }
+// Returns false if the socket is not able to accept at the moment
+bool LocalIPCBufferReceiverImpl::accept(std::vector<Connection> &connections) {
+  AutoCloseFD<SockFD> fd{::accept(fdMySock_, nullptr, nullptr)};
+  if (fd == INVALID_FD) {
+    MAF_SOCKET_ERROR("Failed on accepting new socket connection");
+    return errno == EINTR || errno == ECONNABORTED;
+  }
+  connections.emplace_back(std::move(fd));
+  return true;
+}
+
+// Takes what is there without waiting for more, returns false if there's
+// nothing more to be received from this connection
+bool LocalIPCBufferReceiverImpl::receive(Connection &connection) {
+  try {
+    while (running()) {
+      char *where = nullptr;
+      size_t wanted = 0;
+      if (connection.received < sizeof(SizeType)) {
+        where = reinterpret_cast<char *>(&connection.length) +
+                connection.received;
+        wanted = sizeof(SizeType) - connection.received;
+      } else {
+        auto payloadReceived = connection.received - sizeof(SizeType);
+        wanted = std::min(connection.length - payloadReceived,
+                          MAX_BYTES_PER_READ);
+        // Length comes from outside, don't trust it until the bytes come
+        connection.payload.resize(payloadReceived + wanted);
+        where = connection.payload.data() + payloadReceived;
       }
-    }
 
-    // else its some IO operation on some other socket
-    for (size_t i = 0; i < MAXCLIENTS; i++) {
-      auto sd = fdClientSocks[i];
-      if (FD_ISSET(sd, &readfds)) {
-        SizeType messageLength = 0;
-        ssize_t totalRead = 0;
-        if (auto bytesRead = read(sd, reinterpret_cast<char *>(&messageLength),
-                                  sizeof(SizeType));
-            bytesRead == sizeof(SizeType)) {
-          auto payload = srz::Buffer{};
-          payload.resize(messageLength);
-          while (totalRead < messageLength) {
-            if (bytesRead = read(sd, payload.data() + totalRead, messageLength);
-                bytesRead != -1) {
-              totalRead += bytesRead;
-            } else {
-              MAF_SOCKET_ERROR("Could not read bytes from socket total read = ",
-                               totalRead, " total expected = ", messageLength);
-              break;
-            }
-          }
-          if (totalRead == messageLength) {
-            bytesComeCallback_(std::move(payload));
+      if (wanted > 0) {
+        auto bytesRead = recv(connection.fd, where, wanted, MSG_DONTWAIT);
+        if (bytesRead == -1 && errno == EINTR) {
+          continue;
+        } else if (bytesRead == -1 &&
+                   (errno == EAGAIN || errno == EWOULDBLOCK)) {
+          return true;
+        } else if (bytesRead <= 0) {
+          if (connection.received > 0) {
+            MAF_LOGGER_ERROR("Could not read the whole message from socket, ",
+                             "total read = ", connection.received);
           }
+          return false;
         }
-        close(sd);
-        fdClientSocks[i] = 0;
+        connection.received += static_cast<size_t>(bytesRead);
       }
-    }
-  } while (true);
 
-  setState(State::Stopped);
-  return true;
-}
-
-void LocalIPCBufferReceiverImpl::changeCurrentStateAndInterruptIfStop(
-    State expectedCurrentSate, State newStateState) {
-  state_.compare_exchange_strong(expectedCurrentSate, newStateState);
-  if (expectedCurrentSate == State::Stopped) {
-    MAF_LOGGER_INFO("Finish running due to flag STOP was turned on, address: ",
-                    myaddr_.dump());
-    throw StoppedInterruption{};
+      if (connection.received ==
+          sizeof(SizeType) + static_cast<size_t>(connection.length)) {
+        bytesComeCallback_(std::move(connection.payload));
+        return false;
+      }
+    }
+  } catch (const std::exception &e) {
+    MAF_LOGGER_ERROR("Could not receive message: ", e.what());
   }
+  return false;
 }
 
 }  // namespace local
diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h
index 6678aac..abb1fd4 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h
@@ -3,7 +3,10 @@
 #include <maf/utils/serialization/Buffer.h>
 
 #include <atomic>
-#include <future>
+#include <functional>
+#include <memory>
+#include <mutex>
+#include <vector>
 
 #include "SocketShared.h"
 
@@ -27,26 +30,21 @@ class LocalIPCBufferReceiverImpl {
   void setObserver(BytesComeCallback callback);
 
  private:
-  enum class State : char {
-    Uninitialized,
-    Initialized,
-    Running,
-    WaitingConnection,
-    Stopped
-  };
+  enum class State : char { Uninitialized, Initialized, Running, Stopped };
 
-  class StoppedInterruption {};
+  // A peer and what has been received from it so far
+  struct Connection;
 
   State getState() const { return state_.load(std::memory_order_acquire); }
-  void setState(State state) { state_.store(state, std::memory_order_release); }
 
-  bool waitAndProcessConnections();
-  void changeCurrentStateAndInterruptIfStop(State expectedCurrentSate, State newStateState);
+  void waitAndProcessConnections();
+  bool accept(std::vector<Connection> &connections);
+  bool receive(Connection &connection);
 
   BytesComeCallback bytesComeCallback_;
   Address myaddr_;
-  sockaddr_un mySockAddr_;
-  int fdMySock_;
+  std::mutex mutex_;  // life time of fdMySock_ and changes of state_
+  AutoCloseFD<SockFD> fdMySock_;
   std::atomic<State> state_ = State::Uninitialized;
 };
 
-- 
2.43.0


From 922ebe69c39788de87a5f6efdd4618953cb4eaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:59 +0000
Subject: [PATCH 44/68] fix: don't mix up requests of different clients with
 the same request id

---
 src/common/maf/messaging/client-server/ServiceProvider.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index 26f9b55..98dc9bd 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -336,7 +336,9 @@ ServiceProvider::RequestPtr ServiceProvider::getRequestInfo(
     for (auto itRequest = requestList.begin(); itRequest != requestList.end();
          ++itRequest) {
       RequestPtr &requestTmp = *itRequest;
-      if (requestTmp->getRequestID() == msg->requestID()) {
+      // the IDs are unique per client only
+      if (requestTmp->getRequestID() == msg->requestID() &&
+          requestTmp->_csMsg->sourceAddress() == msg->sourceAddress()) {
         request = requestTmp;
         if (remove) {
           requestList.erase(itRequest);
-- 
2.43.0


From db2128086d2f758e9de4224bbd08675b0f7c19ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:59 +0000
Subject: [PATCH 45/68] fix: order addresses strictly, so that containers find
 them again

---
 src/common/maf/messaging/client-server/Address.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/Address.cpp b/src/common/maf/messaging/client-server/Address.cpp
index 6b5b00a..35b26ac 100644
--- a/src/common/maf/messaging/client-server/Address.cpp
+++ b/src/common/maf/messaging/client-server/Address.cpp
@@ -16,7 +16,7 @@ bool Address::operator!=(const Address &other) const {
 }
 
 bool Address::operator<(const Address &other) const {
-  return name_ < other.name_ || port_ < other.port_;
+  return std::tie(name_, port_) < std::tie(other.name_, other.port_);
 }
 
 bool Address::valid() const {
-- 
2.43.0


From 465f8a9717bc7efabdd64ccadf0663ff11c25d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:59 +0000
Subject: [PATCH 46/68] fix: stop a local server that has just been started

---
 .../maf/messaging/client-server/ipc/LocalIPCServer.cpp       | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp b/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
index 87a6adc..562379d 100644
--- a/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
+++ b/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
@@ -35,9 +35,8 @@ bool LocalIPCServer::start() {
 }
 
 void LocalIPCServer::stop() {
-  if (pReceiver_->running()) {
-    pReceiver_->stop();
-  }
+  // even if it's not running yet, it must not start running afterwards
+  pReceiver_->stop();
   if (listeningThread_.joinable()) {
     listeningThread_.join();
   }
-- 
2.43.0


From 8fbdba6fe774dd35119beda0ab167a7edddff870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 47/68] fix: remove the requests of a service that shuts down,
 abort them with nothing locked

---
 src/common/maf/messaging/client-server/ServiceProvider.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index 98dc9bd..4d45ea0 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -5,6 +5,7 @@
 #include <maf/messaging/client-server/ServerIF.h>
 
 #include <cassert>
+#include <utility>
 
 #include "Request.h"
 
@@ -351,8 +352,9 @@ ServiceProvider::RequestPtr ServiceProvider::getRequestInfo(
 }
 
 void ServiceProvider::invalidateAndRemoveAllRequests() {
-  std::lock_guard lock(requestsMap_);
-  for (auto &[opID, requests] : *requestsMap_) {
+  // the callbacks must be called with nothing locked
+  auto requestsMap = std::exchange(*requestsMap_.atomic(), {});
+  for (auto &[opID, requests] : requestsMap) {
     for (auto &request : requests) {
       request->invalidate();
       if (auto abortCallback = request->getAbortCallback()) {
@@ -360,7 +362,6 @@ void ServiceProvider::invalidateAndRemoveAllRequests() {
       }
     }
   }
-  regEntriesMap_->clear();
 }
 
 void ServiceProvider::saveRegisterInfo(const CSMessagePtr &msg) {
-- 
2.43.0


From 77b6523f2eb73d2374fab8ffdbee9e2cfb8fec18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 48/68] fix: tell clients that the services of a closed server
 are gone

---
 src/common/maf/messaging/client-server/ServerBase.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/ServerBase.cpp b/src/common/maf/messaging/client-server/ServerBase.cpp
index 16fb8a8..026ecd5 100644
--- a/src/common/maf/messaging/client-server/ServerBase.cpp
+++ b/src/common/maf/messaging/client-server/ServerBase.cpp
@@ -34,11 +34,13 @@ bool ServerBase::onIncomingMessage(const CSMessagePtr &csMsg) {
 bool ServerBase::init(const Address &) { return true; }
 
 void ServerBase::deinit() {
-  auto providers = std::move(*providers_.atomic());
+  // clients are only told about the providers that are still known
+  auto providers = *providers_.atomic();
 
   for (auto &[_, provider] : providers) {
     provider->stopServing();
   }
+  providers_.atomic()->clear();
   for (auto &[_, provider] : providers) {
     provider->deinit();
   }
-- 
2.43.0


From c6a1307c75cfd2c549f08c73f80f5dd6951a080e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:55 +0000
Subject: [PATCH 49/68] fix: release the calls and tell the observers of a
 client that shuts down, with nothing locked

---
 .../messaging/client-server/ClientBase.cpp    | 28 +++++++++----------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ClientBase.cpp b/src/common/maf/messaging/client-server/ClientBase.cpp
index dffe9a5..201d6bc 100644
--- a/src/common/maf/messaging/client-server/ClientBase.cpp
+++ b/src/common/maf/messaging/client-server/ClientBase.cpp
@@ -3,6 +3,7 @@
 #include <maf/logging/Logger.h>
 
 #include <cassert>
+#include <utility>
 
 #include "ServiceRequester.h"
 
@@ -123,23 +124,20 @@ Availability ClientBase::getServiceStatus(const ServiceID &sid) {
 bool ClientBase::init(const Address &) { return true; }
 
 void ClientBase::deinit() {
-  {
-    std::lock_guard lock(_requestersMap);
-    for (auto &[_, requester] : *_requestersMap) {
-      requester->deinit();
-    }
-
-    _requestersMap->clear();
+  // observers and callbacks might ask for something, then nothing must be locked
+  auto requesters = std::exchange(*_requestersMap.atomic(), {});
+  auto serviceStatusMap = std::exchange(*_serviceStatusMap.atomic(), {});
+
+  for (auto &[sid, requester] : requesters) {
+    // nobody will answer what is requested from now on
+    requester->onServiceStatusChanged(sid, Availability::Available,
+                                      Availability::Unavailable);
+    requester->deinit();
   }
 
-  {
-    std::lock_guard lock(_serviceStatusMap);
-    for (auto &[serviceID, status] : *_serviceStatusMap) {
-      sendMessageToServer(createCSMessage(serviceID, OpIDInvalid,
-                                          OpCode::UnregisterServiceStatus));
-    }
-
-    _serviceStatusMap->clear();
+  for (auto &[serviceID, status] : serviceStatusMap) {
+    sendMessageToServer(createCSMessage(serviceID, OpIDInvalid,
+                                        OpCode::UnregisterServiceStatus));
   }
 }
 
-- 
2.43.0


From 6129d7f28c528873d2e532da84f5e2eb66233f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:31 +0000
Subject: [PATCH 50/68] fix: let clients of local servers be closed and made
 again

---
 .../messaging/client-server/ClientFactory.cpp |  8 +++-
 .../messaging/client-server/ServerFactory.cpp |  8 ++--
 .../client-server/ipc/LocalIPCClient.cpp      | 45 ++++++++++++++-----
 3 files changed, 44 insertions(+), 17 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ClientFactory.cpp b/src/common/maf/messaging/client-server/ClientFactory.cpp
index 8d76b25..788e2fc 100644
--- a/src/common/maf/messaging/client-server/ClientFactory.cpp
+++ b/src/common/maf/messaging/client-server/ClientFactory.cpp
@@ -5,6 +5,8 @@
 #include <maf/messaging/client-server/itc/ConnectionType.h>
 #include <maf/utils/containers/Map2D.h>
 
+#include <utility>
+
 #include "ipc/LocalIPCClient.h"
 #include "itc/Client.h"
 
@@ -49,8 +51,10 @@ class ClientFactoryImpl {
     return client;
   }
   void close() {
-    std::lock_guard lock(_clientMap);
-    for (auto &[contype, clients] : *_clientMap) {
+    // observers might ask for a client, then nothing must be locked. A closed
+    // client never works again, then next time a new one must be made
+    auto clientMap = std::exchange(*_clientMap.atomic(), {});
+    for (auto &[contype, clients] : clientMap) {
       for (auto &[addr, client] : clients) {
         client->stop();
       }
diff --git a/src/common/maf/messaging/client-server/ServerFactory.cpp b/src/common/maf/messaging/client-server/ServerFactory.cpp
index 64cb342..2ce79c4 100644
--- a/src/common/maf/messaging/client-server/ServerFactory.cpp
+++ b/src/common/maf/messaging/client-server/ServerFactory.cpp
@@ -5,6 +5,8 @@
 #include <maf/messaging/client-server/itc/ConnectionType.h>
 #include <maf/utils/containers/Map2D.h>
 
+#include <utility>
+
 #include "ipc/LocalIPCServer.h"
 #include "itc/Server.h"
 
@@ -53,8 +55,9 @@ class ServerFactoryImpl {
   }
 
   void close() {
-    std::lock_guard lock(serverMap_);
-    for (auto &[contype, servers] : *serverMap_) {
+    // callbacks might ask for a server, then nothing must be locked
+    auto serverMap = std::exchange(*serverMap_.atomic(), {});
+    for (auto &[contype, servers] : serverMap) {
       for (auto &[addr, server] : servers) {
         server->stop();
       }
@@ -62,7 +65,6 @@ class ServerFactoryImpl {
         server->deinit();
       }
     }
-    serverMap_->clear();
   }
 };
 
diff --git a/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp b/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp
index 0adbed4..d41175a 100644
--- a/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp
+++ b/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp
@@ -4,6 +4,7 @@
 #include <maf/messaging/Timer.h>
 #include <maf/utils/Process.h>
 
+#include <atomic>
 #include <cassert>
 #include <future>
 #include <thread>
@@ -51,6 +52,7 @@ class LocalIPCClient : public ClientBase, public BytesComeObserver {
 
   Availability currentServerStatus_ = Availability::Unavailable;
   int serverMonitorInterval = 500;
+  std::atomic_bool stopped_ = false;
 };
 
 LocalIPCClient::LocalIPCClient()
@@ -73,13 +75,22 @@ bool LocalIPCClient::init(const Address &serverAddress) {
 
 bool LocalIPCClient::start() {
   receiverThread_ = std::thread{[this] { pReceiver_->start(); }};
-  single_threadpool::submit([this] { monitorServerStatus(); });
+  single_threadpool::submit([thisw = weak_from_this()] {
+    if (auto this_ = thisw.lock()) {
+      static_cast<LocalIPCClient *>(this_.get())->monitorServerStatus();
+    }
+  });
   return true;
 }
 
 void LocalIPCClient::stop() {
+  stopped_ = true;
   pReceiver_->stop();
-  serverMonitorTimer_.stop();
+  // The timer belongs to the thread of the pool, where this might be the last
+  // one that holds the client
+  single_threadpool::submit([this_ = shared_from_this()] {
+    static_cast<LocalIPCClient *>(this_.get())->serverMonitorTimer_.stop();
+  });
   if (receiverThread_.joinable()) {
     receiverThread_.join();
   }
@@ -125,6 +136,9 @@ void LocalIPCClient::onServerStatusChanged(Availability oldStatus,
 }
 
 void LocalIPCClient::monitorServerStatus(long long tunedInterval) {
+  if (stopped_) {
+    return;
+  }
   if (auto newStatus = pSender_->checkReceiverStatus(myServerAddress_);
       currentServerStatus_ != newStatus) {
     MAF_LOGGER_INFO("Server (", myServerAddress_.get_name(),
@@ -135,19 +149,26 @@ void LocalIPCClient::monitorServerStatus(long long tunedInterval) {
   } else if (tunedInterval < serverMonitorInterval) {
     tunedInterval += 5;
   }
-  serverMonitorTimer_.start(tunedInterval, [tunedInterval, this] {
-    this->monitorServerStatus(tunedInterval);
-  });
+  serverMonitorTimer_.start(
+      tunedInterval, [tunedInterval, thisw = weak_from_this()] {
+        if (auto this_ = thisw.lock()) {
+          static_cast<LocalIPCClient *>(this_.get())
+              ->monitorServerStatus(tunedInterval);
+        }
+      });
 }
 
 void LocalIPCClient::onBytesCome(srz::Buffer &&buff) {
-  single_threadpool::submit([this, buff = std::move(buff)]() mutable {
-    std::shared_ptr<LocalIPCMessage> csMsg =
-        std::make_shared<LocalIPCMessage>();
-    if (csMsg->fromBytes(std::move(buff))) {
-      onIncomingMessage(csMsg);
-    } else {
-      MAF_LOGGER_ERROR("incoming message is not wellformed");
+  single_threadpool::submit([thisw = weak_from_this(),
+                             buff = std::move(buff)]() mutable {
+    if (auto this_ = thisw.lock()) {
+      std::shared_ptr<LocalIPCMessage> csMsg =
+          std::make_shared<LocalIPCMessage>();
+      if (csMsg->fromBytes(std::move(buff))) {
+        static_cast<LocalIPCClient *>(this_.get())->onIncomingMessage(csMsg);
+      } else {
+        MAF_LOGGER_ERROR("incoming message is not wellformed");
+      }
     }
   });
 }
-- 
2.43.0


From 825690dc4a087abe639a59a5e94a2a5cb6a1d53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:09 +0000
Subject: [PATCH 51/68] fix: notice that the receiver has gone even if there's
 another one on its address

---
 .../ipc/LocalIPCBufferSenderImpl.cpp          | 35 ++++++++++++-------
 .../ipc/LocalIPCBufferSenderImpl.h            |  8 +++++
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
index 5999bb8..dc36042 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
@@ -11,17 +11,15 @@ namespace local {
 
 namespace {
 
-static bool connectable(const SocketPath &sockpath) {
-  if (!isValidSocketPath(sockpath)) {
-    return false;
-  }
-  AutoCloseFD<SockFD> fd;
-  if (fd = socket(AF_UNIX, SOCK_STREAM, 0); fd == INVALID_FD) {
-    MAF_SOCKET_ERROR("Cannot create socket");
-    return false;
-  }
-  auto addr = createUnixAbstractSocketAddr(sockpath);
-  return connectTo(fd, addr);
+// Receivers never send anything, there's only something to be read from the
+// connection when its receiver has gone
+static bool closedByPeer(SockFD fd) {
+  char byte;
+  ssize_t result = -1;
+  do {
+    result = recv(fd, &byte, sizeof(byte), MSG_DONTWAIT | MSG_PEEK);
+  } while (result == -1 && errno == EINTR);
+  return result != -1 || (errno != EAGAIN && errno != EWOULDBLOCK);
 }
 
 // Sends everything or fails; a receiver that closes the connection meanwhile
@@ -47,8 +45,19 @@ ActionCallStatus LocalIPCBufferSenderImpl::send(const Buffer &payload,
 
 Availability LocalIPCBufferSenderImpl::checkReceiverStatus(
     const Address &destination) const {
-  return connectable(destination.get_name()) ? Availability::Available
-                                             : Availability::Unavailable;
+  std::lock_guard lock(monitorMutex_);
+  if (monitorFD_ != INVALID_FD && monitoredPath_ == destination.get_name()) {
+    // Even if there's another receiver on this address meanwhile, it must be
+    // known that the former one has gone
+    if (closedByPeer(monitorFD_)) {
+      monitorFD_.reset();
+    }
+  } else {
+    monitorFD_ = connectToSocket(destination.get_name());
+    monitoredPath_ = destination.get_name();
+  }
+  return monitorFD_ != INVALID_FD ? Availability::Available
+                                  : Availability::Unavailable;
 }
 
 ActionCallStatus LocalIPCBufferSenderImpl::send(const Buffer &payload,
diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.h b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.h
index c693e5d..8937068 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.h
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.h
@@ -3,6 +3,8 @@
 #include <maf/messaging/client-server/CSStatus.h>
 #include <maf/utils/serialization/Buffer.h>
 
+#include <mutex>
+
 #include "SocketShared.h"
 
 namespace maf {
@@ -17,6 +19,12 @@ class LocalIPCBufferSenderImpl {
   ActionCallStatus send(const Buffer &payload, const Address &destination);
   ActionCallStatus send(const Buffer &payload, const SocketPath &sockpath);
   Availability checkReceiverStatus(const Address &destination) const;
+
+ private:
+  // The connection on which the monitored receiver is known to be the same one
+  mutable std::mutex monitorMutex_;
+  mutable SocketPath monitoredPath_;
+  mutable AutoCloseFD<SockFD> monitorFD_;
 };
 
 }  // namespace local
-- 
2.43.0


From 1077ef34c5449c7dadcd11cc3889c9b2b825a6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:13 +0000
Subject: [PATCH 52/68] fix: don't take answers to requests of a closed client
 for those of the new one

---
 src/common/maf/messaging/client-server/ServiceRequester.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.h b/src/common/maf/messaging/client-server/ServiceRequester.h
index ecd9293..e7f71f2 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.h
+++ b/src/common/maf/messaging/client-server/ServiceRequester.h
@@ -157,7 +157,9 @@ struct ServiceRequester : public ServiceRequesterIF {
   bool tellingStatusUpdates_ = false;
   CSMsgContentMap propertiesCache_;
   std::weak_ptr<ClientIF> client_;
-  CSIDManager idMgr_;
+  // shared by all, because late answers to requests of a closed client might
+  // come to the one that is made after it
+  static inline CSIDManager idMgr_;
   ServiceID sid_;
   AtomicAvailability serviceStatus_ = Availability::Unavailable;
 };
-- 
2.43.0


From f2195ccb7dcd384a2a0e3dbb8dc7693e356fa05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:57 +0000
Subject: [PATCH 53/68] fix: a client that was shut down must not be told that
 its services are available again

---
 .../maf/messaging/client-server/ClientBase.cpp |  5 +----
 .../client-server/ServiceRequester.cpp         | 18 ++++++++++++++++--
 .../messaging/client-server/ServiceRequester.h |  1 +
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ClientBase.cpp b/src/common/maf/messaging/client-server/ClientBase.cpp
index 201d6bc..7e67cb7 100644
--- a/src/common/maf/messaging/client-server/ClientBase.cpp
+++ b/src/common/maf/messaging/client-server/ClientBase.cpp
@@ -128,10 +128,7 @@ void ClientBase::deinit() {
   auto requesters = std::exchange(*_requestersMap.atomic(), {});
   auto serviceStatusMap = std::exchange(*_serviceStatusMap.atomic(), {});
 
-  for (auto &[sid, requester] : requesters) {
-    // nobody will answer what is requested from now on
-    requester->onServiceStatusChanged(sid, Availability::Available,
-                                      Availability::Unavailable);
+  for (auto &[_, requester] : requesters) {
     requester->deinit();
   }
 
diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index e1fc0cb..eb46866 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -61,7 +61,7 @@ ServiceRequester::ServiceRequester(const ServiceID &sid,
 
 ServiceRequester::~ServiceRequester() {
   MAF_LOGGER_INFO("Clean up service requester of service id: ", sid_, "...");
-  ServiceRequester::deinit();
+  clearAllRequests();
 }
 
 RegID ServiceRequester::sendRequestAsync(const OpID &opID,
@@ -167,9 +167,23 @@ Availability ServiceRequester::serviceStatus() const noexcept {
 void ServiceRequester::init() {}
 
 void ServiceRequester::deinit() {
+  {
+    // Nobody will answer what is requested from now on, whatever is still
+    // coming from server
+    std::lock_guard lock(serviceStatusObservers_);
+    closed_ = true;
+    if (serviceStatus_ == Availability::Available) {
+      serviceStatus_ = Availability::Unavailable;
+      statusUpdates_.push_back({*serviceStatusObservers_,
+                                Availability::Available,
+                                Availability::Unavailable});
+    }
+  }
   // Prematurely cancel the blocking requests that offers a chance to
   // waiting-thread to exit sooner then prevent some of tricky problems
   clearAllRequests();
+  clearAllRegisterEntries();
+  tellServiceStatusUpdates();
 }
 
 bool ServiceRequester::serviceUnavailable() const noexcept {
@@ -255,7 +269,7 @@ void ServiceRequester::onServiceStatusChanged(const ServiceID &sid,
   if (sid == serviceID()) {
     {
       std::lock_guard lock(serviceStatusObservers_);
-      if (newStatus == serviceStatus_) {
+      if (closed_ || newStatus == serviceStatus_) {
         return;
       }
       serviceStatus_ = newStatus;
diff --git a/src/common/maf/messaging/client-server/ServiceRequester.h b/src/common/maf/messaging/client-server/ServiceRequester.h
index e7f71f2..6a22a62 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.h
+++ b/src/common/maf/messaging/client-server/ServiceRequester.h
@@ -155,6 +155,7 @@ struct ServiceRequester : public ServiceRequesterIF {
   // what is still to be told to the observers (guarded by their lock)
   std::list<ServiceStatusUpdate> statusUpdates_;
   bool tellingStatusUpdates_ = false;
+  bool closed_ = false;
   CSMsgContentMap propertiesCache_;
   std::weak_ptr<ClientIF> client_;
   // shared by all, because late answers to requests of a closed client might
-- 
2.43.0


From d50a065348002becef536ed6834806c2592eaadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:43 +0000
Subject: [PATCH 54/68] fix: do not read an error answer as data in the IPC
 ParamTrait

A payload that isn't incoming data was cast to one, and a content that
couldn't be deserialized was still given to the caller.
---
 include/maf/messaging/client-server/ipc/local/ParamTrait.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/maf/messaging/client-server/ipc/local/ParamTrait.h b/include/maf/messaging/client-server/ipc/local/ParamTrait.h
index 90e983a..d4564de 100644
--- a/include/maf/messaging/client-server/ipc/local/ParamTrait.h
+++ b/include/maf/messaging/client-server/ipc/local/ParamTrait.h
@@ -31,6 +31,11 @@ class ParamTrait : public ParamTraitBase {
           ->content();
     }
 
+    if (payload->type() != CSPayloadType::IncomingData) {
+      assign_ptr(status, TranslationStatus::DestSrcMismatch);
+      return {};
+    }
+
     try {
       using PureContentType = std::decay_t<Message>;
       // Warning: avoid using dynamic_cast RTTI
@@ -51,6 +56,7 @@ class ParamTrait : public ParamTraitBase {
           assign_ptr(status, TranslationStatus::Success);
         } else {
           assign_ptr(status, TranslationStatus::SourceCorrupted);
+          content.reset();
         }
       } else {
         assign_ptr(status, TranslationStatus::NoSource);
-- 
2.43.0


From ca0fa3a4f966e3a2eb8dd87e27385b07a9392722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:43 +0000
Subject: [PATCH 55/68] fix: ignore IPC messages claiming to come from the
 server itself

The server answered itself and took the answer as the next request,
endlessly.
---
 .../maf/messaging/client-server/ipc/LocalIPCServer.cpp   | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp b/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
index 562379d..20a2499 100644
--- a/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
+++ b/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
@@ -4,6 +4,7 @@
 #include <maf/messaging/client-server/ServiceProviderIF.h>
 
 #include <cassert>
+#include <cstring>
 
 #include "../SingleThreadPool.h"
 #include "LocalIPCBufferReceiver.h"
@@ -93,6 +94,14 @@ void LocalIPCServer::notifyServiceStatusToClient(const ServiceID &sid,
 }
 
 bool LocalIPCServer::onIncomingMessage(const CSMessagePtr &csMsg) {
+  // Only the name up to the first null character matters for where it's sent
+  if (std::strcmp(csMsg->sourceAddress().get_name().c_str(),
+                  pReceiver_->address().get_name().c_str()) == 0) {
+    // The answer would come back as the next request, again and again
+    MAF_LOGGER_ERROR("Ignore a message claiming to come from the server itself");
+    return false;
+  }
+
   switch (csMsg->operationCode()) {
     case OpCode::RegisterServiceStatus: {
       MAF_LOGGER_INFO("[][][]Client registers for service status change: ",
-- 
2.43.0


From 4be29996591b8f37389da6c6c627e72449440024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:43 +0000
Subject: [PATCH 56/68] fix: fail to deserialize truncated pairs, tuples,
 containers and pointers

The failure of an element was hidden by the success of an earlier one, and
a pointer whose presence flag was missing was taken as a valid null.
---
 include/maf/utils/serialization/Serializer.h | 30 +++++++++-----------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/include/maf/utils/serialization/Serializer.h b/include/maf/utils/serialization/Serializer.h
index 340a876..0cb7190 100644
--- a/include/maf/utils/serialization/Serializer.h
+++ b/include/maf/utils/serialization/Serializer.h
@@ -3,6 +3,7 @@
 #include <maf/utils/cppextension/TupleManip.h>
 #include <maf/utils/cppextension/TypeTraits.h>
 
+#include <memory>
 #include <string>
 
 #include "Tuplizable.h"
@@ -207,17 +208,17 @@ struct Serializer {
 
       using NormalTypeOfPointerType =
           std::remove_const_t<std::remove_pointer_t<PointerType>>;
-      auto success = true;
       p = nullptr;
       uint8_t isNotNull = 0;
 
       is.read(internal::to_cstr(&isNotNull), 1);
-      if (isNotNull) {
-        p = new NormalTypeOfPointerType{};
-        success = maf::srz::deserialize(is, *p);
-        if (!success) {
-          delete p;
-          p = nullptr;
+      auto success = !is.fail();
+      if (success && isNotNull) {
+        std::unique_ptr<NormalTypeOfPointerType> value{
+            new NormalTypeOfPointerType{}};
+        success = maf::srz::deserialize(is, *value);
+        if (success) {
+          p = value.release();
         }
       }
 
@@ -271,11 +272,11 @@ struct Serializer {
       auto success = false;
       SizeType size = 0;
 
-      if (success |= maf::srz::deserialize(is, size); success && size > 0) {
+      if (success = maf::srz::deserialize(is, size); success && size > 0) {
         internal::ContainerReserver<Container>::reserve(c, size);
         for (SizeType i = 0; i < size; ++i) {
           DSBElemType elem;
-          if (success |= maf::srz::deserialize(is, elem); success) {
+          if (success = maf::srz::deserialize(is, elem); success) {
             if constexpr (nstl::is_back_insertible_v<Container>) {
               c.push_back(std::move(elem));
             } else {
@@ -312,11 +313,8 @@ struct Serializer<OStream, IStream, std::pair<First, Second>, void> {
   }
 
   bool deserialize(IStream &is, NCDType &value) {
-    bool success = false;
-    if (success |= maf::srz::deserialize(is, value.first); success) {
-      success |= maf::srz::deserialize(is, value.second);
-    }
-    return success;
+    return maf::srz::deserialize(is, value.first) &&
+           maf::srz::deserialize(is, value.second);
   }
 };
 
@@ -339,9 +337,9 @@ struct Serializer<OStream, IStream, Tuple,
   }
 
   bool deserialize(IStream &is, SrType &tp) {
-    bool success = false;
+    bool success = true;
     nstl::tuple_for_each(tp, [&is, &success](auto &elem) {
-      success |= maf::srz::deserialize(is, elem);
+      success = success && maf::srz::deserialize(is, elem);
     });
     return success;
   }
-- 
2.43.0


From 2108196663e3f1d0c75389d11c011ba44318c14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:43 +0000
Subject: [PATCH 57/68] fix: do not allocate by a length which the data doesn't
 back

A length of a few bytes in a message made the receiver allocate gigabytes
before noticing that the data isn't there.
---
 include/maf/utils/serialization/Serializer.h | 25 +++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/maf/utils/serialization/Serializer.h b/include/maf/utils/serialization/Serializer.h
index 0cb7190..a234a27 100644
--- a/include/maf/utils/serialization/Serializer.h
+++ b/include/maf/utils/serialization/Serializer.h
@@ -3,6 +3,7 @@
 #include <maf/utils/cppextension/TupleManip.h>
 #include <maf/utils/cppextension/TypeTraits.h>
 
+#include <algorithm>
 #include <memory>
 #include <string>
 
@@ -54,6 +55,10 @@ SizeType serializedSize(const T &value);
 
 namespace internal {
 
+// Sizes come from outside, then no more than this is allocated ahead of the
+// elements that really come
+inline constexpr SizeType MAX_ELEMS_AHEAD = 1024;
+
 template <class Container, typename = void>
 struct ContainerReserver {
   static void reserve(Container & /*c*/, SizeType /*size*/) {}
@@ -63,7 +68,7 @@ template <typename Container>
 struct ContainerReserver<
     Container, std::void_t<decltype(std::declval<Container>().reserve(0))>> {
   static void reserve(Container &c, SizeType size) {
-    c.reserve(static_cast<size_t>(size));
+    c.reserve(static_cast<size_t>(std::min(size, MAX_ELEMS_AHEAD)));
   }
 };
 
@@ -352,6 +357,9 @@ struct Serializer<OStream, IStream, std::basic_string<CharT, Trait, Allocator>,
   template <typename T>
   using SerializerT = Serializer<OStream, IStream, T>;
   using SrType = std::basic_string<CharT>;
+  // The size comes from outside, then no more than this is allocated ahead of
+  // the characters that really come
+  static constexpr size_t MAX_CHARS_AHEAD = 64 * 1024;
 
   SizeType serializedSize(const SrType &value) noexcept {
     return SIZETYPE_WIDE + static_cast<SizeType>(value.size() * sizeof(CharT));
@@ -368,13 +376,18 @@ struct Serializer<OStream, IStream, std::basic_string<CharT, Trait, Allocator>,
 
   bool deserialize(IStream &is, SrType &value) {
     SizeType size = 0;
-    if (maf::srz::deserialize(is, size)) {
-      if (size > 0) {
-        value.resize(size);
-        is.read(internal::to_cstr(&value[0]), size * sizeof(CharT));
+    auto success = maf::srz::deserialize(is, size);
+    if (success && size > 0) {
+      value.clear();
+      while (success && value.size() < size) {
+        auto pos = value.size();
+        value.resize(pos + std::min<size_t>(size - pos, MAX_CHARS_AHEAD));
+        is.read(internal::to_cstr(&value[pos]),
+                (value.size() - pos) * sizeof(CharT));
+        success = !is.fail();
       }
     }
-    return !is.fail();
+    return success;
   }
 };
 
-- 
2.43.0


From 6dedf66a2ecc382392add3f07e46915665f5febe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:03 +0000
Subject: [PATCH 58/68] fix: a waitable task of another processor with the same
 name is queued

Whether the calling thread is the processor's own was decided by its
name. A new processor that got the name of one which was stopped, while
the latter's thread still ran, executed waitable tasks and messages of
that thread at once, on the wrong thread and unsynchronised.
---
 src/common/maf/messaging/Processor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index de907b8..10a93f4 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -273,7 +273,7 @@ Processor::CompleteSignal Processor::waitablePost(Message msg) {
           [this, msg = move(msg)] { d_->processMessage(msg); });
 
       doneSignal = CompleteSignal{msgHandlingTask->get_future()};
-      if (this_processor::id() != id()) {
+      if (this_processor::instance().get() != this) {
         executeAsync([task{move(msgHandlingTask)}] { (*task)(); });
       } else {
         (*msgHandlingTask)();
@@ -312,7 +312,7 @@ Processor::CompleteSignal Processor::waitableExecute(Execution exec) {
   if (!stopped()) {
     auto task = make_shared<packaged_task<void()>>(move(exec));
     doneSignal = CompleteSignal{task->get_future()};
-    if (this_processor::id() != id()) {
+    if (this_processor::instance().get() != this) {
       executeAsync([task{move(task)}] { (*task)(); });
     } else {
       (*task)();
-- 
2.43.0


From e5208be6b6f3bad5a55823a2b3ad1d25c0434d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:48 +0000
Subject: [PATCH 59/68] fix: writing an enum value without a name read beyond
 the table of names

A message whose operation code was damaged crashed a process that had its
log switched on.
---
 include/maf/utils/StringifyableEnum.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/maf/utils/StringifyableEnum.h b/include/maf/utils/StringifyableEnum.h
index 3d2c89f..734dd74 100644
--- a/include/maf/utils/StringifyableEnum.h
+++ b/include/maf/utils/StringifyableEnum.h
@@ -53,8 +53,11 @@
   constexpr const char *TheEnum##StrArr[] = {                           \
       mc_maf_for_each(MC_MAF_STRINGIFY, __VA_ARGS__) "_"};              \
   inline std::ostream &operator<<(std::ostream &os, TheEnum en) {       \
-    os << TheEnum##StrArr[static_cast<unsigned long long>(en)];         \
-    return os;                                                          \
+    auto index = static_cast<unsigned long long>(en);                   \
+    if (index < sizeof(TheEnum##StrArr) / sizeof(const char *)) {       \
+      return os << TheEnum##StrArr[index];                              \
+    }                                                                   \
+    return os << #TheEnum "(" << static_cast<long long>(en) << ")";     \
   }                                                                     \
   static_assert(static_cast<base_type>(TheEnum::__) ==                  \
                     sizeof(TheEnum##StrArr) / sizeof(const char *) - 1, \
-- 
2.43.0


From 8d706936d5f6c25451b81cef0b29d4cc58c6bae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:46 +0000
Subject: [PATCH 60/68] fix: enabling a log level switches it on

enable() switched all other levels off instead.
---
 src/common/maf/logging/Logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/maf/logging/Logger.cpp b/src/common/maf/logging/Logger.cpp
index 2aa992c..66528cc 100644
--- a/src/common/maf/logging/Logger.cpp
+++ b/src/common/maf/logging/Logger.cpp
@@ -43,7 +43,7 @@ bool allowed(LogLevel level) {
   return statics().allowedLevels.load(std::memory_order_relaxed) & level;
 }
 
-void enable(LogLevel level) { statics().allowedLevels &= level; }
+void enable(LogLevel level) { statics().allowedLevels |= level; }
 
 void disable(LogLevel level) { statics().allowedLevels &= ~level; }
 
-- 
2.43.0


From 382dd9bd0ab092b1f6ce2610d2973b9d26fa497c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:47 +0000
Subject: [PATCH 61/68] fix: items of a queue are destroyed with nothing locked

---
 include/maf/threading/ThreadSafeQueue.h | 40 +++++++++++++++----------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/include/maf/threading/ThreadSafeQueue.h b/include/maf/threading/ThreadSafeQueue.h
index 6046047..af01537 100644
--- a/include/maf/threading/ThreadSafeQueue.h
+++ b/include/maf/threading/ThreadSafeQueue.h
@@ -66,8 +66,7 @@ class ThreadSafeQueue {
             lock, absTime, [this] { return !queue_->empty() || isClosed(); })) {
       return false;
     } else if (!isClosed()) {
-      value = std::move(queue_->front());
-      queue_->pop();
+      take(value, lock);
       return true;
     }
     return false;
@@ -81,8 +80,7 @@ class ThreadSafeQueue {
         })) {
       return false;
     } else if (!isClosed()) {
-      value = std::move(queue_->front());
-      queue_->pop();
+      take(value, lock);
       return true;
     }
     return false;
@@ -97,18 +95,16 @@ class ThreadSafeQueue {
     queueNotEmpty_.wait(lock,
                         [this] { return !queue_->empty() || isClosed(); });
     if (!isClosed()) {
-      value = std::move(queue_->front());
-      queue_->pop();
+      take(value, lock);
       return true;
     }
     return false;
   }
 
   bool tryPop(value_type &value) {
-    std::lock_guard lock(queue_);
+    std::unique_lock lock(queue_);
     if (!queue_->empty() && !isClosed()) {
-      value = queue_->front();
-      queue_->pop();
+      take(value, lock);
       return true;
     }
     return false;
@@ -134,22 +130,34 @@ class ThreadSafeQueue {
   bool isClosed() const { return closed_.load(std::memory_order_acquire); }
 
   void clear(ApplyAction onClearCallback = nullptr) {
-    using namespace std;
-    lock_guard lock(queue_);
+    // the items might need the queue, or wait for somebody who does, while
+    // they're destroyed
+    QueueClass removed;
+    {
+      std::lock_guard lock(queue_);
+      std::swap(removed, *queue_);
+    }
     if (onClearCallback) {
-      while (!queue_->empty()) {
-        auto v = std::move(queue_->front());
+      while (!removed.empty()) {
+        auto v = std::move(removed.front());
         onClearCallback(v);
-        queue_->pop();
+        removed.pop();
       }
-    } else {
-      *queue_ = {};
     }
   }
 
   size_t size() { return queue_.atomic()->size(); }
 
  private:
+  // what value was before is destroyed with nothing locked, it might need the
+  // queue, or wait for somebody who does
+  void take(value_type &value, std::unique_lock<Lockable<QueueClass>> &lock) {
+    value_type item = std::move(queue_->front());
+    queue_->pop();
+    lock.unlock();
+    value = std::move(item);
+  }
+
   Lockable<QueueClass> queue_;
   std::condition_variable_any queueNotEmpty_;
   std::atomic_bool closed_;
-- 
2.43.0


From b3fc6ce402f71cf05991f6745dc5de24e7dd55aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:47 +0000
Subject: [PATCH 62/68] fix: disconnecting from a message destroys the handlers
 with nothing locked

---
 src/common/maf/messaging/Processor.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 10a93f4..f62d559 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -375,8 +375,14 @@ MsgConnection Processor::connect(const MessageID &msgid,
 }
 
 void Processor::disconnect(const MessageID &msgid) {
+  // what the handlers own might need the map while it is destroyed
+  HandlersPtr removed;
   std::lock_guard lock(d_->msgHandlersMap);
-  d_->msgHandlersMap->erase(msgid);
+  if (auto it = d_->msgHandlersMap->find(msgid);
+      it != d_->msgHandlersMap->end()) {
+    removed = move(it->second);
+    d_->msgHandlersMap->erase(it);
+  }
 }
 
 size_t Processor::pendingCout() const { return d_->pendingExecutions.size(); }
-- 
2.43.0


From de2490d9f351de4909f5cccce2b815576ae668e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:47 +0000
Subject: [PATCH 63/68] fix: disconnecting all slots keeps what their
 destruction uses intact

---
 include/maf/utils/SignalSlots.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index c21ea7c..05a3ae1 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -84,7 +84,8 @@ class SingleSlotKeeper {
   bool valid() const { return mySlot() && mySlot()->operator bool(); }
   void clear() {
     if (mySlot()) {
-      mySlot().reset();
+      // what the slot owns might use this keeper while it is destroyed
+      auto removed = move(mySlot());
       count_ = 0;
     }
   }
@@ -163,7 +164,9 @@ class MultiSlotKeeper {
   void clear() {
     count_ = 0;
     if (!notifying_) {
-      slots_.clear();
+      // what the slots own might use this keeper while it is destroyed
+      SlotsType removed;
+      removed.swap(slots_);
     } else {  // the notification removes them when it comes across
       for (auto& slot : slots_) {
         slot.reset();
-- 
2.43.0


From 6062c3e3c9e75382a4c52052f8449090d389fae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:47 +0000
Subject: [PATCH 64/68] fix: an unregistered request handler is destroyed with
 nothing locked

---
 .../maf/messaging/client-server/ServiceProvider.cpp   | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index 4d45ea0..f446edd 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -435,7 +435,16 @@ bool ServiceProvider::registerRequestHandler(
 }
 
 bool ServiceProvider::unregisterRequestHandler(const OpID &opID) {
-  return requestHandlerMap_.atomic()->erase(opID) != 0;
+  // what the handler owns might need the map while it is destroyed
+  RequestHandlerFunction removed;
+  std::lock_guard lock(requestHandlerMap_);
+  if (auto it = requestHandlerMap_->find(opID);
+      it != requestHandlerMap_->end()) {
+    removed = std::move(it->second);
+    requestHandlerMap_->erase(it);
+    return true;
+  }
+  return false;
 }
 
 signal_slots::Connection ServiceProvider::registerNotification(
-- 
2.43.0


From 9a30f431e0882b00fc25f0340da9669059e60456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:47 +0000
Subject: [PATCH 65/68] fix: timers may be stopped by what the callbacks of an
 ending thread own

---
 src/common/maf/messaging/Timer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/Timer.cpp b/src/common/maf/messaging/Timer.cpp
index 80c42cd..749dbab 100644
--- a/src/common/maf/messaging/Timer.cpp
+++ b/src/common/maf/messaging/Timer.cpp
@@ -71,6 +71,8 @@ struct TimerMgr {
   Heap records_;
   State state_ = State::NoTimer;
 
+  ~TimerMgr() { cleanup(); }
+
   void cleanup();
   void refresh();
   void checkAllTimers();
@@ -171,8 +173,10 @@ void Timer::timeoutAfter(milliseconds milliseconds,
 }
 
 void TimerMgr::cleanup() {
-  records_.clear();
   state_ = State::NoTimer;
+  // what the callbacks hold may stop other timers while it is destroyed
+  Heap removed;
+  removed.swap(records_);
 }
 
 void TimerMgr::refresh() { make_heap(begin(), end(), timerGreater); }
-- 
2.43.0


From 9732ba95c78173cae70888204d6e8a88e72072e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:47 +0000
Subject: [PATCH 66/68] fix: a replaced abort callback is destroyed with
 nothing locked

---
 src/common/maf/messaging/client-server/Request.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/Request.cpp b/src/common/maf/messaging/client-server/Request.cpp
index adf52df..05056db 100644
--- a/src/common/maf/messaging/client-server/Request.cpp
+++ b/src/common/maf/messaging/client-server/Request.cpp
@@ -77,7 +77,9 @@ void Request::onAborted(AbortRequestCallback abortCallback) {
     lock.unlock();
     abortCallback();
   } else {
-    _abortCallback = std::move(abortCallback);
+    // what the former one owns is destroyed with nothing locked
+    // (parameters outlive local variables)
+    _abortCallback.swap(abortCallback);
   }
 }
 
-- 
2.43.0


From 1562accea7b7aea1719581c478ad01e5d630f5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:32 +0000
Subject: [PATCH 67/68] fix: a signal for all processors waits for all of them
 though one has failed

---
 src/common/maf/messaging/Router.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/maf/messaging/Router.cpp b/src/common/maf/messaging/Router.cpp
index c26fc5c..f6628f8 100644
--- a/src/common/maf/messaging/Router.cpp
+++ b/src/common/maf/messaging/Router.cpp
@@ -52,6 +52,10 @@ Processor::CompleteSignal Router::sendToAll(const Message &msg) {
   if (!msgMessageHandledSignals.empty()) {
     return Processor::CompleteSignal{async(
         launch::deferred, [sigs{move(msgMessageHandledSignals)}]() mutable {
+          // one of them might have failed while others are still at work
+          for (auto &sig : sigs) {
+            sig.wait();
+          }
           for (auto &sig : sigs) {
             sig.get();
           }
-- 
2.43.0


From 4063242de466c1e0a4434e26f35b35261bc70d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:34 +0000
Subject: [PATCH 68/68] fix: a type is connected only while one of its handlers
 is

---
 src/common/maf/messaging/Processor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index f62d559..7fe050b 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -286,7 +286,7 @@ Processor::CompleteSignal Processor::waitablePost(Message msg) {
 }
 
 bool Processor::connected(const MessageID &mid) const {
-  return d_->msgHandlersMap.atomic()->count(mid) > 0;
+  return d_->msgConnected(mid);
 }
 
 bool Processor::executeAsync(Execution exec) {
-- 
2.43.0

