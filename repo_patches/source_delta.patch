From c0906b69e4f67f096715a8c69650ea8c14198a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 01/34] fix: do not move from an lvalue operand of co_return

TaskPromise::return_value(U &&) is also selected for non-const lvalues
(members, references), whose value it moved into the promise.
---
 qcoro/impl/taskpromise.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/impl/taskpromise.h b/qcoro/impl/taskpromise.h
index 2baf671..5913bff 100644
--- a/qcoro/impl/taskpromise.h
+++ b/qcoro/impl/taskpromise.h
@@ -38,7 +38,7 @@ inline void TaskPromise<T>::return_value(const T &value) noexcept {
 template<typename T>
 template<typename U> requires QCoro::concepts::constructible_from<T, U>
 inline void TaskPromise<T>::return_value(U &&value) noexcept {
-    mValue = std::move(value);
+    mValue = std::forward<U>(value);
 }
 
 template<typename T>
-- 
2.43.0


From 628d9c2aeb86c64687991ed6f81f579929920c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 02/34] fix: destroy the coroutine of a LazyTask that is never
 awaited

The promise counted a reference for the running coroutine although the
coroutine had not been started, so its frame and arguments leaked.
---
 qcoro/impl/lazytask.h |  6 ++++--
 qcoro/qcorolazytask.h | 18 +++++++++++++++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/qcoro/impl/lazytask.h b/qcoro/impl/lazytask.h
index d69db6b..906f6a4 100644
--- a/qcoro/impl/lazytask.h
+++ b/qcoro/impl/lazytask.h
@@ -21,8 +21,10 @@ inline LazyTask<T> LazyTaskPromise<T>::get_return_object() noexcept {
 }
 
 template<typename T>
-inline std::suspend_always LazyTaskPromise<T>::initial_suspend() const noexcept {
-    return {};
+inline LazyTaskInitialSuspend LazyTaskPromise<T>::initial_suspend() noexcept {
+    // The coroutine has not been started yet, the only reference is the one held by LazyTask
+    this->derefCoroutine();
+    return LazyTaskInitialSuspend{*this};
 }
 
 } // namespace detail
diff --git a/qcoro/qcorolazytask.h b/qcoro/qcorolazytask.h
index 93635c9..8dc1fbb 100644
--- a/qcoro/qcorolazytask.h
+++ b/qcoro/qcorolazytask.h
@@ -21,6 +21,22 @@ struct isTask<QCoro::LazyTask<T>> : std::true_type {
     using return_type = typename QCoro::LazyTask<T>::value_type;
 };
 
+//! Keeps a lazy coroutine suspended until it is awaited for the first time.
+/*!
+ * A lazy coroutine only holds a reference to itself once it has been started, so that
+ * the coroutine of a LazyTask that is never awaited is destroyed with the LazyTask.
+ */
+class LazyTaskInitialSuspend : public std::suspend_always {
+public:
+    explicit LazyTaskInitialSuspend(TaskPromiseBase &promise) noexcept
+        : mPromise(promise) {}
+
+    void await_resume() const noexcept { mPromise.refCoroutine(); }
+
+private:
+    TaskPromiseBase &mPromise;
+};
+
 template<typename T>
 class LazyTaskPromise : public TaskPromise<T>
 {
@@ -29,7 +45,7 @@ public:
 
     LazyTask<T> get_return_object() noexcept;
 
-    std::suspend_always initial_suspend() const noexcept;
+    LazyTaskInitialSuspend initial_suspend() noexcept;
 };
 
 } // namespace detail
-- 
2.43.0


From 8c7ba3abb0ee0709c158a8f627adf5e5d3f1c4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 03/34] fix: awaiting an empty or an already started LazyTask

Awaiting a default-constructed LazyTask resumed a null coroutine handle,
and every further awaiter of a running LazyTask resumed its coroutine
although it was suspended on something else.
---
 qcoro/impl/lazytask.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qcoro/impl/lazytask.h b/qcoro/impl/lazytask.h
index 906f6a4..214e1d8 100644
--- a/qcoro/impl/lazytask.h
+++ b/qcoro/impl/lazytask.h
@@ -46,8 +46,13 @@ inline auto LazyTask<T>::operator co_await() const noexcept {
         TaskAwaiter(std::coroutine_handle<promise_type> thisTask)
             : detail::TaskAwaiterBase<promise_type>{thisTask} {}
 
-        auto await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
+        std::coroutine_handle<> await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
+            // Only the first awaiter starts the lazy task; an empty task has nothing to start.
+            const bool start = this->mAwaitedCoroutine && !this->mAwaitedCoroutine.promise().hasAwaitingCoroutine();
             detail::TaskAwaiterBase<promise_type>::await_suspend(awaitingCoroutine);
+            if (!start) {
+                return std::noop_coroutine();
+            }
             // Return handle to the lazy task, so that it gets automatically resumed.
             return this->mAwaitedCoroutine;
         }
-- 
2.43.0


From 684678cebcd9f8ddbf4e7f0337e21b1cbc67a612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 04/34] fix: move-assigning a Generator leaked its coroutine

The coroutine of the overwritten generator was never destroyed, and
self-assignment lost the generator's own coroutine.
---
 qcoro/qcorogenerator.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/qcoro/qcorogenerator.h b/qcoro/qcorogenerator.h
index a325463..485d6ee 100644
--- a/qcoro/qcorogenerator.h
+++ b/qcoro/qcorogenerator.h
@@ -6,6 +6,7 @@
 
 #include <variant>
 #include <exception>
+#include <memory>
 
 #include "coroutine.h"
 
@@ -242,8 +243,13 @@ public:
     }
     Generator(const Generator &) = delete;
     Generator &operator=(Generator &&other) noexcept {
-            mGeneratorCoroutine = other.mGeneratorCoroutine;
-            other.mGeneratorCoroutine = std::coroutine_handle<promise_type>::from_address(nullptr);
+            if (std::addressof(other) != this) {
+                if (mGeneratorCoroutine.address() != nullptr) {
+                    mGeneratorCoroutine.destroy();
+                }
+                mGeneratorCoroutine = other.mGeneratorCoroutine;
+                other.mGeneratorCoroutine = std::coroutine_handle<promise_type>::from_address(nullptr);
+            }
             return *this;
     };
     Generator &operator=(const Generator &) = delete;
-- 
2.43.0


From 9c238b2217c2c4b12226087ff1701914022bce33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 05/34] fix: move-assigning an AsyncGenerator leaked its
 coroutine

The coroutine of the overwritten generator was never destroyed, and
self-assignment lost the generator's own coroutine.
---
 qcoro/qcoroasyncgenerator.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/qcoro/qcoroasyncgenerator.h b/qcoro/qcoroasyncgenerator.h
index b976dbd..e159886 100644
--- a/qcoro/qcoroasyncgenerator.h
+++ b/qcoro/qcoroasyncgenerator.h
@@ -11,6 +11,7 @@
 
 #include <iterator>
 #include <exception>
+#include <memory>
 
 namespace QCoro {
 
@@ -303,8 +304,13 @@ public:
 
     /// Move-assignment operator.
     AsyncGenerator& operator=(AsyncGenerator &&other) noexcept {
-        m_coroutine = other.m_coroutine;
-        other.m_coroutine = nullptr;
+        if (std::addressof(other) != this) {
+            if (m_coroutine) {
+                m_coroutine.destroy();
+            }
+            m_coroutine = other.m_coroutine;
+            other.m_coroutine = nullptr;
+        }
         return *this;
     }
 
-- 
2.43.0


From 1dcb09c8d92357f1dc16766efb0fc78747494a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:55 +0000
Subject: [PATCH 06/34] fix: a timed wait for a signal ends even if the source
 is destroyed

---
 qcoro/core/qcorosignal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/core/qcorosignal.h b/qcoro/core/qcorosignal.h
index d68586c..2a05417 100644
--- a/qcoro/core/qcorosignal.h
+++ b/qcoro/core/qcorosignal.h
@@ -110,7 +110,7 @@ public:
 
     void handleTimeout(std::coroutine_handle<> awaitingCoroutine) {
         if (mTimeoutTimer) {
-            QObject::connect(mTimeoutTimer.get(), &QTimer::timeout, mObj,
+            QObject::connect(mTimeoutTimer.get(), &QTimer::timeout, mTimeoutTimer.get(),
                 [this, awaitingCoroutine]() {
                     QObject::disconnect(mConn);
                     awaitingCoroutine.resume();
-- 
2.43.0


From 53b5cfadfbf337d57dc33f392419075ea2048e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 07/34] fix: a signal listener resumed its generator while
 nobody waited on it

---
 qcoro/core/qcorosignal.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qcoro/core/qcorosignal.h b/qcoro/core/qcorosignal.h
index 2a05417..cf61a48 100644
--- a/qcoro/core/qcorosignal.h
+++ b/qcoro/core/qcorosignal.h
@@ -110,6 +110,8 @@ public:
 
     void handleTimeout(std::coroutine_handle<> awaitingCoroutine) {
         if (mTimeoutTimer) {
+            // drop the connection of a previous co_await
+            QObject::disconnect(mTimeoutTimer.get(), &QTimer::timeout, nullptr, nullptr);
             QObject::connect(mTimeoutTimer.get(), &QTimer::timeout, mTimeoutTimer.get(),
                 [this, awaitingCoroutine]() {
                     QObject::disconnect(mConn);
@@ -271,6 +273,8 @@ public:
                 mQueue.setAwaiter(awaitingCoroutine);
             }
             result_type await_resume() {
+                // no longer waiting: further emissions must only be enqueued
+                mQueue.setAwaiter(nullptr);
                 return mQueue.dequeue();
             }
 
-- 
2.43.0


From 2df509c51c3e35db8d52d9de252e80795a3a907c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 08/34] fix: do not dereference a destroyed timer in
 waitForTimeout()

---
 qcoro/core/qcorotimer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/core/qcorotimer.cpp b/qcoro/core/qcorotimer.cpp
index 28fa516..29f8f4f 100644
--- a/qcoro/core/qcorotimer.cpp
+++ b/qcoro/core/qcorotimer.cpp
@@ -37,7 +37,7 @@ QCoroTimer::QCoroTimer(QTimer *timer)
     : mTimer(timer) {}
 
 QCoro::Task<> QCoroTimer::waitForTimeout() const {
-    if (mTimer->isActive()) {
+    if (mTimer && mTimer->isActive()) {
         co_await qCoro(mTimer.data(), &QTimer::timeout);
     }
 }
-- 
2.43.0


From ff65a5e48d279253bacb9c3db9f6dc9c65c7e515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 09/34] fix: sleepUntil() measured every time point against the
 steady clock

---
 qcoro/core/qcorotimer.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qcoro/core/qcorotimer.h b/qcoro/core/qcorotimer.h
index 833c8f0..af5ee27 100644
--- a/qcoro/core/qcorotimer.h
+++ b/qcoro/core/qcorotimer.h
@@ -66,8 +66,7 @@ QCoro::Task<> sleepFor(const std::chrono::duration<Rep, Period> &timeout) {
 //! A coroutine that suspends until the specified time.
 template<typename Clock, typename Duration>
 QCoro::Task<> sleepUntil(const std::chrono::time_point<Clock, Duration> &when) {
-    const auto tp = when.time_since_epoch() - std::chrono::steady_clock::now().time_since_epoch();
-    return sleepFor(tp);
+    return sleepFor(when - Clock::now());
 }
 
 } // namespace QCoro
-- 
2.43.0


From 734fd47f27e443e627ba8f069f9dc4cde7d638c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 10/34] fix: sleepFor() woke up early for sub-millisecond and
 very long durations

---
 qcoro/core/qcorotimer.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/qcoro/core/qcorotimer.h b/qcoro/core/qcorotimer.h
index af5ee27..41f50bc 100644
--- a/qcoro/core/qcorotimer.h
+++ b/qcoro/core/qcorotimer.h
@@ -11,6 +11,9 @@
 #include <QPointer>
 #include <QTimer>
 
+#include <chrono>
+#include <limits>
+
 /*! \cond internal */
 
 namespace QCoro::detail {
@@ -57,9 +60,21 @@ namespace QCoro {
 //! A coroutine that suspends for given period of time.
 template<typename Rep, typename Period>
 QCoro::Task<> sleepFor(const std::chrono::duration<Rep, Period> &timeout) {
+    // Round up, so that we never wake up too early
+    auto remaining = std::chrono::ceil<std::chrono::milliseconds>(timeout);
+    if (remaining.count() < 0) {
+        co_return;
+    }
+
     QTimer timer;
     timer.setSingleShot(true);
-    timer.start(std::chrono::duration_cast<std::chrono::milliseconds>(timeout));
+    // QTimer intervals are limited to int, longer sleeps need several rounds
+    constexpr std::chrono::milliseconds maxInterval{std::numeric_limits<int>::max()};
+    for (; remaining > maxInterval; remaining -= maxInterval) {
+        timer.start(maxInterval);
+        co_await timer;
+    }
+    timer.start(remaining);
     co_await timer;
 }
 
-- 
2.43.0


From 78cbe9b96f198ecf8c3f3289f90dc49e8b48c260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:36 +0000
Subject: [PATCH 11/34] fix: waitFor() hung if the awaitable finished on
 another thread too early

---
 qcoro/impl/waitfor.h | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/qcoro/impl/waitfor.h b/qcoro/impl/waitfor.h
index 40a5993..f1c7eef 100644
--- a/qcoro/impl/waitfor.h
+++ b/qcoro/impl/waitfor.h
@@ -11,6 +11,8 @@
 #include "../qcorotask.h"
 
 #include <QEventLoop>
+#include <QMetaObject>
+#include <QThread>
 
 #include <optional>
 
@@ -30,6 +32,21 @@ struct WaitContext {
     QEventLoop loop;
     bool coroutineFinished = false;
     std::exception_ptr exception;
+
+    //! Called by the coroutine when it is done with the context, on whichever thread it has finished.
+    void finish() {
+        if (QThread::currentThread() == loop.thread()) {
+            coroutineFinished = true;
+            loop.quit();
+        } else {
+            // The waiting thread may be anywhere between checking coroutineFinished and running the
+            // event loop (where quit() would be lost), so let its event loop finish the wait.
+            QMetaObject::invokeMethod(&loop, [this]() {
+                coroutineFinished = true;
+                loop.quit();
+            }, Qt::QueuedConnection);
+        }
+    }
 };
 
 //! Helper class to run a coroutine in a nested event loop.
@@ -48,8 +65,7 @@ Task<> runCoroutine(WaitContext &context, Awaitable &&awaitable) {
     } catch (...) {
         context.exception = std::current_exception();
     }
-    context.coroutineFinished = true;
-    context.loop.quit();
+    context.finish();
 }
 
 template<typename T, Awaitable Awaitable>
@@ -59,8 +75,7 @@ Task<> runCoroutine(WaitContext &context, std::optional<T> &result, Awaitable &&
     } catch (...) {
         context.exception = std::current_exception();
     }
-    context.coroutineFinished = true;
-    context.loop.quit();
+    context.finish();
 }
 
 template<typename T, Awaitable Awaitable>
-- 
2.43.0


From 34b385b45a4b14656564afacb609143086fb59ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:14 +0000
Subject: [PATCH 12/34] fix: QCoro::connect() let its coroutine use a destroyed
 awaitable

---
 qcoro/impl/connect.h | 3 ++-
 qcoro/impl/waitfor.h | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/qcoro/impl/connect.h b/qcoro/impl/connect.h
index 7b01416..0efebc9 100644
--- a/qcoro/impl/connect.h
+++ b/qcoro/impl/connect.h
@@ -54,7 +54,8 @@ requires detail::TaskConvertible<T>
         && (std::is_invocable_v<Callback> || std::is_invocable_v<Callback, detail::convertible_awaitable_return_type_t<T>> || std::is_invocable_v<Callback, QObjectSubclass *> || std::is_invocable_v<Callback, QObjectSubclass *, detail::convertible_awaitable_return_type_t<T>>)
         && (!detail::isTask_v<T>)
 inline void connect(T &&future, QObjectSubclass *context, Callback func) {
-    auto task = detail::toTask(std::move(future));
+    // The coroutine must own an awaitable that the caller gives away, as it may outlive the caller.
+    auto task = detail::toTask<T>(std::forward<T>(future));
     connect(std::move(task), context, func);
 }
 
diff --git a/qcoro/impl/waitfor.h b/qcoro/impl/waitfor.h
index f1c7eef..2684018 100644
--- a/qcoro/impl/waitfor.h
+++ b/qcoro/impl/waitfor.h
@@ -24,7 +24,7 @@ namespace detail
 
 template <typename Awaitable>
 requires TaskConvertible<Awaitable>
-auto toTask(Awaitable &&future) -> QCoro::Task<detail::convertible_awaitable_return_type_t<Awaitable>> {
+auto toTask(Awaitable future) -> QCoro::Task<detail::convertible_awaitable_return_type_t<std::remove_reference_t<Awaitable>>> {
     co_return co_await future;
 }
 
-- 
2.43.0


From 5cfe39c15e4135c22d4fc4fd33875b1f390d38d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 13/34] fix: QCoroThread waits must not miss a thread that
 starts or finishes meanwhile

---
 qcoro/core/qcorothread.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/qcoro/core/qcorothread.cpp b/qcoro/core/qcorothread.cpp
index b1c73ee..ef0d2f3 100644
--- a/qcoro/core/qcorothread.cpp
+++ b/qcoro/core/qcorothread.cpp
@@ -88,6 +88,9 @@ QCoroThread::QCoroThread(QThread *thread)
 {}
 
 QCoro::Task<bool> QCoroThread::waitForStarted(std::chrono::milliseconds timeout) {
+    // Start listening before looking at the state of the thread, so that a thread which
+    // gets there in the meantime is not missed.
+    auto started = qCoroSignalListener(mThread.data(), &QThread::started, timeout);
     if (mThread->isRunning()) {
         co_return true;
     }
@@ -95,20 +98,22 @@ QCoro::Task<bool> QCoroThread::waitForStarted(std::chrono::milliseconds timeout)
         co_return false;
     }
 
-    const auto result = co_await qCoro(mThread.data(), &QThread::started, timeout);
-    co_return result.has_value();
+    const auto it = co_await started.begin();
+    co_return it != started.end();
 }
 
 QCoro::Task<bool> QCoroThread::waitForFinished(std::chrono::milliseconds timeout) {
+    auto finished = qCoroSignalListener(mThread.data(), &QThread::finished, timeout);
     if (mThread->isFinished()) {
         co_return true;
     }
     if (!mThread->isRunning()) {
-        co_return false;
+        // The thread may have finished just now.
+        co_return mThread->isFinished();
     }
 
-    const auto result = co_await qCoro(mThread.data(), &QThread::finished, timeout);
-    co_return result.has_value();
+    const auto it = co_await finished.begin();
+    co_return it != finished.end();
 }
 
 #include "qcorothread.moc"
-- 
2.43.0


From f3a59ff9960e52321a335b6c861423a28bd8aba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:46 +0000
Subject: [PATCH 14/34] fix: waitForReadyRead() is false when the device is
 closed, reads survive the device

---
 qcoro/core/qcoroiodevice.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index 0d457b8..eaeaf87 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -41,7 +41,7 @@ void QCoroIODevice::ReadOperation::await_suspend(std::coroutine_handle<> awaitin
 }
 
 QByteArray QCoroIODevice::ReadOperation::await_resume() {
-    return mResultCb(mDevice);
+    return mDevice ? mResultCb(mDevice) : QByteArray{};
 }
 
 QCoroIODevice::ReadAllOperation::ReadAllOperation(QIODevice *device)
@@ -56,7 +56,7 @@ QCoroIODevice::QCoroIODevice(QIODevice *device)
 
 QCoro::Task<QByteArray> QCoroIODevice::readAll(std::chrono::milliseconds timeout) {
     const auto device = mDevice;
-    if (!co_await waitForReadyRead(timeout)) {
+    if (!co_await waitForReadyRead(timeout) || !device) {
         co_return QByteArray{};
     }
 
@@ -65,7 +65,7 @@ QCoro::Task<QByteArray> QCoroIODevice::readAll(std::chrono::milliseconds timeout
 
 QCoro::Task<QByteArray> QCoroIODevice::read(qint64 maxSize, std::chrono::milliseconds timeout) {
     const auto device = mDevice;
-    if (!co_await waitForReadyRead(timeout)) {
+    if (!co_await waitForReadyRead(timeout) || !device) {
         co_return QByteArray{};
     }
 
@@ -74,7 +74,7 @@ QCoro::Task<QByteArray> QCoroIODevice::read(qint64 maxSize, std::chrono::millise
 
 QCoro::Task<QByteArray> QCoroIODevice::readLine(qint64 maxSize, std::chrono::milliseconds timeout) {
     const auto device = mDevice;
-    if (!co_await waitForReadyRead(timeout)) {
+    if (!co_await waitForReadyRead(timeout) || !device) {
         co_return QByteArray{};
     }
 
@@ -110,7 +110,7 @@ QCoro::Task<bool> QCoroIODevice::waitForReadyRead(std::chrono::milliseconds time
     }
 
     const auto result = co_await waitForReadyReadImpl(timeout);
-    co_return result.has_value();
+    co_return result.value_or(false);
 }
 
 QCoro::Task<std::optional<qint64>> QCoroIODevice::waitForBytesWritten(int timeout_msecs) {
-- 
2.43.0


From 9a624fc13ad2138a732dd0e907f3b6e1e2950e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:31 +0000
Subject: [PATCH 15/34] fix: write() counts what the device reports instead of
 waiting for reports that never come

---
 qcoro/core/qcoroiodevice.cpp | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index eaeaf87..7a6928b 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -10,6 +10,8 @@
 #include <QIODevice>
 #include <QTimer>
 
+#include <algorithm>
+
 using namespace QCoro::detail;
 
 QCoroIODevice::OperationBase::OperationBase(QIODevice *device)
@@ -82,19 +84,32 @@ QCoro::Task<QByteArray> QCoroIODevice::readLine(qint64 maxSize, std::chrono::mil
 }
 
 QCoro::Task<qint64> QCoroIODevice::write(const QByteArray &buffer) {
-    const auto bytesWritten = mDevice->write(buffer);
-    qint64 bytesConfirmed = 0;
-    while (bytesConfirmed < bytesWritten) {
-        const auto flushed = co_await waitForBytesWritten(-1);
-        if (!flushed.has_value()) {
+    const auto device = mDevice;
+    // The device may flush (and report) data while we are not waiting for it, including from
+    // within the call to QIODevice::write(), so count everything it reports.
+    qint64 flushed = 0;
+    QObject context;
+    QObject::connect(device, &QIODevice::bytesWritten, &context, [&flushed](qint64 bytes) { flushed += bytes; });
+
+    // Data written earlier will be flushed (and reported) before our data.
+    const auto pending = device->bytesToWrite();
+    const auto accepted = std::max<qint64>(device->write(buffer), 0);
+    while (accepted > 0 && flushed < pending + accepted) {
+        if (!device || !device->isWritable()) {
+            break;
+        }
+        if (device->bytesToWrite() == 0) {
+            // The device has written everything without reporting it (e.g. it's unbuffered).
+            co_return accepted;
+        }
+        if (!(co_await waitForBytesWritten(-1)).has_value()) {
             // There was an intermediate error and we don't know how much was actually
             // written, so we report only what we know for sure was written.
             break;
         }
-        bytesConfirmed += *flushed;
     }
 
-    co_return bytesConfirmed;
+    co_return std::clamp<qint64>(flushed - pending, 0, accepted);
 }
 
 QCoro::Task<bool> QCoroIODevice::waitForReadyRead(int timeout_msecs) {
-- 
2.43.0


From 56c605ff5b835025e69782ff3da910d620c46975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:59 +0000
Subject: [PATCH 16/34] fix: process waits end when the process fails to start

---
 qcoro/core/qcoroprocess.cpp | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/qcoro/core/qcoroprocess.cpp b/qcoro/core/qcoroprocess.cpp
index 6b0a03e..633608e 100644
--- a/qcoro/core/qcoroprocess.cpp
+++ b/qcoro/core/qcoroprocess.cpp
@@ -13,6 +13,28 @@
 
 using namespace QCoro::detail;
 
+namespace {
+
+class ProcessFinishedHelper : public QObject {
+    Q_OBJECT
+public:
+    explicit ProcessFinishedHelper(const QProcess *process)
+    {
+        connect(process, qOverload<int, QProcess::ExitStatus>(&QProcess::finished), this, [this]() { Q_EMIT ready(true); });
+        // A process that fails to start never finishes
+        connect(process, &QProcess::errorOccurred, this, [this](QProcess::ProcessError error) {
+            if (error == QProcess::FailedToStart) {
+                Q_EMIT ready(false);
+            }
+        });
+    }
+
+Q_SIGNALS:
+    void ready(bool finished);
+};
+
+} // namespace
+
 QCoroProcess::QCoroProcess(QProcess *process)
     : QCoroIODevice(process)
 {}
@@ -24,8 +46,9 @@ QCoro::Task<bool> QCoroProcess::waitForStarted(int timeout_msecs) {
 QCoro::Task<bool> QCoroProcess::waitForStarted(std::chrono::milliseconds timeout) {
     const auto *process = qobject_cast<QProcess *>(mDevice.data());
     if (process->state() == QProcess::Starting) {
-        const auto started = co_await qCoro(process, &QProcess::started, timeout);
-        co_return started.has_value();
+        // The process leaves the Starting state when it has started as well as when it fails to start
+        const auto state = co_await qCoro(process, &QProcess::stateChanged, timeout);
+        co_return state == QProcess::Running;
     }
 
     co_return process->state() == QProcess::Running;
@@ -41,8 +64,9 @@ QCoro::Task<bool> QCoroProcess::waitForFinished(std::chrono::milliseconds timeou
         co_return false;
     }
 
-    const auto finished = co_await qCoro(process, qOverload<int, QProcess::ExitStatus>(&QProcess::finished), timeout);
-    co_return finished.has_value();
+    ProcessFinishedHelper helper(process);
+    const auto finished = co_await qCoro(&helper, &ProcessFinishedHelper::ready, timeout);
+    co_return finished.value_or(false);
 }
 
 QCoro::Task<bool> QCoroProcess::start(QIODevice::OpenMode mode, std::chrono::milliseconds timeout) {
@@ -56,4 +80,6 @@ QCoro::Task<bool> QCoroProcess::start(const QString &program, const QStringList
     return waitForStarted(timeout);
 }
 
+#include "qcoroprocess.moc"
+
 #endif // QT_CONFIG(process)
-- 
2.43.0


From 4e516225947c5a9f6dd35e722b2f76489da16c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 17/34] fix: a write ends when the connection does

---
 qcoro/core/qcoroiodevice.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/qcoro/core/qcoroiodevice.cpp b/qcoro/core/qcoroiodevice.cpp
index 7a6928b..490a291 100644
--- a/qcoro/core/qcoroiodevice.cpp
+++ b/qcoro/core/qcoroiodevice.cpp
@@ -94,14 +94,17 @@ QCoro::Task<qint64> QCoroIODevice::write(const QByteArray &buffer) {
     // Data written earlier will be flushed (and reported) before our data.
     const auto pending = device->bytesToWrite();
     const auto accepted = std::max<qint64>(device->write(buffer), 0);
+    if (accepted > 0 && device && device->isWritable() && device->bytesToWrite() == 0) {
+        // The device has written everything, perhaps without reporting it (e.g. it's unbuffered).
+        co_return accepted;
+    }
+
     while (accepted > 0 && flushed < pending + accepted) {
-        if (!device || !device->isWritable()) {
+        // A device that has nothing left to write has discarded our data (e.g. a socket whose
+        // connection was closed).
+        if (!device || !device->isWritable() || device->bytesToWrite() == 0) {
             break;
         }
-        if (device->bytesToWrite() == 0) {
-            // The device has written everything without reporting it (e.g. it's unbuffered).
-            co_return accepted;
-        }
         if (!(co_await waitForBytesWritten(-1)).has_value()) {
             // There was an intermediate error and we don't know how much was actually
             // written, so we report only what we know for sure was written.
-- 
2.43.0


From 33e078b123ee2390d1446418eff9b6e162170b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:07 +0000
Subject: [PATCH 18/34] fix: waits of a TCP/UDP socket end when the connection
 attempt fails

---
 qcoro/network/qcoroabstractsocket.cpp | 65 +++++++++++++++++++++++----
 1 file changed, 57 insertions(+), 8 deletions(-)

diff --git a/qcoro/network/qcoroabstractsocket.cpp b/qcoro/network/qcoroabstractsocket.cpp
index 56fde6b..dd95606 100644
--- a/qcoro/network/qcoroabstractsocket.cpp
+++ b/qcoro/network/qcoroabstractsocket.cpp
@@ -11,6 +11,45 @@ using namespace std::chrono_literals;
 
 namespace {
 
+class AbstractSocketConnectedHelper : public QObject {
+    Q_OBJECT
+public:
+    explicit AbstractSocketConnectedHelper(const QAbstractSocket *socket)
+    {
+        connect(socket, &QAbstractSocket::connected, this, [this]() { Q_EMIT ready(true); });
+        connect(socket, &QAbstractSocket::stateChanged, this, [this](QAbstractSocket::SocketState state) {
+            if (state == QAbstractSocket::UnconnectedState) {
+                Q_EMIT ready(false);
+            }
+        });
+    }
+
+Q_SIGNALS:
+    void ready(bool connected);
+};
+
+class AbstractSocketDisconnectedHelper : public QObject {
+    Q_OBJECT
+public:
+    explicit AbstractSocketDisconnectedHelper(const QAbstractSocket *socket)
+        : mState(socket->state())
+    {
+        connect(socket, &QAbstractSocket::stateChanged, this, [this](QAbstractSocket::SocketState state) {
+            if (state == QAbstractSocket::UnconnectedState) {
+                // A socket that failed to connect is never disconnected
+                Q_EMIT ready(mState != QAbstractSocket::HostLookupState && mState != QAbstractSocket::ConnectingState);
+            }
+            mState = state;
+        });
+    }
+
+Q_SIGNALS:
+    void ready(bool disconnected);
+
+private:
+    QAbstractSocket::SocketState mState;
+};
+
 class AbstractSocketReadySignalHelper : public WaitSignalHelper {
     Q_OBJECT
 public:
@@ -75,8 +114,9 @@ QCoro::Task<bool> QCoroAbstractSocket::waitForConnected(std::chrono::millisecond
         co_return true;
     }
 
-    const auto result = co_await qCoro(socket, &QAbstractSocket::connected, timeout);
-    co_return result.has_value();
+    AbstractSocketConnectedHelper helper(socket);
+    const auto result = co_await qCoro(&helper, &AbstractSocketConnectedHelper::ready, timeout);
+    co_return result.value_or(false);
 }
 
 QCoro::Task<bool> QCoroAbstractSocket::waitForDisconnected(int timeout_msecs) {
@@ -89,21 +129,30 @@ QCoro::Task<bool> QCoroAbstractSocket::waitForDisconnected(std::chrono::millisec
         co_return false;
     }
 
-    const auto result = co_await qCoro(socket, &QAbstractSocket::disconnected, timeout);
-    co_return result.has_value();
+    AbstractSocketDisconnectedHelper helper(socket);
+    const auto result = co_await qCoro(&helper, &AbstractSocketDisconnectedHelper::ready, timeout);
+    co_return result.value_or(false);
 }
 
 QCoro::Task<bool> QCoroAbstractSocket::connectToHost(const QString &hostName, quint16 port,
                                                      QIODevice::OpenMode openMode, QAbstractSocket::NetworkLayerProtocol protocol,
                                                      std::chrono::milliseconds timeout) {
-    static_cast<QAbstractSocket *>(mDevice.data())->connectToHost(hostName, port, openMode, protocol);
-    return waitForConnected(timeout);
+    auto *socket = static_cast<QAbstractSocket *>(mDevice.data());
+    socket->connectToHost(hostName, port, openMode, protocol);
+    if (socket->state() == QAbstractSocket::UnconnectedState) {
+        co_return false; // failed right away
+    }
+    co_return co_await waitForConnected(timeout);
 }
 
 QCoro::Task<bool> QCoroAbstractSocket::connectToHost(const QHostAddress &address, quint16 port,
                                                      QIODevice::OpenMode openMode, std::chrono::milliseconds timeout) {
-    static_cast<QAbstractSocket *>(mDevice.data())->connectToHost(address, port, openMode);
-    return waitForConnected(timeout);
+    auto *socket = static_cast<QAbstractSocket *>(mDevice.data());
+    socket->connectToHost(address, port, openMode);
+    if (socket->state() == QAbstractSocket::UnconnectedState) {
+        co_return false; // failed right away
+    }
+    co_return co_await waitForConnected(timeout);
 }
 
 #include "qcoroabstractsocket.moc"
\ No newline at end of file
-- 
2.43.0


From 6a28306dc6d69e729404fc921bba794cd4dff3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:23 +0000
Subject: [PATCH 19/34] fix: waits of a local socket end when the connection
 attempt fails

---
 qcoro/network/qcorolocalsocket.cpp | 43 +++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/qcoro/network/qcorolocalsocket.cpp b/qcoro/network/qcorolocalsocket.cpp
index 5cc97e5..8151c52 100644
--- a/qcoro/network/qcorolocalsocket.cpp
+++ b/qcoro/network/qcorolocalsocket.cpp
@@ -42,6 +42,28 @@ private:
     QMetaObject::Connection mStateChange;
 };
 
+class LocalSocketDisconnectedHelper : public QObject {
+    Q_OBJECT
+public:
+    explicit LocalSocketDisconnectedHelper(const QLocalSocket *socket)
+        : mState(socket->state())
+    {
+        connect(socket, &QLocalSocket::stateChanged, this, [this](QLocalSocket::LocalSocketState state) {
+            if (state == QLocalSocket::UnconnectedState) {
+                // A socket that failed to connect is never disconnected
+                Q_EMIT ready(mState != QLocalSocket::ConnectingState);
+            }
+            mState = state;
+        });
+    }
+
+Q_SIGNALS:
+    void ready(bool disconnected);
+
+private:
+    QLocalSocket::LocalSocketState mState;
+};
+
 class LocalSocketReadySignalHelper : public WaitSignalHelper {
     Q_OBJECT
 public:
@@ -116,20 +138,29 @@ QCoro::Task<bool> QCoroLocalSocket::waitForDisconnected(std::chrono::millisecond
     if (socket->state() == QLocalSocket::UnconnectedState) {
         co_return false;
     }
-    const auto result = co_await qCoro(socket, &QLocalSocket::disconnected, timeout);
-    co_return result.has_value();
+    LocalSocketDisconnectedHelper helper(socket);
+    const auto result = co_await qCoro(&helper, &LocalSocketDisconnectedHelper::ready, timeout);
+    co_return result.value_or(false);
 }
 
 QCoro::Task<bool> QCoroLocalSocket::connectToServer(QIODevice::OpenMode openMode,
                                                     std::chrono::milliseconds timeout) {
-    static_cast<QLocalSocket *>(mDevice.data())->connectToServer(openMode);
-    return waitForConnected(timeout);
+    auto *socket = static_cast<QLocalSocket *>(mDevice.data());
+    socket->connectToServer(openMode);
+    if (socket->state() == QLocalSocket::UnconnectedState) {
+        co_return false; // failed right away
+    }
+    co_return co_await waitForConnected(timeout);
 }
 
 QCoro::Task<bool> QCoroLocalSocket::connectToServer(const QString &name, QIODevice::OpenMode openMode,
                                                     std::chrono::milliseconds timeout) {
-    static_cast<QLocalSocket *>(mDevice.data())->connectToServer(name, openMode);
-    return waitForConnected(timeout);
+    auto *socket = static_cast<QLocalSocket *>(mDevice.data());
+    socket->connectToServer(name, openMode);
+    if (socket->state() == QLocalSocket::UnconnectedState) {
+        co_return false; // failed right away
+    }
+    co_return co_await waitForConnected(timeout);
 }
 
 #include "qcorolocalsocket.moc"
\ No newline at end of file
-- 
2.43.0


From 97f5f258d09241f8fef5aad2967e19fbc2c49286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:07 +0000
Subject: [PATCH 20/34] fix: waitForNewConnection copes with a connection taken
 by someone else and with a server that is gone

---
 qcoro/network/qcorotcpserver.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/qcoro/network/qcorotcpserver.cpp b/qcoro/network/qcorotcpserver.cpp
index b23e297..0b08d5f 100644
--- a/qcoro/network/qcorotcpserver.cpp
+++ b/qcoro/network/qcorotcpserver.cpp
@@ -5,6 +5,7 @@
 #include "qcorotcpserver.h"
 #include "qcorosignal.h"
 
+#include <QDeadlineTimer>
 #include <QTcpServer>
 
 using namespace QCoro::detail;
@@ -36,16 +37,18 @@ QCoro::Task<QTcpSocket *> QCoroTcpServer::waitForNewConnection(int timeout_msecs
 
 QCoro::Task<QTcpSocket *> QCoroTcpServer::waitForNewConnection(std::chrono::milliseconds timeout) {
     const auto server = mServer;
-    if (!server->isListening()) {
-        co_return nullptr;
-    }
-    if (server->hasPendingConnections()) {
-        co_return server->nextPendingConnection();
-    }
-
-    const auto result = co_await qCoro(server.data(), &QTcpServer::newConnection, timeout);
-    if (result.has_value()) {
-        co_return server->nextPendingConnection();
+    const QDeadlineTimer deadline = timeout.count() < 0 ? QDeadlineTimer(QDeadlineTimer::Forever) : QDeadlineTimer(timeout.count());
+    while (server && server->isListening()) {
+        if (server->hasPendingConnections()) {
+            co_return server->nextPendingConnection();
+        }
+
+        const auto remaining = std::chrono::milliseconds(deadline.remainingTime());
+        const auto result = co_await qCoro(server.data(), &QTcpServer::newConnection, remaining);
+        if (!result.has_value()) {
+            break;
+        }
+        // Someone else may have taken the connection in the meantime
     }
     co_return nullptr;
 }
-- 
2.43.0


From 11b41717d515c94e6425dd9a6f7c6dcadf037732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:20 +0000
Subject: [PATCH 21/34] fix: waiting for a web socket connection copes with one
 taken by someone else and with a server that is gone

---
 qcoro/websockets/qcorowebsocketserver.cpp | 36 +++++++++++++----------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/qcoro/websockets/qcorowebsocketserver.cpp b/qcoro/websockets/qcorowebsocketserver.cpp
index c2c6056..e567456 100644
--- a/qcoro/websockets/qcorowebsocketserver.cpp
+++ b/qcoro/websockets/qcorowebsocketserver.cpp
@@ -5,6 +5,8 @@
 #include "qcorowebsocketserver.h"
 #include "qcorosignal.h"
 
+#include <QDeadlineTimer>
+#include <QPointer>
 #include <QWebSocket>
 #include <QWebSocketServer>
 
@@ -17,15 +19,15 @@ class QCoroWebSocketServerSignalListener : public QObject {
 public:
     QCoroWebSocketServerSignalListener(QWebSocketServer *server) {
         connect(server, &QWebSocketServer::closed, this, [this]() {
-            Q_EMIT ready(nullptr);
+            Q_EMIT ready(false);
         });
-        connect(server, &QWebSocketServer::newConnection, [this, server]() {
-            Q_EMIT ready(server->nextPendingConnection());
+        connect(server, &QWebSocketServer::newConnection, this, [this]() {
+            Q_EMIT ready(true);
         });
     }
 
 Q_SIGNALS:
-    void ready(QWebSocket *socket);
+    void ready(bool hasConnection);
 };
 
 } // namespace
@@ -36,18 +38,22 @@ QCoroWebSocketServer::QCoroWebSocketServer(QWebSocketServer *server)
 
 QCoro::Task<QWebSocket *> QCoroWebSocketServer::nextPendingConnection(std::chrono::milliseconds timeout)
 {
-    auto * const server = mServer;
-    if (!server->isListening()) {
-        co_return nullptr;
+    const QPointer<QWebSocketServer> server = mServer;
+    const QDeadlineTimer deadline = timeout.count() < 0 ? QDeadlineTimer(QDeadlineTimer::Forever) : QDeadlineTimer(timeout.count());
+    while (server && server->isListening()) {
+        if (server->hasPendingConnections()) {
+            co_return server->nextPendingConnection();
+        }
+
+        QCoroWebSocketServerSignalListener listener(server);
+        const auto remaining = std::chrono::milliseconds(deadline.remainingTime());
+        const auto result = co_await qCoro(&listener, &QCoroWebSocketServerSignalListener::ready, remaining);
+        if (!result.value_or(false)) {
+            break;
+        }
+        // Someone else may have taken the connection in the meantime
     }
-
-    if (server->hasPendingConnections()) {
-        co_return server->nextPendingConnection();
-    }
-
-    QCoroWebSocketServerSignalListener listener(server);
-    const auto result = co_await qCoro(&listener, &QCoroWebSocketServerSignalListener::ready, timeout);
-    co_return result.value_or(nullptr);
+    co_return nullptr;
 }
 
 #include "qcorowebsocketserver.moc"
-- 
2.43.0


From 8a73876c1900f7e71b49bb430185fdfdf81011d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:40 +0000
Subject: [PATCH 22/34] fix: awaiting a cancelled QFuture that is still running
 does not block the thread

---
 qcoro/core/qcorofuture.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qcoro/core/qcorofuture.h b/qcoro/core/qcorofuture.h
index 0e028d8..23f563b 100644
--- a/qcoro/core/qcorofuture.h
+++ b/qcoro/core/qcorofuture.h
@@ -28,7 +28,7 @@ private:
         QCORO_DEFAULT_MOVE(WaitForFinishedOperationBase)
 
         bool await_ready() const noexcept {
-            return mFuture.isFinished() || mFuture.isCanceled();
+            return mFuture.isFinished();
         }
 
         void await_suspend(std::coroutine_handle<> awaitingCoroutine) {
-- 
2.43.0


From 7b887068e0df71f620e85ec4be14bcf7000032de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:18 +0000
Subject: [PATCH 23/34] fix: opening a web socket reports a connection attempt
 that fails immediately or ends without an error

---
 qcoro/websockets/qcorowebsocket.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/qcoro/websockets/qcorowebsocket.cpp b/qcoro/websockets/qcorowebsocket.cpp
index c686d14..f3f4f03 100644
--- a/qcoro/websockets/qcorowebsocket.cpp
+++ b/qcoro/websockets/qcorowebsocket.cpp
@@ -30,6 +30,8 @@ public:
         : mState(connect(socket, &QWebSocket::stateChanged, this, [this, desiredState](auto newState) {
             if (newState == desiredState) {
                 emitReady(true);
+            } else if (newState == QAbstractSocket::UnconnectedState) {
+                emitReady(false);
             }
         }))
         , mError(connect(socket, qOverload<QAbstractSocket::SocketError>(
@@ -44,6 +46,11 @@ public:
         }))
     {}
 
+    //! The result, if it is known already
+    std::optional<bool> result() const {
+        return mResult;
+    }
+
 Q_SIGNALS:
     void ready(bool result);
 
@@ -51,9 +58,12 @@ private:
     void emitReady(bool result) {
         disconnect(mState);
         disconnect(mError);
+        mResult = result;
         Q_EMIT ready(result);
     }
 
+    std::optional<bool> mResult;
+
     QMetaObject::Connection mState;
     QMetaObject::Connection mError;
 };
@@ -153,6 +163,9 @@ QCoro::Task<bool> QCoroWebSocket::open(const QUrl &url, std::chrono::millisecond
 
     WebSocketStateWatcher watcher(mWebSocket, QAbstractSocket::ConnectedState);
     mWebSocket->open(url);
+    if (watcher.result().has_value()) { // failed immediately
+        co_return *watcher.result();
+    }
     const auto result = co_await qCoro(&watcher, &WebSocketStateWatcher::ready, timeout);
     co_return result.value_or(false);
 }
@@ -165,6 +178,9 @@ QCoro::Task<bool> QCoroWebSocket::open(const QNetworkRequest &request, std::chro
 
     WebSocketStateWatcher watcher(mWebSocket, QAbstractSocket::ConnectedState);
     mWebSocket->open(request);
+    if (watcher.result().has_value()) { // failed immediately
+        co_return *watcher.result();
+    }
     const auto result = co_await qCoro(&watcher, &WebSocketStateWatcher::ready, timeout);
     co_return result.value_or(false);
 }
-- 
2.43.0


From e0252f16beb2aebca8c3c66f3ed2447a4562f7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:38 +0000
Subject: [PATCH 24/34] fix: web socket streams buffer what arrives before they
 are first iterated

---
 qcoro/websockets/qcorowebsocket.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/qcoro/websockets/qcorowebsocket.cpp b/qcoro/websockets/qcorowebsocket.cpp
index f3f4f03..c74891f 100644
--- a/qcoro/websockets/qcorowebsocket.cpp
+++ b/qcoro/websockets/qcorowebsocket.cpp
@@ -9,6 +9,8 @@
 #include <QWebSocket>
 #include <QDebug>
 
+#include <memory>
+
 using namespace QCoro::detail;
 
 using TupleQInt64QByteArray = std::tuple<qint64, QByteArray>;
@@ -126,20 +128,18 @@ Q_SIGNALS:
     void ready(std::optional<std::tuple<QString>>); // text messages
 };
 
-template<typename Signal>
-auto watcherGenerator(QWebSocket *ws, Signal signal, std::chrono::milliseconds timeout) ->
-    QCoro::AsyncGenerator<unwrapped_signal_args_t<signal_args_t<Signal>>>
+template<typename SignalArgs>
+auto watcherGeneratorImpl([[maybe_unused]] std::unique_ptr<WebSocketSignalWatcher> watcher,
+                          QCoro::AsyncGenerator<std::optional<SignalArgs>> signalListener) ->
+    QCoro::AsyncGenerator<unwrapped_signal_args_t<SignalArgs>>
 {
-    WebSocketSignalWatcher watcher(ws, signal);
-    using signalType = std::optional<signal_args_t<Signal>>;
-    auto signalListener = qCoroSignalListener(&watcher, qOverload<signalType>(&WebSocketSignalWatcher::ready), timeout);
     auto it = co_await signalListener.begin();
     while (it != signalListener.end()) {
         if (!(*it).has_value()) {
             break;
         }
         // If the signal is a single-value tuple, we unwrap it from the tuple, otherwise we yield the whole tuple.
-        if constexpr (std::tuple_size_v<typename signalType::value_type> == 1) {
+        if constexpr (std::tuple_size_v<SignalArgs> == 1) {
             co_yield std::get<0>(**it);
         } else {
             co_yield **it;
@@ -148,6 +148,17 @@ auto watcherGenerator(QWebSocket *ws, Signal signal, std::chrono::milliseconds t
     }
 }
 
+template<typename Signal>
+auto watcherGenerator(QWebSocket *ws, Signal signal, std::chrono::milliseconds timeout) ->
+    QCoro::AsyncGenerator<unwrapped_signal_args_t<signal_args_t<Signal>>>
+{
+    // The generator starts only when it is first iterated, but everything that arrives from now on must be buffered.
+    auto watcher = std::make_unique<WebSocketSignalWatcher>(ws, signal);
+    using signalType = std::optional<signal_args_t<Signal>>;
+    auto signalListener = qCoroSignalListener(watcher.get(), qOverload<signalType>(&WebSocketSignalWatcher::ready), timeout);
+    return watcherGeneratorImpl<signal_args_t<Signal>>(std::move(watcher), std::move(signalListener));
+}
+
 
 } // namespace
 
-- 
2.43.0


From 76dba2820ef492cba64030e5671b3b1183256ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:34 +0000
Subject: [PATCH 25/34] fix: the QDBusPendingCall wrapper keeps its own
 reference to the call

---
 qcoro/dbus/qcorodbuspendingcall.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qcoro/dbus/qcorodbuspendingcall.h b/qcoro/dbus/qcorodbuspendingcall.h
index b56ff19..ebc557e 100644
--- a/qcoro/dbus/qcorodbuspendingcall.h
+++ b/qcoro/dbus/qcorodbuspendingcall.h
@@ -26,10 +26,10 @@ private:
         void await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept;
         QDBusMessage await_resume() const;
     private:
-        const QDBusPendingCall &mCall;
+        const QDBusPendingCall mCall;
     };
 
-    const QDBusPendingCall &mCall;
+    const QDBusPendingCall mCall;
 
     friend struct awaiter_type<QDBusPendingCall>;
 public:
-- 
2.43.0


From 6527e74d603d8a8a07a765dcf66b7447c0fef567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:23 +0000
Subject: [PATCH 26/34] fix: awaiting a D-Bus call that has finished neither
 suspends forever nor resumes twice

---
 qcoro/dbus/qcorodbuspendingcall.cpp | 14 ++++++++++++--
 qcoro/dbus/qcorodbuspendingcall.h   |  2 +-
 qcoro/dbus/qcorodbuspendingreply.h  | 14 ++++++++++++--
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/qcoro/dbus/qcorodbuspendingcall.cpp b/qcoro/dbus/qcorodbuspendingcall.cpp
index af7098e..ff69a29 100644
--- a/qcoro/dbus/qcorodbuspendingcall.cpp
+++ b/qcoro/dbus/qcorodbuspendingcall.cpp
@@ -17,13 +17,20 @@ bool QCoroDBusPendingCall::WaitForFinishedOperation::await_ready() const noexcep
     return mCall.isFinished();
 }
 
-void QCoroDBusPendingCall::WaitForFinishedOperation::await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
+bool QCoroDBusPendingCall::WaitForFinishedOperation::await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept {
 auto *watcher = new QDBusPendingCallWatcher{mCall};
     QObject::connect(watcher, &QDBusPendingCallWatcher::finished,
                      [awaitingCoroutine](auto *watcher) mutable {
                          awaitingCoroutine.resume();
                          watcher->deleteLater();
                      });
+    if (watcher->isFinished()) {
+        // The reply has arrived just now (it is received by another thread). The watcher
+        // may or may not be notified of it, so don't rely on that.
+        delete watcher;
+        return false;
+    }
+    return true;
 }
 
 QDBusMessage QCoroDBusPendingCall::WaitForFinishedOperation::await_resume() const {
@@ -37,7 +44,10 @@ QCoroDBusPendingCall::QCoroDBusPendingCall(const QDBusPendingCall &call)
 
 QCoro::Task<QDBusMessage> QCoroDBusPendingCall::waitForFinished() {
     QDBusPendingCallWatcher watcher{mCall};
-    co_await qCoro(&watcher, &QDBusPendingCallWatcher::finished);
+    // A watcher of a call that has already finished may never be notified.
+    if (!watcher.isFinished()) {
+        co_await qCoro(&watcher, &QDBusPendingCallWatcher::finished);
+    }
     co_return watcher.reply();
 }
 
diff --git a/qcoro/dbus/qcorodbuspendingcall.h b/qcoro/dbus/qcorodbuspendingcall.h
index ebc557e..830096b 100644
--- a/qcoro/dbus/qcorodbuspendingcall.h
+++ b/qcoro/dbus/qcorodbuspendingcall.h
@@ -23,7 +23,7 @@ private:
         explicit WaitForFinishedOperation(const QDBusPendingCall &call);
 
         bool await_ready() const noexcept;
-        void await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept;
+        bool await_suspend(std::coroutine_handle<> awaitingCoroutine) noexcept;
         QDBusMessage await_resume() const;
     private:
         const QDBusPendingCall mCall;
diff --git a/qcoro/dbus/qcorodbuspendingreply.h b/qcoro/dbus/qcorodbuspendingreply.h
index 40154f5..0442185 100644
--- a/qcoro/dbus/qcorodbuspendingreply.h
+++ b/qcoro/dbus/qcorodbuspendingreply.h
@@ -36,13 +36,20 @@ private:
             return mReply.isFinished();
         }
 
-        void await_suspend(std::coroutine_handle<> awaitingCoroutine) {
+        bool await_suspend(std::coroutine_handle<> awaitingCoroutine) {
             auto *watcher = new QDBusPendingCallWatcher{mReply};
             QObject::connect(watcher, &QDBusPendingCallWatcher::finished,
                              [awaitingCoroutine](auto *watcher) mutable {
                                  awaitingCoroutine.resume();
                                  watcher->deleteLater();
                              });
+            if (watcher->isFinished()) {
+                // The reply has arrived just now (it is received by another thread). The watcher
+                // may or may not be notified of it, so don't rely on that.
+                delete watcher;
+                return false;
+            }
+            return true;
         }
 
         QDBusPendingReply<Args ...> await_resume() const {
@@ -110,7 +117,10 @@ public:
     Task<QDBusPendingReply<Args ...>> waitForFinished() {
         if (!mReply.isFinished()) {
             QDBusPendingCallWatcher watcher{mReply};
-            co_await qCoro(&watcher, &QDBusPendingCallWatcher::finished);
+            // A watcher of a call that has already finished may never be notified.
+            if (!watcher.isFinished()) {
+                co_await qCoro(&watcher, &QDBusPendingCallWatcher::finished);
+            }
             co_return watcher.reply();
         }
         co_return mReply;
-- 
2.43.0


From fb8541eef1dea33e8c667772192cc327fa5505c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:48 +0000
Subject: [PATCH 27/34] fix: copies of a QmlTask can be used

---
 qcoro/qml/qcoroqmltask.cpp | 5 -----
 qcoro/qml/qcoroqmltask.h   | 2 +-
 2 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/qcoro/qml/qcoroqmltask.cpp b/qcoro/qml/qcoroqmltask.cpp
index 8523aeb..9627705 100644
--- a/qcoro/qml/qcoroqmltask.cpp
+++ b/qcoro/qml/qcoroqmltask.cpp
@@ -22,11 +22,6 @@ namespace QCoro {
 
 struct QmlTaskPrivate : public QSharedData {
     std::optional<QCoro::Task<QVariant>> task;
-
-    QmlTaskPrivate() = default;
-    QmlTaskPrivate(const QmlTaskPrivate &) : QSharedData() {
-        Q_UNREACHABLE();
-    };
 };
 
 inline QJSEngine *getEngineForValue(const QJSValue &val) {
diff --git a/qcoro/qml/qcoroqmltask.h b/qcoro/qml/qcoroqmltask.h
index 06f8c53..7b7a514 100644
--- a/qcoro/qml/qcoroqmltask.h
+++ b/qcoro/qml/qcoroqmltask.h
@@ -93,7 +93,7 @@ public:
     Q_INVOKABLE QCoro::QmlTaskListener *await(const QVariant &intermediateValue = {});
 
 private:
-    QSharedDataPointer<QmlTaskPrivate> d;
+    QExplicitlySharedDataPointer<QmlTaskPrivate> d;
 };
 
 class QmlTaskListener : public QObject {
-- 
2.43.0


From 2496731efd2a67cd3e21f08d76305be8650fac8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:06 +0000
Subject: [PATCH 28/34] fix: QmlTask::await() leaves the value to the task's
 other consumers

---
 qcoro/qml/qcoroqmltask.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qcoro/qml/qcoroqmltask.cpp b/qcoro/qml/qcoroqmltask.cpp
index 9627705..88e1868 100644
--- a/qcoro/qml/qcoroqmltask.cpp
+++ b/qcoro/qml/qcoroqmltask.cpp
@@ -74,9 +74,10 @@ QmlTaskListener *QmlTask::await(const QVariant &intermediateValue)
     if (!intermediateValue.isNull()) {
         listener->setValue(QVariant(intermediateValue));
     }
-    d->task->then([listener](auto &&value) {
+    // The task may have more consumers, so its value must stay where it is.
+    d->task->then([listener](const QVariant &value) {
         if (listener) {
-            listener->setValue(std::move(value));
+            listener->setValue(QVariant(value));
         }
     });
     return listener;
-- 
2.43.0


From db82b66c9c961e255eb84cb3121b1d76eafc769a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:24 +0000
Subject: [PATCH 29/34] fix: QmlTask::await() on a default-constructed QmlTask
 does not access a missing task

---
 qcoro/qml/qcoroqmltask.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qcoro/qml/qcoroqmltask.cpp b/qcoro/qml/qcoroqmltask.cpp
index 88e1868..f3cfd80 100644
--- a/qcoro/qml/qcoroqmltask.cpp
+++ b/qcoro/qml/qcoroqmltask.cpp
@@ -74,6 +74,11 @@ QmlTaskListener *QmlTask::await(const QVariant &intermediateValue)
     if (!intermediateValue.isNull()) {
         listener->setValue(QVariant(intermediateValue));
     }
+    if (!d->task) {
+        qCWarning(qcoroqml, ".await called on a QmlTask that is not connected to any coroutine. "
+                            "Make sure you don't default-construct QmlTask in your code");
+        return listener;
+    }
     // The task may have more consumers, so its value must stay where it is.
     d->task->then([listener](const QVariant &value) {
         if (listener) {
-- 
2.43.0


From 3468369835d2b77340e292966e8478ce847a132f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:41 +0000
Subject: [PATCH 30/34] fix: a QML task that finishes after its engine is gone
 does not crash

---
 qcoro/qml/qcoroqmltask.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/qcoro/qml/qcoroqmltask.cpp b/qcoro/qml/qcoroqmltask.cpp
index f3cfd80..824fdab 100644
--- a/qcoro/qml/qcoroqmltask.cpp
+++ b/qcoro/qml/qcoroqmltask.cpp
@@ -32,7 +32,8 @@ inline QJSEngine *getEngineForValue(const QJSValue &val) {
     return val.engine();
     QT_WARNING_POP
 #else
-    return QJSValuePrivate::engine(&val)->jsEngine();
+    auto *engine = QJSValuePrivate::engine(&val);
+    return engine ? engine->jsEngine() : nullptr;
 #endif
 }
 
@@ -63,8 +64,11 @@ void QmlTask::then(QJSValue func) {
     }
 
     d->task->then([func = std::move(func)](const QVariant &result) mutable -> void {
-        auto jsval = getEngineForValue(func)->toScriptValue(result);
-        func.call({jsval});
+        // There is no engine any more if it has been destroyed in the meantime.
+        if (auto *engine = getEngineForValue(func)) {
+            auto jsval = engine->toScriptValue(result);
+            func.call({jsval});
+        }
     });
 }
 
-- 
2.43.0


From 3adfa752b9cb756625e664c44ef66c6f07caf363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:20 +0000
Subject: [PATCH 31/34] fix: every consumer of a QML task gets its value

---
 qcoro/qml/qcoroqmltask.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/qcoro/qml/qcoroqmltask.cpp b/qcoro/qml/qcoroqmltask.cpp
index 824fdab..87d25b1 100644
--- a/qcoro/qml/qcoroqmltask.cpp
+++ b/qcoro/qml/qcoroqmltask.cpp
@@ -6,6 +6,7 @@
 
 #include <QLoggingCategory>
 
+#include <memory>
 #include <optional>
 
 #if QT_VERSION >= QT_VERSION_CHECK(6, 0, 0)
@@ -21,7 +22,9 @@ Q_LOGGING_CATEGORY(qcoroqml, "qcoro.qml")
 namespace QCoro {
 
 struct QmlTaskPrivate : public QSharedData {
-    std::optional<QCoro::Task<QVariant>> task;
+    // A Task hands its value over to its first consumer, while a QmlTask may have any number of them.
+    std::shared_ptr<QVariant> value = std::make_shared<QVariant>();
+    std::optional<QCoro::Task<>> task;
 };
 
 inline QJSEngine *getEngineForValue(const QJSValue &val) {
@@ -44,7 +47,9 @@ QmlTask::QmlTask() noexcept : d(new QmlTaskPrivate())
 QmlTask::QmlTask(QCoro::Task<QVariant> &&task)
     : d(new QmlTaskPrivate())
 {
-    d->task = std::move(task);
+    d->task = task.then([value = d->value](QVariant &&result) {
+        *value = std::move(result);
+    });
 }
 
 QmlTask &QmlTask::operator=(const QmlTask &other) = default;
@@ -63,10 +68,10 @@ void QmlTask::then(QJSValue func) {
         return;
     }
 
-    d->task->then([func = std::move(func)](const QVariant &result) mutable -> void {
+    d->task->then([func = std::move(func), value = d->value]() mutable -> void {
         // There is no engine any more if it has been destroyed in the meantime.
         if (auto *engine = getEngineForValue(func)) {
-            auto jsval = engine->toScriptValue(result);
+            auto jsval = engine->toScriptValue(*value);
             func.call({jsval});
         }
     });
@@ -83,10 +88,9 @@ QmlTaskListener *QmlTask::await(const QVariant &intermediateValue)
                             "Make sure you don't default-construct QmlTask in your code");
         return listener;
     }
-    // The task may have more consumers, so its value must stay where it is.
-    d->task->then([listener](const QVariant &value) {
+    d->task->then([listener, value = d->value]() {
         if (listener) {
-            listener->setValue(QVariant(value));
+            listener->setValue(QVariant(*value));
         }
     });
     return listener;
-- 
2.43.0


From 6ce5c789590fbde6e2062247fe4cf307775104bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:27 +0000
Subject: [PATCH 32/34] fix: an image request that outlives its response does
 not access it

---
 qcoro/quick/qcoroimageprovider.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/qcoro/quick/qcoroimageprovider.cpp b/qcoro/quick/qcoroimageprovider.cpp
index 72361c7..ef63414 100644
--- a/qcoro/quick/qcoroimageprovider.cpp
+++ b/qcoro/quick/qcoroimageprovider.cpp
@@ -4,6 +4,8 @@
 
 #include "qcoroimageprovider.h"
 
+#include <QPointer>
+
 namespace QCoro {
 
 // Internal implementation of the QQuickImageResponse interface
@@ -25,8 +27,11 @@ QQuickImageResponse *ImageProvider::requestImageResponse(const QString &id, cons
 
     auto *response = new QCoroImageResponse();
 
-    task.then([response](QImage &&image) {
-        response->reportFinished(std::move(image));
+    // The response belongs to the caller, who may destroy it before the image is there.
+    task.then([response = QPointer<QCoroImageResponse>(response)](QImage &&image) {
+        if (response) {
+            response->reportFinished(std::move(image));
+        }
     });
 
     return response;
-- 
2.43.0


From 36b4120e43af950200d0de2d173197a87cec337a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:48 +0000
Subject: [PATCH 33/34] fix: what copying or converting a returned value throws
 reaches the awaiter

---
 qcoro/impl/taskpromise.h |  8 ++++----
 qcoro/qcorotask.h        | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/qcoro/impl/taskpromise.h b/qcoro/impl/taskpromise.h
index 5913bff..738c72b 100644
--- a/qcoro/impl/taskpromise.h
+++ b/qcoro/impl/taskpromise.h
@@ -26,24 +26,24 @@ inline void TaskPromise<T>::unhandled_exception() {
 }
 
 template<typename T>
-inline void TaskPromise<T>::return_value(T &&value) noexcept {
+inline void TaskPromise<T>::return_value(T &&value) {
     mValue.template emplace<T>(std::forward<T>(value));
 }
 
 template<typename T>
-inline void TaskPromise<T>::return_value(const T &value) noexcept {
+inline void TaskPromise<T>::return_value(const T &value) {
     mValue = value;
 }
 
 template<typename T>
 template<typename U> requires QCoro::concepts::constructible_from<T, U>
-inline void TaskPromise<T>::return_value(U &&value) noexcept {
+inline void TaskPromise<T>::return_value(U &&value) {
     mValue = std::forward<U>(value);
 }
 
 template<typename T>
 template<typename U> requires QCoro::concepts::constructible_from<T, U>
-inline void TaskPromise<T>::return_value(const U &value) noexcept {
+inline void TaskPromise<T>::return_value(const U &value) {
     mValue = value;
 }
 
diff --git a/qcoro/qcorotask.h b/qcoro/qcorotask.h
index 0f1bd8f..b230db0 100644
--- a/qcoro/qcorotask.h
+++ b/qcoro/qcorotask.h
@@ -212,16 +212,16 @@ public:
      * \param[in] value the value returned by the coroutine. It is stored in the
      *            promise, later can be retrieved by the calling coroutine.
      */
-    void return_value(T &&value) noexcept;
+    void return_value(T &&value);
 
-    //! \copydoc template<typename T> TaskPromise::return_value(T &&value) noexcept
-    void return_value(const T &value) noexcept;
+    //! \copydoc template<typename T> TaskPromise::return_value(T &&value)
+    void return_value(const T &value);
 
     template<typename U> requires QCoro::concepts::constructible_from<T, U>
-    void return_value(U &&value) noexcept;
+    void return_value(U &&value);
 
     template<typename U> requires QCoro::concepts::constructible_from<T, U>
-    void return_value(const U &value) noexcept;
+    void return_value(const U &value);
 
     //! Retrieves the result of the coroutine.
     /*!
-- 
2.43.0


From 7a871784594f98a5a9973435d71c1f482a9c1409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:25 +0000
Subject: [PATCH 34/34] fix: a returned value is converted to the task's type,
 not to what the promise can hold

---
 qcoro/impl/taskpromise.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qcoro/impl/taskpromise.h b/qcoro/impl/taskpromise.h
index 738c72b..dcba2bc 100644
--- a/qcoro/impl/taskpromise.h
+++ b/qcoro/impl/taskpromise.h
@@ -38,13 +38,13 @@ inline void TaskPromise<T>::return_value(const T &value) {
 template<typename T>
 template<typename U> requires QCoro::concepts::constructible_from<T, U>
 inline void TaskPromise<T>::return_value(U &&value) {
-    mValue = std::forward<U>(value);
+    mValue.template emplace<T>(std::forward<U>(value));
 }
 
 template<typename T>
 template<typename U> requires QCoro::concepts::constructible_from<T, U>
 inline void TaskPromise<T>::return_value(const U &value) {
-    mValue = value;
+    mValue.template emplace<T>(value);
 }
 
 template<typename T>
-- 
2.43.0

