#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                   state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                   observe_at=list(observe), hook_needed=hook)))

prop("C01", "A task delivers exactly the coroutine's outcome to its awaiter",
 "For every value a coroutine co_returns (by value, from an lvalue, by conversion, move-only or void) the co_await of its task yields an equal value, and an exception leaving the coroutine is rethrown by the co_await with its type and content. This holds whether the task finished before or after it was awaited and at every nesting depth. Returning an lvalue leaves the lvalue's own value untouched unless it is a local about to die.",
 ["inputs", "schedules"], "all result values and exception payloads; every choice of suspending or not before/after the await, return form and chain depth within the bound",
 "tests use a handful of constants and one ordering each; the value/exception channel must work for every value, return form and completion order",
 ["qcoro/impl/taskpromise.h", "qcoro/impl/taskbase.h", "qcoro/qcorotask.h"],
 [("TaskPromise::return_value/unhandled_exception/result", "qcoro/impl/taskpromise.h"), ("TaskAwaiter::await_resume", "qcoro/impl/taskbase.h")],
 [("TaskPromise::mValue", "result, exception or nothing yet", "qcoro/qcorotask.h")], ["co_await on Task"])
prop("C02", "Every awaiter of a task is resumed exactly once, after it finishes",
 "However many coroutines await the same task, and whenever they start (before or after it finishes), each continues exactly once, never before the task's coroutine has finished, and waiters continue in the order in which they began waiting. isReady() is false from creation until the coroutine finishes and true for ever afterwards.",
 ["schedules", "histories"], "every interleaving of starting awaiters, progressing the awaited coroutine and dropping task handles, up to the bound on awaiters and steps",
 "tests fix one order with one or two awaiters; the guarantee is over all orders of await, progress and drop",
 ["qcoro/impl/taskfinalsuspend.h", "qcoro/impl/taskawaiterbase.h", "qcoro/impl/taskpromisebase.h", "qcoro/impl/taskbase.h"],
 [("TaskFinalSuspend::await_suspend", "qcoro/impl/taskfinalsuspend.h"), ("TaskPromiseBase::addAwaitingCoroutine", "qcoro/impl/taskpromisebase.h")],
 [("mAwaitingCoroutines", "coroutines waiting for the task", "qcoro/qcorotask.h")], ["continuations of co_await", "Task::isReady"])
prop("C03", "Coroutine state is destroyed exactly once and never used afterwards",
 "A task may be dropped, moved or overwritten at any moment: the coroutine still runs to completion, its locals, arguments and result are each destroyed exactly once, nothing touches them after destruction, and once the coroutine has finished and no handle remains no memory is left behind. A moved-from or default-constructed task is ready, and awaiting it never resumes the awaiter.",
 ["histories", "schedules"], "every sequence of progress, move-construct, move-assign (including self), swap, await and drop operations up to the bound",
 "tests exercise a few fixed sequences and do not observe destruction or leaks",
 ["qcoro/impl/taskbase.h", "qcoro/impl/taskpromisebase.h", "qcoro/impl/taskfinalsuspend.h"],
 [("reference count shared by handle and running coroutine", "qcoro/impl/taskpromisebase.h")],
 [("TaskPromiseBase::mRefCount", "owners of the frame", "qcoro/qcorotask.h")], ["destructors of locals/arguments/result", "heap"])
prop("C04", "then() continues with the value or the error, once, and flattens tasks",
 "The task returned by then() runs the callback exactly once after the original task finishes, with its value when the callback takes one, and finishes with the callback's result, waiting for it when that result is itself a task. If the original task throws, the callback is not run: with an error handler the handler runs once, with that exception, and the returned task finishes with a default value, without one the exception propagates; exceptions from either callback propagate to whoever awaits the returned task. A named task is left what it was: ready when its own coroutine has finished, and open to others who await it.",
 ["inputs", "schedules"], "all values, all suspension points, all throw/no-throw choices of task, callback and handler, all drop orders of the handles within the bound",
 "tests cover particular combinations with fixed values and timings",
 ["qcoro/impl/taskbase.h"], [("TaskBase::then/thenImpl/thenImplRef/invokeCb/handleException", "qcoro/impl/taskbase.h")], [], ["callbacks", "returned task"])
prop("C05", "A lazy task runs only when awaited, once, and cleans up in every case",
 "The body of a lazy task does not start before the lazy task (or a lazy continuation of it) is awaited, then runs exactly once and delivers its value or exception like an ordinary task; continuations of a lazy task are lazy as documented unless an eager one is attached. A lazy task that is never awaited never runs and releases its coroutine and arguments, and awaiting an empty lazy task suspends the awaiter for ever instead of crashing.",
 ["histories", "inputs", "schedules"], "every sequence of create, chain, await, progress and drop within the bound, all values",
 "tests await promptly with fixed values and never look at the state left behind",
 ["qcoro/impl/lazytask.h", "qcoro/qcorolazytask.h", "qcoro/impl/taskbase.h"],
 [("LazyTaskPromise::initial_suspend, LazyTask::operator co_await", "qcoro/impl/lazytask.h")], [], ["start of the body", "heap"])
prop("C06", "waitFor() returns only when the awaitable finished, with its outcome",
 "waitFor() returns the awaited value or rethrows its exception, without entering the event loop when the awaitable is already finished and after running it exactly until completion otherwise. It works for lvalue and rvalue tasks, lazy tasks and other awaitables, and for nested calls.",
 ["inputs", "schedules"], "all values, number of event-loop turns until completion and nesting within the bound, normal and exceptional completion",
 "tests use one delay and one value per overload", ["qcoro/impl/waitfor.h"],
 [("runCoroutine / WaitContext", "qcoro/impl/waitfor.h")], [], ["return of waitFor", "QEventLoop::exec"])
prop("C07", "QCoro::connect calls back once, with the value, only while the context lives",
 "The callback given to QCoro::connect() is invoked exactly once with the task's value (or without it, if it takes none) when the task finishes and the context object is still alive, and never if the context was destroyed before. Dropping the task at the call does not stop it and nothing leaks.",
 ["inputs", "schedules"], "every order of task completion and context destruction, all values, all callback shapes",
 "tests check two fixed orders", ["qcoro/impl/connect.h"], [("QPointer to the context", "qcoro/impl/connect.h")], [], ["callback"])
prop("C08", "A generator yields the produced sequence, lazily, and releases its coroutine",
 "Iterating a Generator produces exactly the yielded values in order, computing no value before it is asked for, ends when the body returns and rethrows an exception of the body at the corresponding begin() or increment, after which the iterator is past the end. A generator may be abandoned, moved or overwritten at any point: the body's locals are then destroyed exactly once and nothing leaks or is resumed afterwards.",
 ["inputs", "histories"], "all values and sequence lengths, every position of throw, abandon, move-construct and move-assign within the bound",
 "tests walk fixed short sequences and do not observe destruction on assignment", ["qcoro/qcorogenerator.h"],
 [("GeneratorPromise / GeneratorIterator / Generator", "qcoro/qcorogenerator.h")], [], ["begin/operator++/end", "heap"])
prop("C09", "An async generator yields every value once, in order, whatever suspends",
 "Iterating an AsyncGenerator (manually or with QCORO_FOREACH) produces exactly the yielded values in order and then end(), with producer and consumer each suspending arbitrarily in between; the producer does not run ahead of the consumer and an exception in the body is rethrown at the co_await of begin() or increment, after which the iterator is past the end. Abandoning, moving or overwriting the generator while it is not executing destroys its body exactly once and leaks nothing.",
 ["inputs", "schedules", "histories"], "all values, every choice of suspending at each yield/await, every position of throw, abandon and move within the bound",
 "tests sample a few fixed schedules", ["qcoro/qcoroasyncgenerator.h", "qcoro/macros.h"],
 [("AsyncGeneratorPromiseBase, AsyncGeneratorIterator", "qcoro/qcoroasyncgenerator.h")], [], ["co_await begin()/operator++"])
prop("C10", "Awaiting a signal yields the first emission's arguments, or nothing on timeout",
 "co_await qCoro(object, signal) resumes exactly once with the arguments of the first emission after the await started (one value, or a tuple; private-signal markers removed), later emissions are ignored. With a timeout the result is empty exactly if no emission was delivered before the timeout elapsed, a negative timeout never elapses, and whether or not it is still in flight nothing dangling is called when source or timer are destroyed; a destroyed source never resumes the waiter without a timeout.",
 ["inputs", "schedules"], "all argument values and timeouts, every interleaving of emissions, timer expiry, event delivery and source destruction within the bound",
 "tests emit one signal at one time", ["qcoro/core/qcorosignal.h", "qcoro/core/impl/isqprivatesignal.h"],
 [("QCoroSignal::setupConnection/handleTimeout", "qcoro/core/qcorosignal.h")], [], ["co_await qCoro(obj, signal[, timeout])"])
prop("C11", "A signal listener yields every emission once, in order, until timeout",
 "Every emission after qCoroSignalListener() was created is yielded exactly once and in order, also those that arrive while the consumer is busy or suspended elsewhere. With a timeout the listener ends when the consumer waited that long without an emission, never earlier and never twice; emissions never make the generator run while the consumer is not waiting on it, and after it ended or was dropped nothing of it is resumed.",
 ["inputs", "schedules"], "all argument values and timeouts, every interleaving of emissions, deliveries, consumer suspensions, expiry and dropping within the bound",
 "tests emit in one rhythm; bursts, late emissions and timeouts while busy are not scheduled", ["qcoro/core/qcorosignal.h"],
 [("QCoroSignalQueue", "qcoro/core/qcorosignal.h")], [("QCoroSignalQueue::mQueue", "emissions not yet consumed", "qcoro/core/qcorosignal.h")], ["co_await begin()/operator++ of the listener"])
prop("C12", "Timer waits and sleeps resume once, at the right time",
 "co_await on a QTimer (or waitForTimeout) resumes exactly once at the timer's next timeout if it is active and at once if it is not; sleepFor(d) resumes once after d and sleepUntil(t) once the given clock has reached t, never before, for every duration unit and clock. Stopping or destroying the timer never causes a spurious or dangling resumption.",
 ["inputs", "schedules"], "all intervals, durations, target times (including the past) and clock values, single-shot and repeating timers, stop/destroy at any step",
 "tests sleep fixed small durations with one clock", ["qcoro/core/qcorotimer.cpp", "qcoro/core/qcorotimer.h"],
 [("WaitForTimeoutOperation, sleepFor, sleepUntil", "qcoro/core/qcorotimer.h")], [], ["co_await timer / sleepFor / sleepUntil"])
prop("C13", "Device reads complete once, with the data that is there, or empty",
 "read/readAll/readLine/waitForReadyRead on a device complete immediately if data is available or the device is not readable, otherwise exactly once when data arrives, the device is about to close, or the timeout elapses; the returned bytes are exactly the next bytes of the device within the requested size. waitForReadyRead is true only if there is data to read and false on close, timeout or an unreadable device, and reading a device that is destroyed meanwhile never crashes.",
 ["inputs", "schedules"], "all data contents, sizes and timeouts, every interleaving of data arrival, close, expiry and destruction within the bound",
 "tests use one chunk arriving once; close, timeout and partial arrivals interleavings are unbounded", ["qcoro/core/qcoroiodevice.cpp", "qcoro/core/qcoroiodevice_p.cpp", "qcoro/core/qcoroiodevice_p.h"],
 [("QCoroIODevice::waitForReadyRead, WaitSignalHelper", "qcoro/core/qcoroiodevice.cpp")], [], ["results of the read tasks"])
prop("C14", "Device writes confirm at most what was written and always finish",
 "write() hands the whole buffer to the device once and finishes with the number of bytes confirmed written: all accepted bytes when they are flushed in any number of chunks, fewer only if the device closes or fails first, and it never spins or confirms more than was accepted. waitForBytesWritten returns the reported count, an empty result on timeout or for an unwritable device, and 0 at once when nothing is pending.",
 ["inputs", "schedules"], "all buffer sizes, chunkings, acceptance results and timeouts, with close at any point",
 "tests write one small buffer to a socket that flushes at once", ["qcoro/core/qcoroiodevice.cpp"],
 [("QCoroIODevice::write/waitForBytesWritten", "qcoro/core/qcoroiodevice.cpp")], [], ["results of write tasks"])
prop("C15", "Process waits report start and finish truthfully and once",
 "waitForStarted/start complete once: true when the process is or becomes running, false when it is not starting, fails to start or the timeout elapses; waitForFinished completes once: false if not running or on timeout, true when the process finishes. The requested program, arguments and mode reach the process unchanged.",
 ["inputs", "schedules"], "all process states, timeouts and interleavings of started, errors, finished and expiry",
 "tests run two real programs with one timing", ["qcoro/core/qcoroprocess.cpp", "qcoro/core/qcoroprocess.h"],
 [("QCoroProcess::waitForStarted/waitForFinished/start", "qcoro/core/qcoroprocess.cpp")], [], ["results of process tasks"])
prop("C16", "Thread waits report start and finish truthfully and once",
 "waitForStarted is true at once for a running thread, false at once for a finished one, otherwise true when the thread starts and false on timeout; waitForFinished is true at once for a finished thread, false at once for one never started, otherwise true when it finishes and false on timeout. The waiter resumes exactly once, on its own thread.",
 ["inputs", "schedules"], "all thread states, timeouts and interleavings of started, finished and expiry events",
 "tests race one real thread against one timeout", ["qcoro/core/qcorothread.cpp", "qcoro/core/qcorothread.h"],
 [("QCoroThread::waitForStarted/waitForFinished", "qcoro/core/qcorothread.cpp")], [], ["results and thread of the waiter"])
prop("C17", "moveToThread continues the coroutine once, on the requested thread",
 "After co_await QCoro::moveToThread(t) the coroutine continues exactly once on thread t; it does so whatever thread it was on and however often it hops, and code before the await never runs on t. Nothing leaks or is run twice.",
 ["schedules", "inputs"], "every sequence of hops among the threads of the bound and every delivery order of the threads' events",
 "tests do one hop", ["qcoro/core/qcorothread.cpp"], [("ContextHelper / moveToThread", "qcoro/core/qcorothread.cpp")], [], ["QThread::currentThread around the await"])
prop("C18", "Awaiting a future yields its result or exception, once, when finished",
 "co_await on a QFuture resumes exactly once when the future finishes (at once if already finished) and yields its result; takeResult() moves it out, and an exception stored in the future is rethrown with its content. A cancelled or suspended future is waited for like any other, without blocking the thread, until it has finished.",
 ["inputs", "schedules"], "all values, exceptional/normal/cancelled completion, completion before or after the await",
 "tests complete futures with one value and one exception", ["qcoro/core/qcorofuture.h"],
 [("WaitForFinishedOperation, TakeResult", "qcoro/core/qcorofuture.h")], [], ["co_await future / waitForFinished / takeResult"])
prop("C19", "Awaiting a D-Bus call yields its reply exactly once",
 "co_await on a pending D-Bus call or typed pending reply resumes exactly once when the call finishes, immediately if it already has, and yields that call's reply with its values or error intact; the pending object may be a temporary.",
 ["inputs", "schedules"], "all reply payloads and errors, completion before or after the await, one- to multi-value replies, lvalue and temporary calls",
 "tests need a live bus and check a few strings", ["qcoro/dbus/qcorodbuspendingcall.cpp", "qcoro/dbus/qcorodbuspendingcall.h", "qcoro/dbus/qcorodbuspendingreply.h"],
 [("WaitForFinishedOperation", "qcoro/dbus/qcorodbuspendingcall.cpp")], [], ["co_await QDBusPendingCall/Reply"])
prop("C20", "TCP/UDP socket waits report connection state truthfully and once",
 "waitForConnected is true at once when connected and otherwise true exactly when the connection is established before the timeout, false on timeout or when it fails; waitForDisconnected is false at once when unconnected, otherwise true when the socket disconnects and false on timeout. connectToHost passes host, port, mode and protocol unchanged, socket reads fail (false/empty) when the connection ends first, and each waiter resumes once.",
 ["inputs", "schedules"], "all socket states, timeouts, and interleavings of state changes, errors, data and expiry within the bound",
 "tests connect to a live local server with one timing", ["qcoro/network/qcoroabstractsocket.cpp", "qcoro/network/qcoroabstractsocket.h"],
 [("QCoroAbstractSocket", "qcoro/network/qcoroabstractsocket.cpp")], [], ["results of socket tasks"])
prop("C21", "Local socket waits report connection state truthfully and once",
 "The waits of a local socket (waitForConnected, waitForDisconnected, connectToServer, reads, writes) obey the same rules: immediate answers when already in the state, true exactly when the state is reached in time, false on timeout, error or unconnected socket, one resumption each, with the server name and mode passed unchanged.",
 ["inputs", "schedules"], "all socket states, timeouts and interleavings of state changes, errors, data and expiry within the bound",
 "tests connect to a live local server with one timing", ["qcoro/network/qcorolocalsocket.cpp", "qcoro/network/qcorolocalsocket.h"],
 [("QCoroLocalSocket", "qcoro/network/qcorolocalsocket.cpp")], [], ["results of socket tasks"])
prop("C22", "Awaiting a network reply finishes once, and reads end with the reply",
 "co_await on a network reply (or waitForFinished) resumes exactly once when the reply finishes, at once if it already has, returning that reply, and empty on timeout. Reads on an unfinished reply return arriving data and complete with what is left when the reply finishes or fails.",
 ["inputs", "schedules"], "all timeouts, data contents, and interleavings of data, finish, error, close, expiry and destruction within the bound",
 "tests talk to one local HTTP server with fixed delays", ["qcoro/network/qcoronetworkreply.cpp", "qcoro/network/qcoronetworkreply.h"],
 [("QCoroNetworkReply", "qcoro/network/qcoronetworkreply.cpp")], [], ["co_await reply and read tasks"])
prop("C23", "waitForNewConnection hands out each pending connection, or null",
 "waitForNewConnection returns at once with a pending connection or null when the server is not listening, otherwise completes once with the next connection in arrival order, or null when the timeout elapses first. No connection is dropped or handed out twice.",
 ["inputs", "schedules"], "all timeouts, numbers of pending and arriving connections and interleavings within the bound",
 "tests make one connection", ["qcoro/network/qcorotcpserver.cpp", "qcoro/network/qcorotcpserver.h"],
 [("QCoroTcpServer::waitForNewConnection", "qcoro/network/qcorotcpserver.cpp")], [], ["returned socket"])
prop("C24", "Web socket open, ping and message streams are truthful and complete",
 "open() completes once: true when the socket connects, false on error, timeout or close; ping() yields the elapsed time of the pong or nothing on timeout or disconnect. The text/binary frame and message streams yield every received item once and in order and end on disconnect or timeout.",
 ["inputs", "schedules"], "all payloads, flags, timeouts, socket states and interleavings of messages, pongs, errors, disconnects and expiry within the bound",
 "tests exchange one or a few messages with a live server", ["qcoro/websockets/qcorowebsocket.cpp", "qcoro/websockets/qcorowebsocket.h"],
 [("QCoroWebSocket, WebSocketSignalWatcher", "qcoro/websockets/qcorowebsocket.cpp")], [], ["results of open/ping and items of the streams"])
prop("C25", "nextPendingConnection of a web socket server hands out connections, or null",
 "nextPendingConnection returns at once with a pending connection or null when not listening, otherwise completes exactly once with the next connection, or null when the server closes or the timeout elapses first; no connection is swallowed and nothing of a finished wait is called later.",
 ["inputs", "schedules"], "all timeouts, numbers of connections and interleavings of connection, close and expiry, repeated waits within the bound",
 "tests make one connection and one timeout", ["qcoro/websockets/qcorowebsocketserver.cpp", "qcoro/websockets/qcorowebsocketserver.h"],
 [("QCoroWebSocketServerSignalListener", "qcoro/websockets/qcorowebsocketserver.cpp")], [], ["returned socket"])
prop("C26", "A QML task calls its callback once with the value and may be shared",
 "The function given to then() of a QML task is called exactly once with the task's value when it finishes, and await() exposes the value with its change notification exactly when the task has finished; copies of a QML task refer to the same task and using or destroying any of them, in any order, never crashes or leaks.",
 ["inputs", "schedules", "histories"], "all values, completion before or after, every order of copy, call and drop within the bound, engine or receiver gone meanwhile",
 "tests drive one QML script", ["qcoro/qml/qcoroqmltask.cpp", "qcoro/qml/qcoroqmltask.h"],
 [("QmlTask, QmlTaskListener", "qcoro/qml/qcoroqmltask.cpp")], [], ["JS callback", "QmlTaskListener::value"])
prop("C27", "An asynchronous image provider answers every request exactly once",
 "For every image request the response finishes exactly once with the image the coroutine produced, whether it was ready at once or later, the request's id and size reach the coroutine unchanged, and a response destroyed early is never touched by the still running coroutine.",
 ["inputs", "schedules"], "all ids, sizes, completion and destruction orders within the bound",
 "tests load one image from one QML file", ["qcoro/quick/qcoroimageprovider.cpp", "qcoro/quick/qcoroimageprovider.h"],
 [("QCoroImageResponse, ImageProvider::requestImageResponse", "qcoro/quick/qcoroimageprovider.cpp")], [], ["QQuickImageResponse::finished, textureFactory"])
prop("C28", "A wait that is over lets go of its object",
 "When a wait on a signal, device, process, socket, reply, server or web socket is over – whatever its outcome – nothing of it remains at the object: the awaiting coroutine does not run within an emission of that object, so it may destroy it at once or begin the same wait again, and the new wait answers for itself. A wait needs the object only, not the wrapper qCoro() returned, which is gone when the wait's task is kept or continued with then().",
 ["inputs", "schedules", "histories"], "every kind of wait in every situation in which it waits, all timeouts, all orders of the object's events, and every reaction (nothing, destroying the object, waiting again) within the bound",
 "tests wait once per object and keep the object until the end of the test",
 ["qcoro/core/qcorosignal.h", "qcoro/core/qcoroiodevice_p.cpp", "qcoro/core/qcoroprocess.cpp", "qcoro/network/qcoroabstractsocket.cpp", "qcoro/network/qcorolocalsocket.cpp", "qcoro/network/qcoronetworkreply.cpp", "qcoro/network/qcorotcpserver.cpp", "qcoro/websockets/qcorowebsocket.cpp", "qcoro/websockets/qcorowebsocketserver.cpp"],
 [("QCoroSignal, queued delivery", "qcoro/core/qcorosignal.h"), ("signal helpers of devices and sockets", "qcoro/core/qcoroiodevice_p.cpp"), ("QCoroNetworkReply::WaitForFinishedOperation", "qcoro/network/qcoronetworkreply.cpp")], [], ["the coroutine at its resumption", "connections and timers left", "second wait"])
prop("C29", "Waits on one object do not disturb each other",
 "Several waits on one object, of the same or different kinds and with different timeouts, each answer for themselves: each resumes once with its own outcome at its own time, regardless of the others finishing or timing out, also if one of the waiters destroys the object.",
 ["inputs", "schedules", "histories"], "every pair of waits on one object, begun together or one later, all timeouts, all orders of the object's events within the bound",
 "tests hardly ever have two waits on one object at a time",
 ["qcoro/core/qcorosignal.h", "qcoro/core/qcoroiodevice_p.cpp", "qcoro/core/qcoroprocess.cpp", "qcoro/network/qcoroabstractsocket.cpp", "qcoro/network/qcorolocalsocket.cpp", "qcoro/network/qcoronetworkreply.cpp", "qcoro/websockets/qcorowebsocket.cpp"],
 [("QCoroSignal", "qcoro/core/qcorosignal.h"), ("signal helpers of devices and sockets", "qcoro/core/qcoroiodevice_p.cpp"), ("WebSocketSignalWatcher", "qcoro/websockets/qcorowebsocket.cpp")], [], ["results and times of the two waits"])
prop("C30", "The test macros mean in a coroutine what QtTest's mean in a function",
 "The QCORO_* test macros behave in a coroutine as their QtTest counterparts do in a function: they report the same condition, comparison, failure, skip or expectation to QtTest, once and with the place and text given, evaluate what they test once, wait as long for it, and leave the coroutine exactly when QtTest says that the test is over.",
 ["inputs", "schedules"], "all conditions, values, timeouts and times at which a condition becomes true, and all answers of QtTest within the bound",
 "the repository's tests use the macros with conditions that hold; a macro that never fails a test would let all of them pass",
 ["qcoro/test/qcorotest.h"], [("QCORO_VERIFY ... QCORO_TRY_COMPARE", "qcoro/test/qcorotest.h")], [], ["calls of QtTest", "whether the coroutine goes on"])
prop("C31", "Whatever can be awaited is awaited as it is",
 "co_await in the body of a Task, LazyTask or AsyncGenerator works on the awaitable itself, never a copy, whatever its shape (an awaiter, a member or free operator co_await; named, temporary, moved): it is asked, suspended and resumed once in this order, lives until the await is over, its result (value, object or reference) and its exceptions reach the coroutine, and what await_suspend returns (void, bool, another coroutine) is honoured.",
 ["inputs", "schedules"], "all shapes of awaitables, places of throwing, answers of await_ready and await_suspend within the bound",
 "tests await a handful of awaitables, all copyable and indifferent to being copied",
 ["qcoro/impl/taskpromisebase.h", "qcoro/qcorotask.h", "qcoro/qcorolazytask.h", "qcoro/qcoroasyncgenerator.h", "qcoro/coroutine.h"], [("TaskPromiseBase::await_transform", "qcoro/impl/taskpromisebase.h"), ("AsyncGenerator's promise", "qcoro/qcoroasyncgenerator.h")], [], ["the awaitable's record of being awaited", "the coroutine after the await"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
