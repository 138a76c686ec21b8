# What each check compiles and runs, and the bounds it states.
MODEL = {'rt.cpp': ['ir'], 'vf_native.cpp': ['nat'], 'vqt_core.cpp': ['ir', 'nat'], 'vqt_bytes.cpp': ['ir', 'nat'], 'vqt_io.cpp': ['ir', 'nat'], 'vqt_net.cpp': ['ir', 'nat'], 'vqt_ws.cpp': ['ir', 'nat'], 'vqt_future.cpp': ['ir', 'nat'], 'vqt_variant.cpp': ['ir', 'nat'], 'vqt_quick.cpp': ['ir', 'nat'], 'vqt_dbus.cpp': ['ir', 'nat'], 'vqt_qml.cpp': ['ir', 'nat'], 'vqt_qml_v4.cpp': ['ir', 'nat']}
MODEL_MOC = ['QtCore/' + h for h in ('qobject.h', 'qtimer.h', 'qthread.h', 'qeventloop.h', 'qcoreapplication.h', 'qiodevice.h', 'qprocess.h', 'qfuturewatcher.h')]
MODEL_MOC += ['QtNetwork/' + h for h in ('qabstractsocket.h', 'qtcpsocket.h', 'qlocalsocket.h', 'qnetworkreply.h', 'qtcpserver.h')]
MODEL_MOC += ['QtWebSockets/qwebsocket.h', 'QtWebSockets/qwebsocketserver.h']
MODEL_MOC += ['QtDBus/qdbuspendingcall.h', 'QtQml/qjsengine.h', 'QtQuick/qquickimageprovider.h']
QT = ['vqt_core', 'vqt_bytes']
IO = QT + ['vqt_io']
NET = IO + ['vqt_net']
WS = NET + ['vqt_ws']
ASSUMPTIONS = [
    'clang 18 lowers the code (C++20, -O0 then mem2reg); memory is sequentially consistent and allocation never fails',
    'logging output (qDebug/qWarning) is empty',
    'heap memory is filled with 0x55 before use; uninitialised reads are not reported as such',
]
NOTE = {
    False: 'Trusts clang, the engine (engine/) and its memory and exception model; every counterexample is replayed natively and sampled paths are compared with native runs.',
    True: 'Trusts clang, the engine (engine/) and the model of the Qt classes (model/), which is stated in DESIGN.md; every counterexample is replayed natively (with the same model of Qt) and sampled paths are compared with native runs.',
}
# the source files QCoro had when the checks were written
KNOWN_SOURCES = ['core/qcoroiodevice.cpp', 'core/qcoroiodevice_p.cpp', 'core/qcoroprocess.cpp', 'core/qcorothread.cpp', 'core/qcorotimer.cpp', 'dbus/qcorodbuspendingcall.cpp', 'network/qcoroabstractsocket.cpp', 'network/qcorolocalsocket.cpp', 'network/qcoronetworkreply.cpp', 'network/qcorotcpserver.cpp', 'qml/qcoroqml.cpp', 'qml/qcoroqmltask.cpp', 'quick/qcoroimageprovider.cpp', 'websockets/qcorowebsocket.cpp', 'websockets/qcorowebsocketserver.cpp']
CHECKS = {
    'C01': dict(src=['c01.cpp'], bounds='16 return forms, 7 further value types, 5 ways of handing over a value that may throw, 7 outcomes of a type made of exceptions, 5 exception kinds; pass-through depth <= 4 coroutines; 32-bit symbolic values; every suspend/resume order of two gates'),
    'C02': dict(src=['c02.cpp'], bounds='up to 3 awaiters (4 thorough) of one task, histories of 7 operations (9 thorough) of starting awaiters, progressing and dropping the task, awaiters reacting by awaiting again or dropping; await chains of depth <= 3; 32-bit symbolic values'),
    'C03': dict(src=['c03.cpp'], bounds='histories of 6 operations (7 thorough) out of create, move-construct, move-assign, self-assign, drop, await, give away, progress over two task slots and two coroutines, with symbolic values and throw choices; empty and moved-from tasks; swap and vector use'),
    'C04': dict(src=['c04.cpp'], bounds='one and two chained then() calls with every callback shape (value, no argument, task-returning, throwing), with and without error handler, lvalue and rvalue task, every suspend/progress/drop order, symbolic values and error payloads'),
    'C05': dict(src=['c05.cpp'], bounds='lazy tasks never, once or repeatedly awaited, dropped at any point, chains of up to 2 continuations, one suspension point per body, symbolic values and throw choices'),
    'C06': dict(src=['c06.cpp'], repo=['core/qcorotimer.cpp'], model=QT, bounds='value types void, int, tracked object, move-only; task, lazy task, continuation and 6 other awaitables, as rvalue and lvalue; 2 nested waits; up to 1 (3 thorough) unrelated events; one other thread that finishes the awaitable at any modelled point'),
    'C07': dict(src=['c07.cpp'], moc=['harness/context.h'], repo=['core/qcorotimer.cpp'], model=QT, bounds='20 combinations of task type and callback shape, 5 kinds of other awaitables; the context is destroyed directly, through its parent or by deleteLater() at any point, or by the task itself; one suspension point per task'),
    'C08': dict(src=['c08.cpp'], bounds='sequences of up to 4 values (6 thorough), throw and abandon at every position, move-construct/-assign histories, value, const, reference and move-only element types'),
    'C09': dict(src=['c09.cpp'], bounds='sequences of up to 3 values (4 thorough), producer and consumer suspending or not at each step, throw, abandon and move at every position, manual iteration and QCORO_FOREACH'),
    'C10': dict(src=['c10.cpp'], moc=['harness/sender.h'], model=QT, bounds='7 signal signatures, up to 2 (3 thorough) emissions, any timeout from -3 to 2^31-1 ms or none, source destroyed at any point, source in another thread, waiter dropped after up to 3 event loop turns, 2 concurrent waiters'),
    'C11': dict(src=['c11.cpp'], moc=['harness/sender.h'], model=QT, bounds='up to 3 (4 thorough) emissions, any timeout, consumer busy up to 2 (3 thorough) times, source or consumer destroyed at any point'),
    'C12': dict(src=['c12.cpp'], repo=['core/qcorotimer.cpp'], model=QT, bounds='1-2 waiters, timers of any type, owned or not, intervals 0..2^31-1 ms, up to 2 (3 thorough) stop/restart/destroy actions at any point, durations in 8 units with symbolic counts (up to 2^31 ms, up to 2^33 ms and 80 days for long sleeps; floating point durations only as 7 samples), time points of three clocks within -100 s .. 10^6 s of now'),
    'C13': dict(src=['c13.cpp'], repo=['core/qcoroiodevice.cpp', 'core/qcoroiodevice_p.cpp'], moc=['core/qcoroiodevice_p.h'], model=IO, bounds='waitForReadyRead, readAll, read, readLine, co_await device*/device&; any combination of open-mode flags, sequential or random-access, inside a transaction or not; device closed, write-only or readable; up to 2 (3 thorough) arrivals of 1-2 symbolic bytes before or while waiting, newline positions included; any maximum size; any timeout from -2 to 2^31-1 ms or none; device closed, destroyed or emptied by somebody else at any point'),
    'C14': dict(src=['c14.cpp'], repo=['core/qcoroiodevice.cpp', 'core/qcoroiodevice_p.cpp'], moc=['core/qcoroiodevice_p.h'], model=IO, bounds='one or two writes of any size up to 2^40 bytes, any part of it accepted or an error, any amount pending before, flushed in up to 3 (4 thorough) chunks of any size, others writing in between, buffered, unbuffered and synchronous devices, sequential or not, with any other open-mode flags, device closed or destroyed at any point; waitForBytesWritten with any timeout from -2 to 2^31-1 ms; the qCoro() wrapper outlives write() (see the known finding)'),
    'C15': dict(src=['c15.cpp'], repo=['core/qcoroprocess.cpp', 'core/qcoroiodevice.cpp', 'core/qcoroiodevice_p.cpp'], moc=['core/qcoroiodevice_p.h', 'core/qcoroprocess.cpp'], model=IO, bounds='process not running, starting, running or over before the call; starting, failing to start (also within start()), finishing normally or by a crash, being restarted or destroyed at any point; any timeout from -2 to 2^31-1 ms or none; any mode, any program of 0 or 80 characters (4 of them symbolic UTF-16 units) and up to 2 arguments, empty ones included'),
    'C20': dict(src=['c20.cpp'], repo=['network/qcoroabstractsocket.cpp', 'core/qcoroiodevice.cpp', 'core/qcoroiodevice_p.cpp'], moc=['core/qcoroiodevice_p.h', 'network/qcoroabstractsocket.cpp'], model=NET, bounds='six states at the call (unconnected, looking up, connecting, connected, closing, over); attempts succeeding or failing at once or later, one new attempt, data in up to 2 (3 thorough) arrivals of 1-2 bytes, up to 2 (3 thorough) flushes of any size up to 2^30, end by either side, close or destruction at any point; any timeout from -2 to 2^31-1 ms or none; any address, port, mode and protocol, host names of 0 or 80 characters (4 of them symbolic UTF-16 units)'),
    'C21': dict(src=['c21.cpp'], repo=['network/qcorolocalsocket.cpp', 'core/qcoroiodevice.cpp', 'core/qcoroiodevice_p.cpp'], moc=['core/qcoroiodevice_p.h', 'network/qcorolocalsocket.cpp'], model=NET, bounds='five states at the call (unconnected, connecting, connected, closing, over); attempts succeeding or failing at once or later, one new attempt, data in up to 2 (3 thorough) arrivals of 1-2 bytes, up to 2 (3 thorough) flushes of any size up to 2^30, end by either side, close or destruction at any point; any timeout from -2 to 2^31-1 ms or none; any mode, server names of 0 or 80 characters (4 of them symbolic UTF-16 units)'),
    'C22': dict(src=['c22.cpp'], repo=['network/qcoronetworkreply.cpp', 'core/qcoroiodevice.cpp', 'core/qcoroiodevice_p.cpp'], moc=['core/qcoroiodevice_p.h', 'network/qcoronetworkreply.cpp'], model=NET, bounds='replies to any kind of request, running, failed (with any error) or finished before the call, open or not; data in up to 2 (3 thorough) arrivals of 1-2 symbolic bytes, failing, finishing, being closed or destroyed at any point; any maximum size; any timeout from -2 to 2^31-1 ms or none; the reply lives in the waiting thread'),
    'C23': dict(src=['c23.cpp'], repo=['network/qcorotcpserver.cpp'], model=NET, bounds='one or two waiters, 0-2 connections pending before, up to 2 (3 thorough; one less when the server is closed or destroyed under two waiters) arriving at any point, one taken by somebody else, server listening or not, closed, listening again or destroyed at any point; any timeout from -2 to 2^31-1 ms or none'),
    'C24': dict(src=['c24.cpp'], repo=['websockets/qcorowebsocket.cpp'], moc=['websockets/qcorowebsocket.cpp'], model=WS, bounds='open() by URL or request in four states, attempts starting, failing at once, succeeding, failing or being given up at any point; ping() with a payload of 130 equal, symbolic bytes and up to 2 (3 thorough) answers; four kinds of streams with up to 2 (3 thorough) items of one symbolic byte or character (one of them may be empty), unrelated traffic, a consumer that is busy once, disconnecting or being destroyed at any point; any timeout from -2 to 2^31-1 ms or none; streams are started on connected sockets'),
    'C25': dict(src=['c25.cpp'], repo=['websockets/qcorowebsocketserver.cpp'], moc=['websockets/qcorowebsocketserver.cpp'], model=WS, bounds='one or two waiters, 0-2 connections pending before, up to 2 (3 thorough; one less when the server is closed or destroyed under two waiters) arriving at any point, one taken by somebody else, server listening or not, closed, listening again or destroyed at any point; any timeout from -2 to 2^31-1 ms or none'),
    'C28': dict(src=['c28.cpp'], repo=['core/qcoroiodevice.cpp', 'core/qcoroiodevice_p.cpp', 'core/qcoroprocess.cpp', 'network/qcoroabstractsocket.cpp', 'network/qcorolocalsocket.cpp', 'network/qcoronetworkreply.cpp', 'network/qcorotcpserver.cpp', 'websockets/qcorowebsocket.cpp', 'websockets/qcorowebsocketserver.cpp'], moc=['harness/sender.h', 'core/qcoroiodevice_p.h', 'core/qcoroprocess.cpp', 'network/qcoroabstractsocket.cpp', 'network/qcorolocalsocket.cpp', 'network/qcoronetworkreply.cpp', 'websockets/qcorowebsocket.cpp', 'websockets/qcorowebsocketserver.cpp'], model=WS, bounds='12 situations of objects of 8 classes with 1 to 3 kinds of waits each; up to 3 (4 thorough) events out of at most 4 per situation, each up to twice; any timeout from 0 to 2^31-1 ms or none; afterwards nothing, the object destroyed at once, or the same wait again; one waiter (several: C29)'),
    'C29': dict(src=['c29.cpp'], repo=['core/qcoroiodevice.cpp', 'core/qcoroiodevice_p.cpp', 'core/qcoroprocess.cpp', 'network/qcoroabstractsocket.cpp', 'network/qcorolocalsocket.cpp', 'network/qcoronetworkreply.cpp', 'network/qcorotcpserver.cpp', 'websockets/qcorowebsocket.cpp', 'websockets/qcorowebsocketserver.cpp'], moc=['harness/sender.h', 'core/qcoroiodevice_p.h', 'core/qcoroprocess.cpp', 'network/qcoroabstractsocket.cpp', 'network/qcorolocalsocket.cpp', 'network/qcoronetworkreply.cpp', 'websockets/qcorowebsocket.cpp', 'websockets/qcorowebsocketserver.cpp'], model=WS, bounds='10 situations of objects of 6 classes, two waits of the same or different kinds, the second begun with the first or one event loop turn later; up to 3 (4 thorough) events out of at most 4 per situation, each once; any timeouts from 0 to 2^31-1 ms or none; the object destroyed by the first waiter (with one event less) or not'),
    'C31': dict(src=['c31.cpp'], model=QT, bounds='awaiters as named object, temporary or moved, or behind a member or free operator co_await (named or temporary), giving nothing, a value, an object or a reference, with each kind of await_suspend (void, bool, a coroutine to run next), ready or not, throwing at any of the four places; awaited once in a Task, LazyTask or AsyncGenerator'),
    'C30': dict(src=['c30.cpp'], model=QT, bounds='all 15 macros once each, in coroutines that have suspended or not; conditions, compared integers and the answers of QtTest symbolic; 5 outcomes of code that should throw; waiting macros with any timeout up to 400 ms (2 s thorough) or their default, the condition becoming true at any time up to 1.4 s (7 s thorough; 16 s with the default); texts of messages are not compared'),
    'C27': dict(src=['c27.cpp'], repo=['quick/qcoroimageprovider.cpp'], model=QT + ['vqt_quick'], bounds='up to 2 requests (3 thorough) of any size; images of any size, or null; identifiers of 0, 1 or 80 characters (4 of them symbolic UTF-16 units); the coroutine finishing at once or at any later point; the response destroyed at any point or while it finishes, the provider destroyed while requests run; a coroutine that throws leaves its response unfinished (not claimed)'),
    'C26': dict(src=['c26.cpp'], repo=['qml/qcoroqmltask.cpp'], moc=['qml/qcoroqmltask.h'], model=QT + ['vqt_variant', 'vqt_qml', 'vqt_qml_v4'], bounds='tasks of QVariant (a null one included), int, void and an awaitable, ending or throwing before, between or after up to 5 (6 thorough; one less for all but QVariant) steps out of: then(), await() with and without an intermediate value, copying, assigning (in either direction, to itself), dropping handles, destroying the listener or the engine; the JavaScript function drops all handles, uses the task again or destroys the engine; up to 4 uses of a task; JavaScript functions are opaque and do not throw'),
    'C19': dict(src=['c19.cpp'], repo=['dbus/qcorodbuspendingcall.cpp'], model=QT + ['vqt_variant', 'vqt_dbus'], bounds='calls with a reply of 0 to 2 values or an error, typed replies of 0, 1 and 2 values (matching or not), the reply stored and then announced by the D-Bus thread at any modelled point or before the wait, others watching the call or not, one or two waiters, as lvalue, temporary, kept wrapper or kept task'),
    'C18': dict(src=['c18.cpp'], model=QT + ['vqt_future'], bounds='futures of void, int, a tracked and a move-only type with up to 1 (2 thorough) results or an exception (std::exception_ptr or QException); cancelled, suspended and resumed, finished, or its promise dropped at any point, by the event loop of the waiter or by another thread at any modelled point; up to 3 steps before the wait; 1 or 2 waiters; a non-void future that finishes has a result or an exception, and takeResult() is not called on a cancelled one (QFuture preconditions)'),
    'C17': dict(src=['c17.cpp'], repo=['core/qcorothread.cpp'], moc=['core/qcorothread.cpp'], model=QT, bounds='up to 2 (3 thorough) moves among the main thread and up to 2 others, which run, start later, never start or are over; 2 coroutines at a time; chains of 2 coroutines; another thread may be scheduled at every modelled point and its steps interleave with a third thread, but not with the main thread; a task is not awaited by one thread at the very moment it ends on another'),
    'C16': dict(src=['c16.cpp'], repo=['core/qcorothread.cpp'], moc=['core/qcorothread.cpp'], model=QT, bounds='6 states of the thread before the call; started and told to quit by nobody, this or another thread at any modelled point, or destroyed; asked to stop by requestInterruption() or not, any loop level; any timeout from -2 to 2^31-1 ms or none'),
}
