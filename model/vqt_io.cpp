// Model of QIODevice and QProcess.
#include "vqt_io.h"
#include <cstring>
using namespace vqt;

static QIODevicePrivate *priv(const QIODevice *d) { return static_cast<QIODevicePrivate *>(QObjectPrivate::get(d)); }
Io &vqt::io(const QIODevice *d) { return priv(d)->io; }
void vqt::arrive(QIODevice *d, const uint8_t *p, unsigned n) {
    Io &x = io(d);
    if (x.nin + n > Io::N) vf_bound_("bytes waiting in a device");
    for (unsigned i = 0; i < n; i++) x.in[x.nin + i] = p[i];
    x.nin += n; x.polls = 0;
    emitSignal(d, &QIODevice::readyRead);
}
void vqt::arriveBulk(QIODevice *d, int64_t n) { Io &x = io(d); x.bulk += n; x.polls = 0; emitSignal(d, &QIODevice::readyRead); }
void vqt::flush(QIODevice *d, int64_t n) {
    Io &x = io(d);
    x.toWrite -= n; x.polls = 0;
    qint64 v = n;
    emitSignal(d, &QIODevice::bytesWritten, v);
}
static void poll(const QIODevice *d) { vf::check(++io(d).polls < io(d).maxPolls, "the device is not polled in a busy loop"); }

QIODevice::QIODevice() : QObject(*new QIODevicePrivate, nullptr) {}
QIODevice::QIODevice(QObject *parent) : QObject(*new QIODevicePrivate, parent) {}
QIODevice::QIODevice(QIODevicePrivate &dd, QObject *parent) : QObject(dd, parent) {}
QIODevice::~QIODevice() {}
QIODeviceBase::OpenMode QIODevice::openMode() const { return io(this).mode; }
void QIODevice::setOpenMode(QIODeviceBase::OpenMode m) { Io &x = io(this); x.mode = m; x.nin = 0; }
bool QIODevice::isOpen() const { return io(this).mode != NotOpen; }
bool QIODevice::isReadable() const { poll(this); return (io(this).mode & ReadOnly) != 0; }
bool QIODevice::isWritable() const { poll(this); return (io(this).mode & WriteOnly) != 0; }
bool QIODevice::isSequential() const { return io(this).sequential; }
bool QIODevice::open(QIODeviceBase::OpenMode m) { Io &x = io(this); x.mode = m; x.nin = 0; x.bulk = 0; return true; }
void QIODevice::close() {
    Io &x = io(this);
    if (x.mode == NotOpen) return;
    touched();
    Q_EMIT aboutToClose();
    x.mode = NotOpen; x.nin = 0; x.bulk = 0; x.toWrite = 0;
}
qint64 QIODevice::pos() const { return 0; }
qint64 QIODevice::size() const { return bytesAvailable(); }
bool QIODevice::seek(qint64) { return false; }
bool QIODevice::atEnd() const { return !isOpen() || bytesAvailable() == 0; }
bool QIODevice::reset() { return seek(0); }
qint64 QIODevice::bytesAvailable() const { poll(this); return io(this).nin + io(this).bulk; }
qint64 QIODevice::bytesToWrite() const { poll(this); return io(this).toWrite; }
bool QIODevice::canReadLine() const { Io &x = io(this); for (unsigned i = 0; i < x.nin; i++) if (x.in[i] == '\n') return true; return false; }
static QByteArray take(Io &x, unsigned n) {
    QByteArray r(reinterpret_cast<const char *>(x.in), n);
    memmove(x.in, x.in + n, x.nin - n);
    x.nin -= n;
    return r;
}
static QByteArray takeBulk(Io &x, int64_t n) { static const char data[1] = {'x'}; x.bulk -= n; return n ? QByteArray::fromRawData(data, n) : QByteArray(); }
QByteArray QIODevice::read(qint64 max) {
    Io &x = io(this);
    if (max < 0 || !(x.mode & ReadOnly)) return QByteArray();
    if (x.bulk) return takeBulk(x, max < x.bulk ? max : x.bulk);
    unsigned n = 0;
    while (n < x.nin && n < max) n++;
    return n ? take(x, n) : QByteArray();
}
QByteArray QIODevice::readAll() { Io &x = io(this); if (!(x.mode & ReadOnly)) return QByteArray(); if (x.bulk) return takeBulk(x, x.bulk); return x.nin ? take(x, x.nin) : QByteArray(); }
QByteArray QIODevice::readLine(qint64 max) {
    Io &x = io(this);
    if (max < 0 || !(x.mode & ReadOnly)) return QByteArray();
    if (x.bulk) return takeBulk(x, max > 0 && max < x.bulk ? max : x.bulk);
    unsigned n = 0;
    while (n < x.nin && (max == 0 || n < max)) if (x.in[n++] == '\n') break;
    return n ? take(x, n) : QByteArray();
}
qint64 QIODevice::readLineData(char *, qint64) { vf_unmodelled_("QIODevice::readLineData"); }
qint64 QIODevice::skipData(qint64) { vf_unmodelled_("QIODevice::skipData"); }
qint64 QIODevice::write(const QByteArray &data) { return write(data.constData(), data.size()); }
qint64 QIODevice::write(const char *data) { return write(data, qint64(strlen(data))); }
bool QIODevice::putChar(char c) { return write(&c, 1) == 1; }
qint64 QIODevice::write(const char *data, qint64 size) {
    Io &x = io(this);
    x.writes++; x.lastData = data; x.lastSize = size;
    if (size < 0 || !(x.mode & WriteOnly)) return -1;
    int64_t n = x.accept ? x.accept(this, size) : size;
    if (n > 0 && x.writing != Io::Unbuffered) {
        x.toWrite += n;
        if (x.writing == Io::Synchronous) flush(this, x.toWrite);
        else if (x.writing == Io::Partly) { const int64_t k = x.part(this, x.toWrite); if (k > 0) flush(this, k); }
    }
    return n;
}
bool QIODevice::waitForReadyRead(int) { vf_fail_("the thread blocks"); }
bool QIODevice::waitForBytesWritten(int) { vf_fail_("the thread blocks"); }

class QProcessPrivate : public QIODevicePrivate {
public:
    Proc p;
    bool _q_canReadStandardOutput() { return false; }
    bool _q_canReadStandardError() { return false; }
    bool _q_canWrite() { return false; }
    bool _q_startupNotification() { return false; }
    void _q_processDied() {}
};
static QProcessPrivate *priv(const QProcess *d) { return static_cast<QProcessPrivate *>(QObjectPrivate::get(d)); }
Proc &vqt::proc(const QProcess *p) { return priv(p)->p; }
static void setState(QProcess *p, QProcess::ProcessState s) {
    if (proc(p).state == s) return;
    proc(p).state = s; io(p).polls = 0;
    emitSignal(p, &QProcess::stateChanged, s, s);
}
void vqt::processStarted(QProcess *p) {
    setState(p, QProcess::Running);
    emitSignal(p, &QProcess::started, p);
}
void vqt::processFailed(QProcess *p) {
    setState(p, QProcess::NotRunning);
    QProcess::ProcessError e = proc(p).error = QProcess::FailedToStart;
    emitSignal(p, &QProcess::errorOccurred, e);
}
void vqt::processError(QProcess *p, QProcess::ProcessError e) { proc(p).error = e; emitSignal(p, &QProcess::errorOccurred, e); }
void vqt::processFinished(QProcess *p, int code, bool crashed) {
    Proc &x = proc(p);
    x.exitCode = code; x.exitStatus = crashed ? QProcess::CrashExit : QProcess::NormalExit;
    setState(p, QProcess::NotRunning);
    if (crashed) { QProcess::ProcessError e = x.error = QProcess::Crashed; emitSignal(p, &QProcess::errorOccurred, e); }
    emitSignal(p, &QIODevice::readChannelFinished);
    QProcess::ExitStatus st = x.exitStatus;
    emitSignal(p, qOverload<int, QProcess::ExitStatus>(&QProcess::finished), code, st);
}
void QProcess::start(const QString &program, const QStringList &arguments, OpenMode mode) {
    Proc &x = proc(this);
    if (x.state != NotRunning) return; // "already running"
    x.program = program; x.arguments = arguments;
    start(mode);
}
void QProcess::start(OpenMode mode) {
    Proc &x = proc(this);
    if (x.state != NotRunning) return;
    x.starts++; x.mode = mode;
    QIODevice::open(mode);
    setState(this, Starting);
    if (x.failAtOnce) processFailed(this);
}
void QProcess::startCommand(const QString &command, OpenMode mode) { // splits at blanks
    QStringList parts; QString part;
    for (qsizetype i = 0; i <= command.size(); i++) {
        const QChar c = i < command.size() ? command.at(i) : QChar(u' ');
        if (c == QChar(u'"')) vf_unmodelled_("quoted arguments in a command");
        if (c != QChar(u' ')) part.append(c);
        else if (!part.isEmpty()) { parts.append(part); part = QString(); }
    }
    if (parts.isEmpty()) return;
    const QString program = parts.takeFirst();
    start(program, parts, mode);
}
QProcess::QProcess(QObject *parent) : QIODevice(*new QProcessPrivate, parent) {}
QProcess::~QProcess() {}
QProcess::ProcessState QProcess::state() const { return proc(this).state; }
QProcess::ProcessError QProcess::error() const { return proc(this).error; }
int QProcess::exitCode() const { return proc(this).exitCode; }
QProcess::ExitStatus QProcess::exitStatus() const { return proc(this).exitStatus; }
QString QProcess::program() const { return proc(this).program; }
QStringList QProcess::arguments() const { return proc(this).arguments; }
void QProcess::setProgram(const QString &s) { proc(this).program = s; }
void QProcess::setArguments(const QStringList &a) { proc(this).arguments = a; }
bool QProcess::open(OpenMode mode) { start(mode); return proc(this).state != NotRunning; }
void QProcess::close() { Q_EMIT aboutToClose(); vf_unmodelled_("QProcess::close"); }
bool QProcess::isSequential() const { return true; }
qint64 QProcess::bytesToWrite() const { return QIODevice::bytesToWrite(); }
bool QProcess::waitForReadyRead(int) { vf_fail_("the thread blocks"); }
bool QProcess::waitForBytesWritten(int) { vf_fail_("the thread blocks"); }
qint64 QProcess::readData(char *, qint64) { return -1; }
qint64 QProcess::writeData(const char *, qint64) { return -1; }
QProcess::Use_setChildProcessModifier_Instead QProcess::setupChildProcess() { return {}; }
void QProcess::terminate() { vf_fail_("a process is terminated that nobody asked to terminate"); }
void QProcess::kill() { vf_fail_("a process is killed that nobody asked to kill"); }

bool QProcess::waitForStarted(int) { vf_fail_("the thread blocks"); }
bool QProcess::waitForFinished(int) { vf_fail_("the thread blocks"); }
qint64 QProcess::processId() const { return proc(this).state == Running ? 4711 : 0; }
QString QIODevice::errorString() const { return QString(); }
bool QIODevice::isTextModeEnabled() const { return (io(this).mode & Text) != 0; }
void QIODevice::setTextModeEnabled(bool b) { io(this).mode.setFlag(Text, b); }
int QIODevice::readChannelCount() const { return 1; }
int QIODevice::writeChannelCount() const { return 1; }
int QIODevice::currentReadChannel() const { return 0; }
int QIODevice::currentWriteChannel() const { return 0; }
QByteArray QIODevice::peek(qint64 max) {
    Io &x = io(this);
    if (max < 0 || !(x.mode & ReadOnly)) return QByteArray();
    unsigned n = 0;
    while (n < x.nin && n < max) n++;
    return n ? QByteArray(reinterpret_cast<const char *>(x.in), n) : QByteArray();
}
qint64 QIODevice::read(char *p, qint64 max) {
    Io &x = io(this);
    if (max < 0 || !(x.mode & ReadOnly)) return -1;
    unsigned n = 0;
    while (n < x.nin && n < max) { p[n] = char(x.in[n]); n++; }
    if (n) take(x, n);
    return n;
}
qint64 QIODevice::peek(char *p, qint64 max) {
    Io &x = io(this);
    if (max < 0 || !(x.mode & ReadOnly)) return -1;
    unsigned n = 0;
    while (n < x.nin && n < max) { p[n] = char(x.in[n]); n++; }
    return n;
}
qint64 QIODevice::readLine(char *p, qint64 max) { // max includes the terminating zero
    Io &x = io(this);
    if (max < 2 || !(x.mode & ReadOnly)) return -1;
    unsigned n = 0;
    while (n < x.nin && n < max - 1) { p[n] = char(x.in[n]); if (x.in[n++] == '\n') break; }
    p[n] = 0;
    if (!n) return -1;
    take(x, n);
    return n;
}
qint64 QIODevice::skip(qint64 max) {
    Io &x = io(this);
    if (max < 0 || !(x.mode & ReadOnly)) return -1;
    unsigned n = 0;
    while (n < x.nin && n < max) n++;
    if (n) take(x, n);
    return n;
}
bool QIODevice::getChar(char *c) { char t; return read(c ? c : &t, 1) == 1; }
void QIODevice::ungetChar(char c) {
    Io &x = io(this);
    if (!(x.mode & ReadOnly)) return;
    if (x.nin == Io::N) vf_bound_("bytes waiting in a device");
    memmove(x.in + 1, x.in, x.nin++);
    x.in[0] = uint8_t(c);
}
bool QIODevice::isTransactionStarted() const { return io(this).transaction; }
void QIODevice::setErrorString(const QString &) {}
void QIODevice::setCurrentReadChannel(int) {}
void QIODevice::setCurrentWriteChannel(int) {}

#include "moc_qiodevice.h.inc"
#include "moc_qprocess.h.inc"
