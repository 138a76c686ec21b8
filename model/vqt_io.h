// The model of Qt's I/O devices: what harnesses see of it.
#pragma once
#include "vqt.h"
#include <QIODevice>
#include <QByteArray>
#include <QProcess>
#include <QStringList>
namespace vqt {
struct Io {
    static const unsigned N = 64;
    QIODevice::OpenMode mode = QIODevice::NotOpen;
    uint8_t in[N];               // arrived and not read yet
    unsigned nin = 0;
    int64_t bulk = 0;            // instead of bytes in `in`: so much data without line ends
    int64_t toWrite = 0;         // accepted and not flushed yet
    bool sequential = true, transaction = false;
    int writes = 0;              // calls of write()
    const char *lastData = nullptr; int64_t lastSize = 0;
    int64_t (*accept)(QIODevice *, int64_t) = nullptr; // how much of a write the device takes (-1: error)
    enum { Buffered, Unbuffered, Synchronous, Partly } writing = Buffered; // Unbuffered: nothing is ever pending or reported; Synchronous: flushed and reported within write(); Partly: some of it
    int64_t (*part)(QIODevice *, int64_t) = nullptr; // Partly: how much is flushed within write()
    int polls = 0, maxPolls = 100; // bytesToWrite()/bytesAvailable() calls, to notice busy loops
};
Io &io(const QIODevice *d);
void arrive(QIODevice *d, const uint8_t *p, unsigned n); // more data; emits readyRead()
void arriveBulk(QIODevice *d, int64_t n);                // any amount of data
void flush(QIODevice *d, int64_t n);                     // n pending bytes leave; emits bytesWritten(n)

struct Proc {
    QProcess::ProcessState state = QProcess::NotRunning;
    QProcess::ProcessError error = QProcess::UnknownError;
    QString program; QStringList arguments; QIODevice::OpenMode mode;
    int starts = 0, exitCode = 0;
    QProcess::ExitStatus exitStatus = QProcess::NormalExit;
    bool failAtOnce = false; // start() fails synchronously
};
Proc &proc(const QProcess *p);
void processStarted(QProcess *p);
void processFailed(QProcess *p);
void processError(QProcess *p, QProcess::ProcessError e);
void processFinished(QProcess *p, int code, bool crashed);
}
class QIODevicePrivate : public QObjectPrivate { public: vqt::Io io; };
