// C27: image providers
#include "common.h"
#include "vqt_quick.h"
#include <qcoroimageprovider.h>
#include <QPointer>
#include <optional>
#include <memory>
using QCoro::Task;

static constexpr int Max = 3;
struct Request {
    Gate gate;
    bool used = false, done = false, gone = false; // the coroutine has given its image / the response has been destroyed
    int32_t w = 0, h = 0, rw = 0, rh = 0;
    QPointer<QQuickImageResponse> response;
    int announced = 0;
    bool react = false; // whether the response is destroyed while it announces its end
};
static Request *reqs; static int nreq;
static const QString *wanted;
struct Provider : QCoro::ImageProvider {
    Task<QImage> asyncRequestImage(const QString &id, const QSize &size) override {
        Request &r = reqs[nreq++];
        vf::check(id == *wanted && size.width() == r.rw && size.height() == r.rh, "the request is passed on");
        return produce(r);
    }
    static Task<QImage> produce(Request &r) {
        Tracked t(1);
        co_await r.gate;
        r.done = true;
        co_return QImage(r.w, r.h, QImage::Format_RGB32);
    }
};
static void judge(Request &r) {
    QQuickImageResponse *resp = r.response;
    vf::check(resp || r.gone, "the response exists until its owner destroys it");
    if (!resp) return;
    vf::check(vqt::responseFinished(resp) == r.done, "the response has finished exactly when the coroutine has");
    std::unique_ptr<QQuickTextureFactory> f(resp->textureFactory());
    const bool null = !r.done || r.w <= 0 || r.h <= 0;
    vf::check(bool(f) == !null, "there is a texture exactly when there is an image");
    if (f) { const QImage i = f->image(); vf::check(i.width() == r.w && i.height() == r.h, "the texture is made of the coroutine's image"); }
    vf::check(resp->errorString().isEmpty(), "no error is reported");
}
static void run(int steps, int requests) {
    Scope scope;
    {
        Request q[Max]; reqs = q; nreq = 0;
        const QString id = vqt::text("id"); wanted = &id;
        std::unique_ptr<Provider> provider(new Provider);
        vf::check(provider->imageType() == QQmlImageProviderBase::ImageResponse, "the provider gives responses");
        bool late = false, destroyed = false, reacted = false;
        for (int i = 0; i < steps; i++) {
            // 0 stop, 1 request, 2.. finish of k, destruction of k, provider
            bool can[2 + 2 * Max + 1] = {};
            can[0] = true; can[1] = provider && nreq < requests;
            for (int k = 0; k < nreq; k++) { can[2 + k] = q[k].gate.pending(); can[2 + Max + k] = !q[k].gone; }
            can[2 + 2 * Max] = provider && nreq > 0;
            unsigned n = 0; for (bool c : can) n += c;
            unsigned pick = vf::choice("step", n);
            int a = 0; for (; a < int(sizeof can); a++) if (can[a] && pick-- == 0) break;
            if (a == 0) break;
            if (a == 1) {
                Request &r = q[nreq];
                r.w = vf::i32("width"); r.h = vf::i32("height"); r.rw = vf::i32("requested_width"); r.rh = vf::i32("requested_height");
                if (vf::flag("at_once")) r.gate.fire();
                r.used = true;
                QQuickAsyncImageProvider *p = provider.get();
                r.response = p->requestImageResponse(id, QSize(r.rw, r.rh));
                vf::check(r.response && &q[nreq - 1] == &r, "a request gives a response");
                if (!r.done) {
                    r.react = vf::flag("react");
                    QObject::connect(r.response, &QQuickImageResponse::finished, r.response, [&r, &reacted] {
                        vf::check(++r.announced == 1, "the end is announced once");
                        judge(r);
                        if (r.react) { reacted = true; r.gone = true; delete r.response; }
                    });
                } else r.announced = 1;
            } else if (a < 2 + Max) { if (q[a - 2].gone) late = true; q[a - 2].gate.fire(); vf::check(q[a - 2].done, "the coroutine runs on"); }
            else if (a < 2 + 2 * Max) { Request &r = q[a - 2 - Max]; r.gone = true; if (!r.done) destroyed = true; delete r.response; }
            else provider.reset();
            for (int k = 0; k < nreq; k++) { judge(q[k]); if (!q[k].gone || q[k].announced) vf::check(q[k].announced == q[k].done, "the end is announced with the image"); }
        }
        for (int k = 0; k < nreq; k++) {
            if (q[k].gate.pending()) q[k].gate.fire();
            vf::check(q[k].done, "the coroutine runs on");
            judge(q[k]);
            vf::log("announced", q[k].announced);
            delete q[k].response;
        }
        vf::reach(!nreq ? "nothing" : late ? "finished without response" : reacted ? "destroyed while announcing" : destroyed ? "destroyed" : "finished");
    }
    scope.finish();
}
HARNESS(h_c27_one) { vqt::textSize = vf::flag("short_texts") ? vf::choice("size", 2) : 80; run(BOUND(5, 6), 1); }
HARNESS(h_c27_more) { run(BOUND(6, 7), BOUND(2, 3)); }
// many requests at once
HARNESS(h_c27_many) {
    static const int N = BOUND(150, 300);
    Scope scope;
    {
        Request *q = new Request[N]; reqs = q; nreq = 0;
        const QString id = vqt::text("id"); wanted = &id;
        Provider provider;
        for (int i = 0; i < N; i++) {
            Request &r = q[i];
            r.w = int(vf::range("width", 1, 4000)); r.h = int(vf::range("height", 1, 4000)); r.rw = r.rh = i;
            r.response = static_cast<QQuickAsyncImageProvider &>(provider).requestImageResponse(id, QSize(i, i));
            QObject::connect(r.response, &QQuickImageResponse::finished, r.response, [&r] { vf::check(++r.announced == 1, "the end is announced once"); });
        }
        const bool backwards = vf::flag("backwards");
        for (int i = 0; i < N; i++) { Request &r = q[backwards ? N - 1 - i : i]; r.gate.fire(); vqt::settle(); vf::check(r.done && r.announced == 1, "the end is announced"); judge(r); }
        for (int i = 0; i < N; i++) { vf::check(q[i].announced == 1, "the end is announced once"); delete q[i].response; }
        vf::reach("done");
        delete[] q;
    }
    scope.finish();
}
