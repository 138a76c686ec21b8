// C30: the test macros
#include "common.h"
#include <QString>
#include <QTest>
#include <qcorotask.h>
#include <test/qcorotest.h>
using QCoro::Task;
#include <string_view>
// What a use of the waiting macros expands to must exist.  Where it does not (see known_findings.json), QtTest's counterpart of
// what is missing is put in its place, so that the rest of the macros is judged.
#define C30_TEXT_(...) #__VA_ARGS__
#define C30_TEXT(...) C30_TEXT_(__VA_ARGS__)
static constexpr bool tryUsable = std::string_view(C30_TEXT(QCORO_TRY_VERIFY(true))).find("QCORO_TRY_LOOP_IMPL") == std::string_view::npos;
#ifndef QCORO_TRY_LOOP_IMPL
#define QCORO_TRY_LOOP_IMPL QTRY_LOOP_IMPL
#endif

// --- QtTest: what the macros call --------------------------------------------------------
enum What { Verify, Compare, Fail, Skip, ExpectFail, Waited };
struct Call { What what; bool value; int64_t n; int line; };
struct Recorder {
    static const int N = 400;
    Call calls[N]; int n = 0; bool answers[4]; int answered = 0;
    int64_t time = 0, trueAt = 0, failsAt = -1; int evaluations = 0;
    const char *text = nullptr; int mode = -1;
    void add(What w, bool v, int64_t x, int line) { if (n == N) vf_bound_("recorded calls"); calls[n++] = {w, v, x, line}; }
    bool answer() { if (answered == 4) vf_bound_("answers of QtTest"); return answers[answered++]; }
    bool condition() { evaluations++; return time >= trueAt; }
};
static Recorder *rec;
static int element;
bool QTest::qVerify(bool v, const char *, const char *description, const char *, int line) { rec->text = description; rec->add(Verify, v, 0, line); return rec->answer(); }
bool QTest::qCompare(int a, int b, const char *, const char *, const char *, int line) { rec->add(Compare, a == b, int64_t(a) * 7 + b, line); return rec->answer(); }
bool QTest::compare_helper(bool success, const char *, qxp::function_ref<const char *()>, qxp::function_ref<const char *()>, const char *, const char *, const char *, int line) { rec->add(Compare, success, 0, line); return rec->answer(); }
bool QTest::compare_helper(bool success, const char *, const char *, const char *, const char *, int line) { rec->add(Compare, success, 0, line); return rec->answer(); }
void QTest::qFail(const char *text, const char *, int line) { rec->text = text; rec->add(Fail, false, 0, line); }
void QTest::qCaught(const char *, const char *, const char *, int line) { rec->add(Fail, false, 0, line); }
void QTest::qSkip(const char *text, const char *, int line) { rec->text = text; rec->add(Skip, false, 0, line); }
bool QTest::qExpectFail(const char *index, const char *text, TestFailMode mode, const char *, int line) { rec->text = text; rec->mode = mode; rec->add(ExpectFail, !*index, 0, line); return rec->answer(); }
void *QTest::qElementData(const char *, int) { return &element; }
void QTest::qWait(int ms) { rec->time += ms; rec->add(Waited, false, ms, 0); }
bool QTest::runningTest() { return true; }
bool QTest::currentTestFailed() { return rec->failsAt >= 0 && rec->time >= rec->failsAt; }
QString QTest::Internal::formatTryTimeoutDebugMessage(q_no_char8_t::QUtf8StringView, int, int) { return QStringLiteral("message"); }

// --- one macro ------------------------------------------------------------------------------
struct Case {
    unsigned kind; bool value, suspends; int a = 0, b = 0; unsigned throws_ = 0;
    int line = 0, before = 0, after = 0, evaluated = 0; const char *text = nullptr;
    bool truth() { evaluated++; return value; }
    int left() { evaluated++; return a; }
    const char *say() { evaluated += 100; return text; }
    void act() {
        evaluated++;
        switch (throws_) { case 0: return; case 1: throw BaseError(1); case 2: throw DerivedError(1, 2); case 3: throw std::logic_error("x"); case 4: throw PlainError{1}; }
    }
};
enum Kind { KVerify, KVerify2, KCompare, KFail, KSkip, KExpectFail, KTest, KThrows, KExceptionThrown, Kinds };
static Task<> body(Case &c, Gate &g) {
    Tracked local(1);
    if (c.suspends) co_await g;
    c.before++;
    switch (c.kind) {
    case KVerify: c.line = __LINE__; QCORO_VERIFY(c.truth()); break;
    case KVerify2: c.line = __LINE__; QCORO_VERIFY2(c.truth(), c.say()); break;
    case KCompare: c.line = __LINE__; QCORO_COMPARE(c.left(), c.b); break;
    case KFail: c.line = __LINE__; QCORO_FAIL(c.text); break;
    case KSkip: c.line = __LINE__; QCORO_SKIP(c.text); break;
    case KExpectFail: c.line = __LINE__; QCORO_EXPECT_FAIL("", c.text, Continue); break;
    case KTest: c.line = __LINE__; QCORO_TEST(c.left(), "element"); break;
    case KThrows: c.line = __LINE__; QCORO_VERIFY_THROWS_EXCEPTION(BaseError, c.act()); break;
    default: c.line = __LINE__; if (c.kind == KExceptionThrown) QCORO_VERIFY_EXCEPTION_THROWN(c.act(), BaseError); else c.before = -1;
    }
    c.after++;
}
HARNESS(h_c30_macros) {
    Scope scope;
    {
        static Recorder r; r = Recorder(); rec = &r;
        r.answers[0] = vf::flag("qttest_goes_on"); r.failsAt = vf::flag("test_has_failed_before") ? 0 : -1;
        Case c; Gate g;
        c.kind = vf::choice("macro", Kinds); c.value = vf::flag("condition"); c.suspends = vf::flag("suspends");
        c.a = vf::i32("actual"); c.b = element = vf::i32("expected"); c.text = "text";
        c.throws_ = c.kind >= KThrows ? vf::choice("throws", 5) : 0;
        {
            auto t = body(c, g);
            if (c.suspends) { vf::check(!t.isReady() && !c.before, "the coroutine waits"); g.fire(); }
            vf::check(t.isReady() && c.before == 1, "the coroutine is over");
        }
        bool goesOn = r.answers[0];
        switch (c.kind) {
        case KVerify: case KVerify2: vf::check(r.n == 1 && r.calls[0].what == Verify && r.calls[0].value == c.value, "the condition is reported, once"); break;
        case KCompare: case KTest: vf::check(r.n == 1 && r.calls[0].what == Compare && r.calls[0].value == (c.a == c.b) && r.calls[0].n == int64_t(c.a) * 7 + c.b, "the comparison is reported, once"); break;
        case KFail: case KSkip: vf::check(r.n == 1 && r.calls[0].what == (c.kind == KFail ? Fail : Skip), "the test is failed or skipped, once"); goesOn = false; break;
        case KExpectFail: vf::check(r.n == 1 && r.calls[0].what == ExpectFail && r.calls[0].value && r.mode == QTest::Continue, "the expectation is reported, once"); break;
        default:
            goesOn = c.throws_ == 1 || c.throws_ == 2;
            vf::check(goesOn ? r.n == 0 : r.n == 1 && r.calls[0].what == Fail, "the test fails exactly if the exception is not thrown");
        }
        if (r.n) vf::check(r.calls[0].line == c.line, "the location is the one of the macro");
        if (c.kind == KVerify2 || c.kind == KFail || c.kind == KSkip || c.kind == KExpectFail) vf::check(r.text == c.text, "the text is passed on");
        vf::check(c.evaluated == (c.kind == KFail || c.kind == KSkip || c.kind == KExpectFail ? 0 : c.kind == KVerify2 ? 101 : 1), "what is tested is evaluated once");
        vf::check(c.after == goesOn, "the coroutine goes on exactly if QtTest says so");
        vf::reach(goesOn ? "goes on" : "over");
    }
    scope.finish();
}
// --- the waiting macros, against QtTest's own -------------------------------------------------
enum Try { TVerify, TVerifyTimeout, TVerify2, TVerify2Timeout, TCompare, TCompareTimeout, Tries };
static void theirs(unsigned kind, int timeout, int &after) {
    switch (kind) {
    case TVerify: QTRY_VERIFY(rec->condition()); break;
    case TVerifyTimeout: QTRY_VERIFY_WITH_TIMEOUT(rec->condition(), timeout); break;
    case TVerify2: QTRY_VERIFY2(rec->condition(), "text"); break;
    case TVerify2Timeout: QTRY_VERIFY2_WITH_TIMEOUT(rec->condition(), "text", timeout); break;
    case TCompare: QTRY_COMPARE(int(rec->condition()), 1); break;
    default: QTRY_COMPARE_WITH_TIMEOUT(int(rec->condition()), 1, timeout);
    }
    after++;
}
static Task<> ours(unsigned kind, int timeout, int &after) {
    switch (kind) {
    case TVerify: QCORO_TRY_VERIFY(rec->condition()); break;
    case TVerifyTimeout: QCORO_TRY_VERIFY_WITH_TIMEOUT(rec->condition(), timeout); break;
    case TVerify2: QCORO_TRY_VERIFY2(rec->condition(), "text"); break;
    case TVerify2Timeout: QCORO_TRY_VERIFY2_WITH_TIMEOUT(rec->condition(), "text", timeout); break;
    case TCompare: QCORO_TRY_COMPARE(int(rec->condition()), 1); break;
    default: QCORO_TRY_COMPARE_WITH_TIMEOUT(int(rec->condition()), 1, timeout);
    }
    after++;
    co_return;
}
static void waiting(unsigned kind, int timeout, int64_t latest) {
    Scope scope;
    {
        static Recorder a, b; a = Recorder(); b = Recorder();
        a.trueAt = b.trueAt = vf::range("true_at", 0, latest);
        a.answers[0] = b.answers[0] = vf::flag("qttest_goes_on");
        int afterA = 0, afterB = 0;
        rec = &a; theirs(kind, timeout, afterA);
        rec = &b; bool ready;
        { auto t = ours(kind, timeout, afterB); ready = t.isReady(); }
        vf::check(ready, "the coroutine is over");
        vf::check(afterA == afterB, "the coroutine goes on exactly if a function would");
        vf::check(a.time == b.time, "it waits as long as QtTest would");
        int i = 0, j = 0;
        for (;; i++, j++) { // what is reported (the waiting in between may be cut differently)
            while (i < a.n && a.calls[i].what == Waited) i++;
            while (j < b.n && b.calls[j].what == Waited) j++;
            if (i == a.n || j == b.n) break;
            vf::check(a.calls[i].what == b.calls[j].what && a.calls[i].value == b.calls[j].value && a.calls[i].n == b.calls[j].n, "it reports what QtTest would");
        }
        vf::check(i == a.n && j == b.n, "it reports what QtTest would");
        vf::reach(a.trueAt == 0 ? "at once" : afterB ? "goes on" : "over");
    }
    scope.finish();
}
HARNESS(h_c30_try) { const unsigned k = 1 + 2 * vf::choice("macro", 3); waiting(k, int(vf::range("timeout", 0, BOUND(400, 2000))), BOUND(1400, 7000)); }
HARNESS(h_c30_try_default) { waiting(2 * vf::choice("macro", 3), 0, 16000); }
// a test that fails meanwhile is not waited for any longer
HARNESS(h_c30_try_failing) {
    Scope scope;
    {
        static Recorder a; a = Recorder(); rec = &a;
        const int timeout = int(vf::range("timeout", 1, 400));
        a.trueAt = int64_t(1) << 40; a.failsAt = vf::range("fails_at", 0, 2000);
        a.answers[0] = false;
        int after = 0; bool ready;
        { auto t = ours(1 + 2 * vf::choice("macro", 3), timeout, after); ready = t.isReady(); }
        vf::check(ready && !after, "the coroutine is over");
        vf::check(a.time <= a.failsAt + 58 || a.failsAt > 3 * timeout, "a test that has failed is not waited for");
        vf::reach("failed");
    }
    scope.finish();
}

HARNESS(h_c30_try_usable) { vf::check(tryUsable, "the waiting macros can be used"); vf::reach("usable"); }
