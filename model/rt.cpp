// C++ runtime pieces for the symbolic executor (IR only): exceptions, the few
// libc/libstdc++ functions that are not header-only.  Natively the real ones are used.
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <new>
#include <exception>
#include <map>
#include <list>
#include <stdexcept>
#include <typeinfo>
#include <string>
#include <functional>
#include <future>
#include <system_error>
#include <variant>
#include <optional>
#include <any>
#include <chrono>
#include <coroutine>
#include "vf.h"

extern "C" void __vf_raise(void *exc, std::type_info *ti);
// header laid out in front of the exception object:  -64 typeinfo, -56 adjusted
// pointer (written by the executor), -48 destructor, -40 refcount, -32 handlers,
// -24 next caught, -16 primary header of a dependent exception, -8 the object
struct Hdr {
    std::type_info *ti; void *adjusted; void (*dtor)(void *); int64_t ref; int64_t handlers; Hdr *next; Hdr *primary; void *object;
};
static_assert(sizeof(Hdr) == 64);
static Hdr *caught = nullptr;
static int uncaughtCount = 0;
static inline Hdr *H(void *p) { return reinterpret_cast<Hdr *>(static_cast<char *>(p) - 64); }
static inline void *O(Hdr *h) { return reinterpret_cast<char *>(h) + 64; }
static void release(Hdr *h) {
    if (--h->ref == 0) {
        if (h->primary) release(h->primary);
        else if (h->dtor) h->dtor(O(h));
        ::free(h);
    }
}
extern "C" {
void *__cxa_allocate_exception(size_t n) noexcept {
    Hdr *h = static_cast<Hdr *>(::malloc(n + 64));
    memset(static_cast<void *>(h), 0, 64);
    return O(h);
}
void __cxa_free_exception(void *p) noexcept { ::free(H(p)); }
void __cxa_throw(void *p, void *ti, void (*dtor)(void *)) {
    Hdr *h = H(p);
    h->ti = static_cast<std::type_info *>(ti); h->dtor = dtor; h->ref = 1; h->handlers = 0; h->adjusted = p; h->object = p;
    uncaughtCount++;
    __vf_raise(p, h->ti);
    std::terminate();
}
// the exception object of std::make_exception_ptr: exception_ptr(void *) takes the first reference
void *model_init_exc(void *, std::type_info *, void (*)(void *)) noexcept __asm__("__cxa_init_primary_exception");
void *model_init_exc(void *p, std::type_info *ti, void (*dtor)(void *)) noexcept {
    Hdr *h = H(p);
    h->ti = ti; h->dtor = dtor; h->ref = 0; h->handlers = 0; h->adjusted = p; h->object = p;
    return p;
}
void *__cxa_get_exception_ptr(void *p) noexcept { return H(p)->adjusted; }
void *__cxa_begin_catch(void *p) noexcept {
    Hdr *h = H(p);
    h->handlers = h->handlers < 0 ? -h->handlers + 1 : h->handlers + 1;
    uncaughtCount--;
    if (caught != h) { h->next = caught; caught = h; }
    return h->adjusted;
}
void __cxa_end_catch() {
    Hdr *h = caught;
    if (!h) return;
    if (h->handlers < 0) {
        if (++h->handlers == 0) caught = h->next; // being rethrown: keep alive
    } else if (--h->handlers == 0) {
        caught = h->next;
        release(h);
    }
}
void __cxa_rethrow() {
    Hdr *h = caught;
    if (!h) std::terminate();
    h->handlers = -h->handlers;
    uncaughtCount++;
    __vf_raise(O(h), h->ti);
    std::terminate();
}
void __clang_call_terminate(void *) noexcept { std::terminate(); }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_bad_typeid() { throw std::bad_typeid(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
std::type_info *__cxa_current_exception_type() noexcept { return caught ? caught->ti : nullptr; }
}
namespace std {
namespace __exception_ptr {
exception_ptr::exception_ptr(void *p) noexcept : _M_exception_object(p) { if (p) _M_addref(); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) H(_M_exception_object)->ref++; }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { release(H(_M_exception_object)); _M_exception_object = nullptr; } }
void *exception_ptr::_M_get() const noexcept { return _M_exception_object; }
const type_info *exception_ptr::__cxa_exception_type() const noexcept { return H(_M_exception_object)->ti; }
}
exception_ptr current_exception() noexcept {
    if (!caught) return exception_ptr();
    Hdr *h = caught->primary ? caught->primary : caught;
    exception_ptr r;
    h->ref++;
    *reinterpret_cast<void **>(&r) = O(h); // no public constructor from void*
    return r;
}
// As in libstdc++: a dependent exception that shares the object is raised.
void rethrow_exception(exception_ptr e) {
    void *p = *reinterpret_cast<void **>(&e);
    Hdr *h = H(p);
    h->ref++;
    Hdr *d = static_cast<Hdr *>(::malloc(64));
    memset(static_cast<void *>(d), 0, 64);
    d->ti = h->ti; d->ref = 1; d->primary = h; d->object = p; d->adjusted = p;
    uncaughtCount++;
    __vf_raise(O(d), d->ti);
    std::terminate();
}
int uncaught_exceptions() noexcept { return uncaughtCount; }
bool uncaught_exception() noexcept { return uncaughtCount > 0; }

namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *const a, _List_node_base *const b) noexcept {
    if (this == b) return;
    _List_node_base *const before = _M_prev, *const last = b->_M_prev;
    b->_M_prev = a->_M_prev; a->_M_prev->_M_next = b;
    last->_M_next = this; _M_prev = last;
    before->_M_next = a; a->_M_prev = before;
}
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
    _List_node_base t;
    t._M_next = t._M_prev = &t;
    if (x._M_next != &x) t._M_transfer(x._M_next, &x);
    if (y._M_next != &y) x._M_transfer(y._M_next, &y);
    if (t._M_next != &t) y._M_transfer(t._M_next, &t);
}
void _List_node_base::_M_reverse() noexcept { _List_node_base *n = this; do { _List_node_base *const t = n->_M_next; n->_M_next = n->_M_prev; n->_M_prev = t; n = t; } while (n != this); }
}
// Ordered containers: a search tree without rebalancing behaves the same.
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept {
    if (x->_M_color == _S_red) return x->_M_right; // only the header is red
    if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}

exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info *, void **, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info *, void **) const { return false; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }

// logic_error / runtime_error hold a __cow_string (one pointer); keep a malloc'ed copy in it
static char *dup(const char *s) { size_t n = strlen(s); char *p = static_cast<char *>(::malloc(n + 1)); memcpy(p, s, n + 1); return p; }
__cow_string::__cow_string() : _M_p(dup("")) {}
__cow_string::__cow_string(const std::string &s) : _M_p(dup(s.c_str())) {}
__cow_string::__cow_string(const char *s, size_t) : _M_p(dup(s)) {}
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(dup(o._M_p)) {}
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(o._M_p) { o._M_p = dup(""); }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { const char *n = dup(o._M_p); ::free((void *)_M_p); _M_p = n; return *this; }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { const char *t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
__cow_string::~__cow_string() { ::free((void *)_M_p); }
#define DEF_ERR(E) \
    E::E(const string &s) : _M_msg(s) {} \
    E::E(const char *s) : _M_msg(s, 0) {} \
    E::E(const E &o) noexcept : exception(o), _M_msg(o._M_msg) {} \
    E &E::operator=(const E &o) noexcept { _M_msg = o._M_msg; return *this; } \
    E::~E() noexcept {} \
    const char *E::what() const noexcept { return _M_msg._M_p; }
DEF_ERR(logic_error)
DEF_ERR(runtime_error)
runtime_error::runtime_error(runtime_error &&o) noexcept : exception(o), _M_msg(std::move(o._M_msg)) {}
runtime_error &runtime_error::operator=(runtime_error &&o) noexcept { _M_msg = std::move(o._M_msg); return *this; }
logic_error::logic_error(logic_error &&o) noexcept : exception(o), _M_msg(std::move(o._M_msg)) {}
logic_error &logic_error::operator=(logic_error &&o) noexcept { _M_msg = std::move(o._M_msg); return *this; }
#define DEF_SUB(E, B) E::E(const string &s) : B(s) {} E::E(const char *s) : B(s) {} E::~E() noexcept {}
DEF_SUB(invalid_argument, logic_error)
DEF_SUB(out_of_range, logic_error)
DEF_SUB(length_error, logic_error)
DEF_SUB(domain_error, logic_error)
DEF_SUB(range_error, runtime_error)
DEF_SUB(overflow_error, runtime_error)
DEF_SUB(underflow_error, runtime_error)

void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_optional_access_() { throw bad_optional_access(); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
const std::nothrow_t nothrow = std::nothrow_t{};
template class basic_string<char>;
}
extern "C" {
const void *model_memchr(const void *, int, size_t) noexcept __asm__("memchr");
const void *model_memchr(const void *p, int c, size_t n) noexcept {
    const unsigned char *b = static_cast<const unsigned char *>(p);
    for (size_t i = 0; i < n; i++) if (b[i] == (unsigned char)c) return b + i;
    return nullptr;
}
const char *model_strchr(const char *, int) noexcept __asm__("strchr");
const char *model_strchr(const char *s, int c) noexcept { for (;; s++) { if (*s == char(c)) return s; if (!*s) return nullptr; } }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { ++a; ++b; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; --n, ++a, ++b) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
void __glibcxx_assert_fail_() {}
void __assert_fail(const char *e, const char *, unsigned, const char *) noexcept { vf_fail_(e); }
}
namespace std { void __glibcxx_assert_fail(const char *, int, const char *, const char *c) noexcept { vf_fail_(c ? c : "libstdc++ assertion"); } }

// Q_ASSERT, for the checks that do without the model of QtCore
__attribute__((weak)) void qt_assert(const char *what, const char *, int) noexcept { vf_fail_(what); }
__attribute__((weak)) void qt_assert_x(const char *, const char *what, const char *, int) noexcept { vf_fail_(what); }
