// Runtime support for the symbolic executor: the parts of libstdc++/libc that live in shared objects rather than headers.
#include <string>
#include <thread>
#include <future>
#include <mutex>
#include <condition_variable>
#include <shared_mutex>
#include <functional>
#include <map>
#include <list>
#include <memory>
#include <stdexcept>
#include <system_error>
#include <typeinfo>
#include <new>
#include <chrono>
#include <ostream>
#include <istream>
#include <unordered_map>
#include <bits/ostream_insert.h>
#include <cstring>
#include <cstdlib>
#include <cstdarg>
#include <cstdio>
#include <cctype>
#include <ctime>
#include <climits>
#include "sym.h"
extern "C" { int __symx_spawn(void* (*)(void*), void*); void __env_inherit(int); void __symx_join(int); int __symx_once_enter(void*); void __symx_once_leave(void*, int); long long __env_now(void); int __symx_gmtime(long, struct tm*); size_t __symx_strftime(char*, size_t, const char*, const struct tm*); extern char __libc_single_threaded; char __libc_single_threaded = 0; static int env_errno_v; int* __errno_location(void) noexcept { return &env_errno_v; } void* __dso_handle = nullptr; }
template class std::basic_string<char>;
template std::ostream& std::__ostream_insert(std::ostream&, const char*, std::streamsize);
template std::ostream& std::operator<<(std::ostream&, const std::string&);
namespace std {
// ---- exceptions
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
type_info::~type_info() {}
static const char* cowdup(const char* p, size_t n) { char* r = (char*)malloc(n + 1); memcpy(r, p, n); r[n] = 0; return r; }
__cow_string::__cow_string() : _M_p(cowdup("", 0)) {} __cow_string::__cow_string(const std::string& s) : _M_p(cowdup(s.data(), s.size())) {} __cow_string::__cow_string(const char* p, size_t n) : _M_p(cowdup(p, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(cowdup(o._M_p, strlen(o._M_p))) {} __cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = cowdup(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); } __cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(cowdup(o._M_p, strlen(o._M_p))) {} __cow_string& __cow_string::operator=(__cow_string&& o) noexcept { return *this = (const __cow_string&)o; }
logic_error::logic_error(const string& s) : _M_msg(s) {} logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {} logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {} logic_error::logic_error(logic_error&& o) noexcept : _M_msg(o._M_msg) {} logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; } logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; } logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {} runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {} runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {} runtime_error::runtime_error(runtime_error&& o) noexcept : _M_msg(o._M_msg) {} runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; } runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; } runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
domain_error::domain_error(const string& s) : logic_error(s) {} domain_error::domain_error(const char* s) : logic_error(s) {} domain_error::~domain_error() noexcept {}
invalid_argument::invalid_argument(const string& s) : logic_error(s) {} invalid_argument::invalid_argument(const char* s) : logic_error(s) {} invalid_argument::~invalid_argument() noexcept {}
length_error::length_error(const string& s) : logic_error(s) {} length_error::length_error(const char* s) : logic_error(s) {} length_error::~length_error() noexcept {}
out_of_range::out_of_range(const string& s) : logic_error(s) {} out_of_range::out_of_range(const char* s) : logic_error(s) {} out_of_range::~out_of_range() noexcept {}
range_error::range_error(const string& s) : runtime_error(s) {} range_error::range_error(const char* s) : runtime_error(s) {} range_error::~range_error() noexcept {}
overflow_error::overflow_error(const string& s) : runtime_error(s) {} overflow_error::overflow_error(const char* s) : runtime_error(s) {} overflow_error::~overflow_error() noexcept {}
underflow_error::underflow_error(const string& s) : runtime_error(s) {} underflow_error::underflow_error(const char* s) : runtime_error(s) {} underflow_error::~underflow_error() noexcept {}
future_error::~future_error() noexcept {} const char* future_error::what() const noexcept { return logic_error::what(); }
system_error::~system_error() noexcept {}
bad_weak_ptr::~bad_weak_ptr() noexcept {} const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
// ---- error categories
namespace { struct SxCat : error_category { const char* n; SxCat(const char* x) : n(x) {} const char* name() const noexcept override { return n; } string message(int) const override { return string(n); } }; }
error_category::~error_category() noexcept {} error_condition error_category::default_error_condition(int e) const noexcept { return error_condition(e, *this); } bool error_category::equivalent(int e, const error_condition& c) const noexcept { return default_error_condition(e) == c; } bool error_category::equivalent(const error_code& c, int e) const noexcept { return *this == c.category() && c.value() == e; }
static SxCat& mkcat(const char* n, void*& slot) { if (!slot) slot = new SxCat(n); return *(SxCat*)slot; }
static void *env_c1, *env_c2, *env_c3;
namespace _V2 { const error_category& system_category() noexcept { return mkcat("system", env_c1); } const error_category& generic_category() noexcept { return mkcat("generic", env_c2); } }
const error_category& future_category() noexcept { return mkcat("future", env_c3); }
// ---- throw helpers
void __throw_bad_exception() { throw bad_exception(); } void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); } void __throw_bad_cast() { throw bad_cast(); } void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); } void __throw_domain_error(const char* s) { throw domain_error(s); } void __throw_invalid_argument(const char* s) { throw invalid_argument(s); } void __throw_length_error(const char* s) { throw length_error(s); } void __throw_out_of_range(const char* s) { throw out_of_range(s); } void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); } void __throw_runtime_error(const char* s) { throw runtime_error(s); } void __throw_range_error(const char* s) { throw range_error(s); } void __throw_overflow_error(const char* s) { throw overflow_error(s); } void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); } void __throw_future_error(int e) { throw future_error(make_error_code(future_errc(e))); } void __throw_bad_function_call() { throw bad_function_call(); }
// ---- threads
thread::_State::~_State() = default;
static void* sx_tramp(void* p) { thread::_State_ptr s(static_cast<thread::_State*>(p)); s->_M_run(); return nullptr; }
void thread::_M_start_thread(_State_ptr s, void (*)()) { thread::_State* p = s.release(); int id = __symx_spawn(sx_tramp, p); __env_inherit(id); _M_id = thread::id((unsigned long)id + 1); }
void thread::join() { if (_M_id == thread::id()) __throw_system_error(22); __symx_join((int)_M_id._M_thread - 1); _M_id = thread::id(); }
void thread::detach() { if (_M_id == thread::id()) __throw_system_error(22); _M_id = thread::id(); }
unsigned thread::hardware_concurrency() noexcept { return 8; }
condition_variable::condition_variable() noexcept = default; condition_variable::~condition_variable() noexcept = default;
void condition_variable::wait(unique_lock<mutex>& l) { _M_cond.wait(*l.mutex()); } void condition_variable::notify_one() noexcept { _M_cond.notify_one(); } void condition_variable::notify_all() noexcept { _M_cond.notify_all(); }
__thread void* __once_callable; __thread void (*__once_call)(); extern "C" void __once_proxy() { __once_call(); }
__future_base::_Result_base::_Result_base() = default; __future_base::_Result_base::~_Result_base() = default;

namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return time_point(duration(__env_now())); } steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(__env_now())); } } }
// ---- containers
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { auto* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { auto* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { auto* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
// unbalanced search tree: every node is black except the header (which decrement recognises by its red colour)
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base* next = _Rb_tree_increment(z); bool isMin = h._M_left == z, isMax = h._M_right == z; _Rb_tree_node_base* prev = isMin ? nullptr : _Rb_tree_decrement(z);
  auto put = [&](_Rb_tree_node_base* u, _Rb_tree_node_base* v) { if (u->_M_parent == &h) h._M_parent = v; else if (u == u->_M_parent->_M_left) u->_M_parent->_M_left = v; else u->_M_parent->_M_right = v; if (v) v->_M_parent = u->_M_parent; };
  if (!z->_M_left) put(z, z->_M_right); else if (!z->_M_right) put(z, z->_M_left);
  else { auto* y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { put(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } put(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  if (!h._M_parent) { h._M_left = &h; h._M_right = &h; } else { if (isMin) h._M_left = next; if (isMax) h._M_right = prev; }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; } void _List_node_base::_M_unhook() noexcept { auto* n = _M_next; auto* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; auto* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { auto* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t p = 13; while (p < n) p = p * 2 + 1; _M_next_resize = (size_t)p; return p; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > nb || nb < 13) { return {true, _M_next_bkt(ne + ni)}; } return {false, 0}; }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed; const unsigned char* b = (const unsigned char*)p; for (size_t i = 0; i < n; i++) h = h * 31 + b[i]; return h; }
// ---- standard streams
namespace { struct SxFdBuf : streambuf { int fd; SxFdBuf(int f) : fd(f) {} streamsize xsputn(const char* p, streamsize n) override { __env_write(fd, p, n); return n; } }; }
alignas(16) static char env_b1[sizeof(SxFdBuf)], env_b2[sizeof(SxFdBuf)], env_b3[sizeof(SxFdBuf)];
__attribute__((init_priority(101))) ostream cout(new (env_b1) SxFdBuf(1)); __attribute__((init_priority(101))) ostream cerr(new (env_b2) SxFdBuf(2)); __attribute__((init_priority(101))) ostream clog(new (env_b3) SxFdBuf(2)); __attribute__((init_priority(101))) istream cin(nullptr);
void terminate() noexcept { sym_fail("terminate", "std::terminate called"); __builtin_unreachable(); }
bool uncaught_exception() noexcept { return false; }
}
// ---- libc
extern "C" {
int isspace(int c) noexcept { return c == 32 || (c >= 9 && c <= 13); } int isdigit(int c) noexcept { return c >= '0' && c <= '9'; } int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; } int islower(int c) noexcept { return c >= 'a' && c <= 'z'; } int isalpha(int c) noexcept { return isupper(c) || islower(c); } int isalnum(int c) noexcept { return isalpha(c) || isdigit(c); } int isprint(int c) noexcept { return c >= 32 && c < 127; } int iscntrl(int c) noexcept { return (c >= 0 && c < 32) || c == 127; } int ispunct(int c) noexcept { return isprint(c) && c != 32 && !isalnum(c); } int isxdigit(int c) noexcept { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); } int isblank(int c) noexcept { return c == 32 || c == 9; } int isgraph(int c) noexcept { return c > 32 && c < 127; } int toupper(int c) noexcept { return islower(c) ? c - 32 : c; } int tolower(int c) noexcept { return isupper(c) ? c + 32 : c; }
int strcmp(const char* a, const char* b) noexcept { for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char* a, const char* b, size_t n) noexcept { for (; n; a++, b++, n--) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
char* sx_strchr(const char* s, int c) noexcept __asm__("strchr"); char* sx_strchr(const char* s, int c) noexcept { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* sx_strrchr(const char* s, int c) noexcept __asm__("strrchr"); char* sx_strrchr(const char* s, int c) noexcept { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* sx_strstr(const char* h, const char* n) noexcept __asm__("strstr"); char* sx_strstr(const char* h, const char* n) noexcept { size_t k = strlen(n); for (;; h++) { size_t i = 0; while (i < k && h[i] && h[i] == n[i]) i++; if (i == k) return (char*)h; if (!*h) return nullptr; } }
char* strcpy(char* d, const char* s) noexcept { size_t n = strlen(s); memcpy(d, s, n + 1); return d; } char* strncpy(char* d, const char* s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; } char* strcat(char* d, const char* s) noexcept { strcpy(d + strlen(d), s); return d; } char* strdup(const char* s) noexcept { size_t n = strlen(s); char* r = (char*)malloc(n + 1); memcpy(r, s, n + 1); return r; }
long strtol(const char* s, char** e, int base) noexcept { while (isspace(*s)) s++; bool neg = false; if (*s == '-' || *s == '+') neg = *s++ == '-'; long v = 0; if (!base) base = 10; for (;; s++) { int d = isdigit(*s) ? *s - '0' : isalpha(*s) ? tolower(*s) - 'a' + 10 : 99; if (d >= base) break; v = v * base + d; } if (e) *e = (char*)s; return neg ? -v : v; }
unsigned long strtoul(const char* s, char** e, int base) noexcept { return (unsigned long)strtol(s, e, base); } int atoi(const char* s) noexcept { return (int)strtol(s, nullptr, 10); }
int pthread_once(pthread_once_t* o, void (*f)(void)) { if (__symx_once_enter(o)) { try { f(); } catch (...) { __symx_once_leave(o, 0); throw; } __symx_once_leave(o, 1); } return 0; }
struct Fw { char* b; size_t n; size_t k; };
static void fput(Fw& w, char c) { if (w.n && w.k < w.n - 1) w.b[w.k] = c; w.k++; }
static void fpad(Fw& w, const char* s, long n, long width, bool left, char fill) { if (!left) for (long i = n; i < width; i++) fput(w, fill); for (long i = 0; i < n; i++) fput(w, s[i]); if (left) for (long i = n; i < width; i++) fput(w, ' '); }
int __symx_fmt_double(char*, unsigned long, const char*, double);
int vsnprintf(char* b, size_t n, const char* f, va_list ap) noexcept {
  Fw w{b, n, 0};
  for (; *f; f++) {
    if (*f != '%') { fput(w, *f); continue; }
    f++; bool left = false, zero = false, plus = false, space = false, alt = false;
    for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == ' ') space = true; else if (*f == '#') alt = true; else break; }
    long width = 0, prec = -1; if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = true; width = -width; } f++; } else while (isdigit(*f)) width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (isdigit(*f)) prec = prec * 10 + (*f++ - '0'); }
    int len = 0; for (;; f++) { if (*f == 'l') len++; else if (*f == 'z' || *f == 'j' || *f == 't') len = 2; else if (*f == 'h') len--; else if (*f == 'L') len = 5; else break; }
    switch (*f) {
    case '%': fput(w, '%'); break;
    case 'c': { char c = (char)va_arg(ap, int); fpad(w, &c, 1, width, left, ' '); break; }
    case 's': { const char* s = va_arg(ap, const char*); if (!s) s = "(null)"; long l = 0; while ((prec < 0 || l < prec) && s[l]) l++; fpad(w, s, l, width, left, ' '); break; }
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
      unsigned long long v; bool neg = false; bool sg = *f == 'd' || *f == 'i';
      if (*f == 'p') { v = (unsigned long long)va_arg(ap, void*); alt = true; } else if (sg) { long long x = len >= 1 ? (long long)va_arg(ap, long) : (long long)va_arg(ap, int); if (len == -1) x = (short)x; else if (len == -2) x = (signed char)x; neg = x < 0; v = neg ? 0ull - (unsigned long long)x : (unsigned long long)x; } else { v = len >= 1 ? (unsigned long long)va_arg(ap, unsigned long) : (unsigned long long)va_arg(ap, unsigned); if (len == -1) v = (unsigned short)v; else if (len == -2) v = (unsigned char)v; }
      unsigned base = (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : *f == 'o' ? 8 : 10; const char* dg = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef"; char t[96]; int k = 96; unsigned long long u = v; if (!(prec == 0 && v == 0)) do { t[--k] = dg[u % base]; u /= base; } while (u);
      while (prec > 0 && 96 - k < prec && k > 8) t[--k] = '0'; char sgn = neg ? '-' : plus && sg ? '+' : space && sg ? ' ' : 0; int pre = (sgn ? 1 : 0) + (alt && base == 16 && v ? 2 : 0);
      if (zero && !left && prec < 0) while (96 - k + pre < width && k > 4) t[--k] = '0';
      if (alt && base == 16 && v) { t[--k] = *f == 'X' ? 'X' : 'x'; t[--k] = '0'; } if (sgn) t[--k] = sgn; fpad(w, t + k, 96 - k, width, left, ' '); break; }
    case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': case 'a': { double d = va_arg(ap, double); char fm[32]; int i = 0; fm[i++] = '%'; if (left) fm[i++] = '-'; if (zero) fm[i++] = '0'; if (plus) fm[i++] = '+'; if (space) fm[i++] = ' '; if (alt) fm[i++] = '#'; if (width) { if (width >= 100) fm[i++] = '0' + width / 100 % 10; if (width >= 10) fm[i++] = '0' + width / 10 % 10; fm[i++] = '0' + width % 10; } if (prec >= 0) { fm[i++] = '.'; if (prec >= 10) fm[i++] = '0' + prec / 10 % 10; fm[i++] = '0' + prec % 10; } fm[i++] = *f; fm[i] = 0; char t[512]; int r = __symx_fmt_double(t, sizeof t, fm, d); fpad(w, t, r, 0, false, ' '); break; }
    default: fput(w, *f); break;
    }
  }
  if (n) b[w.k < n ? w.k : n - 1] = 0; return (int)w.k;
}
int snprintf(char* b, size_t n, const char* f, ...) noexcept { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char* b, const char* f, ...) noexcept { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1u << 20, f, ap); va_end(ap); return r; }
static void errw(const char* s) { __env_write(2, s, strlen(s)); }
void perror(const char* s) { errw(s); errw(": error\n"); } int puts(const char*) { return 0; } int putchar(int) { return 0; } int fputs(const char* s, FILE*) { errw(s); return 0; } int printf(const char*, ...) { return 0; } int fprintf(FILE*, const char* f, ...) { char b[512]; va_list ap; va_start(ap, f); int r = vsnprintf(b, sizeof b, f, ap); va_end(ap); errw(b); return r; } int fflush(FILE*) { return 0; }
FILE *stderr = nullptr, *stdout = nullptr;
char* strsignal(int s) noexcept { switch (s) { case 6: return (char*)"Aborted"; case 8: return (char*)"Floating point exception"; case 11: return (char*)"Segmentation fault"; case 4: return (char*)"Illegal instruction"; case 15: return (char*)"Terminated"; default: return (char*)"Unknown signal"; } }
char* strerror(int) noexcept { return (char*)"error"; }
time_t time(time_t* t) noexcept { long long n = __env_now(); time_t r = n / 1000000000; if (t) *t = r; return r; }
struct tm* gmtime_r(const time_t* t, struct tm* o) noexcept {
  // broken-down UTC time; proleptic Gregorian, arithmetic only so that it works on symbolic times too
  int64_t s = *t; if (env_no_calendar) { __symx_gmtime(0, o); return o; } if (!sym_is_symbolic((uint64_t)s)) { __symx_gmtime(s, o); return o; }
  int64_t days = s / 86400, rem = s % 86400; if (rem < 0) { rem += 86400; days--; }
  o->tm_hour = (int)(rem / 3600); o->tm_min = (int)(rem / 60 % 60); o->tm_sec = (int)(rem % 60); int64_t wd = (days + 4) % 7; o->tm_wday = (int)(wd < 0 ? wd + 7 : wd);
  int64_t z = days + 719468; int64_t era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = (unsigned)(z - era * 146097); unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; int64_t y = (int64_t)yoe + era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100); unsigned mp = (5 * doy + 2) / 153; unsigned d = doy - (153 * mp + 2) / 5 + 1; unsigned m = mp < 10 ? mp + 3 : mp - 9; if (m <= 2) y++;
  o->tm_year = (int)(y - 1900); o->tm_mon = (int)m - 1; o->tm_mday = (int)d; bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; static const short cum[12] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334}; o->tm_yday = cum[o->tm_mon] + (int)d - 1 + (leap && m > 2 ? 1 : 0); o->tm_isdst = 0; o->tm_gmtoff = 0; o->tm_zone = "UTC"; return o;
}
extern int env_zone;
struct tm* localtime_r(const time_t* t, struct tm* o) noexcept {
  static const int offs[] = {0, 19800, -12600, 3600}; static const char* const names[] = {"UTC", "IST", "NST", "CET"}; int z = env_zone, dst = z == 3 && *t >= 1238288400 && *t < 1256432400; long off = offs[z] + (dst ? 3600 : 0); time_t l = *t + off;
  gmtime_r(&l, o); o->tm_isdst = dst; o->tm_gmtoff = off; o->tm_zone = dst ? "CEST" : names[z]; return o;
}
static struct tm libc_static_tm;
struct tm* gmtime(const time_t* t) noexcept { struct tm r; gmtime_r(t, &r); libc_static_tm = r; return &libc_static_tm; }   // shared static result, as in libc: calls from two threads race
struct tm* localtime(const time_t* t) noexcept { struct tm r; localtime_r(t, &r); libc_static_tm = r; return &libc_static_tm; }
static const char* dayn[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"}; static const char* monn[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
static bool sput(char*& q, char* e, char c) { if (q >= e) return false; *q++ = c; return true; }
static bool snum(char*& q, char* e, long v, int wd, char pad) { char t[24]; int k = 24; bool neg = v < 0; unsigned long u = neg ? -v : v; for (int i = 0; i < wd; i++) { t[--k] = (char)('0' + u % 10); u /= 10; } while (u) { t[--k] = (char)('0' + u % 10); u /= 10; } if (pad != '0') for (int i = k; i < 23 && t[i] == '0'; i++) t[i] = pad; if (neg) t[--k] = '-'; for (; k < 24; k++) if (!sput(q, e, t[k])) return false; return true; }
size_t strftime(char* b, size_t n, const char* f, const struct tm* t) noexcept {
  if (!n) return 0; char* q = b; char* e = b + n - 1; bool ok = true;
  for (; *f && ok; f++) {
    if (*f != '%') { ok = sput(q, e, *f); continue; }
    f++; while (*f == 'E' || *f == 'O') f++;
    auto str = [&](const char* s, int k) { for (int i = 0; s[i] && i < k && ok; i++) ok = sput(q, e, s[i]); };
    switch (*f) {
    case 'Y': ok = snum(q, e, t->tm_year + 1900l, 4, '0'); break; case 'y': ok = snum(q, e, ((t->tm_year % 100) + 100) % 100, 2, '0'); break; case 'm': ok = snum(q, e, t->tm_mon + 1, 2, '0'); break; case 'd': ok = snum(q, e, t->tm_mday, 2, '0'); break; case 'e': ok = snum(q, e, t->tm_mday, 2, ' '); break;
    case 'H': ok = snum(q, e, t->tm_hour, 2, '0'); break; case 'I': ok = snum(q, e, t->tm_hour % 12 ? t->tm_hour % 12 : 12, 2, '0'); break; case 'M': ok = snum(q, e, t->tm_min, 2, '0'); break; case 'S': ok = snum(q, e, t->tm_sec, 2, '0'); break; case 'j': ok = snum(q, e, t->tm_yday + 1, 3, '0'); break; case 'p': str(t->tm_hour >= 12 ? "PM" : "AM", 2); break;
    case 'a': str(dayn[sym_concretize(t->tm_wday) % 7], 3); break; case 'A': str(dayn[sym_concretize(t->tm_wday) % 7], 99); break; case 'b': case 'h': str(monn[sym_concretize(t->tm_mon) % 12], 3); break; case 'B': str(monn[sym_concretize(t->tm_mon) % 12], 99); break;
    case '%': ok = sput(q, e, '%'); break; case 'n': ok = sput(q, e, '\n'); break; case 't': ok = sput(q, e, '\t'); break;
    case 'F': { char s[64]; size_t k = strftime(s, sizeof s, "%Y-%m-%d", t); s[k] = 0; str(s, 99); break; } case 'D': case 'x': { char s[64]; size_t k = strftime(s, sizeof s, "%m/%d/%y", t); s[k] = 0; str(s, 99); break; } case 'T': case 'X': { char s[64]; size_t k = strftime(s, sizeof s, "%H:%M:%S", t); s[k] = 0; str(s, 99); break; } case 'R': { char s[64]; size_t k = strftime(s, sizeof s, "%H:%M", t); s[k] = 0; str(s, 99); break; } case 'c': { char s[64]; size_t k = strftime(s, sizeof s, "%a %b %e %H:%M:%S %Y", t); s[k] = 0; str(s, 99); break; }
    case 'Z': str(t->tm_zone ? t->tm_zone : "GMT", 9); break; case 'z': { long v = t->tm_gmtoff / 60; ok = sput(q, e, v < 0 ? '-' : '+'); if (v < 0) v = -v; if (ok) ok = snum(q, e, v / 60 * 100 + v % 60, 4, '0'); break; }
    case 0: ok = sput(q, e, '%'); f--; break;
    default: { char s[256]; char ff[3] = {'%', *f, 0}; struct tm c = *t; int* ci = (int*)&c; for (int i = 0; i < 9; i++) ci[i] = (int)sym_concretize((uint64_t)(uint32_t)ci[i]); size_t k = __symx_strftime(s, sizeof s - 1, ff, &c); s[k] = 0; str(s, 255); break; }
    }
  }
  if (!ok) { return 0; } *q = 0; return q - b;
}
}
