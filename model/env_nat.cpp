// Native counterpart of env_sym.cpp, used when a counterexample is replayed against the compiled real code.
// Signals, process exit, backtraces and stderr are intercepted (linker --wrap); files go to a scratch directory; the clock is controlled.
#include "sym.h"
#include <csignal>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <dlfcn.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <chrono>
#include <vector>
#include <mutex>
#include <fstream>
#include <iostream>
#include <sstream>
extern "C" {
long long env_clock_ns = 1500000000123456789ll; int env_no_calendar = 0; void env_set_zone(int z) { static const char* tz[] = {"UTC", "IST-5:30", "NST+3:30", "CET-1CEST,M3.5.0,M10.5.0/3"}; setenv("TZ", tz[z], 1); tzset(); } void (*env_write_hook)(void) = nullptr;
long long (*env_clock_hook)(void) = nullptr; int (*env_open_hook)(const char*) = nullptr; void (*env_death_hook)(int) = nullptr; void (*env_exit_hook)(int) = nullptr;
void (*env_raise_hook)(int) = nullptr; int (*env_bt_hook)(char***) = nullptr; void (*env_sleep_hook)(void) = nullptr; int env_backtrace_n = 3;

}
static std::vector<std::string> paths; static std::recursive_mutex mx;
static std::string root() { static std::string r = getenv("SX_SCRATCH") ? getenv("SX_SCRATCH") : "/nonexistent"; return r; }
static std::string enc(const std::string& p) { std::string r; char b[4]; for (unsigned char c : p) { if (isalnum(c) || c == '.' || c == '-' || c == '_') r += c; else { snprintf(b, 4, "%%%02X", c); r += b; } } return root() + "/" + r.substr(0, 200); }
extern "C" FILE* fopen64(const char* p, const char* m) {
  typedef FILE* (*F)(const char*, const char*); static F real = (F)dlsym(RTLD_NEXT, "fopen64");
  if (!strncmp(p, "/dev/", 5) || !strncmp(p, "/proc/", 6) || !strncmp(p, "/sys/", 5)) return real(p, m);
  if (!strchr(m, 'w') && !strchr(m, 'a') && strncmp(p, root().c_str(), root().size()) == 0) return real(p, m);
  std::lock_guard<std::recursive_mutex> l(mx);
  if (!*p || (env_open_hook && !env_open_hook(p))) return nullptr;
  bool known = false; for (auto& x : paths) if (x == p) known = true; if (!known) paths.push_back(p);
  return real(enc(p).c_str(), m);
}
extern "C" FILE* fopen(const char* p, const char* m) { return fopen64(p, m); }
static std::string slurp(const std::string& f) { FILE* h = ((FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen64"))(f.c_str(), "r"); if (!h) return ""; std::string s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return s; }
std::string env_file(const std::string& p) { return slurp(enc(p)); }
bool env_exists(const std::string& p) { std::lock_guard<std::recursive_mutex> l(mx); for (auto& x : paths) if (x == p) return true; return false; }
int env_nfiles() { std::lock_guard<std::recursive_mutex> l(mx); return paths.size(); }
std::string env_path(int i) { return paths[i]; }
std::string env_text(int i) { return env_file(paths[i]); }
// stderr: std::cerr is redirected into a string buffer; write(2,..) from the library goes there too
static std::string errs; struct EB : std::streambuf { std::streamsize xsputn(const char* p, std::streamsize n) override { std::lock_guard<std::recursive_mutex> l(mx); errs.append(p, n); return n; } int overflow(int c) override { char x = c; xsputn(&x, 1); return c; } };
static EB* eb = nullptr; void env_nat_init() { eb = new EB; std::cerr.rdbuf(eb); std::cerr.unsetf(std::ios::unitbuf); }
std::string env_stderr() { std::lock_guard<std::recursive_mutex> l(mx); return errs; }
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return time_point(duration(env_clock_hook ? env_clock_hook() : env_clock_ns)); } } } }
static struct sigaction tab[65]; static int calls = 0;
void nat_end();
extern "C" {
ssize_t __wrap_write(int fd, const void* p, size_t n) { if (fd == 2 || fd == 1) { std::lock_guard<std::recursive_mutex> l(mx); if (fd == 2) errs.append((const char*)p, n); return n; } return n; }
int __wrap_sigaction(int sig, const struct sigaction* a, struct sigaction* o) { if (sig <= 0 || sig > 64 || sig == 9 || sig == 19) return -1; calls++; struct sigaction p = tab[sig]; if (a) tab[sig] = *a; if (o) *o = p; return 0; }
void* env_handler(int s) { return (void*)tab[s].sa_handler; }
void env_set_handler(int s, void* h) { memset(&tab[s], 0, sizeof tab[s]); tab[s].sa_handler = (__sighandler_t)h; tab[s].sa_flags = SA_SIGINFO; }
int env_flags(int s) { return tab[s].sa_flags; }
int env_sigaction_calls(void) { return calls; }
// masks are those of the real threads; what is pending is kept here
int __real_pthread_sigmask(int how, const sigset_t* set, sigset_t* old);
static thread_local unsigned long pend; static void deliver(int sig);
static bool blocked(int sig) { sigset_t c; sigemptyset(&c); __real_pthread_sigmask(SIG_BLOCK, nullptr, &c); return sigismember(&c, sig) == 1; }
static void deliver_pending() { for (int s = 1; s <= 64; ++s) if ((pend >> (s - 1) & 1) && !blocked(s)) { pend &= ~(1ul << (s - 1)); deliver(s); } }
int __wrap_pthread_sigmask(int how, const sigset_t* set, sigset_t* old) { int r = __real_pthread_sigmask(how, set, old); deliver_pending(); return r; }
int __wrap_sigprocmask(int how, const sigset_t* set, sigset_t* old) { return __wrap_pthread_sigmask(how, set, old); }
void env_block(int sig, int on) { sigset_t s; sigemptyset(&s); sigaddset(&s, sig); __wrap_pthread_sigmask(on ? SIG_BLOCK : SIG_UNBLOCK, &s, nullptr); }
int __wrap_raise(int sig) { if (env_raise_hook) env_raise_hook(sig); if (blocked(sig)) { pend |= 1ul << (sig - 1); return 0; } deliver(sig); return 0; }
int __wrap_kill(pid_t, int sig) { return __wrap_raise(sig); }
int __wrap_pthread_kill(pthread_t, int sig) { return __wrap_raise(sig); }
static void deliver(int sig) {
  struct sigaction a = tab[sig]; if (a.sa_flags & (int)SA_RESETHAND) memset(&tab[sig], 0, sizeof tab[sig]);
  if (a.sa_handler == SIG_IGN) return;
  if (a.sa_handler == SIG_DFL) { if (env_death_hook) env_death_hook(sig); else sym_fail("death", "the process was killed by a signal"); nat_end(); }
  siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = sig; sigset_t m, old; m = a.sa_mask; if (!(a.sa_flags & (int)SA_NODEFER)) sigaddset(&m, sig); __real_pthread_sigmask(SIG_BLOCK, &m, &old);
  if (a.sa_flags & SA_SIGINFO) a.sa_sigaction(sig, &si, nullptr); else a.sa_handler(sig);
  __real_pthread_sigmask(SIG_SETMASK, &old, nullptr); deliver_pending();
}
void __wrap_exit(int c) { if (env_exit_hook) env_exit_hook(c); else sym_fail("exit", "the process called exit()"); nat_end(); __builtin_trap(); }
void __wrap__exit(int c) { __wrap_exit(c); __builtin_trap(); }
void __wrap_abort(void) { env_block(SIGABRT, 0); __wrap_raise(SIGABRT); if (env_death_hook) env_death_hook(SIGABRT); else sym_fail("death", "abort() was called"); nat_end(); __builtin_trap(); }
int __wrap_backtrace(void** b, int n) { int k = env_backtrace_n < n ? env_backtrace_n : n; for (int i = 0; i < k; i++) b[i] = (void*)(uintptr_t)(0x400000 + 16 * i); return k; }
char** __wrap_backtrace_symbols(void* const*, int n) { char** out = nullptr; if (env_bt_hook) { env_bt_hook(&out); return out; } static const char line[] = "./app(_ZN4test3fooEv+0x1a) [0x400010]"; char* blk = (char*)malloc(n * (8 + sizeof line)); out = (char**)blk; char* q = blk + 8 * n; for (int i = 0; i < n; i++) { out[i] = q; memcpy(q, line, sizeof line); q += sizeof line; } return out; }
pid_t __wrap_getpid(void) { return 4242; }
}
