// Modelled environment for the symbolic executor: file system, clock, signals, process exit.
#include "sym.h"
#include <csignal>
#include <cstring>
#include <cstdlib>
#include <unistd.h>
#include <time.h>
#include <ios>
extern "C" {
long long env_clock_ns = 1500000000123456789ll;
long long (*env_clock_hook)(void) = nullptr; int (*env_open_hook)(const char*) = nullptr; void (*env_death_hook)(int) = nullptr; void (*env_exit_hook)(int) = nullptr;
void (*env_raise_hook)(int) = nullptr; int (*env_bt_hook)(char***) = nullptr; void (*env_sleep_hook)(void) = nullptr; int env_backtrace_n = 3; int env_zone = 0; void env_set_zone(int z) { env_zone = z; } int env_no_calendar = 0; void (*env_write_hook)(void) = nullptr;
}
namespace {
struct EnvFile { std::string path, text; };
struct EnvFd { int file; size_t off; bool app; };
EnvFile* env_files[24]; int env_nf = 0; EnvFd env_fds[64]; int env_nfd = 0; std::string* env_err = nullptr;
struct sigaction env_sig[65]; bool env_siginit = false; int env_sigcalls = 0;
struct Off { Off() { __symx_raceoff(1); } ~Off() { __symx_raceoff(0); } };
}
extern "C" int __env_open(const char* p, unsigned long n, int mode) {
  Off o; std::string path(p, n);
  if (path.empty()) return -1;
  if (env_open_hook && !env_open_hook(path.c_str())) return -1;
  int k = -1; for (int i = 0; i < env_nf; i++) if (env_files[i]->path == path) k = i;
  if (k < 0) { if (env_nf >= 24) return -1; k = env_nf; env_files[env_nf++] = new EnvFile{path, ""}; } else if (!(mode & 1)) env_files[k]->text.clear();
  if (env_nfd >= 64) return -1;
  env_fds[env_nfd] = EnvFd{k, 0, (mode & 1) != 0}; return 10 + env_nfd++;
}
extern "C" void __env_write(int fd, const char* p, unsigned long n) {   // each open file has its own position, as the system has it
  Off o; if (fd == 2 || fd == 1) { if (!env_err) env_err = new std::string; if (fd == 2) env_err->append(p, n); return; }
  if (fd < 10 || fd >= 10 + env_nfd || env_fds[fd - 10].file < 0) return;
  EnvFd& f = env_fds[fd - 10]; std::string& t = env_files[f.file]->text; if (f.app) f.off = t.size();
  if (t.size() < f.off) t.append(f.off - t.size(), '\0');
  if (f.off == t.size()) t.append(p, n); else { if (t.size() < f.off + n) t.resize(f.off + n); memcpy(&t[f.off], p, n); }
  f.off += n; if (env_write_hook) env_write_hook();
}
extern "C" void __env_close(int fd) { Off o; if (fd >= 10 && fd < 10 + env_nfd) env_fds[fd - 10].file = -1; }
std::string env_file(const std::string& p) { Off o; for (int i = 0; i < env_nf; i++) if (env_files[i]->path == p) return env_files[i]->text; return ""; }
bool env_exists(const std::string& p) { Off o; for (int i = 0; i < env_nf; i++) if (env_files[i]->path == p) return true; return false; }
int env_nfiles() { Off o; return env_nf; }
std::string env_path(int i) { Off o; return env_files[i]->path; }
std::string env_text(int i) { Off o; return env_files[i]->text; }
std::string env_stderr() { Off o; return env_err ? *env_err : std::string(); }
extern "C" {
ssize_t write(int fd, const void* p, size_t n) { __env_write(fd, (const char*)p, n); return (ssize_t)n; }
int fsync(int) { return 0; }
long long __env_now(void) { if (env_clock_hook) return env_clock_hook(); return env_clock_ns; }
static void siginit() { if (!env_siginit) { env_siginit = true; } }
// signal sets: the first word has one bit per signal, as in the system; each thread has its own mask and its own pending signals
static unsigned long* bits(sigset_t* s) { return (unsigned long*)s; }
static const unsigned long* bits(const sigset_t* s) { return (const unsigned long*)s; }
static unsigned long env_mask[25], env_pend[25];
void __env_inherit(int tid) { Off o; env_mask[tid] = env_mask[__symx_tid()]; env_pend[tid] = 0; }   // a new thread has the mask of the one that starts it
int sigemptyset(sigset_t* s) noexcept { memset(s, 0, sizeof *s); return 0; }
int sigfillset(sigset_t* s) noexcept { memset(s, 255, sizeof *s); return 0; }
int sigaddset(sigset_t* s, int sig) noexcept { if (sig < 1 || sig > 64) { errno = 22; return -1; } *bits(s) |= 1ul << (sig - 1); return 0; }
int sigdelset(sigset_t* s, int sig) noexcept { if (sig < 1 || sig > 64) { errno = 22; return -1; } *bits(s) &= ~(1ul << (sig - 1)); return 0; }
int sigismember(const sigset_t* s, int sig) noexcept { if (sig < 1 || sig > 64) { errno = 22; return -1; } return (*bits(s) >> (sig - 1)) & 1; }
static void env_deliver(int sig);
static void env_deliver_pending() { int me = __symx_tid(); for (int s = 1; s <= 64; ++s) { bool d; { Off o; unsigned long b = 1ul << (s - 1); d = (env_pend[me] & b) && !(env_mask[me] & b); if (d) env_pend[me] &= ~b; } if (d) env_deliver(s); } }
int pthread_sigmask(int how, const sigset_t* set, sigset_t* old) noexcept {
  { Off o; int me = __symx_tid(); unsigned long m = env_mask[me]; if (old) { memset(old, 0, sizeof *old); *bits(old) = m; }
    if (!set) return 0; unsigned long n = *bits(set); m = how == SIG_BLOCK ? m | n : how == SIG_UNBLOCK ? m & ~n : n; m &= ~((1ul << 8) | (1ul << 18)); env_mask[me] = m; }
  env_deliver_pending(); return 0;
}
int sigprocmask(int how, const sigset_t* set, sigset_t* old) noexcept { return pthread_sigmask(how, set, old); }
int sigaction(int sig, const struct sigaction* act, struct sigaction* old) noexcept {
  Off o; siginit(); if (sig <= 0 || sig > 64 || sig == 9 || sig == 19) { errno = 22; return -1; } env_sigcalls++;
  struct sigaction prev = env_sig[sig]; if (act) env_sig[sig] = *act; if (old) *old = prev; return 0;
}
__sighandler_t signal(int sig, __sighandler_t h) noexcept { Off o; auto p = env_sig[sig].sa_handler; memset(&env_sig[sig], 0, sizeof env_sig[sig]); env_sig[sig].sa_handler = h; return p; }
void* env_handler(int sig) { Off o; return (void*)env_sig[sig].sa_handler; }
void env_set_handler(int sig, void* h) { Off o; memset(&env_sig[sig], 0, sizeof env_sig[sig]); env_sig[sig].sa_handler = (__sighandler_t)h; env_sig[sig].sa_flags = SA_SIGINFO; }
void env_block(int sig, int on) { sigset_t s; sigemptyset(&s); sigaddset(&s, sig); pthread_sigmask(on ? SIG_BLOCK : SIG_UNBLOCK, &s, nullptr); }
int env_flags(int sig) { Off o; return env_sig[sig].sa_flags; }
int env_sigaction_calls(void) { Off o; return env_sigcalls; }
static void env_die(int sig) { if (env_death_hook) env_death_hook(sig); else sym_fail("death", "the process was killed by a signal"); sym_end_path(); }
int raise(int sig) noexcept(true) {
  { Off o; if (env_raise_hook) env_raise_hook(sig); }
  { Off o; int me = __symx_tid(); if (env_mask[me] >> (sig - 1) & 1) { env_pend[me] |= 1ul << (sig - 1); return 0; } }
  env_deliver(sig); return 0;
}
static void env_deliver(int sig) {
  struct sigaction a; { Off o; a = env_sig[sig]; if (a.sa_flags & (int)SA_RESETHAND) memset(&env_sig[sig], 0, sizeof env_sig[sig]); }
  if (a.sa_handler == SIG_IGN) return;
  if (a.sa_handler == SIG_DFL) { env_die(sig); return; }
  siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = sig; unsigned long m; int me = __symx_tid();
  { Off o; m = env_mask[me]; env_mask[me] = m | *bits(&a.sa_mask) | (a.sa_flags & (int)SA_NODEFER ? 0 : 1ul << (sig - 1)); }
  if (a.sa_flags & SA_SIGINFO) a.sa_sigaction(sig, &si, nullptr); else a.sa_handler(sig);
  { Off o; env_mask[me] = m; }
  env_deliver_pending();
}
int kill(pid_t, int sig) noexcept { return raise(sig); }
int pthread_kill(pthread_t, int sig) noexcept { return raise(sig); }
pid_t getpid(void) noexcept { return 4242; }
pid_t gettid(void) noexcept { return 4242 + __symx_tid(); }
void exit(int c) noexcept { if (env_exit_hook) env_exit_hook(c); else sym_fail("exit", "the process called exit()"); sym_end_path(); __builtin_unreachable(); }
void _exit(int c) { if (env_exit_hook) env_exit_hook(c); else sym_fail("exit", "the process called exit()"); sym_end_path(); __builtin_unreachable(); }
void quick_exit(int c) noexcept { _exit(c); }
void _Exit(int c) noexcept { _exit(c); }
void abort(void) noexcept { env_block(SIGABRT, 0); raise(SIGABRT); env_die(SIGABRT); __builtin_unreachable(); }
int backtrace(void** b, int n) { int k = env_backtrace_n < n ? env_backtrace_n : n; for (int i = 0; i < k; i++) b[i] = (void*)(uintptr_t)(0x400000 + 16 * i); return k; }
char** backtrace_symbols(void* const*, int n) noexcept {
  char** out = nullptr; if (env_bt_hook) { env_bt_hook(&out); return out; }
  static const char line[] = "./app(_ZN4test3fooEv+0x1a) [0x400010]"; char* blk = (char*)malloc(n * (8 + sizeof line)); out = (char**)blk; char* q = blk + 8 * n;
  for (int i = 0; i < n; i++) { out[i] = q; memcpy(q, line, sizeof line); q += sizeof line; } return out;
}
}
