// Native replay driver: feeds a recorded counterexample to a harness linked with the real code.
#include "sym.h"
#include <map>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <mutex>
#include <thread>
#include <atomic>
#ifndef ENTRY
#define ENTRY harness
#endif
extern "C" void ENTRY();
void env_nat_init();
static std::map<std::string, uint64_t> vals; static std::map<std::string, int> cnt; static std::mutex mx; static std::atomic<int> fails{0}; static FILE* out;
static uint64_t next(const std::string& n) { std::lock_guard<std::mutex> l(mx); auto it = vals.find(n + "#" + std::to_string(cnt[n]++)); return it == vals.end() ? 0 : it->second; }
void nat_end() { fprintf(out, fails ? "REPLAY-REPRODUCED\n" : "REPLAY-NOT-REPRODUCED\n"); fflush(out); syscall(SYS_exit_group, fails ? 1 : 0); }
extern "C" {
uint64_t sym_bits(const char* n, unsigned w) { uint64_t v = next(n); return w < 64 ? v & ((1ull << w) - 1) : v; }
void sym_bytes(void* p, size_t n, const char* name) { for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)next(name); }
unsigned sym_choice(unsigned n, const char* name) { uint64_t v = next(name); return v < n ? v : n - 1; }
void sym_assume(bool c) { if (!c) { fprintf(out, "REPLAY: assumption not met\n"); nat_end(); } }
void sym_assert(bool c, const char* m) { if (!c) { fprintf(out, "REPLAY: assertion failed: %s\n", m); fails++; nat_end(); } }
void sym_fail(const char* k, const char* m) { fprintf(out, "REPLAY: %s: %s\n", k, m); fails++; nat_end(); }
void sym_reach(const char*) {} void sym_note(const char* s) { fprintf(out, "note: %s\n", s); } void sym_note_int(const char* s, uint64_t v) { fprintf(out, "note: %s = %lld\n", s, (long long)v); }
uint64_t sym_concretize(uint64_t v) { return v; } int sym_is_symbolic(uint64_t) { return 0; } int sym_must(bool c) { return c; } void sym_end_path(void) { nat_end(); } int __symx_active(void) { return 0; } void __symx_nosched(int) {} void __symx_raceoff(int) {} int __symx_thread_blocked(int) { return 0; } int __symx_tid(void) { return 0; }
}
int main(int argc, char** argv) {
  out = fdopen(dup(1), "w"); setenv("TZ", "UTC", 1);
  if (argc > 1) {   // raw system calls: the library's file functions are intercepted
    std::string t; int fd = open(argv[1], O_RDONLY); char b[4096]; ssize_t n; if (fd < 0) { fprintf(out, "REPLAY: cannot read %s\n", argv[1]); return 3; }
    while ((n = read(fd, b, sizeof b)) > 0) t.append(b, n); close(fd);
    size_t p = 0; while (p < t.size()) { size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size(); std::string l = t.substr(p, e - p); p = e + 1; size_t sp = l.find(' '); if (sp != std::string::npos) vals[l.substr(0, sp)] = strtoull(l.c_str() + sp + 1, 0, 0); }
  }
  env_nat_init();
  std::set_terminate([] { fprintf(out, "REPLAY: std::terminate called\n"); fails++; nat_end(); });
  alarm(60);
  ENTRY();
  nat_end();
}
