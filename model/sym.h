// Harness API. Under the symbolic executor the sym_* functions are built in; natively (native.cpp) they read a recorded counterexample.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
extern "C" {
uint64_t sym_bits(const char* name, unsigned width);          // fresh input of `width` bits, zero extended
void sym_bytes(void* p, size_t n, const char* name);          // n fresh input bytes
unsigned sym_choice(unsigned n, const char* name);            // fresh choice 0..n-1, one path each
void sym_assume(bool c);
void sym_assert(bool c, const char* msg);
void sym_fail(const char* kind, const char* msg);
void sym_reach(const char* what);                             // vacuity witness
void sym_note(const char* s);
void sym_note_int(const char* s, uint64_t v);
uint64_t sym_concretize(uint64_t v);
int sym_is_symbolic(uint64_t v);
int sym_must(bool c);
void sym_end_path(void);
int __symx_active(void);
void __symx_nosched(int on);      // 1: no preemption inside (used for set-up code that is not under test)
void __symx_raceoff(int on);      // suspend data-race detection for the current thread (environment models)
int __symx_thread_blocked(int id);
int __symx_tid(void);
}
// ---- environment (file system, clock, signals, process exit); implemented by env_sym.cpp / env_nat.cpp
extern "C" {
extern long long env_clock_ns;                 // nanoseconds since the epoch, UTC
extern long long (*env_clock_hook)(void);      // overrides env_clock_ns when set
extern int (*env_open_hook)(const char* path); // 0: opening fails
extern void (*env_death_hook)(int sig);        // the process is killed by signal `sig` (default disposition)
extern void (*env_exit_hook)(int code);        // exit()/_exit() was called
extern void (*env_raise_hook)(int sig);        // raise(sig)/kill was called, before delivery
extern int (*env_bt_hook)(char*** out);        // backtrace_symbols: returns the number of lines; lines malloc'ed in one block
extern void (*env_sleep_hook)(void);
extern void (*env_write_hook)(void);             // after each write to a modelled file (executor only)
extern int env_backtrace_n;
void env_set_zone(int);                         // local time: 0 UTC, 1 five and a half hours ahead, 2 three and a half behind, 3 central Europe with summer time (rules of 2009)
extern int env_no_calendar;                   // gmtime_r/localtime_r give a fixed date (harness whose property does not depend on calendar fields)
void* env_handler(int sig);                    // modelled disposition: handler address (0 default, 1 ignore)
void env_set_handler(int sig, void* h);        // set a foreign handler (SA_SIGINFO style)
void env_block(int sig, int on); int env_flags(int sig);                        // its sa_flags
int env_sigaction_calls(void);
}
std::string env_file(const std::string& path); // content written so far to (and flushed to) the file
bool env_exists(const std::string& path);
int env_nfiles();
std::string env_path(int i);
std::string env_text(int i);
std::string env_stderr();                      // everything written to fd 2 / std::cerr
struct NoSched { NoSched() { __symx_nosched(1); } ~NoSched() { __symx_nosched(0); } };
struct OneSched { OneSched() { __symx_nosched(2); } ~OneSched() { __symx_nosched(0); } };   // one fixed schedule of the background threads
