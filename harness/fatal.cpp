// Fatal entries, failed checks, fatal signals, the pre-fatal hook, and signal handler bookkeeping.
#include "h.h"
#include <map>
#include <cstring>
#ifndef N
#define N 1
#endif
#ifndef CALL
#define CALL 0
#endif
#ifndef SINKS
#define SINKS 1
#endif
static const int sigs[] = {SIGABRT, SIGFPE, SIGILL, SIGSEGV, SIGTERM};
static const char* names[] = {"SIGABRT", "SIGFPE", "SIGILL", "SIGSEGV", "SIGTERM"};
static std::vector<Rec> got[2]; static std::vector<std::string> mine, other; static std::string ftext, fexpr; static int fvalue, fsig; static int forgn; static int app_calls, app_sig, deaths;
static std::vector<std::string> heads;   // for signals: what the entry has to name
static void app_handler(int s, siginfo_t* i, void*) { if (!i || i->si_signo != s) sym_fail("siginfo", "the handler of the application gets no signal information"); ++app_calls; app_sig = s; }
static std::string lab(char c, int i, const char* n) { return c + std::to_string(i) + symstr(1, n); }
// what every sink must have processed when the process goes down
static void complete(int nsinks) {
   for (int s = 0; s < nsinks; ++s) {
      auto& g = got[s]; sym_assert(g.size() >= mine.size() + 1, "a sink has processed the earlier entries and the fatal one before the process exits");
      size_t ia = 0, ib = 0;
      for (size_t i = 0; i + 1 < g.size(); ++i) {
         if (g[i].level == "INFO") { sym_assert(ia < mine.size() && eq(g[i].text, mine[ia]), "earlier entries of the thread, in order, once"); ++ia; }
         else { sym_assert(g[i].level == "WARNING" && ib < other.size() && eq(g[i].text, other[ib]), "entries of the other thread, in order, once"); ++ib; }
      }
      sym_assert(ia == mine.size(), "no earlier entry is missing");
      const Rec& f = g.back(); sym_assert(f.fatal && f.value == fvalue, "the last entry is the fatal one");
      if (fvalue < 2001) { sym_assert(starts(f.text, ftext), "the fatal entry has its text"); sym_assert(f.file == "fatal.cpp", "and its location"); }
      for (auto& h : heads) sym_assert(has(f.text, h), "the entry names the signal, its number and the process");
      sym_assert(has(f.text, "stack dump [1]"), "and a stack trace"); if (!fexpr.empty()) sym_assert(f.expr == fexpr, "and the expression that failed");
   }
}
static void app_plain(int s) { ++app_calls; app_sig = s; }
// what the application had installed for the signal: nothing, a handler with and one without signal information, or to ignore it
static void* own_handler() { return forgn == 1 ? (void*)&app_handler : forgn == 2 ? (void*)&app_plain : (void*)SIG_IGN; }
static void install_own() { if (forgn == 1) env_set_handler(fsig, (void*)&app_handler); else { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = forgn == 2 ? &app_plain : SIG_IGN; a.sa_flags = SA_RESTART; sigaction(fsig, &a, nullptr); } }
static void restored() { for (int s : sigs) sym_assert(env_handler(s) == (forgn && s == fsig ? own_handler() : nullptr), "the original handling is restored before the process exits"); if (forgn) sym_assert(forgn == 1 ? (env_flags(fsig) & SA_SIGINFO) != 0 : env_flags(fsig) == SA_RESTART, "as the application asked"); }
static void on_death(int sig) { ++deaths; sym_assert(sig == fsig, "the process dies by the signal of the fatal event"); complete(SINKS); sym_assert(!forgn, "an own handler of the application is called instead"); restored(); sym_reach("died"); sym_reach("done"); }
// the thread that starts the logger may have signals blocked, and what it starts then has them blocked too
#ifdef KINDS
#define MASKED bool masked = sym_choice(2, "masked"); if (masked) env_block(fsig, 1);
#define UNMASKED if (masked) env_block(fsig, 0);
#else
#define MASKED
#define UNMASKED
#endif
// ---- fatal entries of every kind
static bool bare = false;   // without the number: the text may be empty
static void fatal_of(unsigned kind, const std::string& t, int x) {
   std::string n = bare ? std::string() : std::to_string(x);
   switch (kind) {
      case 0: LOG(FATAL) << t << n; break;
      case 1: CHECK(x == 1000) << t << n; break;
      case 2: LOGF(FATAL, "%s%s", t.c_str(), n.c_str()); break;
      case 3: CHECKF(x == 1000, "%s%s", t.c_str(), n.c_str()); break;
      case 4: LOG_IF(FATAL, x != 1000) << t << n; break;
      default: { LEVELS own(1500, "OWN"); LOG(own) << t << n; }
   }
}
extern "C" void h_fatal() {
#ifdef KINDS
   NoSched quiet; unsigned kind = sym_choice(6, "kind"); int x = symint("x"); sym_assume(x > -10 && x < 100); ftext = symstr_upto(2, "t"); bare = sym_choice(2, "bare"); if (!bare) ftext += std::to_string(x);
#else
   unsigned kind = 0; int x = 7; ftext = symstr(1, "t"); ftext += "7";
#endif
   std::string t = bare ? ftext : ftext.substr(0, ftext.size() - std::to_string(x).size());
   fvalue = kind == 0 || kind == 2 || kind == 4 ? 1000 : kind == 5 ? 1500 : 2000; fsig = SIGABRT; if (kind == 1 || kind == 3) fexpr = "x == 1000"; env_death_hook = on_death;
   for (int i = 0; i < N; ++i) mine.push_back(lab('A', i, "a"));
   other.push_back(lab('B', 0, "b"));
   {
      MASKED auto w = g3::LogWorker::createLogWorker(); UNMASKED for (int s = 0; s < SINKS; ++s) w->addSink(std::make_unique<Sink>(&got[s]), &Sink::receive); g3::initializeLogging(w.get());
#ifdef SECOND
      std::thread o([&] { LOG(WARNING) << other[0]; });
#endif
      for (auto& m : mine) LOG(INFO) << m;
      fatal_of(kind, t, x);
      sym_fail("returned", "execution continued after a fatal entry");
#ifdef SECOND
      o.join();
#endif
   }
}
// somebody holds on to the sink, for good or for the moment of a call through its handle, when the fatal entry arrives
struct Held : Sink { using Sink::Sink; void nothing() {} };
extern "C" void h_fatal_held() {
   bool call = CALL;
#ifdef KIND
   unsigned kind = KIND;
#else
   unsigned kind = sym_choice(3, "kind");
#endif
   ftext = "F" + symstr(1, "t"); fvalue = kind == 2 ? 2001 : kind == 1 ? 2000 : 1000; fsig = kind == 2 ? SIGSEGV : SIGABRT; env_death_hook = on_death;
   for (int i = 0; i < N; ++i) mine.push_back(lab('A', i, "a"));
   auto w = g3::LogWorker::createLogWorker(); auto h = w->addSink(std::make_unique<Held>(&got[0]), &Held::receive); std::shared_ptr<g3::internal::Sink<Held>> held; std::thread t; auto* hp = h.get();
   if (call) t = std::thread([hp] { hp->call(&Held::nothing); }); else held = h->sink().lock();
   g3::initializeLogging(w.get());
   for (auto& m : mine) LOG(INFO) << m;
   if (kind == 0) LOG(FATAL) << ftext; else if (kind == 1) CHECK(ftext.empty()) << ftext; else raise(SIGSEGV);
   sym_fail("returned", "execution continued after a fatal event");
}
// two threads with a fatal entry at the same time: the process dies only after a complete delivery
static std::string ft2[2];
extern "C" void h_two_fatal() {
   fsig = SIGABRT; ft2[0] = lab('P', 0, "p"); ft2[1] = lab('Q', 0, "q"); for (int i = 0; i < N; ++i) mine.push_back(lab('A', i, "a"));
   env_death_hook = [](int sig) {
      sym_assert(sig == SIGABRT, "signal"); sym_assert(got[0].size() >= 1 && got[0].back().fatal, "a fatal entry has been processed by the sink when the process exits"); const Rec& f = got[0].back(); bool first = f.text[0] == 'P';
      sym_assert(starts(f.text, ft2[first ? 0 : 1]), "it is one of the two"); size_t ia = 0; for (auto& r : got[0]) if (r.level == "INFO") { sym_assert(ia < mine.size() && eq(r.text, mine[ia]), "earlier entries"); ++ia; }
      sym_assert(!first || ia == mine.size(), "after all earlier entries of its thread"); sym_assert(got[0].size() == ia + 1, "and only one fatal entry"); sym_reach(first ? "first" : "second"); sym_reach("done"); };
   auto w = g3::LogWorker::createLogWorker(); w->addSink(std::make_unique<Sink>(&got[0]), &Sink::receive); g3::initializeLogging(w.get());
   std::thread o([&] { LOG(FATAL) << ft2[1]; sym_fail("returned", "execution continued after a fatal entry"); });
   for (auto& m : mine) LOG(INFO) << m;
   LOG(FATAL) << ft2[0]; sym_fail("returned", "execution continued after a fatal entry"); o.join();
}
// ---- fatal signals
extern "C" void h_signal() {
#ifdef KINDS
   NoSched quiet; unsigned k = sym_choice(5, "sig"); forgn = sym_choice(4, "own");
#else
   unsigned k = 3;
#endif
   fsig = sigs[k]; fvalue = 2001; env_death_hook = on_death; heads = {names[k], std::to_string(fsig), "4242"};
   for (int i = 0; i < N; ++i) mine.push_back(lab('A', i, "a"));
   other.push_back(lab('B', 0, "b"));
   if (forgn) { install_own(); env_exit_hook = [](int) { sym_assert(forgn == 3 ? app_calls == 0 : app_calls == 1 && app_sig == fsig, "the handler the application had installed gets the signal, once"); complete(SINKS); restored(); sym_reach("own"); sym_reach("done"); }; }
   {
      MASKED auto w = g3::LogWorker::createLogWorker(); UNMASKED for (int s = 0; s < SINKS; ++s) w->addSink(std::make_unique<Sink>(&got[s]), &Sink::receive); g3::initializeLogging(w.get());
#ifdef SECOND
      std::thread o([&] { LOG(WARNING) << other[0]; });
#endif
      for (auto& m : mine) LOG(INFO) << m;
      raise(fsig);
      if (!forgn) sym_fail("returned", "execution continued after a fatal signal");
      for (;;) std::this_thread::sleep_for(std::chrono::seconds(1));
   }
}
// ---- several fatal signals at once
static int in_sig[2];
extern "C" void h_two_signals() {
   fvalue = 2001; in_sig[0] = SIGSEGV; in_sig[1] = sym_choice(2, "same") ? SIGSEGV : SIGFPE; mine.push_back(lab('A', 0, "a"));
   env_death_hook = [](int sig) {
      ++deaths; sym_assert(deaths == 1, "the process exits once"); sym_assert(sig == in_sig[0] || sig == in_sig[1], "by one of the signals"); int fatals = 0; for (auto& r : got[0]) if (r.fatal) { ++fatals; sym_assert(r.value == 2001 && has(r.text, sig == SIGSEGV ? "SIGSEGV" : "SIGFPE"), "the entry is that of the signal the process dies by"); }
      sym_assert(fatals == 1, "exactly one fatal entry"); sym_assert(got[0].back().fatal, "and it is the last"); sym_assert(!has(got[0].back().text, "recursive crash"), "which is not called a recursive crash"); if (sig == SIGSEGV && in_sig[1] != SIGSEGV) sym_assert(got[0].size() == 2 && eq(got[0][0].text, mine[0]), "after the thread's earlier entries"); sym_reach(sig == SIGSEGV ? "first" : "second"); if (in_sig[1] == SIGSEGV) sym_reach("same"); sym_reach("done"); };
   auto w = g3::LogWorker::createLogWorker(); w->addSink(std::make_unique<Sink>(&got[0]), &Sink::receive); g3::initializeLogging(w.get());
   std::thread o([&] { raise(in_sig[1]); sym_fail("returned", "a signalled thread ran on"); });
   LOG(INFO) << mine[0];
   raise(SIGSEGV); sym_fail("returned", "a signalled thread ran on"); o.join();
}
// a fatal entry in one thread, a fatal signal in another
extern "C" void h_fatal_and_signal() {
   ftext = lab('F', 0, "f");
   env_death_hook = [](int sig) {
      int fatals = 0; for (auto& r : got[0]) if (r.fatal) ++fatals; sym_assert(fatals == 1 && got[0].back().fatal, "exactly one fatal entry has been processed when the process exits, and nothing after it");
      sym_assert(got[0].back().value == 2001 ? sig == SIGSEGV && has(got[0].back().text, "SIGSEGV") : sig == SIGABRT && starts(got[0].back().text, ftext), "the process dies by the signal of the delivered entry"); sym_reach(sig == SIGSEGV ? "signal" : "entry"); sym_reach("done"); };
   auto w = g3::LogWorker::createLogWorker(); w->addSink(std::make_unique<Sink>(&got[0]), &Sink::receive); g3::initializeLogging(w.get());
   std::thread o([&] { raise(SIGSEGV); sym_fail("returned", "a signalled thread ran on"); });
   LOG(FATAL) << ftext; sym_fail("returned", "execution continued after a fatal entry"); o.join();
}
// ---- the hook
static int hooks; static bool hook_before; static unsigned hk;
static int traces; static int two_traces(char*** o) { static char l0[] = "./a(top+0x1) [0x1]", l1[] = "./a(outertrace+0x1) [0x1]", l2[] = "./a(innertrace+0x1) [0x1]"; *o = (char**)malloc(2 * sizeof(char*)); (*o)[0] = l0; (*o)[1] = traces++ ? l2 : l1; return 2; }
extern "C" void h_hook() {
   NoSched quiet; hk = sym_choice(3, "kind"); fsig = SIGABRT; std::string t = symstr(1, "t"); env_backtrace_n = 2; env_bt_hook = two_traces; ftext = "F" + t; hook_before = true; mine.push_back("A" + t);
   env_death_hook = [](int) {
      sym_assert(hooks == 1, "the hook ran exactly once"); sym_assert(hook_before, "before the fatal entry was delivered"); sym_assert(got[0].size() == 2 && eq(got[0][0].text, mine[0]) && got[0][1].fatal, "one fatal entry after the earlier ones"); auto& f = got[0].back();
      if (hk == 1) { sym_assert(starts(f.text, "inner"), "the entry of the recursive fatal event"); sym_assert(has(f.text, "ecursive crash") && has(f.text, "irst crash stacktrace"), "the recursion is pointed out"); sym_assert(count_of(f.text, "stack dump [1]") == 2 && has(f.text, "outertrace") && has(f.text, "innertrace"), "both stack traces are shown"); sym_reach("recursive"); }
      else { sym_assert(starts(f.text, ftext), "the fatal entry"); sym_assert(!has(f.text, "ecursive"), "no recursion is claimed"); sym_reach(hk ? "logs" : "plain"); }
      sym_reach("done"); };
   auto w = g3::LogWorker::createLogWorker(); w->addSink(std::make_unique<Sink>(&got[0]), &Sink::receive); g3::initializeLogging(w.get());
   g3::setFatalPreLoggingHook([] { ++hooks; for (auto& r : got[0]) if (r.fatal) hook_before = false; if (hk == 1) LOG(FATAL) << "inner"; });
   LOG(INFO) << mine[0];
   if (hk == 2) CHECK(t == "") << ftext; else LOG(FATAL) << ftext;
   sym_fail("returned", "execution continued after a fatal entry");
}
static std::atomic<int> ahooks;
extern "C" void h_hook_race() {
   env_death_hook = [](int) { sym_assert(ahooks <= 1, "the hook runs only once although two threads have fatal events"); int f = 0; for (auto& r : got[0]) if (r.fatal) ++f; sym_assert(f == 1, "one fatal entry"); sym_reach("done"); };
   auto w = g3::LogWorker::createLogWorker(); w->addSink(std::make_unique<Sink>(&got[0]), &Sink::receive); g3::initializeLogging(w.get());
   g3::setFatalPreLoggingHook([] { ++ahooks; });
   std::thread o([&] { LOG(FATAL) << "o"; });
   LOG(FATAL) << "m"; sym_fail("returned", "execution continued after a fatal entry"); o.join();
}
// ---- no logger
extern "C" void h_nologger() {
   NoSched quiet; unsigned kind = sym_choice(7, "kind"), when = sym_choice(2, "when"); int x = 7; std::string t = symstr_upto(2, "t"); fsig = SIGABRT; ftext = t + "7"; static unsigned k; k = kind; static unsigned si; si = kind == 6 ? sym_choice(5, "sig") : 0;
   for (char c : t) sym_assume(c != 'S' && c != 'x');
   if (kind == 6) fsig = sigs[si];
   env_death_hook = [](int sig) {
      sym_assert(sig == fsig, "the process dies by the signal of the event"); std::string e = env_stderr(); sym_assert(has(e, names[si]), "the cause is written to standard error");
      if (k < 6) { size_t p = e.find("\"", e.find(k == 1 || k == 3 ? "broken Contract: CHECK(x == 1000)" : k == 5 ? "fatal.cpp->" : "LOG(FATAL) entry")); sym_assert(k == 5 || (p != std::string::npos && eq(e.substr(p + 1, ftext.size()), ftext)), "and so is the message"); }
      sym_assert(got[0].empty(), "nothing is delivered"); restored(); sym_reach("done"); };
   auto w = g3::LogWorker::createLogWorker(); w->addSink(std::make_unique<Sink>(&got[0]), &Sink::receive);
   if (when) { g3::initializeLogging(w.get()); g3::internal::shutDownLogging(); } else if (kind == 6) g3::installCrashHandler();
   if (kind < 6) fatal_of(kind, t, x); else raise(fsig);
   sym_fail("returned", "execution continued after a fatal event");
}
// ---- a replaced handler
static std::vector<Rec> taken; static int taken_sig;
extern "C" void h_replaced() {
   NoSched quiet; bool twice = false; unsigned kind = sym_choice(7, "kind"), k = kind == 6 ? sym_choice(5, "sig") : 0; int x = symint("x"); sym_assume(x > -10 && x < 100); std::string t = symstr_upto(2, "t"); fsig = kind == 6 ? sigs[k] : SIGABRT;
   {
      auto w = g3::LogWorker::createLogWorker(); w->addSink(std::make_unique<Sink>(&got[0]), &Sink::receive); g3::initializeLogging(w.get());
      g3::setFatalExitHandler([](g3::FatalMessagePtr p) { Rec r; auto& m = *p.get(); r.text = m.message(); r.value = m._level.value; r.expr = m.expression(); r.file = m.file(); r.function = m.function(); taken.push_back(r); taken_sig = m._signal_id; });
      LOG(INFO) << t; bare = kind < 6 && sym_choice(2, "bare"); twice = kind < 6 && sym_choice(2, "twice");
      if (kind < 6) fatal_of(kind, t, x); else raise(fsig);
      if (twice) fatal_of(kind, t, x);
      LOG(INFO) << "after";
   }
   sym_assert(taken.size() == (twice ? 2 : 1), "each fatal entry is handed over exactly once"); for (auto& r : taken) {
   sym_assert(r.value == (kind == 6 ? 2001 : kind == 0 || kind == 2 || kind == 4 ? 1000 : kind == 5 ? 1500 : 2000), "level"); sym_assert(taken_sig == fsig, "signal"); if (kind == 1 || kind == 3) sym_assert(r.expr == "x == 1000", "expression");
   if (kind < 6) { sym_assert(starts(r.text, t + (bare ? std::string() : std::to_string(x))), "text"); sym_assert(r.file == "fatal.cpp" && r.function.find("fatal_of") != std::string::npos, "location"); } else sym_assert(has(r.text, names[k]), "signal name");
   sym_assert(has(r.text, "stack dump [1]"), "stack trace"); }
   sym_assert(got[0].size() == 2 && eq(got[0][0].text, t) && got[0][1].text == "after", "the logger gets the ordinary entries only");
   sym_reach("done");
}
// ---- bookkeeping of handlers: every sequence of operations against a reference
static void h1(int, siginfo_t*, void*) {} static void h2(int, siginfo_t*, void*) {}
extern "C" void h_handlers() {
   NoSched quiet; const int S[] = {SIGSEGV, SIGFPE, SIGUSR1, SIGTERM}; const char* nm[] = {"SEGV", "FPE", "USR1", "TERM"}; enum { NS = 4 };
   void* app[NS]; std::map<int, void*> disp, saved; std::map<int, std::string> cur; bool on = false;
   for (int i = 0; i < NS; ++i) { unsigned d = i < 2 ? sym_choice(3, "orig") : 0; app[i] = d == 0 ? nullptr : d == 1 ? (void*)1 : (void*)&h1; if (d) env_set_handler(S[i], app[i]); disp[S[i]] = app[i]; }
   env_set_handler(SIGILL, (void*)&h1); disp[SIGILL] = (void*)&h1; disp[SIGABRT] = nullptr;
   for (int s : sigs) cur[s] = "x";
   void* const ours = (void*)-1;   // the logger's own handler; its address is learnt below
   void* real = nullptr;
   auto install = [&] { for (auto& s : cur) { if (s.first == SIGKILL) continue; if (disp[s.first] != ours) { saved[s.first] = disp[s.first]; disp[s.first] = ours; } } on = true; };
   auto restore = [&](int s) { auto it = saved.find(s); if (it != saved.end()) { disp[s] = it->second; saved.erase(it); } };
#ifdef START
   g3::installCrashHandler(); install(); { int s = S[sym_choice(3, "first")]; g3::restoreSignalHandler(s); restore(s); }
#endif
   for (int k = 0; k < N; ++k) {
      unsigned op = sym_choice(5, "op");
      if (op == 0) { g3::installCrashHandler(); install(); }
      else if (op == 1) { unsigned set = sym_choice(4, "set"); std::map<int, std::string> m; if (set & 1) m[SIGSEGV] = "SEGV"; if (set & 2) m[SIGUSR1] = "USR1"; if (set == 3) m[SIGKILL] = "KILL"; g3::overrideSetupSignals(m); for (auto& s : cur) restore(s.first); cur = m; install(); }
      else if (op == 2) { int s = S[sym_choice(3, "which")]; g3::restoreSignalHandler(s); restore(s); }
      else if (op == 3) { g3::internal::restoreFatalHandlingToDefault(); for (auto& s : cur) restore(s.first); cur.clear(); for (int s : sigs) cur[s] = "x"; install(); }
      else { int i = sym_choice(3, "which"); if (disp[S[i]] == ours) continue; void* h = sym_choice(2, "h") ? (void*)&h2 : nullptr; env_set_handler(S[i], h); disp[S[i]] = h; }
      for (auto& d : disp) {
         void* h = env_handler(d.first);
         if (d.second == ours) { if (!real) real = h; sym_assert(h == real && h != nullptr && h != (void*)1 && h != (void*)&h1 && h != (void*)&h2, "a selected signal is handled by the logger"); }
         else { sym_assert(h == d.second, "every other signal has the handling the application gave it"); if (h && h != (void*)1) sym_assert(env_flags(d.first) & SA_SIGINFO, "and is called as the application asked"); }
      }
   }
   sym_reach("done");
}
