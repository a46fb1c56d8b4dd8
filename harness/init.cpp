// Starting and stopping: entries before the start, repeated starts, several loggers.
#include "h.h"
#ifndef N
#define N 2
#endif
static std::vector<std::string> got1, got2;
struct Txt { std::vector<std::string>* o; void receive(g3::LogMessageMover m) { o->push_back(m.get().message()); } };
static bool marked(const std::string& s, const std::string& t) { return s.size() > t.size() && starts(s, "LOGGER NOT INITIALIZED") && ends(s, t); }
// ---- entries before the start, one thread
extern "C" void h_early() {
   NoSched quiet; unsigned n = sym_choice(3, "n"), again = sym_choice(2, "again"); std::string e[2] = {"e" + symstr_upto(2, "e"), "f" + symstr(1, "f")}, later = symstr(1, "l");
   for (unsigned i = 0; i < n; ++i) { if (i) LOG(WARNING) << e[i]; else LOGF(INFO, "%s", e[i].c_str()); }
   if (n) sym_assert(has(env_stderr(), "LOGGER NOT INITIALIZED") && count_of(env_stderr(), "LOGGER NOT INITIALIZED") == 1, "the first early entry is reported at once, the others are not");
   {
      auto w = g3::LogWorker::createLogWorker(); w->addSink(std::make_unique<Txt>(Txt{&got1}), &Txt::receive); g3::initializeLogging(w.get()); LOG(INFO) << later;
   }
   sym_assert(got1.size() == (n ? 2u : 1u), "the first early entry is delivered, the others are dropped"); if (n) sym_assert(marked(got1[0], e[0]), "first of all, marked as too early, with its text"); sym_assert(eq(got1.back(), later), "then the ordinary entries");
   if (again) {
      LOG(INFO) << "gap" << later;
      { auto w = g3::LogWorker::createLogWorker(); w->addSink(std::make_unique<Txt>(Txt{&got2}), &Txt::receive); g3::initializeLogging(w.get()); LOG(INFO) << later; }
      sym_assert(got2.size() == 1 && eq(got2[0], later), "the early entry is delivered to the first logger only"); sym_reach("again");
   }
   sym_reach("done");
}
// ---- two threads early
extern "C" void h_early_two() {
   std::string a = "a" + symstr(1, "a"), b = "b" + symstr(1, "b"); std::thread t([&] { LOG(INFO) << a; }); LOG(INFO) << b; t.join();
   { auto w = g3::LogWorker::createLogWorker(); w->addSink(std::make_unique<Txt>(Txt{&got1}), &Txt::receive); g3::initializeLogging(w.get()); }
   sym_assert(got1.size() == 1 && (marked(got1[0], a) || marked(got1[0], b)), "one of the two is kept, complete"); sym_assert(count_of(env_stderr(), "LOGGER NOT INITIALIZED") == 1, "and reported once"); sym_reach("done");
}
// ---- an entry made while logging is being started
extern "C" void h_early_race() {
   std::string a = "a" + symstr(1, "a"), b = "b" + symstr(1, "b"); bool first = sym_choice(2, "first"); if (first) LOG(INFO) << b;
   {
      auto w = g3::LogWorker::createLogWorker(); w->addSink(std::make_unique<Txt>(Txt{&got1}), &Txt::receive);
      std::thread t([&] { LOG(INFO) << a; });
      g3::initializeLogging(w.get());
      t.join();
   }
   size_t k = 0; if (first) { sym_assert(got1.size() >= 1 && marked(got1[0], b), "the entry made before comes first"); k = 1; }
   sym_assert(got1.size() <= k + 1, "no entry twice"); if (got1.size() > k) { sym_assert(eq(got1[k], a) || (!first && marked(got1[k], a)), "unchanged, or marked as too early"); sym_reach("delivered"); } else { sym_assert(first || count_of(env_stderr(), "LOGGER NOT INITIALIZED") == 1, "an entry that is not delivered is reported"); sym_reach("dropped"); }
   sym_reach("done");
}
// ---- two threads start logging at the same time
static std::unique_ptr<g3::LogWorker>* sw; static std::atomic<int> begun;
extern "C" void h_start_race() {
   std::string m = "m" + symstr(1, "m"); static std::string* mp; mp = &m; std::unique_ptr<g3::LogWorker> w[2]; sw = w; w[0] = g3::LogWorker::createLogWorker(); w[0]->addSink(std::make_unique<Txt>(Txt{&got1}), &Txt::receive); w[1] = g3::LogWorker::createLogWorker(); w[1]->addSink(std::make_unique<Txt>(Txt{&got2}), &Txt::receive);
   env_exit_hook = [](int code) {
      sym_assert(code == EXIT_FAILURE && has(env_stderr(), "illegal initialization"), "the second start ends the process"); sym_assert(begun <= 1, "and does not return"); sym_assert(g3::internal::isLoggingInitialized(), "the other logger is active");
      sym_reach("done"); };
   std::thread t([&] { g3::initializeLogging(w[0].get()); ++begun; });
   g3::initializeLogging(w[1].get()); ++begun; t.join();
   sym_fail("both", "two loggers were started");
}
// ---- sequences of starts and stops
static std::unique_ptr<g3::LogWorker>* ws; static int active = -1; static bool bad; static std::vector<std::string> want[2];
extern "C" void h_restart() {
   OneSched quiet; std::unique_ptr<g3::LogWorker> w[2]; ws = w; std::vector<std::string>* g[2] = {&got1, &got2}; for (int i = 0; i < 2; ++i) { w[i] = g3::LogWorker::createLogWorker(); w[i]->addSink(std::make_unique<Txt>(Txt{g[i]}), &Txt::receive); }
   env_exit_hook = [](int code) {
      sym_assert(bad, "a legal start does not end the process"); sym_assert(code == EXIT_FAILURE, "failure status"); sym_assert(has(env_stderr(), "illegal initialization"), "an error message is written");
      for (int i = 0; i < 2; ++i) ws[i].reset();   // exit() destroys loggers with static storage duration
      std::vector<std::string>* g[2] = {&got1, &got2}; for (int i = 0; i < 2; ++i) { size_t j = 0; for (auto& t : *g[i]) if (j < want[i].size() && eq(t, want[i][j])) ++j; sym_assert(j == want[i].size(), "entries made before are not lost"); }
      sym_reach("refused"); sym_reach("done"); };
   for (int k = 0; k < N; ++k) {
      unsigned op = sym_choice(5, "op");
      if (op < 2) { bad = active >= 0 || !w[op]; g3::initializeLogging(w[op].get()); sym_assert(!bad, "an illegal start does not return"); active = op; }
      else if (op == 2) { bad = true; g3::initializeLogging(nullptr); sym_fail("returned", "starting without a logger returned"); }
      else if (op == 3) { if (sym_choice(2, "how")) { g3::internal::shutDownLogging(); active = -1; } else if (active >= 0) { w[active].reset(); active = -1; } }
      else { std::string m = "m" + std::to_string(k) + symstr(1, "m"); LOG(INFO) << m; if (active >= 0) want[active].push_back(m); }
      sym_assert(g3::internal::isLoggingInitialized() == (active >= 0), "started or not");
   }
   if (active >= 0) { std::string m = "end" + symstr(1, "m"); LOG(INFO) << m; want[active].push_back(m); }
   env_exit_hook = nullptr; w[0].reset(); w[1].reset(); bool skip = false;
   for (int i = 0; i < 2; ++i) { size_t j = 0, extra = 0; for (auto& t : *g[i]) if (j < want[i].size() && eq(t, want[i][j])) ++j; else { sym_assert(starts(t, "LOGGER NOT") || starts(t, "\n\t\tAttempted"), "nothing else is delivered"); ++extra; } sym_assert(j == want[i].size() && extra <= 2, "each logger gets what was logged while it was the active one"); }
   sym_assert(!g3::internal::isLoggingInitialized(), "stopped with its logger"); (void)skip;
   sym_reach("done");
}
// ---- destroying a logger that is not the active one
extern "C" void h_two_loggers() {
#ifndef SCHED
   NoSched quiet;
#endif
   std::string m = "m" + symstr(1, "m"), n = "n" + symstr(1, "n"); unsigned order = sym_choice(2, "order"), how = sym_choice(3, "how"); static int hooks; static std::vector<std::string> fatals;
   auto a = g3::LogWorker::createLogWorker(); a->addSink(std::make_unique<Txt>(Txt{&got1}), &Txt::receive);
   auto b = g3::LogWorker::createLogWorker(); b->addSink(std::make_unique<Txt>(Txt{&got2}), &Txt::receive);
   auto& act = order ? b : a; auto& idle = order ? a : b; auto& g = order ? got2 : got1; auto& gi = order ? got1 : got2;
   g3::initializeLogging(act.get()); LOG(INFO) << m; bool after = sym_choice(2, "after"); if (after) { g3::setFatalPreLoggingHook([] { ++hooks; }); g3::setFatalExitHandler([](g3::FatalMessagePtr p) { fatals.push_back(p.get()->message()); }); }
   bool warned = how != 2; bool third = warned && sym_choice(2, "third"); if (third) { auto c = g3::LogWorker::createLogWorker(); }
   if (how == 0) idle.reset(); else if (how == 1) { bool r = g3::internal::shutDownLoggingForActiveOnly(idle.get()); sym_assert(!r, "refused"); }
   sym_assert(g3::internal::isLoggingInitialized(), "the active logger goes on"); LOG(INFO) << n; if (after) { LOG(FATAL) << n; sym_assert(hooks == 1 && fatals.size() == 1 && starts(fatals[0], n), "its hook and fatal handler still serve it"); } act.reset();
   sym_assert(!g3::internal::isLoggingInitialized(), "destroying the active logger stops logging");
   sym_assert(g.size() == (warned ? 3u : 2u) + third && eq(g[0], m) && eq(g.back(), n), "the active logger delivers everything"); if (warned) sym_assert(has(g[1], "not the one that is active") && (!third || has(g[2], "not the one that is active")), "and reports the attempt");
   LOG(INFO) << "late"; idle.reset(); sym_assert(gi.empty(), "the idle logger got nothing"); sym_reach("done");
}
