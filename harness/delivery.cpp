// Delivery of log entries through LogWorker to its sinks.
#include "h.h"
#ifndef N
#define N 2
#endif
// two logging threads (main and t), one sink; every entry carries an arbitrary character
extern "C" void h_two_threads() {
   std::vector<Rec> got;
   std::string a[N], b[N];
   for (int i = 0; i < N; ++i) { a[i] = "A" + std::to_string(i) + symstr(1, "a"); b[i] = "B" + std::to_string(i) + symstr(1, "b"); }
   {
      auto w = g3::LogWorker::createLogWorker();
      auto h = w->addSink(std::make_unique<Sink>(&got), &Sink::receive);
      g3::initializeLogging(w.get());
      std::thread t([&] { for (int i = 0; i < N; ++i) LOG(INFO) << b[i]; });
      for (int i = 0; i < N; ++i) LOG(WARNING) << a[i];
      t.join();
   }
   sym_assert(got.size() == 2 * N, "every entry is delivered exactly once");
   int ia = 0, ib = 0;
   for (auto& r : got) {
      if (r.level == "WARNING") { sym_assert(ia < N && eq(r.text, a[ia]), "entries of the first thread arrive unchanged, once, in order"); ++ia; }
      else { sym_assert(r.level == "INFO" && ib < N && eq(r.text, b[ib]), "entries of the second thread arrive unchanged, once, in order"); ++ib; }
   }
   sym_assert(ia == N && ib == N, "no entry is lost or duplicated");
   sym_reach("done");
}
// two sinks, two logging threads: both sinks see every entry and the same order
extern "C" void h_two_sinks() {
   std::vector<Rec> g1, g2;
   std::string a[N], b = "B" + symstr(1, "b");
   for (int i = 0; i < N; ++i) a[i] = "A" + std::to_string(i) + symstr(1, "a");
   {
      auto w = g3::LogWorker::createLogWorker();
      auto h1 = w->addSink(std::make_unique<Sink>(&g1), &Sink::receive);
      auto h2 = w->addSink(std::make_unique<Sink>(&g2), &Sink::receive);
      g3::initializeLogging(w.get());
#ifdef SECOND
      std::thread t([&] { LOG(INFO) << b; });
#endif
      for (int i = 0; i < N; ++i) LOG(WARNING) << a[i];
#ifdef SECOND
      t.join();
#else
      LOG(INFO) << b;
#endif
   }
   sym_assert(g1.size() == N + 1 && g2.size() == N + 1, "every sink receives every entry exactly once");
   int ia = 0, ib = 0;
   for (size_t i = 0; i < g1.size(); ++i) {
      sym_assert(eq(g1[i].text, g2[i].text) && g1[i].level == g2[i].level, "both sinks observe the same entries in the same order");
      if (g1[i].level == "WARNING") { sym_assert(ia < N && eq(g1[i].text, a[ia]), "content and per-thread order"); ++ia; }
      else { sym_assert(ib < 1 && eq(g1[i].text, b), "content"); ++ib; }
   }
   sym_reach("done");
}
