// Order, draining, non-blocking, shutdown, handles and sink set changes.
#include "h.h"
#include <condition_variable>
#include <mutex>
#ifndef N
#define N 2
#endif
#ifndef CALL
#define CALL 0
#endif
#ifndef SINKS
#define SINKS 2
#endif
static std::string lab(char c, int i, const char* n) { return c + std::to_string(i) + symstr(1, n); }
// ---- order: entries ordered by program order or by thread start/join arrive in that order at every sink
extern "C" void h_order() {
   std::vector<Rec> g[SINKS];
   std::string first = lab('F', 0, "f"), last = lab('L', 0, "l"), a[N], b[N];
   for (int i = 0; i < N; ++i) { a[i] = lab('A', i, "a"); b[i] = lab('B', i, "b"); }
   {
      auto w = g3::LogWorker::createLogWorker();
      for (int s = 0; s < SINKS; ++s) w->addSink(std::make_unique<Sink>(&g[s]), &Sink::receive);
      g3::initializeLogging(w.get());
      LOG(INFO) << first;
      std::thread t([&] { for (int i = 0; i < N; ++i) LOG(G3LOG_DEBUG) << b[i]; });
      for (int i = 0; i < N; ++i) LOG(WARNING) << a[i];
      t.join();
      LOG(INFO) << last;
   }
   for (int s = 0; s < SINKS; ++s) {
      sym_assert(g[s].size() == 2 * N + 2, "every entry is delivered once to every sink");
      sym_assert(eq(g[s][0].text, first), "an entry made before another thread was started comes before that thread's entries");
      sym_assert(eq(g[s][2 * N + 1].text, last), "an entry made after another thread was joined comes after that thread's entries");
      int ia = 0, ib = 0;
      for (int i = 1; i <= 2 * N; ++i) {
         if (g[s][i].level == "WARNING") { sym_assert(ia < N && eq(g[s][i].text, a[ia]), "order within the first thread"); ++ia; }
         else { sym_assert(ib < N && eq(g[s][i].text, b[ib]), "order within the second thread"); ++ib; }
         if (s) sym_assert(eq(g[s][i].text, g[0][i].text), "all sinks see one order");
      }
   }
   sym_reach("done");
}
// ---- draining: whatever was logged before is processed when removal or destruction returns
struct Slow {   // a sink that needs a moment for each entry and looks at its state only at the end of it
   std::vector<std::string>* out; int* gone; std::mutex m; bool inside = false;
   Slow(std::vector<std::string>* o, int* g) : out(o), gone(g) {}
   ~Slow() { sym_assert(!inside, "a sink is not destroyed while it handles an entry"); ++*gone; }
   void receive(g3::LogMessageMover e) {
      inside = true; { std::lock_guard<std::mutex> l(m); }
      sym_assert(*gone == 0, "an entry never reaches a destroyed sink");
      out->push_back(e.get().message()); inside = false;
   }
};
extern "C" void h_drain() {
   std::vector<std::string> o1, o2; int gone1 = 0, gone2 = 0; unsigned how = sym_choice(4, "how"); unsigned n = 1 + sym_choice(N, "n");
   std::string m[N], late = lab('Z', 0, "z");
   for (unsigned i = 0; i < n; ++i) m[i] = lab('M', i, "m");
   auto full = [&](std::vector<std::string>& o, unsigned k) { sym_assert(o.size() == k, "everything logged before has been processed when the call returns"); for (unsigned i = 0; i < k && i < n; ++i) sym_assert(eq(o[i], m[i]), "in order, unchanged"); };
   {
      auto w = g3::LogWorker::createLogWorker();
      auto h1 = w->addSink(std::make_unique<Slow>(&o1, &gone1), &Slow::receive);
      std::unique_ptr<g3::SinkHandle<Slow>> h2; if (how >= 2) h2 = w->addSink(std::make_unique<Slow>(&o2, &gone2), &Slow::receive);
      g3::initializeLogging(w.get());
      for (unsigned i = 0; i < n; ++i) LOG(INFO) << m[i];
      if (how == 0) { w.reset(); full(o1, n); sym_assert(gone1 == 1, "the sink is destroyed with the logger"); sym_assert(!g3::internal::isLoggingInitialized(), "logging has stopped"); sym_reach("destroy"); }
      else if (how == 1) { w->removeAllSinks(); full(o1, n); sym_assert(gone1 == 1, "the removed sink is gone"); LOG(INFO) << late; sym_reach("all"); }
      else if (how == 2) { w->removeSink(std::move(h1)); full(o1, n); sym_assert(gone1 == 1, "the removed sink is gone"); LOG(INFO) << late; w.reset(); full(o2, n + 1); sym_assert(eq(o2[n], late) && gone2 == 1, "the other sink is not affected"); sym_reach("one"); }
      else { w->removeAllSinks(); full(o1, n); full(o2, n); sym_assert(gone1 == 1 && gone2 == 1, "both are gone"); sym_reach("both"); }
   }
   full(o1, n); sym_assert(gone1 == 1, "the sink is destroyed once");
   sym_reach("done");
}
// the logger is removed while its sinks still have entries from another thread
extern "C" void h_drain_two() {
   std::vector<std::string> o; int gone = 0; unsigned how = sym_choice(2, "how"); std::string a = lab('A', 0, "a"), b[N]; for (int i = 0; i < N; ++i) b[i] = lab('B', i, "b");
   int inB = 0;
   {
      auto w = g3::LogWorker::createLogWorker(); w->addSink(std::make_unique<Slow>(&o, &gone), &Slow::receive); g3::initializeLogging(w.get());
      std::thread t([&] { for (int i = 0; i < N; ++i) LOG(WARNING) << b[i]; });
      LOG(INFO) << a;
      if (how == 0) { w->removeAllSinks(); bool mine = false; for (auto& s : o) mine |= s[0] == 'A'; sym_assert(mine && gone == 1, "the caller's own entries have been processed, the sink is gone"); t.join(); sym_reach("all"); }
      else { t.join(); w.reset(); sym_assert(o.size() == 1 + N && gone == 1, "everything is processed"); sym_reach("destroy"); }
   }
   for (auto& s : o) if (s[0] == 'B') { sym_assert(inB < N && eq(s, b[inB]), "entries of the other thread: once, in order, unchanged"); ++inB; } else sym_assert(eq(s, a), "unchanged");
   if (how == 0) sym_assert(count_of(env_stderr(), "no sinks") == N - inB, "an entry that comes after the removal is reported, none is lost");
   sym_reach("done");
}
struct Lean { std::vector<std::string>* out; int* gone; ~Lean() { ++*gone; } Lean(std::vector<std::string>* o, int* g) : out(o), gone(g) {} void receive(g3::LogMessageMover e) { out->push_back(e.get().message()); } void nothing() {} };
// somebody else holds on to the sink, for good or for the moment of a call: what was logged before is processed all the same
extern "C" void h_drain_held() {
   std::vector<std::string> o; int gone = 0; bool call = CALL;
#ifdef HOW
   unsigned how = HOW;
#else
   unsigned how = sym_choice(3, "how");
#endif
   std::string m[N]; for (int i = 0; i < N; ++i) m[i] = lab('M', i, "m");
   {
      auto w = g3::LogWorker::createLogWorker(); auto h = w->addSink(std::make_unique<Lean>(&o, &gone), &Lean::receive); auto weak = h->sink(); std::shared_ptr<g3::internal::Sink<Lean>> held; std::thread t; std::unique_ptr<g3::SinkHandle<Lean>> h2;
      if (call) h2 = std::make_unique<g3::SinkHandle<Lean>>(weak.lock()); else held = weak.lock();
      g3::initializeLogging(w.get());
      for (int i = 0; i < N; ++i) LOG(INFO) << m[i];
      auto* hp = h2.get(); if (call) t = std::thread([hp] { hp->call(&Lean::nothing); });
      if (how == 0) { w.reset(); sym_reach("destroy"); } else if (how == 1) { w->removeAllSinks(); sym_reach("all"); } else { w->removeSink(std::move(h)); sym_reach("one"); }
      sym_assert(o.size() == N, "everything logged before has been processed when the call returns"); for (int i = 0; i < N; ++i) sym_assert(eq(o[i], m[i]), "in order, unchanged");
      if (call) t.join(); else sym_assert(gone == 0, "the sink lives as long as somebody holds it");
   }
   sym_assert(gone == 1 && o.size() == N, "the sink is destroyed once");
   sym_reach("done");
}
// ---- a sink that never comes back
static std::mutex gate; static std::condition_variable never;
struct Stuck { int* n; void hold() { ++*n; std::unique_lock<std::mutex> l(gate); never.wait(l, [] { return false; }); } void receive(g3::LogMessageMover) { ++*n; std::unique_lock<std::mutex> l(gate); never.wait(l, [] { return false; }); } };
struct Note { std::vector<std::string>* out; std::promise<void>* full; size_t want; void receive(g3::LogMessageMover m) { out->push_back(m.get().message()); if (out->size() == want) full->set_value(); } };
extern "C" void h_stuck() {
   int* entered = new int(0); auto* got = new std::vector<std::string>; auto* p = new std::promise<void>; auto f = p->get_future(); std::string m[N]; for (int i = 0; i < N; ++i) m[i] = lab('M', i, "m");
   bool order = sym_choice(2, "order"), two = sym_choice(2, "two");
   auto* w = g3::LogWorker::createLogWorker().release();
   if (order) w->addSink(std::make_unique<Stuck>(Stuck{entered}), &Stuck::receive);
   w->addSink(std::make_unique<Note>(Note{got, p, N}), &Note::receive);
   if (!order) w->addSink(std::make_unique<Stuck>(Stuck{entered}), &Stuck::receive);
   g3::initializeLogging(w);
   if (two) { std::thread t([&] { for (int i = 0; i < N; ++i) LOG(INFO) << m[i]; }); t.join(); } else for (int i = 0; i < N; ++i) LOG(INFO) << m[i];
   sym_reach("logged");   // the log calls returned although one sink never will
   f.wait();              // and the other sink gets everything
   sym_assert(got->size() == N, "the other sink is served"); for (int i = 0; i < N; ++i) sym_assert(eq((*got)[i], m[i]), "complete and in order");
   sym_reach("done"); sym_end_path();
}
// the worker itself may be busy: nothing a log call does depends on it
extern "C" void h_stuck_one() {
   int* entered = new int(0); std::string m = lab('M', 0, "m");
   auto* w = g3::LogWorker::createLogWorker().release(); auto h = w->addSink(std::make_unique<Stuck>(Stuck{entered}), &Stuck::receive); g3::initializeLogging(w);
   auto f = h->call(&Stuck::hold);
   for (int i = 0; i < N; ++i) LOG(INFO) << m;
   LOGF(WARNING, "%s", m.c_str()); LOG_IF(INFO, *m.c_str() == 'M') << m;
   sym_assert(f.wait_for(std::chrono::seconds(0)) != std::future_status::ready, "the blocked call is not reported finished");
   sym_reach("done"); sym_end_path();
}
// ---- logging while the logger is withdrawn
extern "C" void h_withdraw() {
   std::vector<Rec> got; std::string a[N], b[N]; for (int i = 0; i < N; ++i) { a[i] = lab('A', i, "a"); b[i] = lab('B', i, "b"); } unsigned how = sym_choice(2, "how");
   {
      auto w = g3::LogWorker::createLogWorker(); w->addSink(std::make_unique<Sink>(&got), &Sink::receive); g3::initializeLogging(w.get());
      std::thread t([&] { for (int i = 0; i < N; ++i) LOG(WARNING) << b[i]; });
      if (how) LOG(INFO) << a[0];
      g3::internal::shutDownLogging();
      sym_assert(!g3::internal::isLoggingInitialized(), "withdrawn");
      LOG(INFO) << "late";
      t.join();
   }
   int ia = 0, ib = 0;
   for (auto& r : got) { if (r.level == "WARNING") { sym_assert(ib < N && eq(r.text, b[ib]), "delivered entries are the first ones, in order, unchanged"); ++ib; } else { sym_assert(how && ia == 0 && eq(r.text, a[0]), "only what was logged before the shutdown"); ++ia; } }
   sym_assert(ia == (int)how, "what the caller logged before the shutdown is delivered");
   if (ib < N || true) sym_assert(count_of(env_stderr(), "LOGGER NOT INITIALIZED") == 1, "the first entry without logger is reported, and only that");
   sym_reach("done");
}
// ---- logging while the logger is destroyed
extern "C" void h_gone() {
   std::vector<Rec> got; std::string b[N]; for (int i = 0; i < N; ++i) b[i] = lab('B', i, "b");
   auto w = g3::LogWorker::createLogWorker(); w->addSink(std::make_unique<Sink>(&got), &Sink::receive); g3::initializeLogging(w.get());
   std::thread t([&] { for (int i = 0; i < N; ++i) LOG(WARNING) << b[i]; });
   w.reset();
   sym_assert(!g3::internal::isLoggingInitialized(), "withdrawn"); size_t n = got.size();
   t.join();
   sym_assert(got.size() == n && n <= N, "nothing comes after the destruction");
   for (size_t i = 0; i < n; ++i) sym_assert(got[i].level == "WARNING" && eq(got[i].text, b[i]), "delivered entries are the first ones, in order, unchanged");
   std::string e = env_stderr(); size_t early = count_of(e, "LOGGER NOT INITIALIZED"), nosink = count_of(e, "g3logworker has no sinks");
   sym_assert(early == (n + nosink < N ? 1u : 0u), "every other entry found no sink any more or no logger, of which the first is reported");
   sym_reach("done"); if (n == N) sym_reach("all"); if (n == 0) sym_reach("none");
}
// ---- one sink is entered by one thread at a time; its state needs no lock
struct Plain {
   int inside = 0, calls = 0; std::vector<std::string>* out; int* gone; std::mutex step;
   Plain(std::vector<std::string>* o, int* g) : out(o), gone(g) {}
   ~Plain() { sym_assert(inside == 0, "not destroyed inside a call"); ++*gone; }
   void enter() { sym_assert(inside == 0, "calls into a sink never overlap"); inside = 1; { std::lock_guard<std::mutex> l(step); } }
   void leave() { sym_assert(inside == 1, "calls into a sink never overlap"); inside = 0; }
   void receive(g3::LogMessageMover m) { enter(); out->push_back(m.get().message()); leave(); }
   int poke(int v) { enter(); ++calls; leave(); return (int)((unsigned)v + 1u); }
};
extern "C" void h_exclusive() {
   std::vector<std::string> o; int gone = 0, v = symint("v"); std::string a = lab('A', 0, "a"), b = lab('B', 0, "b"); unsigned how = sym_choice(3, "how");
   {
      auto w = g3::LogWorker::createLogWorker(); auto h = w->addSink(std::make_unique<Plain>(&o, &gone), &Plain::receive); auto* hp = h.get(); g3::initializeLogging(w.get());
      int r = 0, r2 = (int)((unsigned)v + 6u);
#ifdef HOW
      sym_assume(how == HOW);
#endif
      std::thread t([&] { if (how != 1) r = hp->call(&Plain::poke, v).get(); else LOG(WARNING) << b; });
      if (how != 1) LOG(INFO) << a;
      if (how) r2 = hp->call(&Plain::poke, (int)((unsigned)v + 5u)).get();
      t.join(); sym_assert(r2 == (int)((unsigned)v + 6u) && (how == 1 || r == (int)((unsigned)v + 1u)), "results");
   }
   sym_assert(gone == 1 && o.size() == 1, "all entries, one destruction");
   sym_reach("done");
}
// ---- sink handles
struct Ask {
   int n = 0; std::vector<std::string>* out; int* gone; explicit Ask(std::vector<std::string>* o, int* g) : out(o), gone(g) {} ~Ask() { ++*gone; }
   void receive(g3::LogMessageMover m) { out->push_back(m.get().message()); }
   int plus(int v) { ++n; return v + n; }
   std::string join(std::string a, const std::string& b) { ++n; return a + b; }
   void fail(int v) { ++n; throw v; }
   int count() { return n; }
   size_t seen() { return out->size(); }
};
extern "C" void h_handle() {
   std::vector<std::string> o; int gone = 0, v = symint("v"); std::string s = symstr(1, "s"), m = symstr(1, "m"); unsigned k = sym_choice(6, "k"); std::vector<std::string> other; int gone2 = 0;
   auto w = g3::LogWorker::createLogWorker(); auto h = w->addSink(std::make_unique<Ask>(&o, &gone), &Ask::receive); g3::initializeLogging(w.get());
   if (k == 0) { auto f = h->call(&Ask::plus, v); auto g = h->call(&Ask::plus, v); sym_assert(f.get() == (int)((unsigned)v + 1u), "the call's own result"); sym_assert(g.get() == (int)((unsigned)v + 2u), "calls run once each, in order"); sym_reach("value"); }
   else if (k == 1) { auto f = h->call(&Ask::join, s, std::string("-")); sym_assert(eq(f.get(), s + "-"), "text result"); sym_assert(h->call(&Ask::count).get() == 1, "ran once"); sym_reach("text"); }
   else if (k == 2) { auto f = h->call(&Ask::fail, v); int r = 0; bool c = false; try { f.get(); } catch (int x) { c = true; r = x; } sym_assert(c && r == v, "the exception of the call"); LOG(INFO) << m; sym_assert(h->call(&Ask::count).get() == 1, "the sink goes on"); sym_reach("throw"); }
   else if (k == 3) {
      LOG(INFO) << m; w->removeAllSinks(); sym_assert(gone == 1 && o.size() == 1 && eq(o[0], m), "removed after its entries");
      auto f = h->call(&Ask::plus, v); sym_assert(f.valid() && f.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "a call on a removed sink is answered at once"); bool c = false; try { f.get(); } catch (const std::exception&) { c = true; } sym_assert(c, "with an error"); sym_reach("removed");
      sym_assert(h->sink().expired(), "the handle refers to nothing");
   } else if (k == 5) {   // entries that the sink has been given come before the call
      auto dummy = w->addSink(std::make_unique<Ask>(&other, &gone2), &Ask::receive); LOG(INFO) << m; LOG(INFO) << s; w->removeSink(std::move(dummy)); sym_assert(gone2 == 1 && other.size() == 2, "the worker has handed both entries over");
      auto f = h->call(&Ask::seen); sym_assert(f.get() == 2, "a call comes after the entries the sink was given before"); sym_assert(o.size() == 2 && eq(o[0], m) && eq(o[1], s), "in order"); LOG(INFO) << m; sym_reach("after");
   } else { auto f = h->call(&Ask::plus, v); w.reset(); sym_assert(f.wait_for(std::chrono::seconds(0)) == std::future_status::ready && f.get() == (int)((unsigned)v + 1u), "a call made before shutdown is carried out"); auto g = h->call(&Ask::count); bool c = false; try { g.get(); } catch (const std::exception&) { c = true; } sym_assert(c, "after it an error is reported"); sym_reach("destroyed"); }
   w.reset(); sym_assert(gone == 1 && o.size() == (k == 2 || k == 3 ? 1u : k == 5 ? 3u : 0u), "end state");
   sym_reach("done");
}
// a call racing with removal of its sink
extern "C" void h_handle_race() {
   std::vector<std::string> o; int gone = 0, v = symint("v"); int r = 0; bool err = false; std::string m = symstr(1, "m"); unsigned how = sym_choice(2, "how");
   {
      auto w = g3::LogWorker::createLogWorker(); auto h = w->addSink(std::make_unique<Ask>(&o, &gone), &Ask::receive); auto* hp = h.get(); g3::initializeLogging(w.get());
      if (how) LOG(INFO) << m;
      std::thread t([&] { auto f = hp->call(&Ask::plus, v); try { r = f.get(); } catch (const std::exception&) { err = true; } });
      w->removeAllSinks();
      t.join(); sym_assert(gone == 1, "the sink is destroyed");
   }
   sym_assert(err || r == (int)((unsigned)v + 1u), "the call is carried out or refused"); sym_assert(o.size() == how && (!how || eq(o[0], m)), "entries made before the removal are processed");
   sym_reach(err ? "refused" : "ran"); sym_reach("done");
}
// ---- arbitrary sequences of adding, removing and logging
extern "C" void h_sequence() {
#ifndef SCHED
   OneSched quiet;
#endif
   std::vector<std::string> got[N], want[N]; int gone[N] = {}; std::unique_ptr<g3::SinkHandle<Ask>> h[N]; bool in[N] = {}; int ns = 0, nosink = 0; std::vector<std::string> texts;
   {
      auto w = g3::LogWorker::createLogWorker(); g3::initializeLogging(w.get());
      for (int k = 0; k < N; ++k) {
         unsigned op = sym_choice(4, "op");
         if (op == 0) { std::string m = lab('M', k, "m"); LOG(INFO) << m; bool any = false; for (int i = 0; i < ns; ++i) if (in[i]) { want[i].push_back(m); any = true; } if (!any) ++nosink; }
         else if (op == 1) { h[ns] = w->addSink(std::make_unique<Ask>(&got[ns], &gone[ns]), &Ask::receive); in[ns] = true; ++ns; }
         else if (op == 2) { w->removeAllSinks(); for (int i = 0; i < ns; ++i) { in[i] = false; sym_assert(gone[i] == 1, "removing all sinks destroys each of them"); } }
         else { unsigned i = sym_choice(N, "which"); if ((int)i >= ns || !h[i]) continue; w->removeSink(std::move(h[i])); in[i] = false; sym_assert(gone[i] == 1, "the removed sink is destroyed"); for (int j = 0; j < ns; ++j) if (in[j]) sym_assert(gone[j] == 0, "no other sink is removed"); }
         for (int i = 0; i < ns; ++i) if (!in[i]) sym_assert(got[i].size() == want[i].size(), "a removed sink has processed everything logged before its removal");
      }
   }
   for (int i = 0; i < ns; ++i) {
      sym_assert(gone[i] == 1, "every sink is destroyed exactly once"); sym_assert(got[i].size() == want[i].size(), "a sink receives exactly the entries logged while it was added");
      for (size_t j = 0; j < want[i].size(); ++j) sym_assert(eq(got[i][j], want[i][j]), "content and order");
   }
   sym_assert(count_of(env_stderr(), "no sinks") == nosink, "entries without any sink are reported");
   sym_reach("done");
}
// ---- no sinks
extern "C" void h_nosinks() {
   std::vector<std::string> o; int gone = 0; std::string m = symstr_upto(2, "m"); unsigned k = sym_choice(3, "k"); int total = 1; for (char c : m) sym_assume(c != 'g');
   {
      auto w = g3::LogWorker::createLogWorker();
      if (k) { auto h = w->addSink(std::make_unique<Ask>(&o, &gone), &Ask::receive); if (k == 1) w->removeAllSinks(); else w->removeSink(std::move(h)); }
      g3::initializeLogging(w.get());
      if (sym_choice(2, "two")) { std::thread t([&] { LOG(WARNING) << "other" << m; }); LOG(INFO) << m; t.join(); ++total; } else { int n = 1 + sym_choice(3, "repeat"); for (total = 0; total < n; ++total) LOG(INFO) << m; }
   }
   std::string e = env_stderr(); sym_assert(count_of(e, "g3logworker has no sinks. Message: [") == total, "each entry is reported once");
   size_t p = e.find(std::string("INFO [order.cpp->") + "h_nosinks"); sym_assert(p != std::string::npos, "with level and location"); size_t q = e.find("]\t", p); sym_assert(q != std::string::npos && eq(e.substr(q + 2, m.size()), m), "and its text"); sym_assert(o.empty(), "nothing else");
   sym_reach("done");
}
