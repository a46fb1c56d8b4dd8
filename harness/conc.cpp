// The concurrency building blocks: the message queue, the background worker, task futures and the move-through-copy wrapper.
#include "h.h"
#include <g3log/shared_queue.hpp>
#include <g3log/active.hpp>
#include <g3log/future.hpp>
#include <g3log/moveoncopy.hpp>
#include <deque>
#ifndef N
#define N 2
#endif
#ifndef CONS
#define CONS 1
#endif
// ---- queue: two producers, CONS consumers
extern "C" void h_queue_conc() {
   shared_queue<int> q;
   int v[2][N];
   for (int p = 0; p < 2; ++p) for (int i = 0; i < N; ++i) v[p][i] = (int)(sym_bits("v", 24) << 8) | (p << 4) | i;   // arbitrary value, tagged with origin
   std::vector<int> got[2];
   {
      std::vector<std::thread> ts;
      ts.emplace_back([&] { for (int i = 0; i < N; ++i) q.push(v[0][i]); });
      for (int c = 1; c < CONS; ++c) ts.emplace_back([&, c] { for (int i = 0; i < N; ++i) { int x = -1; q.wait_and_pop(x); got[c].push_back(x); } });
      int mine = CONS > 1 ? N : 2 * N;
      std::thread prod([&] { for (int i = 0; i < N; ++i) q.push(v[1][i]); });
      for (int i = 0; i < mine; ++i) { int x = -1; q.wait_and_pop(x); got[0].push_back(x); }
      prod.join();
      for (auto& t : ts) t.join();
   }
   int total = 0; bool seen[2][N] = {};
   for (int c = 0; c < CONS; ++c) {
      int last[2] = {-1, -1};
      for (int x : got[c]) {
         int p = (x >> 4) & 15, i = x & 15;
         sym_assert(p < 2 && i < N && x == v[p][i], "a popped item is one that was pushed, unchanged");
         sym_assert(!seen[p][i], "no item is delivered twice"); seen[p][i] = true;
         sym_assert(i > last[p], "items of one producer are popped in push order"); last[p] = i; ++total;
      }
   }
   sym_assert(total == 2 * N && q.empty() && q.size() == 0, "every pushed item is popped");
   int x = 77; sym_assert(!q.try_and_pop(x) && x == 77, "a drained queue reports empty");
   sym_reach("done");
}
// ---- queue: arbitrary sequence of operations against a reference queue
extern "C" void h_queue_seq() {
   shared_queue<int> q; std::deque<int> ref;
   for (int k = 0; k < N; ++k) {
      unsigned op = sym_choice(3, "op");
      if (op == 0) { int v = symint("v"); q.push(v); ref.push_back(v); }
      else if (op == 1) { int x = -1; bool r = q.try_and_pop(x); sym_assert(r == !ref.empty(), "a non-waiting pop succeeds exactly when the queue is non-empty"); if (!ref.empty()) { sym_assert(x == ref.front(), "first in, first out"); ref.pop_front(); } else sym_assert(x == -1, "a failed pop leaves its argument alone"); }
      else if (!ref.empty()) { int x = -1; q.wait_and_pop(x); sym_assert(x == ref.front(), "first in, first out"); ref.pop_front(); }
      sym_assert(q.size() == ref.size() && q.empty() == ref.empty(), "size and emptiness");
   }
   sym_reach("done");
}
// ---- queue: looked at while others push and pop
extern "C" void h_queue_watch() {
   shared_queue<int> q; int v[N]; for (int i = 0; i < N; ++i) v[i] = symint("v"); unsigned seen[2]; bool e;
   std::thread p([&] { for (int i = 0; i < N; ++i) q.push(v[i]); });
   seen[0] = q.size(); e = q.empty(); seen[1] = q.size();
   sym_assert(seen[0] <= N && seen[1] <= N && seen[0] <= seen[1], "the size is between what has been and what will be pushed"); sym_assert(!(e && seen[0] > 0) && !(!e && seen[1] == 0), "emptiness agrees with the size");
   int x = -1; q.wait_and_pop(x); sym_assert(x == v[0], "first in, first out"); unsigned s = q.size(); sym_assert(s <= N - 1, "one fewer");
   p.join(); sym_assert(q.size() == N - 1 && q.empty() == (N == 1), "what is left"); sym_reach("done");
}
// ---- queue: non-waiting consumers racing for items
extern "C" void h_queue_try() {
   shared_queue<int> q; int v[N]; for (int i = 0; i < N; ++i) { v[i] = (int)(sym_bits("v", 24) << 8) | i; q.push(v[i]); }
   std::vector<int> g[2];
   auto take = [&](int c) { for (int i = 0; i < N; ++i) { int x = -1; if (q.try_and_pop(x)) g[c].push_back(x); } };
   std::thread t([&] { take(1); });
   take(0);
   t.join();
   bool seen[N] = {};
   for (auto& gg : g) { int last = -1; for (int x : gg) { int i = x & 255; sym_assert(i < N && x == v[i] && !seen[i] && i > last, "each item goes to exactly one consumer, in order"); seen[i] = true; last = i; } }
   sym_assert(g[0].size() + g[1].size() == N && q.empty(), "nothing is lost");
   sym_reach("done");
}
// ---- background worker: tasks from two threads, then destruction
extern "C" void h_active() {
   std::vector<int> ran; std::vector<std::thread::id> who; auto me = std::this_thread::get_id();
   int v[2][N]; for (int p = 0; p < 2; ++p) for (int i = 0; i < N; ++i) v[p][i] = (int)(sym_bits("v", 24) << 8) | (p << 4) | i;
   {
      auto a = kjellkod::Active::createActive(); auto* ap = a.get();
      std::thread t([&, ap] { for (int i = 0; i < N; ++i) { int x = v[1][i]; ap->send([&, x] { ran.push_back(x); who.push_back(std::this_thread::get_id()); }); } });
      for (int i = 0; i < N; ++i) { int x = v[0][i]; ap->send([&, x] { ran.push_back(x); who.push_back(std::this_thread::get_id()); }); }
      t.join();
   }
   int next[2] = {0, 0};
   for (size_t k = 0; k < ran.size(); ++k) {
      int p = (ran[k] >> 4) & 15; sym_assert(p < 2 && next[p] < N && ran[k] == v[p][next[p]], "tasks of one sender run once each, in the order sent"); ++next[p];
      sym_assert(who[k] == who[0] && who[k] != me, "all tasks run on the worker's own single thread");
   }
   sym_assert(next[0] == N && next[1] == N, "every task sent before destruction has run when destruction returns");
   sym_reach("done");
}
// ---- tasks sent by a running task are run too
extern "C" void h_active_nested() {
   int ran = 0, v = symint("v"), got = 0;
   {
      auto a = kjellkod::Active::createActive(); auto* ap = a.get();
      std::promise<void> p; auto f = p.get_future();
      ap->send([&, ap] { ++ran; ap->send([&] { ++ran; got = v; p.set_value(); }); });
      f.wait();
   }
   sym_assert(ran == 2 && got == v, "a task sent from a task runs exactly once");
   sym_reach("done");
}
// a task that sends others: they come after it and after what was sent before, also while the worker is being destroyed
extern "C" void h_active_follow() {
   std::vector<int> ran; bool inside = false, nested = false, mid = sym_choice(2, "between"); int v = symint("v"); std::vector<std::thread::id> who;
   {
      auto job = [&](int k) { if (inside) nested = true; inside = true; ran.push_back(k); who.push_back(std::this_thread::get_id()); };
      std::atomic<bool> sent{false};
      auto a = kjellkod::Active::createActive(); auto* ap = a.get();
      ap->send([&, ap] { job(0); while (!sent) std::this_thread::yield(); ap->send([&] { job(2); ran.push_back(v); inside = false; }); inside = false; });
      if (mid) ap->send([&] { job(1); inside = false; });
      sent = true;
   }
   size_t n = 1 + mid; sym_assert(!nested, "one task at a time"); sym_assert(ran.size() >= n && ran[0] == 0 && (!mid || ran[1] == 1), "what was sent before comes first");
   sym_assert(ran.size() == n || (ran.size() == n + 2 && ran[n] == 2 && ran[n + 1] == v), "a task sent from a task runs at most once, later"); for (auto& i : who) sym_assert(i == who[0] && i != std::this_thread::get_id(), "all on the thread of the worker"); sym_reach(ran.size() > n ? "ran" : "late");
   sym_reach("done");
}
// ---- task results
struct Boom { int v; };
extern "C" void h_task() {
   int v = symint("v"), w = symint("w"); unsigned kind = sym_choice(4, "kind");
   auto a = kjellkod::Active::createActive(); auto* ap = a.get();
   int ran = 0;
   if (kind == 0) {
      auto f1 = g3::spawn_task([&, v] { ++ran; return v; }, ap);
      auto f2 = g3::spawn_task([&, w] { ++ran; return (long long)w * 2; }, ap);
      sym_assert(f2.get() == (long long)w * 2, "result of the second task"); sym_assert(f1.get() == v, "result of the first task"); sym_assert(ran == 2, "each task ran once");
      sym_reach("value");
   } else if (kind == 1) {
      auto f = g3::spawn_task([&, v]() -> int { ++ran; if (v < 0) throw Boom{v}; return v; }, ap);
      bool caught = false; int r = 0;
      try { r = f.get(); } catch (const Boom& b) { caught = true; r = b.v; }
      sym_assert(caught == (v < 0) && r == v && ran == 1, "the task's exception, and only that, comes out of the future");
      auto g = g3::spawn_task([w] { return w; }, ap); sym_assert(g.get() == w, "the worker survives a throwing task");
      sym_reach("throw");
   } else if (kind == 2) {
      kjellkod::Active* none = nullptr; auto f = g3::spawn_task([&] { ++ran; return 1; }, none);
      bool thrown = false; try { f.get(); } catch (const std::runtime_error&) { thrown = true; }
      sym_assert(thrown && ran == 0, "without a worker the future reports an error and the task does not run");
      auto fv = g3::spawn_task([&] { ++ran; }, none); thrown = false; try { fv.get(); } catch (const std::exception&) { thrown = true; } sym_assert(thrown && ran == 0, "same for a task without result");
      sym_reach("null");
   } else {
      std::future<std::string> f; { std::string s = symstr(3, "s"); std::string keep = s; f = g3::spawn_task([s] { return s + "!"; }, ap); a.reset(); sym_assert(f.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "a destroyed worker has finished its tasks"); sym_assert(eq(f.get(), keep + "!"), "text result"); }
      sym_reach("drain");
   }
   sym_reach("done");
}
// ---- move through copy
extern "C" void h_move() {
   int v = symint("v");
   typedef g3::MoveOnCopy<std::unique_ptr<int>> P;
   P a{std::make_unique<int>(v)}; int* raw = a.get().get();
   unsigned hops = 1 + sym_choice(4, "hops");
   std::vector<P> keep; keep.reserve(8);
   P cur{std::move(a.get())};
   for (unsigned i = 0; i < hops; ++i) {
      unsigned how = sym_choice(4, "how");
      if (how == 0) { P n(cur); sym_assert(!cur.get(), "the source of a copy is emptied"); cur = std::move(n); }
      else if (how == 1) { P n(std::move(cur)); sym_assert(!cur.get(), "the source of a move is emptied"); cur = n; sym_assert(!n.get(), "copy assignment empties its source"); }
      else if (how == 2) { P n(std::unique_ptr<int>{}); n = static_cast<const P&>(cur); sym_assert(!cur.get(), "copy assignment empties its source"); cur = P(n.release()); }
      else { std::function<void()> f; auto shared = std::make_shared<P>(cur); int seen = 0; f = [shared, &seen] { seen = *shared->get(); }; f(); sym_assert(seen == v, "usable inside a copyable callback"); cur = *shared; }
   }
   sym_assert(cur.get() && cur.get().get() == raw && *cur.get() == v, "exactly one owner remains and the object itself is intact");
   {  // onto a wrapper that has something: that is given up, and the source is empty
      static int live; live = 0; struct Tr { int v; Tr(int x) : v(x) { ++live; } ~Tr() { --live; } }; typedef g3::MoveOnCopy<std::unique_ptr<Tr>> T;
      unsigned h = sym_choice(4, "onto"); T s1{std::make_unique<Tr>(v)}; { T d{std::make_unique<Tr>(v + 1)}; if (h == 0) d = s1; else if (h == 3) d = std::move(s1); else if (h == 1) d = static_cast<const T&>(s1); else { const T m(s1); d = m; sym_assert(!const_cast<T&>(m).get(), "the source is left empty"); }
         sym_assert(!s1.get() && d.get() && d.get()->v == v && live == 1, "the content is handed over, the source is left empty, what was there is destroyed"); }
      sym_assert(live == 0, "destroyed exactly once");
   }
   std::string s = symstr(3, "s"); g3::MoveOnCopy<std::string> ms{std::string(s)}; g3::MoveOnCopy<std::string> m2(ms), m3(std::string{}); m3 = m2; sym_assert(eq(m3.get(), s), "text survives");
   int calls = 0; std::packaged_task<int()> pt([&] { ++calls; return v; }); auto fut = pt.get_future(); g3::MoveOnCopy<std::packaged_task<int()>> mp(std::move(pt)); std::function<void()> fn(mp); fn(); sym_assert(calls == 1 && fut.get() == v, "a wrapped task can be called through a copyable callback");
   sym_reach("done");
}
