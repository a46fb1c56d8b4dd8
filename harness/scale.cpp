// Large numbers of entries, sinks and jobs, and long texts: thresholds that small histories do not reach. One schedule, symbolic contents at sampled places.
#include "h.h"
#include <g3log/filesink.hpp>
#include <g3log/shared_queue.hpp>
#include <g3log/active.hpp>
#include <condition_variable>
#include <future>
#include <mutex>
#ifndef N
#define N 300
#endif
static std::string num(int i) { return "#" + std::to_string(i) + "."; }
struct Count { std::vector<std::string>* out; void receive(g3::LogMessageMover m) { out->push_back(m.get().message()); } };
// many entries, from two threads, to two sinks
extern "C" void h_many() {
   OneSched quiet; std::vector<std::string> a, b; std::string s = symstr(2, "s");
   {
      auto w = g3::LogWorker::createLogWorker(); w->addSink(std::make_unique<Count>(Count{&a}), &Count::receive); w->addSink(std::make_unique<Count>(Count{&b}), &Count::receive); g3::initializeLogging(w.get());
      std::thread t([&] { for (int i = 0; i < N; ++i) LOG(WARNING) << "T" << i << s; });
      for (int i = 0; i < N; ++i) LOG(INFO) << "M" << i << s;
      t.join();
   }
   for (auto* o : {&a, &b}) { sym_assert(o->size() == 2 * N, "every entry reaches every sink once"); int im = 0, it = 0; for (auto& x : *o) { int& k = x[0] == 'M' ? im : it; sym_assert(eq(x, std::string(1, x[0]) + std::to_string(k) + s), "in order, unchanged"); ++k; } sym_assert(im == N && it == N, "none is missing"); }
   sym_reach("done");
}
// a sink that never comes back does not hold up the callers however much is logged
static std::mutex gate; static std::condition_variable never;
struct Stuck { int* n; void receive(g3::LogMessageMover) { ++*n; std::unique_lock<std::mutex> l(gate); never.wait(l, [] { return false; }); } };
struct Note { std::vector<std::string>* out; std::promise<void>* full; void receive(g3::LogMessageMover m) { out->push_back(m.get().message()); if (out->size() == N) full->set_value(); } };
extern "C" void h_stuck_many() {
   OneSched quiet; int* n = new int(0); auto* o = new std::vector<std::string>; auto* p = new std::promise<void>; auto f = p->get_future(); std::string s = symstr(1, "s");
   auto* w = g3::LogWorker::createLogWorker().release(); w->addSink(std::make_unique<Stuck>(Stuck{n}), &Stuck::receive); w->addSink(std::make_unique<Note>(Note{o, p}), &Note::receive); g3::initializeLogging(w);
   for (int i = 0; i < N; ++i) LOG(INFO) << i << s;
   sym_reach("logged"); f.wait();   // the other sink gets everything
   sym_assert((int)o->size() == N, "everything reaches the other sink"); for (int i = 0; i < N; ++i) sym_assert(eq((*o)[i], std::to_string(i) + s), "in order");
   sym_reach("done"); sym_end_path();
}
// everything that is queued is processed when the logger goes down
struct SlowOne { std::vector<std::string>* out; void receive(std::string s) { std::this_thread::yield(); out->push_back(s); } };
extern "C" void h_drain_many() {
   OneSched quiet; std::vector<std::string> o; std::string s = symstr(1, "s"); unsigned how = sym_choice(2, "how");
   { auto w = g3::LogWorker::createLogWorker(); auto h = w->addSink(std::make_unique<SlowOne>(SlowOne{&o}), &SlowOne::receive); g3::initializeLogging(w.get());
     for (int i = 0; i < N; ++i) LOG(INFO) << num(i) << s;
     if (how) { w->removeSink(std::move(h)); sym_assert(o.size() == N, "all processed when the sink is removed"); } }
   sym_assert(o.size() == N, "all processed when the logger is destroyed"); for (int i = 0; i < N; ++i) sym_assert(ends(o[i], num(i) + s + "\n"), "in order");
   sym_reach("done");
}
// many sinks
extern "C" void h_many_sinks() {
   OneSched quiet; enum { K = 12 }; std::vector<std::string> o[K]; std::vector<std::unique_ptr<g3::SinkHandle<Count>>> h; std::string s = symstr(1, "s"); unsigned gone = sym_choice(K, "gone");
   { auto w = g3::LogWorker::createLogWorker(); for (auto& x : o) h.push_back(w->addSink(std::make_unique<Count>(Count{&x}), &Count::receive)); g3::initializeLogging(w.get()); LOG(INFO) << "a" << s; w->removeSink(std::move(h[gone])); sym_assert(o[gone].size() == 1, "processed"); LOG(INFO) << "b" << s; }
   for (unsigned i = 0; i < K; ++i) { sym_assert(o[i].size() == (i == gone ? 1 : 2) && eq(o[i][0], "a" + s), "each sink gets its entries"); if (i != gone) sym_assert(eq(o[i][1], "b" + s), "each sink gets its entries"); }
   sym_reach("done");
}
// long texts
extern "C" void h_long() {
   OneSched quiet; static const unsigned len[] = {0, 1, 15, 16, 255, 256, 511, 1023, 1024, 2047, 2048, 2049, 4095, 4096, 5000, 65535, 65536, 70000}; unsigned k = sym_choice(sizeof len / sizeof *len, "len"), L = len[k]; std::vector<Rec> got; std::vector<std::string> lines;
   std::string t(L, 'q'), fn(1 + L % 300, 'f'); for (unsigned i : {0u, 1u, L / 2, L - 2, L - 1}) if (i < L) { t[i] = symstr(1, "c")[0]; }
   { auto w = g3::LogWorker::createLogWorker(); w->addSink(std::make_unique<Sink>(&got), &Sink::receive); w->addSink(std::make_unique<TextSink>(&lines), &TextSink::receive); g3::initializeLogging(w.get());
     LOG(INFO) << t; std::string path = "/dir/" + fn; { LogCapture c(path.c_str(), 7, fn.c_str(), WARNING, fn.c_str()); c.stream() << fn; } }
   sym_assert(got.size() == 2 && eq(got[0].text, t), "a text of any length arrives unchanged"); sym_assert(lines.size() == 2 && ends(lines[0], "\t" + t + "\n"), "also formatted"); sym_assert(got[1].file == fn && got[1].function == fn && got[1].expr == fn && got[1].text == fn, "names of any length"); sym_assert(has(lines[1], "[" + fn + "->" + fn + ":7]\t" + fn + "\n"), "also formatted");
   sym_reach("done");
}
// the log file with many entries
extern "C" void h_file_many() {
   env_no_calendar = 1; static const unsigned every[] = {1, 2, 64, 100, 127, 128, 255, 256, 257, 300}; unsigned e = every[sym_choice(10, "every")]; std::string name, s = symstr(1, "s"), tail; sym_assume(s[0] != '#'); size_t before = 0; int done = 0; std::string f;
   {
      g3::FileSink k("p", "/l", "", e); k.overrideLogDetails([](const g3::LogMessage&) { return std::string(); }); k.overrideLogHeader("HEAD\n"); name = k.fileName();
      for (int i = 0; i < N; ++i) {
         g3::LogMessage m("f", 1, "g", INFO); m.write() = num(i) + s; k.fileWrite(g3::LogMessageMover(std::move(m)));
         if ((i + 1) % e == 0 || (unsigned)i == 2 * e - 2 || i == N - 1) { f = env_file(name); int have = f.empty() ? 0 : count_of(f, "#"); sym_assert(i + 1 - have < (int)e, "fewer entries than the flush interval are not yet in the file"); }
      }
   }
   f = env_file(name); size_t p = f.find("HEAD\n"); sym_assert(p != std::string::npos, "header"); p += 5;
   for (int i = 0; i < N; ++i) { std::string l = num(i) + s + "\n"; sym_assert(eq(f.substr(p, l.size()), l), "every entry once, in order"); p += l.size(); }
   sym_assert(starts(f.substr(p), "g3log g3FileSink shutdown"), "then the closing line"); sym_reach("done");
}
// queue and worker
extern "C" void h_queue_many() {
   OneSched quiet; shared_queue<int> q; int v = symint("v"); for (int i = 0; i < N; ++i) q.push(v + i); sym_assert(q.size() == N, "size"); for (int i = 0; i < N; ++i) { int x = 0; if (i % 2) q.wait_and_pop(x); else sym_assert(q.try_and_pop(x), "pop"); sym_assert(x == v + i, "first in, first out"); } sym_assert(q.empty(), "empty");
   std::vector<int> ran; { auto a = kjellkod::Active::createActive(); for (int i = 0; i < N; ++i) a->send([&ran, i, v] { ran.push_back(v + i); }); } sym_assert(ran.size() == N, "every job has run"); for (int i = 0; i < N; ++i) sym_assert(ran[i] == v + i, "in order"); sym_reach("done");
}

// texts of all kinds, through every front end
extern "C" void h_texts() {
   OneSched quiet; static const std::string text[] = {"", " ", "\n", "a\nb\n", "\t\x01\x7f\x80\xff", "%s%n%d", "%%", "\\\"", std::string(3000, 'x'), "no sinks", "FATAL"}; unsigned k = sym_choice(11, "text"), form = sym_choice(5, "form"); std::string s = symstr_upto(1, "s"), t = form == 3 ? text[k] : text[k] + s; if (form == 3 && !text[k].empty()) sym_end_path();
   std::vector<Rec> a; std::vector<std::string> b, c; if (form == 4) t.resize(std::min<size_t>(t.size(), 2000)); std::string z = form >= 1 && form != 3 ? t.c_str() : t;
   { auto w = g3::LogWorker::createLogWorker(); w->addSink(std::make_unique<TextSink>(&b), &TextSink::receive); w->addSink(std::make_unique<Sink>(&a), &Sink::receive); w->addSink(std::make_unique<Count>(Count{&c}), &Count::receive); g3::initializeLogging(w.get());
     LOG(INFO) << "first"; for (int r = 0; r < 2; ++r) switch (form) { case 0: LOG(WARNING) << t; break; case 1: LOG(WARNING) << t.c_str(); break; case 2: g3::internal::saveMessage(t.c_str(), "f", 1, "g", WARNING, "", 0, ""); break; case 3: LOG(WARNING); break; default: LOGF(WARNING, "%s", t.c_str()); } LOG(INFO) << "last"; }
   sym_assert(a.size() == 4 && b.size() == 4 && c.size() == 4, "every sink gets every entry once");
   for (int i = 1; i < 3; ++i) sym_assert(eq(a[i].text, z) && eq(c[i], z) && ends(b[i], "]\t" + z + "\n"), "with its text"); sym_assert(a[0].text == "first" && a[3].text == "last" && c[0] == "first" && c[3] == "last" && ends(b[3], "\tlast\n"), "in order"); sym_reach("done");
}
// entries of different levels one after the other, two sinks; also the levels that sort before and after the built-in ones
extern "C" void h_mixed() {
   OneSched quiet; const LEVELS low(-3, "LOW"), high(999, "HIGH"); const LEVELS* lv[] = {&G3LOG_DEBUG, &INFO, &WARNING, &low, &high}; unsigned l[N], form = sym_choice(2, "form"); std::string t[N];
   for (int i = 0; i < N; ++i) { l[i] = sym_choice(5, "level"); t[i] = std::to_string(i) + symstr(1, "t"); }
   std::vector<Rec> a; std::vector<std::string> b;
   {
      auto w = g3::LogWorker::createLogWorker(); w->addSink(std::make_unique<Sink>(&a), &Sink::receive); w->addSink(std::make_unique<TextSink>(&b), &TextSink::receive); g3::initializeLogging(w.get());
      for (int i = 0; i < N; ++i) { if (form) g3::internal::saveMessage(t[i].c_str(), "f", i, "g", *lv[l[i]], "", 0, ""); else { LogCapture c("f", i, "g", *lv[l[i]]); c.stream() << t[i]; } }
   }
   sym_assert(a.size() == N && b.size() == N, "every sink gets every entry once");
   for (int i = 0; i < N; ++i) { sym_assert(eq(a[i].text, t[i]) && a[i].line == std::to_string(i), "in order, whatever the levels are"); sym_assert(a[i].level == lv[l[i]]->text && a[i].value == lv[l[i]]->value, "with its level"); sym_assert(ends(b[i], t[i] + "\n") && has(b[i], "\t" + lv[l[i]]->text + " ["), "in every sink"); }
   sym_reach("done");
}
