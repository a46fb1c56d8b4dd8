// What a log entry carries: capture, copies, formatting.
#include "h.h"
#include <cstring>
using g3::LogMessage; using g3::FatalMessage;
#ifndef N
#define N 2
#endif
static std::string details_a(const LogMessage& m) { return "<A " + m.level() + ">"; }
static std::string details_b(const LogMessage& m) { return "<B " + m.level() + ">"; }

// ---- the caller's buffers may be reused as soon as the call returns
extern "C" void h_capture() {
   NoSched quiet;
   std::vector<Rec> got; int destroyed = 0;
   std::string text = symstr_upto(N, "text"), func = "f" + symstr(1, "func"), base = "b" + symstr(1, "base"), lvl = symstr(1, "lvl"), expr = symstr(1, "expr");
   sym_assume(base[1] != '/' && base[1] != '\\' && base[1] != '(');
   std::string path = "/d" + symstr(1, "dir") + "/" + base;
   int line = symint("line"); sym_assume(line >= 0 && line <= 99999);
   int value = symint("value"); sym_assume(value < 1000);
   {
      auto w = g3::LogWorker::createLogWorker();
      auto h = w->addSink(std::make_unique<Sink>(&got, &destroyed), &Sink::receive);
      g3::initializeLogging(w.get());

      char fb[16], nb[16], eb[16];
      strcpy(fb, path.c_str()); strcpy(nb, func.c_str()); strcpy(eb, expr.c_str());
      {
         auto lv = std::make_unique<LEVELS>(value, lvl);
         { LogCapture c(fb, line, nb, *lv, eb); std::string tmp = text; c.stream() << tmp; }
         lv->text = "????"; lv->value = 1;
      }
      memset(fb, '#', sizeof fb); memset(nb, '#', sizeof nb); memset(eb, '#', sizeof eb);
   }
   sym_assert(got.size() == 1 && destroyed == 1, "delivered once");
   sym_assert(eq(got[0].text, text), "message text"); sym_assert(eq(got[0].file, base), "file name without directories"); sym_assert(eq(got[0].path, path), "full path");
   sym_assert(eq(got[0].function, func), "function"); sym_assert(eq(got[0].line, std::to_string(line)), "line"); sym_assert(eq(got[0].level, lvl) && got[0].value == value, "level"); sym_assert(eq(got[0].expr, expr), "expression");
   sym_reach("done");
}
static std::thread::id tids[3];
static LogMessage make(int k, LogMessage::LogDetailsFunc f, std::string& file, std::string& func, std::string& text, std::string& lvl, std::string& expr, int& line, int& value, long long& ns) {
   file = "/p" + std::to_string(k) + symstr(1, "file"); func = symstr(1, "func"); text = symstr(1, "text"); lvl = symstr(1, "lvl"); expr = symstr(1, "expr"); line = symint("line"); value = symint("value");
   tids[k] = std::this_thread::get_id(); ns = 1000000000ll * (k + 1) + (long long)sym_bits("ns", 20);
   LogMessage m(file, line, func, LEVELS(value, lvl)); m.setExpression(expr); m.write() = text; m.overrideLogDetailsFunc(f);
   m._timestamp = g3::high_resolution_time_point(std::chrono::nanoseconds(ns));
   return m;
}
static void same(const LogMessage& m, LogMessage::LogDetailsFunc f, const std::string& tag, const std::string& file, const std::string& func, const std::string& text, const std::string& lvl, const std::string& expr, int line, int value, long long ns, const std::string& base) {
   std::thread::id tid = tids[tag[1] == 'A' ? 1 : 2]; std::ostringstream os; os << tid; sym_assert(m.threadID() == os.str(), "and its text");
   sym_assert(eq(m.message(), text), "the text survives"); sym_assert(eq(m.function(), func), "the function survives"); sym_assert(m._line == line, "the line survives"); sym_assert(eq(m.level(), lvl) && m._level.value == value, "the level survives");
   sym_assert(eq(m.expression(), expr), "the expression survives"); sym_assert(eq(m.file(), base), "the file name survives"); sym_assert(eq(m.file_path(), file), "the full path survives");
   sym_assert(m._timestamp.time_since_epoch().count() == ns, "the time stamp survives"); sym_assert(m._call_thread_id == tid, "the thread id survives");
   sym_assert(eq(LogMessage::normalToString(m), tag + lvl + ">" + text + "\n"), "the chosen formatting survives");
}
// ---- copies, moves and assignments carry every field
extern "C" void h_copies() {
   std::string f1, n1, t1, l1, e1, f2, n2, t2, l2, e2; int li1, v1, li2, v2; long long ns1, ns2;
   NoSched quiet; LogMessage a = make(1, details_a, f1, n1, t1, l1, e1, li1, v1, ns1); std::unique_ptr<LogMessage> bp;
   std::thread([&] { bp = std::make_unique<LogMessage>(make(2, details_b, f2, n2, t2, l2, e2, li2, v2, ns2)); }).join(); LogMessage& b = *bp; sym_assert(tids[1] != tids[2], "two threads");
   std::string b1 = a.file(), b2 = b.file();
   switch (sym_choice(7, "how")) {
      case 0: { LogMessage c(a); same(c, details_a, "<A ", f1, n1, t1, l1, e1, li1, v1, ns1, b1); same(a, details_a, "<A ", f1, n1, t1, l1, e1, li1, v1, ns1, b1); break; }
      case 1: { LogMessage c(std::move(a)); same(c, details_a, "<A ", f1, n1, t1, l1, e1, li1, v1, ns1, b1); break; }
      case 2: { b = a; same(b, details_a, "<A ", f1, n1, t1, l1, e1, li1, v1, ns1, b1); same(a, details_a, "<A ", f1, n1, t1, l1, e1, li1, v1, ns1, b1); break; }
      case 3: { b = std::move(a); same(b, details_a, "<A ", f1, n1, t1, l1, e1, li1, v1, ns1, b1); break; }
      case 4: { swap(a, b); same(b, details_a, "<A ", f1, n1, t1, l1, e1, li1, v1, ns1, b1); same(a, details_b, "<B ", f2, n2, t2, l2, e2, li2, v2, ns2, b2); break; }
      case 5: { a = *&a; same(a, details_a, "<A ", f1, n1, t1, l1, e1, li1, v1, ns1, b1); break; }
      default: {
         int sig = symint("sig"); FatalMessage fm(a, sig); FatalMessage g(fm); LogMessage c = g.copyToLogMessage();
         same(fm, details_a, "<A ", f1, n1, t1, l1, e1, li1, v1, ns1, b1); same(g, details_a, "<A ", f1, n1, t1, l1, e1, li1, v1, ns1, b1); same(c, details_a, "<A ", f1, n1, t1, l1, e1, li1, v1, ns1, b1); sym_assert(g._signal_id == sig && fm._signal_id == sig, "the signal survives");
         g3::LogMessageMover mv{std::move(c)}; g3::LogMessageMover mv2(mv); same(mv2.get(), details_a, "<A ", f1, n1, t1, l1, e1, li1, v1, ns1, b1); }
   }
   sym_reach("done");
}
// ---- text form for every level value
extern "C" void h_tostring() {
   env_clock_ns = 1234567890123456789ll;
   std::string func = "g" + symstr(1, "func"), text = symstr_upto(N, "text"), expr = symstr(1, "expr"), lvl = symstr(1, "lvl"), base = symstr(1, "base");
   sym_assume(base[0] != '/' && base[0] != '\\' && base[0] != '(');
   int line = symint("line"), value = symint("value"); sym_assume(line > -1000 && line < 1000);
   LogMessage m("/x/" + base, line, func, LEVELS(value, lvl)); m.write() = text; m.setExpression(expr);
   sym_assert(m.wasFatal() == (value >= 1000), "fatal from the FATAL value on");
   bool custom = sym_choice(2, "custom");
   std::string ts = m.timestamp(), det = custom ? "<A " + lvl + ">" : ts + "\t" + lvl + " [" + base + "->" + func + ":" + std::to_string(line) + "]\t", want;
   if (custom) m.overrideLogDetailsFunc(details_b);
   std::string out = custom ? m.toString(details_a) : m.toString();
   if (value < 1000) { want = det + text + "\n"; sym_reach("normal"); }
   else if (value == 1000) { want = det + "\n\t*******\t EXIT trigger caused by LOG(FATAL) entry: \n\t\"" + text + "\""; sym_reach("fatal"); }
   else if (value == 2000) { want = det + "\n\t*******\t EXIT trigger caused by broken Contract: CHECK(" + expr + ")\n\t\"" + text + "\""; sym_reach("contract"); }
   else if (value == 2001) { want = ts + "\n\n***** FATAL SIGNAL RECEIVED ******* \n" + text + "\n"; sym_reach("signal"); }
   else if (value == 2002) { want = ts + "\n\n***** FATAL EXCEPTION RECEIVED ******* \n" + text + "\n"; sym_reach("exception"); }
   else { want = det + "\t*******UNKNOWN or Custom made Log Message Type\n\t" + text + "\n"; sym_reach("other"); }
   sym_assert(eq(out, want), "the text form for this level");
   if (custom && value < 1000) sym_assert(eq(m.toString(), ts + "\t" + lvl + " [" + base + "->" + func + ":" + std::to_string(line) + "]\t" + text + "\n"), "the next rendering is not coloured by the one before");
   sym_assert(eq(m.message(), text) && eq(m.level(), lvl), "formatting does not alter the entry");
   if (!custom) { sym_assert(ts == "2009/02/13 23:31:30 123456", "time stamp in local time with microseconds"); std::string full = m.toString(LogMessage::FullLogDetailsToString); if (value < 1000) sym_assert(eq(full, ts + "\t" + lvl + " [" + m.threadID() + " " + base + "->" + func + ":" + std::to_string(line) + "]\t" + text + "\n"), "the full form adds the thread id"); }
   sym_reach("done");
}
// ---- file name shown: last path component, for any path
extern "C" void h_filename() {
   std::string p = symstr_upto(N, "path");
   for (char c : p) sym_assume(c != '(');
   LogMessage m(p, 1, "f", INFO);
   std::string base; for (char c : p) { if (c == '/' || c == '\\') base.clear(); else base += c; }
#ifdef G3_LOG_FULL_FILENAME
   base = p;
#endif
   sym_assert(eq(m.file(), base) && eq(m.file_path(), p), "file name and full path");
   sym_reach("done");
}
// ---- the time stamp and thread of an entry are those of the logging call
extern "C" void h_stamp() {
   NoSched quiet;
   static long long now; static int calls; now = 5000000000ll + (long long)sym_bits("t0", 16); calls = 0;
   std::vector<g3::LogMessage> got; struct Keep { std::vector<g3::LogMessage>* o; void receive(g3::LogMessageMover m) { o->push_back(m.get()); } };
   std::thread::id tid; long long before = 0, after = 0;
   env_clock_hook = [] { now += 1 + (calls < 8 ? (long long)sym_bits("dt", 8) : 1); ++calls; return now; };
   {
      auto w = g3::LogWorker::createLogWorker(); auto h = w->addSink(std::make_unique<Keep>(Keep{&got}), &Keep::receive); g3::initializeLogging(w.get());

      std::thread t([&] { tid = std::this_thread::get_id(); before = now; LOG(INFO) << "x"; after = now; }); t.join();
   }
   sym_assert(got.size() == 1, "delivered"); long long ts = got[0]._timestamp.time_since_epoch().count();
   sym_assert(ts > before && ts <= after, "the time stamp lies within the logging call"); sym_assert(got[0]._call_thread_id == tid && tid != std::this_thread::get_id(), "the thread id is the caller's");
   std::ostringstream o; o << tid; sym_assert(got[0].threadID() == o.str(), "printed thread id");
   sym_reach("done");
}
// ---- two threads make an entry at the same time, then each one again: nothing of one gets into the other
extern "C" void h_capture_two() {
   std::vector<Rec> got[1]; std::thread::id ids[2]; std::string text[2], path[2], func[2], lvl[2]; int line[2];
   struct Keep { std::vector<g3::LogMessage>* o; void receive(g3::LogMessageMover m) { o->push_back(m.get()); } }; std::vector<g3::LogMessage> kept;
   for (int i = 0; i < 2; ++i) { text[i] = (i ? "B" : "A") + symstr(1, "text"); path[i] = i ? "/x/b" : "/y/a"; func[i] = (i ? "g" : "f") + symstr(1, "func"); lvl[i] = i ? "L1" : "L0"; line[i] = symint("line"); }
   {
      auto w = g3::LogWorker::createLogWorker(); w->addSink(std::make_unique<Keep>(Keep{&kept}), &Keep::receive); g3::initializeLogging(w.get());
      auto entry = [&](int i) { ids[i] = std::this_thread::get_id(); LEVELS l(100 + i, lvl[i]); LogCapture c(path[i].c_str(), line[i], func[i].c_str(), l); c.stream() << text[i]; };
      std::thread t([&] { entry(1); }); entry(0); t.join();
   }
   sym_assert(kept.size() == 2 && ids[0] != ids[1], "two entries");
   for (auto& m : kept) { int i = m._level.value - 100; sym_assert(i == 0 || i == 1, "level"); sym_assert(eq(m.message(), text[i]), "text"); sym_assert(m.file_path() == path[i] && m.file() == path[i].substr(3) && eq(m.function(), func[i]) && m._line == line[i] && m.level() == lvl[i], "place and level"); sym_assert(m._call_thread_id == ids[i], "thread"); }
   sym_assert(kept[0]._level.value != kept[1]._level.value, "one each");
   sym_reach("done");
}
// ---- printf style capture: complete up to the limit, marked when cut
static void one_f(size_t limit, size_t len, size_t from, size_t nsym) {
   NoSched quiet;
   static std::vector<Rec> got; got.clear(); std::string s(len, 'z');
   for (size_t i = from; i < len && i < from + nsym; ++i) { s[i] = (char)sym_bits("c", 8); sym_assume(s[i] != 0); }
   {
      auto w = g3::LogWorker::createLogWorker(); auto h = w->addSink(std::make_unique<Sink>(&got), &Sink::receive); g3::initializeLogging(w.get());
      LOGF(INFO, "%s", s.c_str());
   }
   sym_assert(got.size() == 1, "delivered");
   if (len < limit) { sym_assert(eq(got[0].text, s), "a message that fits is complete"); sym_reach("fits"); }
   else { sym_assert(eq(got[0].text, s.substr(0, limit - 1) + "[...truncated...]"), "a message that does not fit is cut at the limit and marked"); sym_reach("cut"); }
   sym_reach("done");
}
#ifdef G3_DYNAMIC_MAX_MESSAGE_SIZE
extern "C" void h_printf() { size_t limit = 1 + sym_choice(N, "limit"), len = sym_choice(N + 3, "length"); g3::only_change_at_initialization::setMaxMessageSize(limit); one_f(limit, len, 0, len); }
extern "C" void h_printf_default() { size_t len = 2045 + sym_choice(6, "length"); one_f(2048, len, 2040, 11); }
#else
extern "C" void h_printf() { size_t len = 2045 + sym_choice(6, "length"); one_f(2048, len, 2040, 11); }
#endif
// conversions
extern "C" void h_printf_conv() {
   NoSched quiet;
   std::vector<Rec> got; int v = symint("v"); unsigned u = (unsigned)sym_bits("u", 16); std::string s = symstr_upto(2, "s"); char c = (char)sym_bits("c", 8); sym_assume(c != 0);
   sym_assume(v > -1000 && v < 1000);
   int cond = symint("cond");
   {
      auto w = g3::LogWorker::createLogWorker(); auto h = w->addSink(std::make_unique<Sink>(&got), &Sink::receive); g3::initializeLogging(w.get());
      LOGF(WARNING, "%d|%s|%c%%", v, s.c_str(), c); LOGF_IF(INFO, cond == 7, "%x", u);
   }
   sym_assert(got.size() == (cond == 7 ? 2u : 1u), "the conditional form logs exactly when its condition holds");
   sym_assert(eq(got[0].text, std::to_string(v) + "|" + s + "|" + std::string(1, c) + "%") && got[0].level == "WARNING", "formatted like printf");
   if (got.size() == 2) { char b[16]; snprintf(b, sizeof b, "%x", u); sym_assert(eq(got[1].text, b), "hexadecimal"); }
   sym_reach("done");
}
