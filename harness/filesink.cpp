// The default file sink: contents, flush interval, change of file, names, fall back.
#include "h.h"
#include <g3log/filesink.hpp>
#include <cstring>
#ifndef N
#define N 3
#endif
using g3::FileSink; using g3::LogMessage; using g3::LogMessageMover;
static std::string short_details(const LogMessage& m) { return "<" + m.level() + ">"; }
static LogMessage entry(int i, const std::string& text) {
   LogMessage m("/src/file.cpp", 40 + i, "fn", i % 2 ? WARNING : INFO); m.write() = text; return m;
}
static std::string cat(const std::vector<std::string>& v, size_t n) { std::string r; for (size_t i = 0; i < n; ++i) r += v[i]; return r; }
// ---- header, every entry once and in order, closing line; at most interval-1 entries are missing at any time
static std::vector<std::string>* want; static std::string* fname; static size_t* hlen; static size_t begun; static uint64_t every; static const std::string* head_text;
static void look(bool between) {   // the file at this moment: the header and the first entries, whole
   std::string t = env_file(*fname);
   if (!between && begun >= 1 && every <= begun) sym_assert(!t.empty(), "entries are written after the given number of them");
   if (t.empty()) return;
   if (!*hlen) {   // first text in the file
      sym_assert(starts(t, "\t\tg3log created log at: "), "the file starts with its header");
      size_t h = t.find(*head_text); sym_assert(h != std::string::npos, "the header has the given text"); *hlen = h + head_text->size();
   }
   std::string b = t.substr(*hlen); size_t k = 0; bool fits = false;
   for (; k <= begun; ++k) if (cat(*want, k).size() == b.size()) { fits = true; break; }
   sym_assert(fits && eq(b, cat(*want, k)), "the file has the first entries, each once and in order");
   if (!between) sym_assert(begun - k < every, "fewer entries than the flush interval are not yet in the file");
}
extern "C" void h_file() {
   env_no_calendar = 1;
   unsigned n = sym_choice(N + 1, "n"), how = sym_choice(3, "details"); every = symll("every"); sym_assume(every != 0);
   std::vector<std::string> w, texts; want = &w; size_t hl = 0; hlen = &hl; begun = 0; static const std::string dflt = "LOG format"; std::string own = "\thdr" + symstr(1, "hdr") + "\n"; head_text = &own; std::string name;
   sym_assume(own[4] != 'h' && own[4] != '\t');
   {
      FileSink s("pre", "/logs/", "id", (size_t)every); name = s.fileName(); fname = &name;
      s.overrideLogHeader(own); if (how) s.overrideLogDetails(how == 1 ? short_details : LogMessage::FullLogDetailsToString);
      env_write_hook = [] { look(true); };
      for (unsigned i = 0; i < n; ++i) {
         std::string t = symstr_upto(i == 0 ? 2 : 1, "text"); LogMessage m = entry(i, t); texts.push_back(t);
         std::string line = m.toString(how == 0 ? LogMessage::DefaultLogDetailsToString : how == 1 ? short_details : LogMessage::FullLogDetailsToString);
         sym_assert(ends(line, t + "\n"), "the line ends with the text"); w.push_back(line); begun = i + 1;
         s.fileWrite(LogMessageMover(std::move(m))); look(false);
      }
      env_write_hook = nullptr;
   }
   std::string t = env_file(name); size_t skip = n ? hl : 0;
   if (n && !hl) { sym_assert(starts(t, "\t\tg3log created log at: "), "the file starts with its header"); size_t h = t.find(own); sym_assert(h != std::string::npos, "the header has the given text"); skip = h + own.size(); }
   t = t.substr(skip); std::string all = cat(w, n); sym_assert(starts(t, all), "closing the sink writes every entry, once and in order");
   t = t.substr(all.size()); sym_assert(starts(t, "g3log g3FileSink shutdown at: ") && t.back() == '\n' && count_of(t, "\n") == 1, "a single closing line ends the file");
   sym_assert(env_nfiles() == 1 && has(env_stderr(), name), "the place of the file is told");
   sym_reach("done"); if (n && hl) sym_reach("flushed");
}
// the default header
extern "C" void h_header() {
   env_no_calendar = 1; std::string name, t = symstr_upto(2, "t"), line;
   { FileSink s("pre", "/logs", "", 1); name = s.fileName(); LogMessage m = entry(0, t); line = m.toString(); s.fileWrite(LogMessageMover(std::move(m)));
     std::string f = env_file(name); sym_assert(starts(f, "\t\tg3log created log at: ") && ends(f, line), "header, entry"); f.resize(f.size() - line.size()); sym_assert(count_of(f, "created log at") == 1 && count_of(f, "LOG format") == 1, "the default header once");
     size_t a = env_file(name).size(); LogMessage m2 = entry(1, t); line = m2.toString(); s.fileWrite(LogMessageMover(std::move(m2))); sym_assert(eq(env_file(name).substr(a), line), "no second header"); }
   sym_reach("done");
}
// ---- change of the log file
static bool refuse = false;
static std::string mark(int i, const std::string& x) { return "[E" + std::to_string(i) + "=" + x + "]"; }
extern "C" void h_change() {
   env_no_calendar = 1; static long long now; now = 1500000000000000000ll; env_clock_hook = [] { return now; }; refuse = false;
   env_open_hook = [](const char*) -> int { return !refuse; };
   every = symll("every"); sym_assume(every != 0);
   struct Made { std::string x; size_t use; }; std::vector<Made> made; std::vector<std::string> used; bool changed = false, failed = false, again = false;
   static const char* dirs[] = {"/logs/", "/other/"};
   {
      FileSink s("pre", "/logs/", "id", (size_t)every); s.overrideLogDetails(short_details); s.overrideLogHeader("HEAD\n"); used.push_back(s.fileName());
      bool last = false;
      for (int i = 0; i < N; ++i) {
         unsigned op = sym_choice(5, "op");
         if (op == 0) { std::string x = symstr(1, "x"); sym_assume(x[0] >= 'a' && x[0] <= 'z'); LogMessage m = entry(0, mark((int)made.size(), x)); made.push_back({x, used.size() - 1}); s.fileWrite(LogMessageMover(std::move(m))); }
         else if (op <= 2) {   // to the same or the other directory, with the same id
            std::string r = s.changeLogFile(dirs[op - 1], "id"); sym_assert(r.size() > 7 && eq(r, s.fileName()) && starts(r, dirs[op - 1]) && env_exists(r), "the name of the new file, which is in use"); for (auto& u : used) again |= u == r; used.push_back(r); changed = true; }
         else if (op == 3) { std::string cur = s.fileName(), before = env_file(cur); int nf = env_nfiles(); refuse = true; std::string r = s.changeLogFile("/none/", "id"); refuse = false; sym_assert(r.empty(), "a failed change returns an empty name"); sym_assert(eq(s.fileName(), cur), "the old file stays in use"); sym_assert(env_nfiles() == nf && starts(env_file(cur), before), "nothing is lost from it"); failed = true; }
         else { if (last) sym_end_path(); now += 1000000000ll; }
         last = op == 4;
         int present = 0; for (int f = 0; f < env_nfiles(); ++f) present += count_of(env_text(f), "[E"); sym_assert((unsigned long long)(made.size() - present) < (unsigned long long)every, "fewer entries than the flush interval wait for the next flush");
      }
   }
   for (size_t i = 0; i < made.size(); ++i) {
      std::string key = "[E" + std::to_string(i) + "="; int n = 0, at = -1;
      for (int f = 0; f < env_nfiles(); ++f) { std::string t = env_text(f); int c = count_of(t, key); n += c; if (c) { at = f; size_t p = t.find(key); sym_assert(eq(t.substr(p, key.size() + 2), mark((int)i, made[i].x)), "the entry is unchanged"); if (i) { size_t q = t.find("[E" + std::to_string(i - 1) + "="); sym_assert(q == std::string::npos || q < p, "in order"); } } }
      sym_assert(n == 1, "every entry is in the log files once");
      bool ok = false; for (size_t u = made[i].use; u < used.size(); ++u) ok |= used[u] == env_path(at);
      sym_assert(ok, "an entry is in the file in use when it was made, or in a later one");
   }
   std::string t = env_file(used.back()); size_t p = t.rfind("g3log g3FileSink shutdown at: "); sym_assert(p != std::string::npos && t.find('\n', p) == t.size() - 1, "the file in use ends with the closing line");
   int closing = 0; for (int f = 0; f < env_nfiles(); ++f) { std::string x = env_text(f); closing += count_of(x, "shutdown at: "); sym_assert(x.find('\0') == std::string::npos, "only text is written"); } sym_assert(closing == 1, "one closing line");
   sym_reach("done"); if (changed) sym_reach("changed"); if (failed) sym_reach("failed"); if (again) sym_reach("again");
}
// the calendar part of the name follows the clock
extern "C" void h_stamped() {
   static const struct { long long d; const char* t; } day[] = {{0, "19700101"}, {14288, "20090213"}, {19782, "20240229"}, {24836, "20371231"}}; unsigned d = sym_choice(4, "day"); long long h = sym_bits("h", 5), m = sym_bits("m", 6), sc = sym_bits("s", 6), ns = sym_bits("ns", 29); sym_assume(h < 24); sym_assume(m < 60); sym_assume(sc < 60);
   env_clock_ns = (day[d].d * 86400 + h * 3600 + m * 60 + sc) * 1000000000ll + ns; auto two = [](long long v) { std::string r = "00"; r[0] = '0' + v / 10; r[1] = '0' + v % 10; return r; };
   FileSink s("p", "/l", "i"); sym_assert(eq(s.fileName(), std::string("/l/p.i.") + day[d].t + "-" + two(h) + two(m) + two(sc) + ".log"), "the name has the time at which the file was opened"); sym_assert(env_exists(s.fileName()), "the file exists"); sym_reach("done");
}
// ---- names
static bool space(unsigned char c) { return (c == 32) | ((c >= 9) & (c <= 13)); }
static std::string pfx; static bool refused; static std::string* said;
static const char* stamp() { return "19991231-235959"; }
static std::string date_of(const std::string& f) { return f.size() >= 19 ? f.substr(f.size() - 19) : ""; }   // YYYYmmdd-HHMMSS.log
static bool is_date(const std::string& d) { if (d.size() != 19) return false; bool ok = true; for (int i = 0; i < 15; ++i) if (i == 8) ok &= d[i] == '-'; else ok &= (d[i] >= '0') & (d[i] <= '9'); return ok && d.substr(15) == ".log"; }
extern "C" void h_prefix() {
   env_no_calendar = 1; pfx = symstr_upto(N, "prefix"); std::string clean; refused = false;
   for (char c : pfx) { bool gone = space(c) | (c == '/') | (c == '\\') | (c == '.') | (c == ':'); if (!gone) clean += c; }
   static const char bad[] = ",|<>#$%{}[]'\"^!?+*"; for (char c : clean) { bool b = false; for (const char* q = bad; *q; ++q) b |= c == *q; if (b) refused = true; } if (clean.empty()) refused = true;
   env_death_hook = [](int sig) { sym_assert(refused && sig == SIGABRT, "only an empty prefix or one with forbidden characters is refused, by abort"); std::string e = env_stderr(); sym_assert(has(e, "g3log: forced abort due to illegal log prefix [") && env_nfiles() == 0, "the reason is told"); sym_reach("refused"); };
   FileSink s(pfx, "/logs", "id"); sym_assert(!refused, "such a prefix is refused");
   std::string f = s.fileName(), b = "/logs/" + clean + ".id."; sym_assert(starts(f, b) && f.size() == b.size() + 19 && is_date(date_of(f)), "the name is made of the cleaned prefix, the id and the time"); sym_assert(env_exists(f) && env_nfiles() == 1, "that file is opened"); sym_reach("done");
}
extern "C" void h_directory() {
   env_no_calendar = 1; std::string dir = symstr_upto(N, "dir"), id = symstr_upto(1, "id"), d = dir;
   for (char& c : d) if (c == '\\') c = '/';
   bool root = !d.empty() && d[0] == '/'; while (!d.empty() && (d.back() == '/' || d.back() == ' ')) d.pop_back();
   if (!d.empty() || root) d += '/';
   FileSink s("pre", dir, id); std::string f = s.fileName(), b = d + "pre." + (id.empty() ? "" : id + "."); sym_assert(starts(f, b) && f.size() == b.size() + 19 && is_date(date_of(f)), "the file is in the requested directory, with prefix, id and time in its name"); sym_assert(env_exists(f) && env_nfiles() == 1, "that file is opened"); sym_reach("done"); if (root && d.size() == 1) sym_reach("root"); if (dir.empty()) sym_reach("here");
}
// after a change: same prefix, new id
extern "C" void h_renamed() {
   env_no_calendar = 1; std::string p = "a b." , id1 = symstr_upto(1, "id1"), id2 = symstr_upto(1, "id2"), dir = "/" + symstr_upto(1, "dir") + "x/"; FileSink s(p, "/logs", id1);
   std::string r = s.changeLogFile(dir, id2), b = dir + "ab." + (id2.empty() ? "" : id2 + "."); sym_assert(starts(r, b) && r.size() == b.size() + 19 && is_date(date_of(r)) && eq(r, s.fileName()) && env_exists(r), "the new name has the same prefix and the new id"); sym_reach("done");
}
// ---- the requested directory cannot be written
extern "C" void h_fallback() {
   env_no_calendar = 1; bool ok = sym_choice(2, "writable"); refuse = !ok; env_open_hook = [](const char* p) -> int { return !(refuse && !strncmp(p, "/no/", 4)); };
   every = symll("every"); sym_assume(every != 0); unsigned n = sym_choice(3, "n"); std::string id = symstr_upto(1, "id"), name, all; sym_assume(id.empty() || id[0] != '/');
   {
      FileSink s("pre", "/no", id, (size_t)every); s.overrideLogHeader("HEAD\n"); name = s.fileName(); std::string base = "pre." + (id.empty() ? "" : id + ".");
      sym_assert(starts(name, (ok ? "/no/" : "./") + base) && is_date(date_of(name)), "the log goes to the current directory under the same name"); sym_assert(env_nfiles() == 1 && env_exists(name), "one file is opened");
      sym_assert(has(env_stderr(), "Cannot write log file to location") == !ok, "reported on standard error, if and only if it happened");
      for (unsigned i = 0; i < n; ++i) { LogMessage m = entry(i, symstr(1, "t")); all += m.toString(); s.fileWrite(LogMessageMover(std::move(m))); }
   }
   std::string t = env_file(name); if (n) { size_t h = t.find("HEAD\n"); sym_assert(h != std::string::npos, "header"); t = t.substr(h + 5); } sym_assert(starts(t, all) && starts(t.substr(all.size()), "g3log g3FileSink shutdown"), "no entry is lost"); sym_assert(has(env_stderr(), "Log file at: ["), "the place is told at the end");
   sym_reach("done"); if (!ok) sym_reach("fallback");
}
// ---- end to end
static void check_line(const std::string& t, const std::string& text, const char* level, const char* fn) {
   size_t p = t.find(text); sym_assert(p != std::string::npos && count_of(t, text) == 1, "every entry is in the file once");
   size_t a = t.rfind('\n', p); a = a == std::string::npos ? 0 : a + 1; std::string l = t.substr(a, p - a);
   sym_assert(l.size() > 27 && l[4] == '/' && l[7] == '/' && l[10] == ' ' && l[13] == ':' && l[16] == ':' && l[19] == ' ', "time"); sym_assert(has(l, level), "level"); sym_assert(has(l, "filesink.cpp->") && has(l, fn), "location"); sym_assert(t[p + text.size()] == '\n', "complete");
}
static void other(const std::string* b) { for (int i = 0; i < N; ++i) LOG(WARNING) << b[i]; }
extern "C" void h_default() {
   bool blank = sym_choice(2, "blank"); env_no_calendar = 1; std::string a[N], b[N], name; for (int i = 0; i < N; ++i) { a[i] = "A" + std::to_string(i) + ":" + symstr(1, "a"); b[i] = "B" + std::to_string(i) + ":" + symstr(1, "b"); sym_assume(a[i][3] != '\n' && b[i][3] != '\n'); }
   {
      auto w = g3::LogWorker::createLogWorker(); auto h = w->addDefaultLogger("pre", "/logs"); g3::initializeLogging(w.get());
      std::thread t(other, b); for (int i = 0; i < N; ++i) LOG(INFO) << a[i]; if (blank) LOG(DEBUG) << ""; t.join();
      name = h->call(&FileSink::fileName).get(); sym_assert(starts(name, "/logs/pre.g3log."), "the name of the file");
   }
   sym_assert(env_nfiles() == 1, "one file"); std::string f = env_file(name); size_t p = f.find("(uuu*"); sym_assert(p != std::string::npos, "header"); p = f.find("\n\n", p); sym_assert(p != std::string::npos, "header"); std::string t = f.substr(p + 2);
   for (int i = 0; i < N; ++i) { check_line(t, a[i].substr(0, 3) + a[i].substr(3), "INFO", "h_default"); check_line(t, b[i], "WARNING", "other"); if (i) { sym_assert(t.find(a[i - 1].substr(0, 3)) < t.find(a[i].substr(0, 3)), "order of the first thread"); sym_assert(t.find(b[i - 1].substr(0, 3)) < t.find(b[i].substr(0, 3)), "order of the second thread"); } }
   sym_assert(count_of(t, "\n") == 2 * N + 1 + blank && count_of(t, "DEBUG [filesink.cpp->") == blank && has(t, "shutdown at"), "nothing else but the closing line"); sym_reach("done");
}

// ---- the process ends by a fatal event: the file is complete, fatal entry included, whoever holds on to the sink
static std::vector<std::string> before; static std::string ffile, ftext; static int fsig;
static void file_on_death(int sig) {
   sym_assert(sig == fsig, "signal"); std::string f = env_file(ffile); size_t at = 0;
   for (auto& m : before) { size_t p = f.find(m, at); sym_assert(p != std::string::npos, "an entry logged before the fatal event is in the file when the process dies"); at = p + m.size(); sym_assert(f.find(m, at) == std::string::npos, "once"); }
   size_t p = f.find(ftext, at); sym_assert(p != std::string::npos, "the fatal entry follows in the file"); sym_assert(f.find("stack dump [1]", p) != std::string::npos && f.find("Exiting after fatal event", p) != std::string::npos, "with its stack trace and end"); sym_reach("died"); sym_reach("done");
}
extern "C" void h_fatal_file() {
#ifdef CALL
   unsigned held = 2;
#else
   OneSched quiet; unsigned held = sym_choice(2, "held");
#endif
   env_no_calendar = 1; unsigned kind = sym_choice(3, "kind"), n = sym_choice(N + 1, "n"); env_death_hook = file_on_death; ftext = kind < 2 ? "F:" + symstr(1, "f") : "SIGSEGV"; fsig = kind < 2 ? SIGABRT : SIGSEGV;
   for (unsigned i = 0; i < n; ++i) { before.push_back("A" + std::to_string(i) + ":" + symstr(1, "a")); sym_assume(before[i][3] != 'A' && before[i][3] != 'F'); }
   auto w = g3::LogWorker::createLogWorker(); auto h = w->addDefaultLogger("pre", "/logs"); g3::initializeLogging(w.get()); ffile = h->call(&FileSink::fileName).get();
   std::shared_ptr<g3::internal::Sink<FileSink>> keep; if (held == 1) keep = h->sink().lock(); auto* hp = h.get();
   for (auto& m : before) LOG(INFO) << m;
   std::thread t; if (held == 2) t = std::thread([hp] { hp->call(&FileSink::fileName); });
   if (kind == 0) LOG(FATAL) << ftext; else if (kind == 1) CHECK(ftext.empty()) << ftext; else raise(SIGSEGV);
   sym_fail("returned", "execution continued after a fatal event");
}
