// Level thresholds, run-time level switches, and what the logging macros do with them.
#include "h.h"
#include <map>
#ifndef N
#define N 3
#endif
extern "C" void h_wasfatal() {
   int v = symint("v"); LEVELS l(v, "X"); sym_assert(g3::internal::wasFatal(l) == (v >= 1000), "fatal exactly from the FATAL value on");
   sym_assert(!g3::internal::wasFatal(G3LOG_DEBUG) && !g3::internal::wasFatal(INFO) && !g3::internal::wasFatal(WARNING) && g3::internal::wasFatal(FATAL) && g3::internal::wasFatal(g3::internal::CONTRACT) && g3::internal::wasFatal(g3::internal::FATAL_SIGNAL), "the predefined levels");
   LEVELS m(symint("w"), symstr(1, "t")), n(m), o(1, "q"); o = m; sym_assert(n == m && o == m && !(o != m), "levels copy as values"); LEVELS p(m.value + 1, m.text); sym_assert(p != m, "a different value is a different level");
   sym_reach("done");
}
#ifdef G3_DYNAMIC_LOGGING
struct RefLevel { int value; std::string text; bool on; };
static std::vector<RefLevel> ref;   // sorted by value
static RefLevel* rfind(int v) { for (auto& r : ref) if (r.value == v) return &r; return nullptr; }
static void radd(int v, const std::string& t, bool on) {
   if (auto* r = rfind(v)) { r->text = t; r->on = on; return; }
   size_t i = 0; while (i < ref.size() && ref[i].value < v) ++i; ref.insert(ref.begin() + i, RefLevel{v, t, on});
}
static void rreset() { ref = {{100, "DEBUG", true}, {300, "INFO", true}, {500, "WARNING", true}, {1000, "FATAL", true}}; }
static void agree(const LEVELS& probe) {
   namespace L = g3::log_levels;
   auto* r = rfind(probe.value);
   bool on = g3::logLevel(probe);
   sym_assert(on == (r && r->on), "a level is enabled exactly when registered and switched on");
   sym_assert(L::getStatus(probe) == (!r ? L::status::Absent : r->on ? L::status::Enabled : L::status::Disabled), "reported status");
}
static void agree_all() {
   auto all = g3::log_levels::getAll(); sym_assert(all.size() == ref.size(), "exactly the registered levels are listed");
   size_t i = 0; std::string txt;
   for (auto& kv : all) { sym_assert(i < ref.size() && kv.first == ref[i].value && kv.second.level.value == ref[i].value && kv.second.status.value() == ref[i].on && eq(kv.second.level.text, ref[i].text), "the snapshot lists each level with its state"); txt += "name: " + ref[i].text + " level: " + std::to_string(kv.first) + " status: " + (ref[i].on ? "1" : "0") + "\n"; ++i; }
#ifndef NOTEXT
   sym_assert(eq(g3::log_levels::to_string(), txt) && eq(g3::log_levels::to_string(all), txt), "the printed form");
#endif
}
// arbitrary sequence of level operations against a reference
extern "C" void h_levels() {
   namespace L = g3::log_levels; namespace I = g3::only_change_at_initialization;
   rreset();
#ifdef SYMVAL
   LEVELS c1(symint("c1"), "ONE");
   sym_assume(c1.value > -10000 && c1.value < 10000);
#else
   LEVELS c1(301, "ONE");
#endif
   LEVELS c2(1001, "TWO");
#ifdef FEW
   const LEVELS* pick[] = {&INFO, &FATAL, &c1};
#else
   const LEVELS* pick[] = {&G3LOG_DEBUG, &INFO, &WARNING, &FATAL, &c1, &c2};
#endif
#ifdef SYMVAL
   if (sym_choice(2, "pre")) { bool en = sym_choice(2, "en"); I::addLogLevel(c1, en); radd(c1.value, c1.text, en); }
#endif
   for (int k = 0; k < N; ++k) {
      unsigned op = sym_choice(8, "op");
      const LEVELS* l = op <= 4 ? pick[sym_choice(sizeof pick / sizeof *pick, "level")] : &INFO;
      switch (op) {
         case 0: { bool en = sym_choice(2, "en"); if (en && sym_choice(2, "short")) I::addLogLevel(*l); else I::addLogLevel(*l, en); radd(l->value, l->text, en); break; }
         case 1: L::setHighest(*l); if (rfind(l->value)) for (auto& r : ref) r.on = r.value >= l->value; break;
         case 2: { bool en = sym_choice(2, "en"); L::set(*l, en); if (auto* r = rfind(l->value)) r->on = en; break; }
         case 3: L::disable(*l); if (auto* r = rfind(l->value)) r->on = false; break;
         case 4: L::enable(*l); if (auto* r = rfind(l->value)) r->on = true; break;
         case 5: L::disableAll(); for (auto& r : ref) r.on = false; break;
         case 6: L::enableAll(); for (auto& r : ref) r.on = true; break;
         case 7: I::reset(); rreset(); break;
      }
   }
   LEVELS probe(symint("probe"), "?"); agree(probe);
   agree_all();
   agree(c1); agree(c2);
   sym_reach("done");
}
// asking about a level changes nothing
extern "C" void h_level_query() {
   rreset(); LEVELS x(symint("x"), "X"); bool known = x.value == 100 || x.value == 300 || x.value == 500 || x.value == 1000;
   int evaluated = 0; auto f = [&] { ++evaluated; return "t"; };
   sym_assert(g3::logLevel(x) == known, "an unregistered level is disabled"); LOG_IF(x, f() == nullptr) << "never";
   sym_assert(evaluated == (known ? 1 : 0), "the condition of a disabled entry is not evaluated");
   sym_assert(g3::log_levels::getStatus(x) == (known ? g3::log_levels::status::Enabled : g3::log_levels::status::Absent), "a level stays unregistered when it is only asked about");
   g3::log_levels::enableAll(); sym_assert(g3::logLevel(x) == known, "enabling everything does not register it"); sym_assert(g3::log_levels::getAll().size() == 4, "the list of levels is unchanged");
   sym_reach("done");
}
// switching levels while other threads log and switch
extern "C" void h_levels_conc() {
   namespace L = g3::log_levels; unsigned a = sym_choice(4, "a"), b = sym_choice(6, "b"); bool e0 = sym_choice(2, "e0"); L::set(INFO, e0);
   auto act = [](unsigned k) { switch (k) { case 0: L::disable(INFO); break; case 1: L::enable(INFO); break; case 2: L::setHighest(WARNING); break; case 3: L::disableAll(); break; } };
   bool seen = false; LEVELS unk(777, "unknown"); int dummy = symint("d");
   std::thread t([&] { act(a); });
   if (b < 4) act(b); else if (b == 4) { seen = g3::logLevel(INFO); sym_assert(!g3::logLevel(unk), "unregistered"); } else { auto m = L::getAll(); sym_assert(m.size() == 4 && m[300].level.text == "INFO", "snapshot"); }
   t.join();
   bool on = g3::logLevel(INFO);
   bool ra = a == 1, rb = b == 1;   // state each action leaves INFO in
   if (b < 4) sym_assert(on == ra || on == rb, "the final state is one of those requested"); else { sym_assert(on == ra, "the final state is the one requested"); if (b == 4) sym_assert(seen == e0 || seen == ra, "a reader sees the old or the new state"); }
   sym_assert(L::getAll().size() == 4 && L::getAll()[300].level.text == "INFO" && dummy == dummy, "the set of levels is intact");
   sym_reach("done");
}
#endif
// what the macros do
static int evals = 0; static int ev(int x) { ++evals; return x; }
static std::vector<Rec>* fatals; static std::string fatal_reason; static int fatal_sig;
static void on_fatal(g3::FatalMessagePtr p) { Rec r; r.text = p.get()->message(); r.value = p.get()->_level.value; r.level = p.get()->_level.text; r.expr = p.get()->expression(); fatal_sig = p.get()->_signal_id; fatals->push_back(r); }
#ifndef FORMS
#define FORMS 6
#define BASE 0
#endif
extern "C" void h_macros() {
   NoSched quiet;
   std::vector<Rec> got, fat; fatals = &fat; evals = 0; std::string t = symstr_upto(2, "t");
   int cond = symint("cond"), x = symint("x"); sym_assume(x > -100 && x < 1000); unsigned form = BASE + sym_choice(FORMS, "form"); int value = symint("value"); LEVELS lv(value, "LV");
   bool on = true, holds = cond > 5, contract = form == 4 || form == 5, otherwise = false; const char* expr = "ev(cond) > 5";
   {
      auto w = g3::LogWorker::createLogWorker(); auto h = w->addSink(std::make_unique<Sink>(&got), &Sink::receive); g3::initializeLogging(w.get()); g3::setFatalExitHandler(on_fatal);

#ifdef G3_DYNAMIC_LOGGING
      unsigned st = sym_choice(3, "state"); if (st) { g3::only_change_at_initialization::addLogLevel(lv, st == 1); on = st == 1; } else on = value == 100 || value == 300 || value == 500 || value == 1000;
#endif
      switch (form) {
         case 0: LOG(lv) << t << ev(x); break;
         case 1: LOG_IF(lv, ev(cond) > 5) << t << x; break;
         case 2: LOGF(lv, "%s%d", t.c_str(), ev(x)); break;
         case 3: LOGF_IF(lv, ev(cond) > 5, "%s%d", t.c_str(), x); break;
         case 4: CHECK(ev(cond) > 5) << t << x; break;
         case 5: CHECKF(ev(cond) > 5, "%s%d", t.c_str(), x); break;
         // conditions that are no plain comparison of type bool, and statements inside others
         case 6: holds = cond & 6; contract = true; expr = "ev(cond) & 6"; CHECK(ev(cond) & 6) << t << x; break;
         case 7: holds = cond & 6; contract = true; expr = "ev(cond) & 6"; CHECKF(ev(cond) & 6, "%s%d", t.c_str(), x); break;
         case 8: contract = true; CHECK_F(ev(cond) > 5, "%s%d", t.c_str(), x); break;
         case 9: holds = cond & 6; LOG_IF(lv, ev(cond) & 6) << t << x; break;
         case 10: holds = cond & 6; LOGF_IF(lv, ev(cond) & 6, "%s%d", t.c_str(), x); break;
         case 11: holds = cond == 7 || cond == 9; contract = true; expr = "ev(cond) == 7 || cond == 9"; CHECK(ev(cond) == 7 || cond == 9) << t << x; break;
         case 12: holds = cond == 7 ? true : cond > 20; LOG_IF(lv, ev(cond) == 7 ? true : cond > 20) << t << x; break;
         case 13: holds = cond > 5; if (cond > 5) LOG_IF(lv, ev(1)) << t << x; else otherwise = true; break;
         case 14: holds = cond > 5; contract = true; if (!(cond > 5)) CHECK(ev(0)) << t << x; else otherwise = true; expr = "ev(0)"; break;
      }
   }
   bool emit = contract ? !holds : on && (form == 0 || form == 2 || holds);
   bool fatal = emit && (contract || value >= 1000);
   int once = form == 13 ? holds && on : form == 14 ? !holds : contract || on;
   sym_assert(evals == once, "operands are evaluated exactly once, and not at all for a disabled level");
   sym_assert(otherwise == (form == 13 ? !holds : form == 14 && holds), "a statement is one statement: an else belongs to the if before it");
   sym_assert(got.size() == (emit && !fatal ? 1u : 0u) && fat.size() == (fatal ? 1u : 0u), "an entry is made exactly when the level is enabled and the condition asks for it");
   std::string want = t + std::to_string(x);
   if (emit && !fatal) { sym_assert(eq(got[0].text, want) && got[0].value == value && got[0].file == "level.cpp", "content of the entry"); sym_reach("entry"); }
   if (fatal) { sym_assert(starts(fat[0].text, want), "content of the fatal entry"); sym_assert(fatal_sig == SIGABRT, "a failed contract or fatal entry ends with the abort signal"); sym_assert(fat[0].value == (contract ? 2000 : value), "fatal level"); if (contract) sym_assert(fat[0].expr == expr, "the broken contract is named"); sym_reach("fatal"); }
   sym_reach("done");
}
