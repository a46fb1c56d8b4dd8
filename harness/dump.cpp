// Stack dumps, signal names, raw error output.
#include "h.h"
#include <cstdlib>
#include <cstring>
#ifndef N
#define N 5
#endif
static std::vector<std::string> lines;
static int give(char*** out) { size_t n = 0; for (auto& l : lines) n += sizeof(char*) + l.size() + 1; char* blk = (char*)malloc(n); *out = (char**)blk; char* q = blk + lines.size() * sizeof(char*); for (size_t i = 0; i < lines.size(); ++i) { (*out)[i] = q; memcpy(q, lines[i].data(), lines[i].size()); q += lines[i].size(); *q++ = 0; } return (int)lines.size(); }
static std::string head(int i) { return "\tstack dump [" + std::to_string(i) + "]  "; }
static bool plain(char c) { return (c != '(') & (c != ')') & (c != '+') & (c != ' ') & (c != '_') & (c != 0); }
// arbitrary line
extern "C" void h_line() {
   unsigned at = 1 + sym_choice(2, "at"); lines = {"./app(_ZN4test3fooEv+0x1a) [0x400010]", "./a(main+0x1) [0x1]", "./b(a.b+0x2) [0x2]"}; env_bt_hook = give; env_backtrace_n = 3;
   lines[at] = symstr_upto(N, "line"); bool plus = false; for (char c : lines[at]) plus |= c == '+';
   std::string d = g3::internal::stackdump(); std::string a = head(1), b = head(2), want1 = "main + 0x1\n", want2 = "a.b + 0x2\n", x;
   if (at == 1) { sym_assert(starts(d, a) && ends(d, b + want2), "every frame is listed, in order"); x = d.substr(a.size(), d.size() - a.size() - b.size() - want2.size()); }
   else { sym_assert(starts(d, a + want1 + b), "every frame is listed, in order"); x = d.substr((a + want1 + b).size()); }
   sym_assert(x.size() >= 1 && x.back() == '\n', "a line each"); x.pop_back();
   if (!plus) sym_assert(eq(x, lines[at]), "a line that cannot be decoded is shown as it is");
   else if (!eq(x, lines[at])) { bool sep = false; for (size_t i = 1; i + 3 < x.size(); ++i) sep |= (x[i] == ' ') & (x[i + 1] == '+') & (x[i + 2] == ' '); sym_assert(sep, "a decoded line is shown as name + offset"); sym_reach("decoded"); }
   sym_reach("done");
}
// the known forms
extern "C" void h_forms() {
   env_bt_hook = give; env_backtrace_n = 2; unsigned k = sym_choice(6, "form"); std::string p = symstr_upto(1, "p"), n, dn, o = "0x" + symstr(1, "o"), want; { static const char* nm[] = {"main", "_ZN4test3fooEv", "a.b", "_Zbad"}; static const char* dm[] = {"main", "test::foo()", "a.b", "_Zbad"}; unsigned i = sym_choice(4, "name"); n = nm[i]; dn = dm[i]; } for (auto* s : {&p, &o}) for (char c : *s) sym_assume(plain(c));
   std::string l;
   if (k == 0) { l = "./" + p + "(" + n + "+" + o + ") [0x1]"; want = dn + " + " + o; }
   else if (k == 1) { l = p + "(x) " + "(" + n + "+" + o + ")"; want = dn + " + " + o; }
   else if (k == 2) { l = "./" + p + "(+" + o + ") [0x1]"; want = l; }
   else if (k == 3) { l = "./" + p + "() [0x1]"; want = l; }
   else if (k == 4) { l = "[" + o + "]"; want = l; }
   else { if (n[0] != '_') { n = "_" + n; dn = n; } l = "1  lib 0x7 " + n + " + " + o; want = dn + " + " + o; }
   lines = {"first", l}; std::string d = g3::internal::stackdump(); sym_assert(eq(d, head(1) + want + "\n"), "name and offset of a frame");
   sym_reach("done");
}
// any number of frames; supplied dump
extern "C" void h_frames() {
   unsigned n = sym_choice(8, "n"); static const unsigned cnt[] = {0, 1, 2, 3, 9, 49, 50, 60}; n = cnt[n]; lines.clear(); unsigned cap = n < 50 ? n : 50; for (unsigned i = 0; i < cap; ++i) lines.push_back("./a(f" + std::to_string(i) + "+0x1) [0x1]");
   env_backtrace_n = n; env_bt_hook = give; bool none = sym_choice(2, "none"); if (none) env_bt_hook = [](char*** o) { *o = nullptr; return 0; };
   std::string want; if (!none) for (unsigned i = 1; i < cap; ++i) want += head(i) + "f" + std::to_string(i) + " + 0x1\n";
   unsigned raw = sym_choice(3, "raw"); std::string r = symstr(1 + sym_choice(2, "rawlen"), "raw"); if (raw == 1) { sym_assert(eq(g3::internal::stackdump(r.c_str()), r), "a supplied dump is used as it is"); sym_reach("raw"); }
   else { std::string d = raw ? g3::internal::stackdump("") : g3::internal::stackdump(); sym_assert(d == want, "one line per frame, the first is left out"); }
   sym_reach("done");
}
extern "C" void h_reason() {
   int s = symint("s"); LEVELS l(symint("lv"), "L"); std::string r; static const struct { int n; const char* t; } kn[] = {{SIGABRT, "SIGABRT"}, {SIGFPE, "SIGFPE"}, {SIGSEGV, "SIGSEGV"}, {SIGILL, "SIGILL"}, {SIGTERM, "SIGTERM"}};
   bool known = false; for (auto& k : kn) known |= s == k.n; if (!known) sym_assume(s > -100 && s < 3000);
   r = g3::internal::exitReasonName(l, s);
   for (auto& k : kn) if (s == k.n) { sym_assert(r == k.t, "name of a handled signal"); sym_reach("known"); }
   if (!known) { for (auto& k : kn) sym_assert(r != k.t, "no other number has such a name"); std::string num = std::to_string(s); bool shown = false; for (size_t i = 0; i + num.size() <= r.size(); ++i) shown |= eq(r.substr(i, num.size()), num); sym_assert(shown, "an unknown number is shown"); sym_reach("unknown"); }
   g3::FatalMessage fm(g3::LogMessage("f", 1, "g", FATAL), s); sym_assert(eq(fm.reason(), g3::internal::exitReasonName(FATAL, s)), "reason of a fatal message");
   sym_reach("done");
}
extern "C" void h_raw() {
   static const unsigned len[] = {0, 255, 256, 511, 512, 513, 1024, 2049, 4097, 9000}; unsigned k = sym_choice(10, "long"); std::string t = symstr_upto(N, "t") + std::string(len[k], 'z'), before = env_stderr(); size_t n = g3::internal::writeErrorMessage(t.c_str()); sym_assert(n == t.size(), "reports the length"); sym_assert(eq(env_stderr(), before + t), "exactly the text is written");
   sym_assert(g3::internal::writeErrorMessage(nullptr) == 0 && eq(env_stderr(), before + t), "nothing for a missing text"); sym_reach("done");
}
