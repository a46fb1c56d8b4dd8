// Time stamps: fraction digits, format expansion, formatting limits, clock conversion.
#include "h.h"
#include <cstring>
#include <cstdio>
using namespace g3;
#ifndef N
#define N 5
#endif
static std::string digits(unsigned v, int n) { std::string s(n, '0'); for (int i = n - 1; i >= 0; --i) { s[i] = '0' + v % 10; v /= 10; } return s; }
// n decimal digits as separate symbols: value and text
struct Dec { long long v = 0; std::string s; };
static Dec dec(int n, const char* name) { Dec d; for (int i = 0; i < n; ++i) { unsigned x = (unsigned)sym_bits(name, 4); sym_assume(x < 10); d.v = d.v * 10 + x; d.s += (char)('0' + x); } return d; }
// ---- fraction of a second, any time point sec + ns/1e9 with 0 <= ns < 1e9
extern "C" void h_fraction() {
   Dec ns = dec(9, "ns"); 
#ifdef WHOLE
   env_no_calendar = 1;   // the calendar is not involved: formats with fraction codes only
   long long sec = (long long)(int)sym_bits("sec", 32);
#else
   static const long long secs[] = {0, 1, -1, 1700000000ll, 4102444800ll, -2, -86400, 9223372034ll, -9223372035ll};
   long long sec = secs[sym_choice(sizeof secs / sizeof *secs, "sec")];
#endif
   static const char* fm[] = {"%f3", "%f6", "%f9", "%f"}; static const int nd[] = {3, 6, 9, 9}; unsigned k = sym_choice(4, "kind");
   system_time_point tp{std::chrono::nanoseconds(sec * 1000000000ll + ns.v)};
   std::string s = g3::localtime_formatted(tp, fm[k]);
   sym_assert((int)s.size() == nd[k], "exactly as many digits as the unit has");
   sym_assert(eq(s, ns.s.substr(0, nd[k])), "the digits are the truncated fraction of the second, zero padded");
   sym_reach("done");
}
// ---- %f, %f3, %f6, %f9 in a format; every format of N letters over the alphabet
extern "C" void h_expand() {
   static const char al[] = "%f369qa";
   size_t n = sym_choice(N + 1, "len"); std::string fmt;
   for (size_t i = 0; i < n; ++i) fmt += al[sym_choice(sizeof al - 1, "ch")];
   Dec ns = dec(9, "ns");
   system_time_point tp{std::chrono::seconds(1700000000) + std::chrono::nanoseconds(ns.v)};
   std::string want;
   for (size_t i = 0; i < n;) {
      if (fmt[i] == '%' && i + 1 < n && fmt[i + 1] == 'f') {
         char c = i + 2 < n ? fmt[i + 2] : 0;
         want += ns.s.substr(0, c == '3' ? 3 : c == '6' ? 6 : 9);
         i += (c == '3' || c == '6' || c == '9') ? 3 : 2;
      } else if (fmt[i] == '%') sym_end_path();   // other conversions: h_format
      else want += fmt[i++];
   }
   std::string got = g3::localtime_formatted(tp, fmt);
   sym_assert(eq(got, want), "every fraction code is replaced by its digits and all other text is kept");
   sym_reach("done");
}
// longer formats, out of codes and separators
extern "C" void h_expand_words() {
   static const char* w[] = {"%f3", "%f6", "%f9", "%f", ":", "f%f3", "%f2"}; static const char* const r[] = {"3", "6", "9", "9", ":", "f3", "92"};
   
#ifdef ANY
   Dec ns = dec(9, "ns");
#else
   Dec ns; static const char* const v[] = {"007008009", "987654321", "000000000"}; static const long long n[] = {7008009, 987654321, 0}; unsigned c = sym_choice(3, "ns"); ns.v = n[c]; ns.s = v[c];
#endif
   std::string fmt, want;
   for (int i = 0; i < N; ++i) { unsigned k = sym_choice(7, "word"); fmt += w[k]; for (const char* p = r[k]; *p; ++p) { if (k == 6 && *p == '2') want += "2"; else if (*p >= '0' && *p <= '9') want += ns.s.substr(0, *p - '0'); else want += *p; } if (k == 3) { fmt += "x"; want += "x"; } }
   system_time_point tp{std::chrono::seconds(1700000000) + std::chrono::nanoseconds(ns.v)};
   sym_assert(eq(g3::localtime_formatted(tp, fmt), want), "every fraction code is replaced by its digits and all other text is kept");
   sym_reach("done");
}
// arbitrary bytes around a code
extern "C" void h_expand_any() {
   std::string a = symstr_upto(2, "a"), b = symstr_upto(2, "b"); unsigned ns = 7008009;
   std::string fmt = a + "%f6" + b; for (char c : a) sym_assume(c != '%'); for (char c : b) sym_assume(c != '%');
   system_time_point tp{std::chrono::nanoseconds(1000000000ll * 5 + ns)};
   sym_assert(eq(g3::localtime_formatted(tp, fmt), a + "007008" + b), "other text is kept");
   sym_assert(eq(g3::localtime_formatted(tp, a), a), "a format without fraction code is unchanged");
   sym_reach("done");
}
// ---- formatting never overruns: long literal formats around the internal limit
extern "C" void h_puttime() {
   struct tm t; memset(&t, 0, sizeof t); t.tm_year = 109; t.tm_mon = sym_choice(12, "mon"); t.tm_mday = 1 + (int)sym_bits("day", 4); t.tm_hour = (int)sym_bits("hour", 4); t.tm_min = (int)sym_bits("min", 5); t.tm_sec = (int)sym_bits("sec", 5);
   unsigned k = sym_choice(4, "k");
   if (k == 0) {
      std::string s = g3::put_time(&t, "%Y/%m/%d %H:%M:%S");
      sym_assert(eq(s, "2009/" + digits(t.tm_mon + 1, 2) + "/" + digits(t.tm_mday, 2) + " " + digits(t.tm_hour, 2) + ":" + digits(t.tm_min, 2) + ":" + digits(t.tm_sec, 2)), "calendar fields");
      sym_reach("fields");
   } else if (k == 1) {
      size_t len = 1018 + sym_choice(9, "len"); std::string f(len, 'q'); f[0] = symstr(1, "c")[0]; f[len - 1] = symstr(1, "c")[0]; sym_assume(f[0] != '%' && f[len - 1] != '%');
      std::string s = g3::put_time(&t, f.c_str()); sym_assert(eq(s, f), "literal text of any length comes back whole");
      sym_reach("long");
   } else if (k == 2) {
      size_t len = 1012 + sym_choice(12, "len"); std::string f(len, 'q'); f += "%Y"; std::string s = g3::put_time(&t, f.c_str());
      sym_assert(eq(s, std::string(len, 'q') + "2009") || eq(s, f), "too long an expansion yields the format itself"); sym_assert(len + 4 >= 1024 || s.size() == len + 4, "what fits is expanded");
      sym_reach("grow");
   } else { std::string s = g3::put_time(&t, ""); sym_assert(s.empty(), "an empty format gives an empty text"); sym_reach("empty"); }
   sym_reach("done");
}
// ---- whole formatted time: seconds and fraction belong to the same instant
extern "C" void h_format() {
   static const long long days[] = {0, 14288, -1, 19723, 11016, 24836};   // days relative to the epoch
   static const char* dates[] = {"1970/01/01", "2009/02/13", "1969/12/31", "2024/01/01", "2000/02/29", "2037/12/31"};
   unsigned d = sym_choice(6, "day");
   long long h = sym_bits("h", 5), m = sym_bits("m", 6), sc = sym_bits("s", 6); sym_assume(h < 24); sym_assume(m < 60); sym_assume(sc < 60); Dec ns = dec(9, "ns");
   system_time_point tp{std::chrono::nanoseconds((days[d] * 86400 + h * 3600ll + m * 60 + sc) * 1000000000ll + ns.v)};
   unsigned k = sym_choice(3, "format");
   if (k == 0) { std::string s = g3::localtime_formatted(tp, "%Y/%m/%d %H:%M:%S %f3|%f6"); sym_assert(eq(s, std::string(dates[d]) + " " + digits(h, 2) + ":" + digits(m, 2) + ":" + digits(sc, 2) + " " + ns.s.substr(0, 3) + "|" + ns.s.substr(0, 6)), "date, time and fraction describe the same instant"); }
   if (k == 1) { std::string s = g3::localtime_formatted(tp, "%f9%S%M%H%j"); sym_assert(s.size() == 18 && eq(s.substr(0, 15), ns.s + digits(sc, 2) + digits(m, 2) + digits(h, 2)), "fields in any order"); }
   if (k == 2) { struct tm t = g3::localtime((time_t)(days[d] * 86400 + h * 3600 + m * 60 + sc)); sym_assert(t.tm_sec == sc && t.tm_min == m && t.tm_hour == h, "broken-down time"); }
   sym_reach("done");
}
// ---- two times one after the other in one thread, in several time zones: the second is not coloured by the first
#ifndef ZONE
#define ZONE 0
#endif
extern "C" void h_twice() {
   static const long long days[] = {0, 14331, 14332, -1}; static const char* dates[] = {"19700101", "20090328", "20090329", "19691231"};
   unsigned z = ZONE; env_set_zone(z); std::string got[2], want[2];
   for (int i = 0; i < 2; ++i) {
      unsigned d = sym_choice(4, "day"), f = sym_choice(i ? 3 : 2, "format");
      long long h = 23, m = 59, s = 59; if (i) { h = sym_bits("h", 5), m = sym_bits("m", 6), s = sym_bits("s", 6); sym_assume(h < 24); sym_assume(m < 60); sym_assume(s < 60); if (d == 3 || (d == 0 && z % 2)) { h = d ? 22 : 0; m = 33; s = 29 * (long long)sym_choice(3, "sec"); } else if (z == 3 && d == 2) { static const long long hs[] = {0, 1, 3, 4, 23}; h = hs[sym_choice(5, "hour")]; } } else if (sym_choice(2, "start")) h = m = s = 0;
      long long off = z == 1 ? 19800 : z == 2 ? -12600 : z == 3 ? 3600 : 0; if (z == 3 && d == 2) { sym_assume(h != 2); if (h > 2) off = 7200; }   // the hour that does not exist
      long long t = days[d] * 86400 + h * 3600 + m * 60 + s - off;
      static const char* fm[] = {"%H:%M:%S", "%H.%M.%S", "%Y%m%d%H%M%S"};
      want[i] = f == 0 ? digits(h, 2) + ":" + digits(m, 2) + ":" + digits(s, 2) : f == 1 ? digits(h, 2) + "." + digits(m, 2) + "." + digits(s, 2) : dates[d] + digits(h, 2) + digits(m, 2) + digits(s, 2);
      got[i] = g3::localtime_formatted(system_time_point{std::chrono::seconds(t)}, fm[f]);
   }
   for (int i = 0; i < 2; ++i) sym_assert(eq(got[i], want[i]), "the text shows this time, in this format");
   sym_reach("done");
}
// ---- conversion of time stamps keeps differences and order
extern "C" void h_convert() {
   static long long base; base = 1600000000000000000ll; static int k; k = 0;
   env_clock_hook = [] { ++k; return base += (long long)sym_bits("dt", 32); };
   long long a = symll("a"), b = symll("b"); sym_assume(a > -4000000000000000000ll && a < 4000000000000000000ll && b > -4000000000000000000ll && b < 4000000000000000000ll);
   auto pa = high_resolution_time_point(std::chrono::nanoseconds(a)), pb = high_resolution_time_point(std::chrono::nanoseconds(b));
   auto sa = g3::to_system_time(pa), sb = g3::to_system_time(pb), sa2 = g3::to_system_time(pa);
   long long xa = sa.time_since_epoch().count(), xb = sb.time_since_epoch().count();
   sym_assert(xb - xa == b - a, "differences between time stamps are kept exactly"); sym_assert(sa == sa2, "the same time stamp always converts to the same time"); sym_assert((xa < xb) == (a < b), "order is kept");
   long long off = xa - a; sym_assert(off >= 0 && off <= 0xffffffffll, "the offset is the one measured between the two clocks at the first conversion");
   sym_reach("done");
}
// ---- from several threads at the same time
extern "C" void h_convert_two() {
   static long long base; base = 1600000000000000000ll; env_clock_hook = [] { __symx_raceoff(1); long long r = base += 1000; __symx_raceoff(0); return r; };
   unsigned first = sym_choice(2, "first"); long long s[2], a = symll("a"); std::string out[2]; struct tm t[2]; long long conv[2], d = symll("d"); sym_assume(a > -4000000000000000000ll && a < 4000000000000000000ll); sym_assume(d >= 0 && d < 1000000000000ll);
   for (int i = 0; i < 2; ++i) { s[i] = (int)sym_bits("sec", 6); sym_assume(s[i] < 60); }
   auto work = [&](int i) {
      auto c = [&] { conv[i] = g3::to_system_time(high_resolution_time_point(std::chrono::nanoseconds(a + i * d))).time_since_epoch().count(); };
      if (first) c();
      long long at = 14288ll * 86400 + (i + 3) * 3600 + s[i]; t[i] = g3::localtime((time_t)at); out[i] = g3::localtime_formatted(system_time_point{std::chrono::nanoseconds(at * 1000000000ll + 5000000)}, "%H%M%S%f3");
      if (!first) c();
   };
   { std::thread x(work, 1); work(0); x.join(); }
   for (int i = 0; i < 2; ++i) { sym_assert(t[i].tm_sec == s[i] && t[i].tm_hour == i + 3 && t[i].tm_mday == 13, "each thread gets its own broken-down time"); sym_assert(eq(out[i], "0" + std::to_string(i + 3) + "00" + digits(s[i], 2) + "005"), "each thread gets its own text"); }
   sym_assert(conv[1] - conv[0] == d, "one offset for all threads");
   sym_reach("done");
}
