// Shared helpers of the harnesses. Only the public interface of g3log is used.
#pragma once
#include "sym.h"
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <g3log/logmessage.hpp>
#include <g3log/loglevels.hpp>
#include <g3log/crashhandler.hpp>
#include <g3log/time.hpp>
#include <memory>
#include <string>
#include <vector>
#include <thread>
#include <future>
#include <csignal>

// n arbitrary non-NUL characters
static inline std::string symstr(size_t n, const char* name) {
   std::string s(n, 'x');
   if (n) sym_bytes(&s[0], n, name);
   for (size_t i = 0; i < n; ++i) sym_assume(s[i] != 0);
   return s;
}
// 0..max arbitrary non-NUL characters (the length is a symbolic choice)
static inline std::string symstr_upto(size_t max, const char* name) { return symstr(sym_choice(max + 1, "len"), name); }
static inline int symint(const char* name) { return (int)sym_bits(name, 32); }
static inline long long symll(const char* name) { return (long long)sym_bits(name, 64); }
// equality without branching on symbolic data: one solver query per comparison
static inline bool eq(const std::string& a, const std::string& b) {
   if (a.size() != b.size()) return false;
   unsigned d = 0;
   for (size_t i = 0; i < a.size(); ++i) d |= (unsigned char)a[i] ^ (unsigned char)b[i];
   return d == 0;
}
static inline bool starts(const std::string& a, const std::string& p) { return a.size() >= p.size() && eq(a.substr(0, p.size()), p); }
static inline bool ends(const std::string& a, const std::string& p) { return a.size() >= p.size() && eq(a.substr(a.size() - p.size()), p); }
// concrete text search (used only on text whose searched-for part is not symbolic)
static inline bool has(const std::string& a, const std::string& p) { return a.find(p) != std::string::npos; }
static inline int count_of(const std::string& a, const std::string& p) { int n = 0; for (size_t i = a.find(p); i != std::string::npos; i = a.find(p, i + p.size())) ++n; return n; }

struct Rec {   // what one sink received
   std::string text, level, file, function, line, thread, expr, path;
   int value = 0;
   bool fatal = false;
};
struct Sink {
   std::vector<Rec>* out;
   int* destroyed = nullptr;
   bool* busy = nullptr;
   Sink(std::vector<Rec>* o, int* d = nullptr, bool* b = nullptr) : out(o), destroyed(d), busy(b) {}
   ~Sink() { if (destroyed) ++*destroyed; }
   void receive(g3::LogMessageMover m) {
      const g3::LogMessage& l = m.get();
      Rec r;
      r.text = l.message(); r.level = l._level.text; r.value = l._level.value; r.file = l.file(); r.function = l.function(); r.line = l.line(); r.expr = l.expression(); r.path = l.file_path(); r.fatal = l.wasFatal();
      out->push_back(std::move(r));
   }
   size_t size() { return out->size(); }
};
struct TextSink {   // receives the formatted text
   std::vector<std::string>* out;
   explicit TextSink(std::vector<std::string>* o) : out(o) {}
   void receive(std::string s) { out->push_back(std::move(s)); }
};
