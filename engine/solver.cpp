#include "solver.h"
#include <z3++.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <unistd.h>
#include <atomic>
#include <thread>

SolverStats gS;
unsigned gTimeoutMs = 20000;
std::string gCross; double gCrossTime = 10;

static z3::context& ctx() { static z3::context* c = new z3::context(); return *c; }
// hard per-query limit: z3's own timeout is not always honoured
static std::atomic<long long> gDeadline{0}; double gEndTime = 0;
static long long nowMs() { return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void watchdog() { static bool on = false; if (on) return; on = true; std::thread([] { for (;;) { usleep(100000); long long d = gDeadline; if (d && nowMs() > d) ctx().interrupt(); } }).detach(); }
static unsigned budgetMs() { unsigned t = gTimeoutMs; if (gEndTime > 0) { long long left = (long long)gEndTime - nowMs(); if (left < 1000) left = 1000; if (left < t) t = (unsigned)left; } return t; }
static std::unordered_map<E, z3::expr>& bvCache() { static auto* m = new std::unordered_map<E, z3::expr>(); return *m; }
static std::unordered_map<E, z3::expr>& boCache() { static auto* m = new std::unordered_map<E, z3::expr>(); return *m; }

static bool isCmpK(Kind k) { return k >= K_Eq && k <= K_Sle; }
static z3::expr bvConst(u128 v, unsigned w) {
  if (w <= 64) return ctx().bv_val((uint64_t)v, w);
  return z3::concat(ctx().bv_val((uint64_t)(v >> 64), w - 64), ctx().bv_val((uint64_t)v, 64));
}
static const z3::expr& tr(E e, bool boolean);

// make sure children are translated first using an explicit stack (ite chains can be deep)
static void pre(E root) {
  std::vector<E> st{root};
  while (!st.empty()) {
    E x = st.back();
    if (bvCache().count(x)) { st.pop_back(); continue; }
    bool ok = true;
    for (E ch : {x->a, x->b, x->c}) if (ch && !bvCache().count(ch)) { st.push_back(ch); ok = false; }
    if (!ok) continue;
    st.pop_back();
    auto bv = [&](E y) -> z3::expr { return bvCache().at(y); };
    auto bo = [&](E y) -> z3::expr {
      auto it = boCache().find(y); if (it != boCache().end()) return it->second;
      return bvCache().at(y) == ctx().bv_val(1, 1);
    };
    auto setBool = [&](z3::expr b) {
      boCache().emplace(x, b);
      bvCache().emplace(x, z3::ite(b, ctx().bv_val(1, 1), ctx().bv_val(0, 1)));
    };
    switch (x->k) {
    case K_Const: {
      bvCache().emplace(x, bvConst(x->val, x->w));
      if (x->w == 1) boCache().emplace(x, ctx().bool_val(x->val != 0));
      break;
    }
    case K_Sym: {
      z3::expr s = ctx().bv_const(("s" + std::to_string((uint32_t)x->val)).c_str(), x->w);
      bvCache().emplace(x, s);
      break;
    }
    case K_Eq: if (x->a->w == 1) setBool(bo(x->a) == bo(x->b)); else setBool(bv(x->a) == bv(x->b)); break;
    case K_Ult: setBool(z3::ult(bv(x->a), bv(x->b))); break;
    case K_Ule: setBool(z3::ule(bv(x->a), bv(x->b))); break;
    case K_Slt: setBool(bv(x->a) < bv(x->b)); break;
    case K_Sle: setBool(bv(x->a) <= bv(x->b)); break;
    case K_And: if (x->w == 1) setBool(bo(x->a) && bo(x->b)); else bvCache().emplace(x, bv(x->a) & bv(x->b)); break;
    case K_Or: if (x->w == 1) setBool(bo(x->a) || bo(x->b)); else bvCache().emplace(x, bv(x->a) | bv(x->b)); break;
    case K_Xor:
      if (x->w == 1) { if (x->b->k == K_Const) setBool(x->b->val ? !bo(x->a) : bo(x->a)); else setBool(bo(x->a) != bo(x->b)); }
      else bvCache().emplace(x, bv(x->a) ^ bv(x->b));
      break;
    case K_Ite:
      if (x->w == 1) setBool(z3::ite(bo(x->a), bo(x->b), bo(x->c)));
      else bvCache().emplace(x, z3::ite(bo(x->a), bv(x->b), bv(x->c)));
      break;
    case K_Add: bvCache().emplace(x, bv(x->a) + bv(x->b)); break;
    case K_Sub: bvCache().emplace(x, bv(x->a) - bv(x->b)); break;
    case K_Mul: bvCache().emplace(x, bv(x->a) * bv(x->b)); break;
    case K_UDiv: bvCache().emplace(x, z3::udiv(bv(x->a), bv(x->b))); break;
    case K_SDiv: bvCache().emplace(x, bv(x->a) / bv(x->b)); break;
    case K_URem: bvCache().emplace(x, z3::urem(bv(x->a), bv(x->b))); break;
    case K_SRem: bvCache().emplace(x, z3::srem(bv(x->a), bv(x->b))); break;
    case K_Shl: bvCache().emplace(x, z3::shl(bv(x->a), bv(x->b))); break;
    case K_LShr: bvCache().emplace(x, z3::lshr(bv(x->a), bv(x->b))); break;
    case K_AShr: bvCache().emplace(x, z3::ashr(bv(x->a), bv(x->b))); break;
    case K_Concat: bvCache().emplace(x, z3::concat(bv(x->a), bv(x->b))); break;
    case K_Extract: { unsigned lo = (unsigned)x->val; bvCache().emplace(x, bv(x->a).extract(lo + x->w - 1, lo)); break; }
    case K_ZExt: bvCache().emplace(x, z3::zext(bv(x->a), x->w - x->a->w)); break;
    case K_SExt: bvCache().emplace(x, z3::sext(bv(x->a), x->w - x->a->w)); break;
    }
  }
  (void)isCmpK;
}
static z3::expr trBool(E e) {
  pre(e);
  auto it = boCache().find(e);
  if (it != boCache().end()) return it->second;
  return bvCache().at(e) == ctx().bv_val(1, 1);
}

struct CacheEnt { SRes r; Model m; };
static std::unordered_map<uint64_t, CacheEnt> qcache;
static inline uint64_t mix64(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; return h; }
static std::vector<Model> recent; static size_t recentPos = 0;

std::string toSmt2(const std::vector<E>& cs) {
  z3::solver s(ctx());
  for (E c : cs) s.add(trBool(c));
  return "(set-logic QF_BV)\n" + s.to_smt2();
}
static std::string shellOut(const std::string& cmd) {
  FILE* p = popen(("timeout " + std::to_string(budgetMs() / 1000 + 2) + " " + cmd).c_str(), "r"); if (!p) return "";
  std::string r; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) r.append(b, n);
  pclose(p); return r;
}
static SRes external(const std::vector<E>& cs, const std::string& cmdBase) {
  char tmpl[] = "/tmp/symxqXXXXXX"; int fd = mkstemp(tmpl); if (fd < 0) return S_UNKNOWN; close(fd);
  { std::ofstream f(tmpl); f << toSmt2(cs); }
  std::string out = shellOut(cmdBase + " " + tmpl + " 2>&1");
  unlink(tmpl);
  if (out.find("(error") != std::string::npos) return S_UNKNOWN;
  if (out.compare(0, 5, "unsat") == 0) return S_UNSAT;
  if (out.compare(0, 3, "sat") == 0) return S_SAT;
  return S_UNKNOWN;
}

SRes solveSat(const std::vector<E>& in, Model* out, bool important) {
  std::vector<E> cs;
  for (E c : in) { if (isTrue(c)) continue; if (isFalse(c)) return S_UNSAT; cs.push_back(c); }
  std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
  cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  if (cs.empty()) return S_SAT;
  uint64_t key = 0x1234567; for (E c : cs) key = mix64(key ^ (c->id + 0x9E37u)) * 31 + c->hash;
  auto it = qcache.find(key);
  if (it != qcache.end()) { gS.cached++; if (out && it->second.r == S_SAT) for (auto& kv : it->second.m.v) out->v[kv.first] = kv.second; return it->second.r; }
  if (!important) for (auto& m : recent) {
    std::unordered_map<E, u128> ec; bool ok = true;
    for (size_t i = cs.size(); i-- > 0;) if (!evalExprC(cs[i], m, ec)) { ok = false; break; }
    if (ok) {
      gS.modelHits++;
      if (out) for (E c : cs) for (uint32_t s : symsOf(c)) { auto f = m.v.find(s); out->v[s] = f == m.v.end() ? 0 : f->second; }
      return S_SAT;
    }
  }
  auto t0 = std::chrono::steady_clock::now();
  gS.queries++;
  SRes r = S_UNKNOWN;
  CacheEnt ent;
  try {
    static z3::solver* sp = nullptr;
    if (!sp) sp = new z3::solver(z3::tactic(ctx(), "qfbv").mk_solver());
    z3::solver& s = *sp;
    s.reset();
    z3::params p(ctx()); unsigned lim = budgetMs(); p.set("timeout", lim); s.set(p); watchdog();
    for (E c : cs) s.add(trBool(c));
    gDeadline = nowMs() + lim + 500; auto res = s.check(); gDeadline = 0;
    if (res == z3::unsat) r = S_UNSAT;
    else if (res == z3::sat) {
      r = S_SAT;
      z3::model m = s.get_model();
      for (E c : cs) for (uint32_t sidx : symsOf(c)) {
        if (ent.m.v.count(sidx)) continue;
        z3::expr v = m.eval(ctx().bv_const(("s" + std::to_string(sidx)).c_str(), symWidth(sidx)), true);
        uint64_t u = 0; u128 val = 0;
        if (symWidth(sidx) <= 64) { if (v.is_numeral_u64(u)) val = u; }
        else { std::string ds = v.get_decimal_string(0); for (char ch : ds) if (ch >= '0' && ch <= '9') val = val * 10 + (ch - '0'); }
        ent.m.v[sidx] = val;
      }
    }
  } catch (z3::exception& e) { gDeadline = 0; fprintf(stderr, "z3: %s\n", e.msg()); }
  if (r == S_UNKNOWN) {
    gS.fallback++;
    std::string t = std::to_string(budgetMs());
    SRes x = external(cs, "cvc5 --tlimit=" + t + " --solve-bv-as-int=sum");
    if (x == S_UNKNOWN) x = external(cs, "cvc5 --tlimit=" + t);
    if (x == S_UNSAT) r = S_UNSAT;
  }
  gS.time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (r == S_UNSAT && important && !gCross.empty() && gS.crossTime < gCrossTime) {
    auto t1 = std::chrono::steady_clock::now();
    SRes x = external(cs, gCross);
    gS.crossTime += std::chrono::duration<double>(std::chrono::steady_clock::now() - t1).count();
    if (x == S_UNSAT) gS.cross++;
    else if (x == S_SAT) { gS.crossDisagree++; r = S_UNKNOWN; }
  }
  if (r == S_SAT) {
    gS.sat++;
    if (recent.size() < 24) recent.push_back(ent.m); else { recent[recentPos] = ent.m; recentPos = (recentPos + 1) % recent.size(); }
    if (out) for (auto& kv : ent.m.v) out->v[kv.first] = kv.second;
  } else if (r == S_UNSAT) gS.unsat++; else gS.unknown++;
  ent.r = r;
  if (r != S_UNKNOWN) qcache.emplace(key, std::move(ent));
  return r;
}

SRes solveWith(const std::vector<E>& pc, const std::vector<E>& query, Model* out, bool important) {
  std::vector<E> sel = query;
  std::set<uint32_t> syms;
  for (E q : query) { if (isFalse(q)) return S_UNSAT; for (uint32_t s : symsOf(q)) syms.insert(s); }
  std::vector<char> used(pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) {
      if (used[i]) continue;
      bool hit = false;
      for (uint32_t s : symsOf(pc[i])) if (syms.count(s)) { hit = true; break; }
      if (hit) { used[i] = 1; ch = true; sel.push_back(pc[i]); for (uint32_t s : symsOf(pc[i])) syms.insert(s); }
    }
  }
  return solveSat(sel, out, important);
}
