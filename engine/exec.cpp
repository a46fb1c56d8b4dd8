#include "exec.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/Demangle/Demangle.h>
#include <cmath>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <algorithm>
#include <unordered_set>
#include <time.h>
using namespace llvm;

static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout* DL;

// ---------------- options / results
struct Opts {
  std::string entry = "harness"; double maxTime = 600; uint64_t maxSteps = 20000000; uint64_t maxPaths = 10000000; int preempt = -1; bool races = true; bool dedup = true; bool hashVC = false; int spurious = 0; bool schedAtomics = true; bool schedRmw = false; int maxViol = 3; std::string repo = "/repo/"; bool trace = false; uint64_t maxMem = 6000; bool uninitCheck = false; bool schedUnlock=false; bool reduce = true; bool sleepSched=true;
} O;
struct Violation { std::string kind, msg, loc; std::vector<std::string> stack; std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::pair<int,int>> sched; std::vector<std::string> notes; };
// replay: fixed inputs and a fixed schedule (concrete re-execution of one counterexample)
static bool gReplay = false; static std::map<std::string, uint64_t> gCE; static std::vector<int> gSchedule;
static bool replaySkip(int cand, const std::vector<int>& en, int cur, size_t pos) {
  if (!gReplay) return false;
  int want = pos < gSchedule.size() && gSchedule[pos] < 1000 ? gSchedule[pos] : -1;
  bool ok = false, curOk = false; for (int e : en) { if (e == want) ok = true; if (e == cur) curOk = true; }
  if (!ok) want = curOk ? cur : en[0];
  return cand != want;
}
static std::vector<Violation> gViol; static std::set<std::string> gViolKeys; static uint64_t gViolTotal = 0;
static std::map<std::string, uint64_t> gReach, gAssert, gIncon;
static std::map<std::string, std::vector<std::pair<std::string,std::string>>> gReachSample;
static uint64_t gPaths = 0, gDone = 0, gPruned = 0, gForks = 0, gInstr = 0, gSchedPts = 0, gMaxSched = 0, gInfeasible = 0;
static uint64_t gAssertQueries = 0, gAssertProved = 0, gMemChecks = 0;
static std::chrono::steady_clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

struct PathEnd { std::string why; };
struct Fatal { std::string msg; };

static std::vector<StateP> work;
static std::unordered_map<std::string, uint64_t> seenDummy;
struct H128 { uint64_t a, b; bool operator==(const H128& o) const { return a == o.a && b == o.b; } };
struct H128H { size_t operator()(const H128& h) const { return h.a ^ (h.b * 31); } };
static std::unordered_set<H128, H128H> seen;

static inline uint64_t mix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; return h; }

// ---------------- memory
static const int GS = 1;
static inline uint64_t mkAddr(int space, uint32_t idx) { return ((uint64_t)space << 44) | ((uint64_t)idx << 20); }
static const uint64_t FNBASE = 0x00F0000000000000ull;
static std::vector<const Function*> fnByIdx; static std::unordered_map<const Function*, uint64_t> fnAddr;
static uint64_t addrOfFn(const Function* F) {
  auto it = fnAddr.find(F); if (it != fnAddr.end()) return it->second;
  uint64_t a = FNBASE + 16 * fnByIdx.size(); fnByIdx.push_back(F); fnAddr[F] = a; return a;
}
static const Function* fnAt(uint64_t a) {
  if (a < FNBASE || (a & 15)) return nullptr; uint64_t i = (a - FNBASE) / 16; return i < fnByIdx.size() ? fnByIdx[i] : nullptr;
}
static ObjP* slotOf(State& st, uint64_t addr, bool mut) {
  uint64_t sp = addr >> 44; if (sp == 0 || sp >= st.sp.size()) return nullptr;
  uint32_t idx = (addr >> 20) & 0xFFFFFF; Space& S = st.sp[sp];
  if (idx >= S.next) return nullptr;
  auto& c = S.ch[idx >> 5]; if (mut && c.use_count() > 1) c = std::make_shared<Chunk>(*c);
  return &c->o[idx & 31];
}
static uint64_t newObj(State& st, int space, uint64_t size, int kind, bool uninit, const Value* site = nullptr) {
  if (size > 0xFFF00) throw PathEnd{"bound:allocation larger than the engine's object limit (1 MiB)"};
  while ((int)st.sp.size() <= space) st.sp.emplace_back();
  Space& S = st.sp[space]; uint32_t idx = S.next++;
  if ((idx >> 5) >= S.ch.size()) S.ch.push_back(std::make_shared<Chunk>());
  auto& c = S.ch[idx >> 5]; if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
  auto o = std::make_shared<Obj>(); o->base = mkAddr(space, idx); o->size = size; o->kind = kind; o->alive = true; o->ro = false; o->c.assign(size, 0); o->site = site;
  if (uninit && size) o->s.reset(new std::vector<E>(size, UNINIT));
  c->o[idx & 31] = o; return o->base;
}
static Obj* mutObj(State& st, uint64_t addr) {
  ObjP* p = slotOf(st, addr, true); if (!p || !*p) return nullptr;
  if (p->use_count() > 1) *p = std::make_shared<Obj>(**p);
  (*p)->hv = false; return p->get();
}
static const Obj* getObj(State& st, uint64_t addr) { ObjP* p = slotOf(st, addr, false); return p && *p ? p->get() : nullptr; }

// ---------------- errors
static std::string demangleS(const std::string& s) { std::string d = llvm::demangle(s); return d; }
static std::string locOf(const Instruction* I) {
  if (!I) return "?"; const DebugLoc& d = I->getDebugLoc();
  std::string r;
  if (d) { auto* sc = d->getScope(); std::string f = sc ? sc->getFilename().str() : ""; r = f + ":" + std::to_string(d.getLine()); }
  return r;
}
static const Inst& curInst(State& st) { Frame& f = *st.th[st.cur].st.back(); return f.fn->bbs[f.bb][f.ip]; }
static std::vector<std::string> stackOf(State& st, int t) {
  std::vector<std::string> r; auto& v = st.th[t].st;
  for (size_t i = v.size(); i-- > 0 && r.size() < 14;) { Frame& f = *v[i]; if (f.ip < (int)f.fn->bbs[f.bb].size()) r.push_back(demangleS(f.fn->name).substr(0, 140) + " @ " + locOf(f.fn->bbs[f.bb][f.ip].I)); }
  return r;
}
static std::string hexv(u128 v, unsigned w) { char b[40]; if (w <= 64) snprintf(b, sizeof b, "%llu", (unsigned long long)v); else snprintf(b, sizeof b, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); return b; }
static void fillInputs(State& st, const Model& m, std::vector<std::pair<std::string, std::string>>& out) {
  std::unordered_map<E, u128> ec; for (auto& i : st.inputs) out.push_back({i.name, hexv(evalExprC(i.e, m, ec), i.e->w)});
}
static bool modelOk(const std::vector<E>& pc, const std::vector<E>& q, const Model& m) {
  std::unordered_map<E, u128> ec; for (E e : pc) if (!evalExprC(e, m, ec)) return false; for (E e : q) if (!evalExprC(e, m, ec)) return false; return true;
}
static void report(State& st, const std::string& kind, const std::string& msg, const Model& m0) {
  Model m = m0;
  if (!modelOk(st.pc, {}, m)) { m = Model(); if (solveSat(st.pc, &m, true) != S_SAT || !modelOk(st.pc, {}, m)) { gIncon["violation model could not be confirmed: " + kind + ": " + msg]++; return; } }
  gViolTotal++;
  Violation v; v.kind = kind; v.msg = msg; v.stack = stackOf(st, st.cur); v.loc = v.stack.empty() ? "" : v.stack[0];
  std::string key = kind + "|" + msg + "|" + v.loc;
  if (gViolKeys.count(key)) return; gViolKeys.insert(key);
  fillInputs(st, m, v.inputs); v.sched = st.sched; v.notes = st.notes; gViol.push_back(v);
}
[[noreturn]] static void violate(State& st, const std::string& kind, const std::string& msg) { report(st, kind, msg, st.model); throw PathEnd{"violation"}; }

// ---------------- path condition
static unsigned lowZeros(E e); struct Obj; static V readObj(State& st, uint64_t base, uint32_t off, unsigned nbytes);
static uint64_t gLin = 0; static bool gTimeUp = false;
static void addPC(State& st, E c) {
  if (isTrue(c)) return;
  if (c->k == K_And && c->w == 1) { addPC(st, c->a); addPC(st, c->b); return; }
  auto it = std::lower_bound(st.pcs.begin(), st.pcs.end(), c, [](E a, E b) { return a->id < b->id; });
  if (it != st.pcs.end() && *it == c) return;
  st.pcs.insert(it, c); st.pc.push_back(c);
}
static bool inPC(State& st, E c) {
  if (isTrue(c)) return true;
  if (c->k == K_And && c->w == 1) return inPC(st, c->a) && inPC(st, c->b);
  auto it = std::lower_bound(st.pcs.begin(), st.pcs.end(), c, [](E a, E b) { return a->id < b->id; });
  if (it != st.pcs.end() && *it == c) return true;
  if (c->k == K_Or && c->w == 1) return inPC(st, c->a) || inPC(st, c->b);
  return false;
}
static void mergeModel(State& st, const Model& m) { for (auto& kv : m.v) st.model.v[kv.first] = kv.second; }

// Decide a 1-bit condition on the current path, forking when both outcomes are possible.
static int linCmp(State& st, E c, E* simp);
static bool decide(State& st, E c) {
  if (isC(c)) return c->val != 0;
  if (inPC(st, c)) return true;
  { E simp = nullptr; int l = linCmp(st, c, &simp); if (l >= 0) { gLin++; return l; } if (simp && simp != c) { gLin++; c = simp; if (isC(c)) return c->val != 0; if (inPC(st, c)) return true; } }
  E nc = mkNot(c);
  if (inPC(st, nc)) return false;
  bool mv = evalExpr(c, st.model) != 0;
  E other = mv ? nc : c;
  static bool dbg = getenv("SYMX_DBG"); if (dbg) fprintf(stderr, "Q %s : %s\n", locOf(curInst(st).I).c_str(), exprStr(c, 9).substr(0, 600).c_str());
  double q0 = dbg ? elapsed() : 0; Model m; SRes r = solveWith(st.pc, {other}, &m); if (dbg && elapsed() - q0 > 0.3) fprintf(stderr, "SLOW %.1f\n", elapsed() - q0);
  if (r == S_UNSAT) { addPC(st, mv ? c : nc); return mv; }
  if (r == S_UNKNOWN && elapsed() > O.maxTime) gTimeUp = true;
  if (r == S_UNKNOWN) { gIncon["solver gave no answer on a branch; that side was not explored: " + locOf(curInst(st).I)]++; addPC(st, mv ? c : nc); return mv; }
  // fork: the clone takes the other side by re-executing this instruction
  auto n = std::make_unique<State>(st); n->id = ++gForks; { auto& top = n->th[n->cur].st.back(); top = std::make_shared<Frame>(*top); } addPC(*n, other); mergeModel(*n, m);
  if (!modelOk(n->pc, {}, n->model)) { Model f; if (solveSat(n->pc, &f, true) == S_SAT) n->model = f; }
  n->forks++;
  work.push_back(std::move(n));
  addPC(st, mv ? c : nc); st.forks++;
  return mv;
}
#include "lin.inc"
static V lcond(State& st, V c) { if (c.conc()) return c; E simp = nullptr; int l = linCmp(st, c.e, &simp); if (l >= 0) { gLin++; return V(l, 1); } if (simp) { gLin++; return V(simp); } return c; }
static bool decideV(State& st, const V& v) { if (v.conc()) return v.c & 1; return decide(st, v.e); }
static uint64_t concretize(State& st, const V& v) {
  if (v.conc()) return v.c;
  if (v.e->k == K_Ite) { bool t = decide(st, v.e->a); return concretize(st, V(t ? v.e->b : v.e->c)); }
  for (;;) {
    u128 val = evalExpr(v.e, st.model);
    if (decide(st, mkEq(v.e, mkConst(val, v.w)))) return (uint64_t)val;
  }
}

// ---------------- race detection
static void vcJoin(std::vector<uint32_t>& a, const std::vector<uint32_t>& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static uint32_t vcAt(const std::vector<uint32_t>& a, int t) { return t < (int)a.size() ? a[t] : 0; }
static void tick(Thread& t) { if ((int)t.vc.size() <= t.id) t.vc.resize(t.id + 1, 0); t.vc[t.id]++; }
static std::set<std::string> raceIgnore;
static void raceCheck(State& st, uint64_t base, uint32_t off, uint32_t n, bool wr) {
  if (!O.races || !st.everThreaded) return;
  const Obj* o0 = getObj(st, base); if (!o0 || o0->ro || o0->norace || n == 0) return;
  Thread& t = st.th[st.cur]; if (t.id >= MAXT || t.raceoff) return;
  uint32_t myc = vcAt(t.vc, t.id);
  if (o0->kind == 2 && !o0->sh && (int)(base >> 44) == 2 + t.id) return;   // own stack, not seen by another thread so far
  bool hv = o0->hv; Obj* o = mutObj(st, base); o->hv = hv;
  if (!o->sh) { o->sh.reset(new Shadow); o->sh->w.assign(o->size, 0); o->sh->r.assign((size_t)o->size * MAXT, 0); }
  for (uint32_t i = off; i < off + n && i < o->size; i++) {
    uint32_t we = o->sh->w[i];
    if (we) { int wt = we >> 24; uint32_t wc = we & 0xFFFFFF; if (wt - 1 != t.id && vcAt(t.vc, wt - 1) < wc) violate(st, "data-race", std::string(wr ? "write" : "read") + " conflicts with an unsynchronised write by another thread"); }
    if (wr) {
      for (int k = 0; k < MAXT; k++) { uint32_t rc = o->sh->r[(size_t)i * MAXT + k]; if (rc && k != t.id && vcAt(t.vc, k) < rc) violate(st, "data-race", "write conflicts with an unsynchronised read by another thread"); }
      o->sh->w[i] = ((uint32_t)(t.id + 1) << 24) | myc;
    } else o->sh->r[(size_t)i * MAXT + t.id] = myc;
  }
}

// ---------------- load/store
static V readObj(State& st, uint64_t base, uint32_t off, unsigned nbytes) {
  const Obj* o = getObj(st, base);
  if (!o->s) {
    if (nbytes <= 8) { uint64_t v = 0; memcpy(&v, &o->c[off], nbytes); return V(v, nbytes * 8); }
    u128 v = 0; for (unsigned i = 0; i < nbytes; i++) v |= (u128)o->c[off + i] << (8 * i); return V(mkConst(v, nbytes * 8));
  }
  bool any = false, un = false;
  for (unsigned i = 0; i < nbytes; i++) { E s = (*o->s)[off + i]; if (s) any = true; if (s == UNINIT) un = true; }
  if (!any) { if (nbytes <= 8) { uint64_t v = 0; memcpy(&v, &o->c[off], nbytes); return V(v, nbytes * 8); } }
  if (un) {
    Obj* w = mutObj(st, base); o = w;
    for (unsigned i = 0; i < nbytes; i++) if ((*w->s)[off + i] == UNINIT) {
      char nm[64]; snprintf(nm, sizeof nm, "uninit@%llx+%u", (unsigned long long)base, off + i);
      (*w->s)[off + i] = mkSym(nm, 8);
    }
  }
  E r = nullptr;
  for (unsigned i = 0; i < nbytes; i++) {
    E b = o->s && (*o->s)[off + i] ? (*o->s)[off + i] : mkConst(o->c[off + i], 8);
    r = r ? mkConcat(b, r) : b;
  }
  return V(r);
}
static void writeObj(State& st, uint64_t base, uint32_t off, const V& v, unsigned nbytes) {
  Obj* o = mutObj(st, base);
  if (v.conc()) {
    memcpy(&o->c[off], &v.c, nbytes);
    if (o->s) for (unsigned i = 0; i < nbytes; i++) (*o->s)[off + i] = nullptr;
    return;
  }
  if (!o->s) o->s.reset(new std::vector<E>(o->size, nullptr));
  for (unsigned i = 0; i < nbytes; i++) {
    E b = mkExtract(v.e, i * 8, 8);
    if (isC(b)) { o->c[off + i] = (uint8_t)b->val; (*o->s)[off + i] = nullptr; }
    else { o->c[off + i] = 0; (*o->s)[off + i] = b; }
  }
}
struct Loc { uint64_t base; uint32_t size; uint32_t off; E symOff; };
static std::string addrStr(State& st, uint64_t a) {
  char b[80]; const Obj* o = getObj(st, a);
  static const char* kn[] = {"global", "heap", "stack", "exception"};
  if (o) { snprintf(b, sizeof b, "offset %lld of a %u-byte %s object%s", (long long)(int64_t)(a - o->base), o->size, kn[o->kind & 3], o->alive ? "" : " (already freed)"); return b; }
  snprintf(b, sizeof b, "address 0x%llx", (unsigned long long)a); return b;
}
static Loc resolve(State& st, V p, uint64_t n, bool wr) {
  gMemChecks++;
  while (!p.conc() && p.e->k == K_Ite) { bool t = decide(st, p.e->a); p = V(t ? p.e->b : p.e->c); }
  if (!p.conc() && p.e->k == K_Add && (p.e->a->k == K_Ite && (p.e->a->b->k==K_Const || p.e->a->c->k==K_Const))) { bool t = decide(st, p.e->a->a); p = V(mkBin(K_Add, t ? p.e->a->b : p.e->a->c, p.e->b)); }
  if (p.conc()) {
    uint64_t a = p.c; const Obj* o = getObj(st, a);
    if (!o) { if (a < 4096) violate(st, "memory", std::string("null pointer ") + (wr ? "write" : "read")); violate(st, "memory", std::string("invalid ") + (wr ? "write" : "read") + " at " + addrStr(st, a)); }
    if (!o->alive) violate(st, "memory", std::string("use after free: ") + (wr ? "write" : "read") + " at " + addrStr(st, a));
    if (a - o->base + n > o->size) violate(st, "memory", std::string("out-of-bounds ") + (wr ? "write" : "read") + " of " + std::to_string(n) + " byte(s) at " + addrStr(st, a));
    if (wr && o->ro) violate(st, "memory", "write to constant data");
    return {o->base, o->size, (uint32_t)(a - o->base), nullptr};
  }
  for (;;) {
    uint64_t a = (uint64_t)evalExpr(p.e, st.model); const Obj* o = getObj(st, a);
    if (!o || !o->alive || a - o->base + n > o->size || (wr && o->ro)) {
      violate(st, "memory", std::string(o && !o->alive ? "use after free" : "out-of-bounds or invalid ") + (wr ? "write" : "read") + " of " + std::to_string(n) + " byte(s) at " + addrStr(st, a) + " (symbolic address)");
    }
    uint64_t base = o->base; uint32_t size = o->size;
    E inb = mkAnd(mkBin(K_Ule, mkConst(base, 64), p.e), mkBin(K_Ule, p.e, mkConst(base + size - n, 64)));
    E off = mkBin(K_Sub, p.e, mkConst(base, 64));
    inb = mkBin(K_Ule, off, mkConst(size - n, 64));
    if (decide(st, inb)) { if (isC(off)) return {base, size, (uint32_t)off->val, nullptr}; return {base, size, 0, off}; }
  }
}
static unsigned lowZeros(E e) {
  if (e->k == K_Const) { if (!e->val) return 64; unsigned n = 0; while (!((e->val >> n) & 1)) n++; return n; }
  if (e->k == K_Concat) { unsigned l = lowZeros(e->b); return l >= e->b->w ? e->b->w + lowZeros(e->a) : l; }
  if (e->k == K_Add) return std::min(lowZeros(e->a), lowZeros(e->b));
  if (e->k == K_ZExt) { unsigned l = lowZeros(e->a); return l; }
  return 0;
}
static bool linTable(State& st, uint64_t base, E off, unsigned nbytes, V& out);
static V loadMem(State& st, const V& p, unsigned nbytes, bool atomic = false) {
  Loc l = resolve(st, p, nbytes, false);
  if (!l.symOff) { if (!atomic) raceCheck(st, l.base, l.off, nbytes, false); return readObj(st, l.base, l.off, nbytes); }
  unsigned step = 1u << std::min(lowZeros(l.symOff), 12u);
  uint64_t cnt = (l.size - nbytes) / step + 1;
  { V r; if (linTable(st, l.base, l.symOff, nbytes, r)) { if (!atomic) raceCheck(st, l.base, 0, l.size, false); gLin++; return r; } }
  if (cnt > 1100) { uint64_t o = concretize(st, V(l.symOff)); if (!atomic) raceCheck(st, l.base, o, nbytes, false); return readObj(st, l.base, o, nbytes); }
  if (!atomic) raceCheck(st, l.base, 0, l.size, false);
  V r; bool first = true;
  for (uint64_t i = cnt; i-- > 0;) { V b = readObj(st, l.base, i * step, nbytes); if (first) { r = b; first = false; } else r = vIte(V(mkEq(l.symOff, mkConst(i * step, 64))), b, r); }
  return r;
}
static void storeMem(State& st, const V& p, const V& v, unsigned nbytes, bool atomic = false) {
  Loc l = resolve(st, p, nbytes, true);
  if (!l.symOff) { if (!atomic) raceCheck(st, l.base, l.off, nbytes, true); writeObj(st, l.base, l.off, v, nbytes); return; }
  unsigned step = 1u << std::min(lowZeros(l.symOff), 12u);
  uint64_t cnt = (l.size - nbytes) / step + 1;
  if (cnt > 600) { uint64_t o = concretize(st, V(l.symOff)); writeObj(st, l.base, o, v, nbytes); return; }
  raceCheck(st, l.base, 0, l.size, true);
  if (nbytes > 1 && step < nbytes) { uint64_t o = concretize(st, V(l.symOff)); writeObj(st, l.base, o, v, nbytes); return; }
  for (uint64_t i = 0; i < cnt; i++) { V old = readObj(st, l.base, i * step, nbytes); writeObj(st, l.base, i * step, vIte(V(mkEq(l.symOff, mkConst(i * step, 64))), v, old), nbytes); }
}
static uint64_t rdPtr(State& st, uint64_t a) { return concretize(st, loadMem(st, V(a, 64), 8, true)); }
static std::string rdStr(State& st, uint64_t a, size_t max = 4096) {
  std::string s; for (size_t i = 0; i < max; i++) { uint64_t c = concretize(st, loadMem(st, V(a + i, 64), 1, true)); if (!c) break; s += (char)c; } return s;
}
static void freeObj(State& st, uint64_t base) { Obj* o = mutObj(st, base); o->alive = false; o->c.clear(); o->c.shrink_to_fit(); o->s.reset(); o->sh.reset(); }

// ---------------- constants / types
static unsigned tyW(Type* t) {
  if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isX86_FP80Ty()) return 80;
  return 0;
}
static void flatten(Type* t, uint64_t off, std::vector<std::pair<Type*, uint64_t>>& out) {
  if (auto* s = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flatten(s->getElementType(i), off + sl->getElementOffset(i), out); return; }
  if (auto* a = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); i++) flatten(a->getElementType(), off + i * es, out); return; }
  if (auto* v = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeAllocSize(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); i++) flatten(v->getElementType(), off + i * es, out); return; }
  out.push_back({t, off});
}
static int nslots(Type* t) { if (t->isVoidTy()) return 0; std::vector<std::pair<Type*, uint64_t>> f; flatten(t, 0, f); return f.size(); }
static unsigned flatIndex(Type* t, ArrayRef<unsigned> idx) {
  unsigned r = 0;
  for (unsigned i : idx) {
    if (auto* s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) r += nslots(s->getElementType(k)); t = s->getElementType(i); }
    else if (auto* a = dyn_cast<ArrayType>(t)) { r += i * nslots(a->getElementType()); t = a->getElementType(); }
    else { auto* v = cast<FixedVectorType>(t); r += i; t = v->getElementType(); }
  }
  return r;
}
static std::unordered_map<const GlobalVariable*, uint64_t> gvAddr;
static std::unordered_map<uint64_t, const GlobalVariable*> gvByAddr;
static uint64_t constExprVal(const Constant* c);
static V constVal(const Constant* c) {
  unsigned w = tyW(c->getType());
  if (auto* ci = dyn_cast<ConstantInt>(c)) { if (w <= 64) return V(ci->getZExtValue(), w); u128 v = ci->getValue().extractBitsAsZExtValue(64, 0); if (w > 64) v |= (u128)ci->getValue().lshr(64).getZExtValue() << 64; return V(mkConst(v, w)); }
  if (isa<ConstantPointerNull>(c)) return V(0, 64);
  if (isa<UndefValue>(c)) { if (w <= 64) return V(0, w); return V(mkConst(0, w)); }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt b = cf->getValueAPF().bitcastToAPInt(); if (w <= 64) return V(b.getZExtValue(), w); return V(mkConst(((u128)b.extractBitsAsZExtValue(b.getBitWidth() - 64, 64) << 64) | b.extractBitsAsZExtValue(64, 0), w)); }
  return V(constExprVal(c), w);
}
static uint64_t constExprVal(const Constant* c) {
  if (auto* gv = dyn_cast<GlobalVariable>(c)) { auto it = gvAddr.find(gv); if (it == gvAddr.end()) throw Fatal{"unknown global " + gv->getName().str()}; return it->second; }
  if (auto* f = dyn_cast<Function>(c)) return addrOfFn(f);
  if (auto* ga = dyn_cast<GlobalAlias>(c)) return constExprVal(ga->getAliasee());
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); auto* g = cast<GEPOperator>(ce); uint64_t b = constExprVal(cast<Constant>(g->getPointerOperand())); if (!g->accumulateConstantOffset(*DL, off)) throw Fatal{"constexpr gep"}; return b + off.getSExtValue(); }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constExprVal(ce->getOperand(0));
    case Instruction::Add: return constExprVal(ce->getOperand(0)) + constExprVal(ce->getOperand(1));
    case Instruction::Sub: return constExprVal(ce->getOperand(0)) - constExprVal(ce->getOperand(1));
    case Instruction::Trunc: return constExprVal(ce->getOperand(0));
    case Instruction::ICmp: { uint64_t a = constExprVal(ce->getOperand(0)), b = constExprVal(ce->getOperand(1)); switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; default: break; } break; }
    default: break;
    }
    std::string s; raw_string_ostream os(s); ce->print(os); throw Fatal{"constexpr " + os.str()};
  }
  if (auto* ci = dyn_cast<ConstantInt>(c)) return ci->getZExtValue();
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
  if (auto* nc = dyn_cast<DSOLocalEquivalent>(c)) return constExprVal(nc->getGlobalValue());
  if (auto* nc = dyn_cast<NoCFIValue>(c)) return constExprVal(nc->getGlobalValue());
  std::string s; raw_string_ostream os(s); c->print(os); throw Fatal{"constant " + os.str()};
}
static void flattenConst(const Constant* c, std::vector<V>& out) {
  Type* t = c->getType();
  if (isa<StructType>(t) || isa<ArrayType>(t) || isa<FixedVectorType>(t)) {
    unsigned n = isa<StructType>(t) ? cast<StructType>(t)->getNumElements() : isa<ArrayType>(t) ? cast<ArrayType>(t)->getNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) flattenConst(c->getAggregateElement(i), out);
    return;
  }
  out.push_back(constVal(c));
}
static void initGlobal(State& st, uint64_t a, const Constant* c) {
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
  Type* t = c->getType();
  if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
    uint64_t es = DL->getTypeAllocSize(cds->getElementType());
    Obj* o = mutObj(st, a); StringRef raw = cds->getRawDataValues();
    memcpy(&o->c[a - o->base], raw.data(), raw.size()); (void)es; return;
  }
  if (auto* s = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) initGlobal(st, a + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
  if (auto* ar = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(ar->getElementType()); for (unsigned i = 0; i < ar->getNumElements(); i++) initGlobal(st, a + i * es, c->getAggregateElement(i)); return; }
  if (auto* ar = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeAllocSize(ar->getElementType()); for (unsigned i = 0; i < ar->getNumElements(); i++) initGlobal(st, a + i * es, c->getAggregateElement(i)); return; }
  V v = constVal(c); unsigned nb = DL->getTypeStoreSize(t); if (v.conc()) v = V(v.c, nb * 8 > 64 ? 64 : nb * 8); const Obj* o = getObj(st, a); writeObj(st, o->base, a - o->base, v, nb);
}

// ---------------- builtins registry
typedef std::function<bool(State&, Thread&, Frame&, const Inst&, std::vector<V>&, V&)> Builtin;   // false: do not advance
static std::vector<Builtin> builtins; static std::unordered_map<std::string, int> builtinIdx;
static void reg(const std::string& n, Builtin b) { builtinIdx[n] = builtins.size(); builtins.push_back(std::move(b)); }

// ---------------- decode
static std::unordered_map<const Function*, FnInfo*> fnInfo;
static Opnd mkOp(const Value* v, std::unordered_map<const Value*, int>& slots) {
  Opnd o; auto it = slots.find(v);
  if (it != slots.end()) { o.slot = it->second; o.n = nslots(v->getType()); return o; }
  if (auto* c = dyn_cast<Constant>(v)) { flattenConst(c, o.cst); o.n = o.cst.size(); return o; }
  o.slot = -2; o.n = 1; o.cst.push_back(V(0, 64)); return o;   // metadata / inline asm / bb
}
static const Function* stripFn(const Value* v) {
  v = v->stripPointerCasts(); if (auto* a = dyn_cast<GlobalAlias>(v)) return stripFn(a->getAliasee());
  return dyn_cast<Function>(v);
}
// Loads of a reference count whose result is used up at once by the library: _M_release reads it ahead of its decrement (both counts
// one: the same destruction without the decrement), ~packaged_task reads it to see whether a future is left that could see a broken promise.
static bool quietLoad(const LoadInst& li) {
  const DILocation* L = li.getDebugLoc(); if (!L) return false;
  auto name = [](const DILocation* l) { auto* sp = l->getScope()->getSubprogram(); return sp ? sp->getName() : StringRef(); };
  if (name(L) == "_M_release") return true;
  if (name(L) != "_M_get_use_count" && name(L) != "use_count") return false;
  for (; L; L = L->getInlinedAt()) if (name(L) == "~packaged_task") return true;
  return false;
}
static FnInfo* getFn(const Function* F) {
  auto it = fnInfo.find(F); if (it != fnInfo.end()) return it->second;
  auto* fi = new FnInfo; fnInfo[F] = fi; fi->F = F; fi->name = F->getName().str();
  std::unordered_map<const Value*, int> slots; std::unordered_map<const BasicBlock*, int> bbi;
  int n = 0;
  for (auto& a : F->args()) { slots[&a] = n; fi->argSlot.push_back(n); int k = nslots(a.getType()); fi->argN.push_back(k); n += k; }
  int b = 0;
  for (auto& B : *F) { bbi[&B] = b++; for (auto& I : B) if (!I.getType()->isVoidTy()) { slots[&I] = n; n += nslots(I.getType()); } }
  fi->nregs = n; fi->bbs.resize(b); fi->cov.assign(b, 0);
  for (auto& B : *F) {
    auto& out = fi->bbs[bbi[&B]];
    for (auto& I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      Inst in; in.op = I.getOpcode(); in.I = &I; in.ty = I.getType();
      if (!I.getType()->isVoidTy()) { in.dst = slots[&I]; in.nd = nslots(I.getType()); in.w = tyW(I.getType()); }
      if (auto* phi = dyn_cast<PHINode>(&I)) { for (unsigned i = 0; i < phi->getNumIncomingValues(); i++) in.phi.push_back({bbi[phi->getIncomingBlock(i)], mkOp(phi->getIncomingValue(i), slots)}); out.push_back(std::move(in)); continue; }
      if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        in.ops.push_back(mkOp(g->getPointerOperand(), slots));
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
          Value* idx = gi.getOperand();
          if (auto* s = gi.getStructTypeOrNull()) { in.gepConst += DL->getStructLayout(s)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
          int64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
          if (auto* ci = dyn_cast<ConstantInt>(idx)) { in.gepConst += ci->getSExtValue() * sc; continue; }
          in.gepScale.push_back({(int)in.ops.size(), sc}); in.ops.push_back(mkOp(idx, slots));
        }
        out.push_back(std::move(in)); continue;
      }
      if (auto* br = dyn_cast<BranchInst>(&I)) { in.bb0 = bbi[br->getSuccessor(0)]; if (br->isConditional()) { in.bb1 = bbi[br->getSuccessor(1)]; in.ops.push_back(mkOp(br->getCondition(), slots)); } out.push_back(std::move(in)); continue; }
      if (auto* sw = dyn_cast<SwitchInst>(&I)) { in.ops.push_back(mkOp(sw->getCondition(), slots)); in.bb0 = bbi[sw->getDefaultDest()]; for (auto& cs : sw->cases()) in.cases.push_back({constVal(cs.getCaseValue()), bbi[cs.getCaseSuccessor()]}); out.push_back(std::move(in)); continue; }
      if (auto* cb = dyn_cast<CallBase>(&I)) {
        for (auto& a : cb->args()) in.ops.push_back(mkOp(a.get(), slots));
        in.callee = stripFn(cb->getCalledOperand());
        if (!in.callee) in.ops.push_back(mkOp(cb->getCalledOperand(), slots));
        else in.iid = in.callee->getIntrinsicID();
        if (auto* iv = dyn_cast<InvokeInst>(&I)) { in.bb0 = bbi[iv->getNormalDest()]; in.bb1 = bbi[iv->getUnwindDest()]; }
        if (in.callee && in.callee->isDeclaration() && !in.iid) { auto bt = builtinIdx.find(in.callee->getName().str()); if (bt != builtinIdx.end()) in.builtin = bt->second; }
        out.push_back(std::move(in)); continue;
      }
      for (auto& o : I.operands()) in.ops.push_back(mkOp(o.get(), slots));
      if (auto* li = dyn_cast<LoadInst>(&I)) if (O.reduce && li->isAtomic()) in.quiet = quietLoad(*li);
      if (auto* ex = dyn_cast<ExtractValueInst>(&I)) in.off0 = flatIndex(ex->getAggregateOperand()->getType(), ex->getIndices());
      if (auto* iv = dyn_cast<InsertValueInst>(&I)) in.off0 = flatIndex(iv->getType(), iv->getIndices());
      Type* mt = nullptr;
      if (isa<LoadInst>(I)) mt = I.getType(); if (auto* s = dyn_cast<StoreInst>(&I)) mt = s->getValueOperand()->getType();
      if (mt) { std::vector<std::pair<Type*, uint64_t>> f; flatten(mt, 0, f); for (auto& x : f) { in.leafW.push_back(tyW(x.first)); in.leafOff.push_back(x.second); } in.tysz = DL->getTypeStoreSize(mt); }
      if (auto* al = dyn_cast<AllocaInst>(&I)) in.tysz = DL->getTypeAllocSize(al->getAllocatedType());
      out.push_back(std::move(in));
    }
  }
  return fi;
}

static inline const V& opv(Frame& f, const Opnd& o, int k = 0) { if (o.slot >= 0) return f.regs[o.slot + k]; return o.cst[k]; }
static Frame& topMut(Thread& t) { auto& p = t.st.back(); if (p.use_count() > 1) p = std::make_shared<Frame>(*p); return *p; }

static void gotoBB(State&, Frame& f, int bb) {
  f.prev = f.bb; f.bb = bb; f.ip = 0; f.fn->cov[bb] = 1;
  auto& is = f.fn->bbs[bb]; int k = 0; std::vector<std::pair<int, V>> upd;
  while (k < (int)is.size() && is[k].op == Instruction::PHI) {
    for (auto& pr : is[k].phi) if (pr.first == f.prev) { for (int j = 0; j < is[k].nd; j++) upd.push_back({is[k].dst + j, opv(f, pr.second, j)}); break; }
    k++;
  }
  for (auto& u : upd) f.regs[u.first] = u.second;
  f.ip = k;
}
static void pushCall(State& st, Thread& t, const Function* F, std::vector<std::vector<V>>& args, const CallBase* cb) {
  FnInfo* fi = getFn(F); fi->touched = true;
  if (t.st.size() > 4000) violate(st, "stack-overflow", "call depth exceeded 4000 frames");
  auto f = std::make_shared<Frame>(); f->fn = fi; f->regs.resize(fi->nregs); fi->cov[0] = 1;
  for (size_t i = 0; i < fi->argSlot.size(); i++) {
    if (cb && cb->isByValArgument(i)) {
      uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType(i)); uint64_t src = concretize(st, args[i][0]);
      uint64_t a = newObj(st, 2 + t.id, sz, 2, true, nullptr); f->allocas.push_back(a);
      for (uint64_t k = 0; k < sz; k++) { Loc l = resolve(st, V(src + k, 64), 1, false); const Obj* so = getObj(st, l.base); E sb = so->s ? (*so->s)[l.off] : nullptr; Obj* d = mutObj(st, a); so = getObj(st, l.base); (*d->s)[k] = sb; d->c[k] = so->c[l.off]; }
      f->regs[fi->argSlot[i]] = V(a, 64); continue;
    }
    for (int k = 0; k < fi->argN[i]; k++) f->regs[fi->argSlot[i] + k] = i < args.size() && k < (int)args[i].size() ? args[i][k] : V(0, 64);
  }
  if (F->isVarArg()) for (size_t i = fi->argSlot.size(); i < args.size(); i++) for (auto& v : args[i]) f->va.push_back(v);
  t.st.push_back(f);
}
static void killFrame(State& st, Frame& f) { for (uint64_t a : f.allocas) freeObj(st, a); if (f.vaObj) freeObj(st, f.vaObj); }

// ---------------- exceptions
static std::map<uint64_t, int> tiIds;
static int tiId(uint64_t ti) { if (!ti) return 0x7fff; auto it = tiIds.find(ti); if (it != tiIds.end()) return it->second; int n = tiIds.size() + 1; tiIds[ti] = n; return n; }
static std::string gvName(uint64_t a) { auto it = gvByAddr.find(a); return it == gvByAddr.end() ? "" : it->second->getName().str(); }
static std::string tiName(uint64_t ti) { std::string n = gvName(ti); return n.empty() ? "?" : demangleS(n); }
// is `from` the same as, or derived from, `to`? adjusts offset
static bool tiMatch(State& st, uint64_t from, uint64_t to, uint64_t& adj) {
  if (from == to) return true;
  std::string fn = gvName(from), tn = gvName(to); if (!fn.empty() && fn == tn) return true;
  const GlobalVariable* g = gvByAddr.count(from) ? gvByAddr[from] : nullptr; if (!g || !g->hasInitializer()) return false;
  auto* init = dyn_cast<ConstantStruct>(g->getInitializer()); if (!init) return false;
  uint64_t vt = constExprVal(init->getOperand(0)); std::string vn = gvName(vt & ~0xFFFFFull);
  if (vn.find("si_class_type_info") != std::string::npos) return tiMatch(st, constExprVal(init->getOperand(2)), to, adj);
  if (vn.find("vmi_class_type_info") != std::string::npos) {
    for (unsigned i = 4; i + 1 < init->getNumOperands(); i += 2) { int64_t fl = (int64_t)constExprVal(init->getOperand(i + 1)); uint64_t a2 = 0; if (tiMatch(st, constExprVal(init->getOperand(i)), to, a2)) { if (!(fl & 1)) adj += (fl >> 8) + a2; return true; } }
  }
  return false;
}
// find landing; returns frame index or -1. land: actual frame to land in.
static bool padMatch(State& st, const LandingPadInst* lp, uint64_t ti, int& sel, uint64_t& adj) {
  for (unsigned i = 0; i < lp->getNumClauses(); i++) {
    if (lp->isCatch(i)) { uint64_t ct = constExprVal(lp->getClause(i)); uint64_t a = 0; if (!ct) { sel = tiId(0); adj = 0; return true; } if (tiMatch(st, ti, ct, a)) { sel = tiId(ct); adj = a; return true; } }
    else { auto* arr = dyn_cast<ConstantArray>(lp->getClause(i)); bool in = false; if (arr) for (auto& op : arr->operands()) { uint64_t a = 0; if (tiMatch(st, ti, constExprVal(cast<Constant>(op)), a)) in = true; } if (!in) { sel = -1; adj = 0; return true; } }
  }
  return false;
}
static void terminatePath(State& st, const std::string& why) { violate(st, "terminate", why); }
static std::string whatOf(State& st, uint64_t exc, uint64_t ti) {
  (void)st; (void)exc; return tiName(ti);
}
static void unwindFrom(State& st, Thread& t, uint64_t exc, bool skipTop) {
  ExcInfo& ei = st.exc[exc];
  int n = (int)t.st.size(); int handler = -1; int sel = 0; uint64_t adj = 0;
  for (int i = n - 1 - (skipTop ? 1 : 0); i >= 0; i--) {
    Frame& f = *t.st[i]; const Inst& in = f.fn->bbs[f.bb][f.ip];
    if (in.op == Instruction::Invoke) { const LandingPadInst* lp = cast<InvokeInst>(in.I)->getLandingPadInst(); if (padMatch(st, lp, ei.tinfo, sel, adj)) { handler = i; break; } }
    if (f.fn->F->doesNotThrow() && !(in.op == Instruction::Invoke)) break;
  }
  if (handler < 0) terminatePath(st, "uncaught exception: " + whatOf(st, exc, ei.tinfo));
  if (skipTop) { killFrame(st, *t.st.back()); t.st.pop_back(); }
  for (;;) {
    Frame& f = topMut(t); const Inst& in = f.fn->bbs[f.bb][f.ip];
    if (in.op == Instruction::Invoke) {
      const LandingPadInst* lp = cast<InvokeInst>(in.I)->getLandingPadInst(); int s = 0; uint64_t a = 0;
      bool m = padMatch(st, lp, ei.tinfo, s, a);
      if (m || lp->isCleanup()) { t.curExc = exc; t.curSel = m ? s : 0; if (m) ei.adj = a; gotoBB(st, f, in.bb1); return; }
    }
    killFrame(st, f); t.st.pop_back();
    if (t.st.empty()) terminatePath(st, "uncaught exception (unwound past thread entry): " + whatOf(st, exc, ei.tinfo));
  }
}

// ---------------- hashing & scheduling
static uint64_t hashV(const V& v) { return v.e ? v.e->hash : mix(v.c + 0x51ed27ull + v.w); }
static uint64_t hashObj(const Obj* o) {
  uint64_t h = mix(o->base * 3 + o->size);
  const uint8_t* p = o->c.data(); size_t n = o->c.size(), i = 0;
  for (; i + 8 <= n; i += 8) { uint64_t v; memcpy(&v, p + i, 8); h = mix(h ^ v) + i; }
  for (; i < n; i++) h = mix(h ^ p[i]) + i;
  if (o->s) for (size_t k = 0; k < o->s->size(); k++) { E e = (*o->s)[k]; if (e) h = mix(h ^ (e == UNINIT ? 77 : e->hash)) + k; }
  return h;
}
static H128 hashState(State& st) {
  uint64_t h = 0, h2 = 0;
  for (size_t s = GS; s < st.sp.size(); s++) {
    auto& S = st.sp[s]; h = mix(h + S.next);
    for (auto& c : S.ch) for (auto& o : c->o) if (o && o->alive && !o->ro) {
      if (!o->hv) { o->h = hashObj(o.get()); o->hv = true; }
      h += mix(o->h); h2 ^= mix(o->h * 7 + 1);
    }
  }
  auto add = [&](uint64_t x) { h = mix(h ^ x) + 1; h2 = mix(h2 + x * 0x9E3779B97F4A7C15ull); };
  for (auto& t : st.th) {
    add(t.id); add(t.status); add(t.waitA); add(t.waitB); add(t.phase); add(t.signaled); add(t.timed); add(t.curExc); add(t.curSel); add(t.uncaught);
    for (auto a : t.caught) add(a); for (auto& a : t.tls) add(a.second);
    for (auto& f : t.st) { add((uint64_t)(uintptr_t)f->fn); add(f->bb); add(f->ip); add(f->prev); for (auto& r : f->regs) add(hashV(r)); for (auto& r : f->va) add(hashV(r)); }
    if (O.hashVC) for (auto c : t.vc) add(c);
  }
  for (auto& m : st.mtx) { add(m.first); add(m.second.owner + 1); add(m.second.count); if (O.hashVC) for (auto c : m.second.vc) add(c); }
  for (auto& m : st.rw) { add(m.first); add(m.second.writer + 1); for (auto& r : m.second.readers) { add(r.first); add(r.second); } }
  if (O.hashVC) for (auto& m : st.avc) { add(m.first); for (auto c : m.second) add(c); }
  for (auto& m : st.once) { add(m.first); add(m.second); }
  for (auto& m : st.guardOwner) { add(m.first); add(m.second); }
  for (auto& e : st.exc) { add(e.first); add(e.second.ref); add(e.second.handlers); }
  for (auto& e : st.pcs) add(e->hash);
  for (auto& k : st.kv) add(hashV(k.second));
  for (auto& k : st.symCnt) add(k.second);
  add(st.spuriousLeft); if (O.preempt >= 0) { add(st.preempt); add(st.cur); }
  return {h, h2};
}
static bool mutexFree(State& st, uint64_t a, int tid) { auto it = st.mtx.find(a); return it == st.mtx.end() || it->second.owner < 0; (void)tid; }
static bool enabled(State& st, Thread& t) {
  switch (t.status) {
  case T_Run: return true;
  case T_Mutex: return mutexFree(st, t.waitA, t.id);
  case T_Cond: return (t.signaled || t.timed || st.spuriousLeft > 0) && mutexFree(st, t.waitB, t.id);
  case T_Join: return st.th[(int)t.waitA].status == T_Done;
  case T_Futex: return t.signaled || t.timed;
  case T_Once: { auto it = st.once.find(t.waitA); return it == st.once.end() || it->second != 1; }
  case T_Guard: return !st.guardOwner.count(t.waitA);
  case T_RwR: { auto& r = st.rw[t.waitA]; return r.writer < 0; }
  case T_RwW: { auto& r = st.rw[t.waitA]; return r.writer < 0 && r.readers.empty(); }
  case T_Done: return false;
  }
  return false;
}
static const char* statName(TStat s) { static const char* n[] = {"running", "waiting for a mutex", "waiting on a condition variable", "joining a thread", "waiting on a future/futex", "waiting in call_once", "waiting for a static initialiser", "waiting for a read lock", "waiting for a write lock", "finished"}; return n[s]; }
static bool gTrylock = false;   // the program has operations that fail while a mutex is held
// Returns true when the current thread may perform its visible operation now.
static bool schedPoint(State& st) {
  Thread& t = st.th[st.cur];
  t.onlyLock = 0;
  if (t.granted) { t.granted = false; return true; }
  if (st.noSched && !t.sleeping) { if (enabled(st, t)) return true; }
  std::vector<int> en; bool other = false;
  for (auto& u : st.th) if (enabled(st, u)) { en.push_back(u.id); if (u.id != st.cur) other = true; }
  gSchedPts++;
  if (en.empty()) {
    std::string d; for (auto& u : st.th) if (u.status != T_Done) d += " thread" + std::to_string(u.id) + ":" + statName(u.status) + ";";
    violate(st, "deadlock", "no thread can make progress:" + d);
  }
  if (!other) { return true; }
  bool curEn = enabled(st, t);
  if (st.noSched && curEn) en.erase(std::remove(en.begin(), en.end(), st.cur), en.end());   // a sleeping thread lets the others go on
  if (st.noSched == 2 && en.size() > 1) { int pick = en[0]; for (int i : en) if (i > st.cur) { pick = i; break; } en = {pick}; }   // one fixed schedule
  if (O.preempt >= 0 && curEn && st.preempt >= O.preempt && !t.sleeping) return true;
  if (O.dedup && st.noSched != 2) { H128 h = hashState(st); if (!seen.insert(h).second) { gPruned++; throw PathEnd{"pruned"}; } }
  if (st.noSched == 2 && t.sleeping) { H128 h = hashState(st); if (!st.slept.insert(h.a ^ mix(h.b + st.cur)).second) violate(st, "livelock", "threads only wait for each other in loops that nothing ends"); }
  for (size_t i = en.size(); i-- > 0;) {
    if (replaySkip(en[i], en, st.cur, st.sched.size())) continue;
    auto n = std::make_unique<State>(st); n->id = ++gForks; n->cur = en[i]; n->th[en[i]].granted = true; n->sched.push_back({en[i], (int)en.size()});
    if (curEn && en[i] != st.cur) n->preempt++;
    gMaxSched = std::max<uint64_t>(gMaxSched, n->sched.size());
    work.push_back(std::move(n));
  }
  throw PathEnd{"sched"};
}
// current thread cannot continue: block and reschedule
[[noreturn]] static void blockCur(State& st) {
  st.th[st.cur].granted = false; st.th[st.cur].onlyLock = 0;
  std::vector<int> en; for (auto& u : st.th) if (enabled(st, u)) en.push_back(u.id);
  if (en.empty()) {
    std::string d; for (auto& u : st.th) if (u.status != T_Done) d += " thread" + std::to_string(u.id) + ":" + statName(u.status) + ";";
    violate(st, "deadlock", "no thread can make progress:" + d);
  }
  if (O.dedup && st.noSched != 2) { H128 h = hashState(st); if (!seen.insert(h).second) { gPruned++; throw PathEnd{"pruned"}; } }
  if (st.noSched == 2 && en.size() > 1) { int pick = en[0]; for (int i : en) if (i > st.cur) { pick = i; break; } en = {pick}; }
  gSchedPts++;
  for (size_t i = en.size(); i-- > 0;) {
    if (replaySkip(en[i], en, st.cur, st.sched.size())) continue;
    auto n = std::make_unique<State>(st); n->id = ++gForks; n->cur = en[i]; n->th[en[i]].granted = true; n->sched.push_back({en[i], (int)en.size()});
    gMaxSched = std::max<uint64_t>(gMaxSched, n->sched.size());
    work.push_back(std::move(n));
  }
  throw PathEnd{"sched"};
}
static void becomeRunning(Thread& t) { t.status = T_Run; t.waitA = t.waitB = 0; t.phase = 0; t.signaled = false; t.timed = false; }

#include "builtins.inc"

// ---------------- instruction execution
static double asD(const V& v) { if (!v.conc()) throw PathEnd{"bound:symbolic floating point"}; double d; if (v.w == 32) { float f; uint32_t x = v.c; memcpy(&f, &x, 4); return f; } memcpy(&d, &v.c, 8); return d; }
static V fromD(double d, unsigned w) { if (w == 32) { float f = d; uint32_t x; memcpy(&x, &f, 4); return V(x, 32); } uint64_t x; memcpy(&x, &d, 8); return V(x, 64); }
static Kind binKind(unsigned op) {
  switch (op) {
  case Instruction::Add: return K_Add; case Instruction::Sub: return K_Sub; case Instruction::Mul: return K_Mul; case Instruction::UDiv: return K_UDiv; case Instruction::SDiv: return K_SDiv;
  case Instruction::URem: return K_URem; case Instruction::SRem: return K_SRem; case Instruction::And: return K_And; case Instruction::Or: return K_Or; case Instruction::Xor: return K_Xor;
  case Instruction::Shl: return K_Shl; case Instruction::LShr: return K_LShr; default: return K_AShr;
  }
}
static V icmp(CmpInst::Predicate p, const V& a, const V& b) {
  switch (p) {
  case CmpInst::ICMP_EQ: return vBin(K_Eq, a, b); case CmpInst::ICMP_NE: return vNot(vBin(K_Eq, a, b));
  case CmpInst::ICMP_ULT: return vBin(K_Ult, a, b); case CmpInst::ICMP_ULE: return vBin(K_Ule, a, b); case CmpInst::ICMP_UGT: return vBin(K_Ult, b, a); case CmpInst::ICMP_UGE: return vBin(K_Ule, b, a);
  case CmpInst::ICMP_SLT: return vBin(K_Slt, a, b); case CmpInst::ICMP_SLE: return vBin(K_Sle, a, b); case CmpInst::ICMP_SGT: return vBin(K_Slt, b, a); default: return vBin(K_Sle, b, a);
  }
}
static bool isVisibleAtomic(State& st, const Inst& in) { return O.schedAtomics && !in.quiet && st.th.size() > 1; }
static void atomicHB(State& st, uint64_t a, AtomicOrdering o, bool rd, bool wr) {
  if (!st.everThreaded) return; Thread& t = st.th[st.cur];
  bool acq = o == AtomicOrdering::Acquire || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent;
  bool rel = o == AtomicOrdering::Release || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent;
  if (rd && acq) { auto it = st.avc.find(a); if (it != st.avc.end()) vcJoin(t.vc, it->second); }
  if (wr && rel) { vcJoin(st.avc[a], t.vc); tick(t); }
}
static bool anyOtherAlive(State& st) { int n = 0; for (auto& t : st.th) if (t.status != T_Done) n++; return n > 1; }

static void finishReturn(State& st, Thread& t, std::vector<V>& rv) {
  killFrame(st, *t.st.back()); t.st.pop_back();
  if (t.st.empty()) {
    if (t.id == 0) throw PathEnd{"done"};
    t.status = T_Done; tick(t);
    if (st.noSched == 1) st.noSched = 0;
    blockCur(st);
  }
  Frame& f = topMut(t); const Inst& in = f.fn->bbs[f.bb][f.ip];
  for (int i = 0; i < in.nd && i < (int)rv.size(); i++) f.regs[in.dst + i] = rv[i];
  if (in.op == Instruction::Invoke) gotoBB(st, f, in.bb0); else f.ip++;
}

static void step(State& st) {
  Thread& t = st.th[st.cur]; Frame& f = topMut(t); const Inst& in = f.fn->bbs[f.bb][f.ip];
  gInstr++; st.steps++;
  auto set = [&](const V& v) { f.regs[in.dst] = v; };
  switch (in.op) {
  case Instruction::Ret: { std::vector<V> rv; if (!in.ops.empty()) for (int i = 0; i < in.ops[0].n; i++) rv.push_back(opv(f, in.ops[0], i)); finishReturn(st, t, rv); return; }
  case Instruction::Br: { if (in.bb1 < 0) { gotoBB(st, f, in.bb0); return; } bool b = decideV(st, opv(f, in.ops[0])); gotoBB(st, f, b ? in.bb0 : in.bb1); return; }
  case Instruction::Switch: {
    V c = opv(f, in.ops[0]);
    if (c.conc()) { for (auto& k : in.cases) if (k.first.c == c.c) { gotoBB(st, f, k.second); return; } gotoBB(st, f, in.bb0); return; }
    for (auto& k : in.cases) if (decide(st, mkEq(c.e, toE(k.first)))) { gotoBB(st, f, k.second); return; }
    gotoBB(st, f, in.bb0); return;
  }
  case Instruction::Unreachable: violate(st, "unreachable", "execution reached code the compiler assumes unreachable (undefined behaviour)");
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    if (in.nd > 1) { for (int i = 0; i < in.nd; i++) f.regs[in.dst + i] = vBin(binKind(in.op), opv(f, in.ops[0], i), opv(f, in.ops[1], i)); f.ip++; return; }
    { V a = opv(f, in.ops[0]), b = opv(f, in.ops[1]); if ((in.op == Instruction::LShr || in.op == Instruction::AShr) && !a.conc() && b.conc() && b.c == a.w - 1 && a.w > 8) { V s = lcond(st, vBin(K_Slt, a, V(0, a.w))); if (s.conc()) { set(V(s.c ? (in.op == Instruction::LShr ? 1 : ~0ull) : 0, a.w)); f.ip++; return; } }
    set(vBin(binKind(in.op), a, b)); f.ip++; return; }
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
    V a = opv(f, in.ops[0]), b = opv(f, in.ops[1]);
    if (decideV(st, vBin(K_Eq, b, V(0, b.w)))) violate(st, "arithmetic", "division by zero");
    if (!a.conc() && b.conc()) { bool sg = in.op == Instruction::SDiv || in.op == Instruction::SRem, rem = in.op == Instruction::URem || in.op == Instruction::SRem; V r; if (linDiv(st, a.e, b.c, sg, rem, r)) { gLin++; f.regs[in.dst] = r; f.ip++; return; } else if (getenv("SYMX_DBG")) fprintf(stderr, "DIV %s : / %lu : %s\n", locOf(in.I).c_str(), (unsigned long)b.c, exprStr(a.e, 14).substr(0, 1500).c_str()); }
    set(vBin(binKind(in.op), a, b)); f.ip++; return;
  }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: { double a = asD(opv(f, in.ops[0])), b = asD(opv(f, in.ops[1])); double r = in.op == Instruction::FAdd ? a + b : in.op == Instruction::FSub ? a - b : in.op == Instruction::FMul ? a * b : a / b; set(fromD(r, in.w)); f.ip++; return; }
  case Instruction::FNeg: set(fromD(-asD(opv(f, in.ops[0])), in.w)); f.ip++; return;
  case Instruction::FRem: set(fromD(fmod(asD(opv(f, in.ops[0])), asD(opv(f, in.ops[1]))), in.w)); f.ip++; return;
  case Instruction::ICmp:
    for (int i = 0; i < in.nd; i++) f.regs[in.dst + i] = icmp(cast<ICmpInst>(in.I)->getPredicate(), opv(f, in.ops[0], i), opv(f, in.ops[1], i));
    if (in.nd == 1 && !f.regs[in.dst].conc()) { E simp = nullptr; int l = linCmp(st, f.regs[in.dst].e, &simp); if (l >= 0) { gLin++; f.regs[in.dst] = V(l, 1); } else if (simp) { gLin++; f.regs[in.dst] = V(simp); } }
    f.ip++; return;
  case Instruction::FCmp: {
    double a = asD(opv(f, in.ops[0])), b = asD(opv(f, in.ops[1])); bool r = false, un = std::isnan(a) || std::isnan(b);
    switch (cast<FCmpInst>(in.I)->getPredicate()) {
    case CmpInst::FCMP_OEQ: r = !un && a == b; break; case CmpInst::FCMP_OGT: r = a > b; break; case CmpInst::FCMP_OGE: r = a >= b; break; case CmpInst::FCMP_OLT: r = a < b; break; case CmpInst::FCMP_OLE: r = a <= b; break; case CmpInst::FCMP_ONE: r = !un && a != b; break;
    case CmpInst::FCMP_UEQ: r = un || a == b; break; case CmpInst::FCMP_UGT: r = un || a > b; break; case CmpInst::FCMP_UGE: r = un || a >= b; break; case CmpInst::FCMP_ULT: r = un || a < b; break; case CmpInst::FCMP_ULE: r = un || a <= b; break; case CmpInst::FCMP_UNE: r = un || a != b; break;
    case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_TRUE: r = true; break; default: break;
    }
    set(V(r, 1)); f.ip++; return;
  }
  case Instruction::Alloca: {
    uint64_t n = concretize(st, opv(f, in.ops[0])); uint64_t a = newObj(st, 2 + t.id, in.tysz * n, 2, true, in.I);
    Frame& g = topMut(st.th[st.cur]); g.allocas.push_back(a); g.regs[in.dst] = V(a, 64); g.ip++; return;
  }
  case Instruction::Load: {
    auto* li = cast<LoadInst>(in.I); V p = opv(f, in.ops[0]);
    if (li->isAtomic() && isVisibleAtomic(st, in)) if (!schedPoint(st)) return;
    if (in.leafW.size() == 1) {
      unsigned nb = (in.leafW[0] + 7) / 8; V v = loadMem(st, p, nb, li->isAtomic());
      if (v.w != in.leafW[0]) v = vExtract(v, 0, in.leafW[0]);
      if (li->isAtomic()) atomicHB(st, concretize(st, p), li->getOrdering(), true, false);
      f.regs[in.dst] = v;
    } else for (size_t i = 0; i < in.leafW.size(); i++) { V v = loadMem(st, vBin(K_Add, p, V(in.leafOff[i], 64)), (in.leafW[i] + 7) / 8); if (v.w != in.leafW[i]) v = vExtract(v, 0, in.leafW[i]); f.regs[in.dst + i] = v; }
    f.ip++; return;
  }
  case Instruction::Store: {
    auto* si = cast<StoreInst>(in.I); V p = opv(f, in.ops[1]);
    if (si->isAtomic() && isVisibleAtomic(st, in)) if (!schedPoint(st)) return;
    for (size_t i = 0; i < in.leafW.size(); i++) {
      V v = opv(f, in.ops[0], i); unsigned nb = (in.leafW[i] + 7) / 8; if (v.w != nb * 8) v = vZExt(v, nb * 8);
      storeMem(st, i || in.leafOff[i] ? vBin(K_Add, p, V(in.leafOff[i], 64)) : p, v, nb, si->isAtomic());
    }
    if (si->isAtomic()) { uint64_t a = concretize(st, p); auto o = si->getOrdering(); if (o == AtomicOrdering::Monotonic && st.everThreaded) st.avc.erase(a); atomicHB(st, a, o, false, true); }
    f.ip++; return;
  }
  case Instruction::AtomicRMW: {
    auto* ai = cast<AtomicRMWInst>(in.I); V p = opv(f, in.ops[0]), v = opv(f, in.ops[1]);
    bool addsub = ai->getOperation() == AtomicRMWInst::Add || ai->getOperation() == AtomicRMWInst::Sub;
    // the waiter flag of a future: set between the look at the future and the wait, both of which see the same state whether or not others run in between
    bool waiterFlag = O.reduce && ai->getOperation() == AtomicRMWInst::Or && v.conc() && v.w == 32 && v.c == 0x80000000u;
    if (st.th.size() > 1 && O.schedAtomics && !waiterFlag && (!addsub || O.schedRmw)) if (!schedPoint(st)) return;
    if (!waiterFlag) t.onlyLock = 0;
    unsigned nb = (v.w + 7) / 8; V old = loadMem(st, p, nb, true); if (old.w != v.w) old = vExtract(old, 0, v.w); V nv;
    switch (ai->getOperation()) {
    case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = vBin(K_Add, old, v); break; case AtomicRMWInst::Sub: nv = vBin(K_Sub, old, v); break;
    case AtomicRMWInst::And: nv = vBin(K_And, old, v); break; case AtomicRMWInst::Or: nv = vBin(K_Or, old, v); break; case AtomicRMWInst::Xor: nv = vBin(K_Xor, old, v); break;
    case AtomicRMWInst::UMax: nv = vIte(vBin(K_Ult, old, v), v, old); break; case AtomicRMWInst::UMin: nv = vIte(vBin(K_Ult, v, old), v, old); break;
    case AtomicRMWInst::Max: nv = vIte(vBin(K_Slt, old, v), v, old); break; case AtomicRMWInst::Min: nv = vIte(vBin(K_Slt, v, old), v, old); break;
    default: throw PathEnd{"bound:unsupported atomicrmw"};
    }
    storeMem(st, p, nv.w == nb * 8 ? nv : vZExt(nv, nb * 8), nb, true); atomicHB(st, concretize(st, p), ai->getOrdering(), true, true);
    f.regs[in.dst] = old; f.ip++; return;
  }
  case Instruction::AtomicCmpXchg: {
    auto* ci = cast<AtomicCmpXchgInst>(in.I); if (isVisibleAtomic(st, in)) if (!schedPoint(st)) return;
    V p = opv(f, in.ops[0]), cmp = opv(f, in.ops[1]), nv = opv(f, in.ops[2]); unsigned nb = (cmp.w + 7) / 8; V old = loadMem(st, p, nb, true); if (old.w != cmp.w) old = vExtract(old, 0, cmp.w);
    bool eq = decideV(st, vBin(K_Eq, old, cmp));
    if (eq) storeMem(st, p, nv.w == nb * 8 ? nv : vZExt(nv, nb * 8), nb, true);
    atomicHB(st, concretize(st, p), eq ? ci->getSuccessOrdering() : ci->getFailureOrdering(), true, eq);
    f.regs[in.dst] = old; f.regs[in.dst + 1] = V(eq, 1); f.ip++; return;
  }
  case Instruction::Fence: f.ip++; return;
  case Instruction::GetElementPtr: {
    V p = opv(f, in.ops[0]);
    if (in.gepConst) p = vBin(K_Add, p, V((uint64_t)in.gepConst, 64));
    for (auto& g : in.gepScale) { V ix = opv(f, in.ops[g.first]); if (ix.w < 64) ix = vSExt(ix, 64); p = vBin(K_Add, p, g.second == 1 ? ix : vBin(K_Mul, ix, V((uint64_t)g.second, 64))); }
    set(p); f.ip++; return;
  }
  case Instruction::Trunc: for (int i = 0; i < in.nd; i++) f.regs[in.dst + i] = vExtract(opv(f, in.ops[0], i), 0, tyW(in.ty->getScalarType())); f.ip++; return;
  case Instruction::ZExt: for (int i = 0; i < in.nd; i++) f.regs[in.dst + i] = vZExt(opv(f, in.ops[0], i), tyW(in.ty->getScalarType())); f.ip++; return;
  case Instruction::SExt: for (int i = 0; i < in.nd; i++) f.regs[in.dst + i] = vSExt(opv(f, in.ops[0], i), tyW(in.ty->getScalarType())); f.ip++; return;
  case Instruction::PtrToInt: case Instruction::IntToPtr: { V v = opv(f, in.ops[0]); if (v.w > in.w) v = vExtract(v, 0, in.w); else if (v.w < in.w) v = vZExt(v, in.w); set(v); f.ip++; return; }
  case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: {
    if (in.nd == in.ops[0].n) { for (int i = 0; i < in.nd; i++) { V v = opv(f, in.ops[0], i); f.regs[in.dst + i] = v; } }
    else {   // vector <-> scalar reinterpretation
      std::vector<V> src; for (int i = 0; i < in.ops[0].n; i++) src.push_back(opv(f, in.ops[0], i));
      E all = nullptr; for (auto& v : src) all = all ? mkConcat(toE(v), all) : toE(v);
      unsigned w = all->w / in.nd; for (int i = 0; i < in.nd; i++) f.regs[in.dst + i] = V(mkExtract(all, i * w, w));
    }
    f.ip++; return;
  }
  case Instruction::FPToSI: set(V((uint64_t)(int64_t)asD(opv(f, in.ops[0])), in.w)); f.ip++; return;
  case Instruction::FPToUI: set(V((uint64_t)asD(opv(f, in.ops[0])), in.w)); f.ip++; return;
  case Instruction::SIToFP: { V v = opv(f, in.ops[0]); if (!v.conc()) throw PathEnd{"bound:symbolic integer converted to floating point"}; set(fromD((double)(int64_t)sextv(v.c, v.w), in.w)); f.ip++; return; }
  case Instruction::UIToFP: { V v = opv(f, in.ops[0]); if (!v.conc()) throw PathEnd{"bound:symbolic integer converted to floating point"}; set(fromD((double)v.c, in.w)); f.ip++; return; }
  case Instruction::FPExt: case Instruction::FPTrunc: set(fromD(asD(opv(f, in.ops[0])), in.w)); f.ip++; return;
  case Instruction::Select: {
    V c = opv(f, in.ops[0]);
    if (in.ops[0].n > 1) { for (int i = 0; i < in.nd; i++) f.regs[in.dst + i] = vIte(opv(f, in.ops[0], i), opv(f, in.ops[1], i), opv(f, in.ops[2], i)); }
    else { std::vector<V> r; for (int i = 0; i < in.nd; i++) r.push_back(vIte(c, opv(f, in.ops[1], i), opv(f, in.ops[2], i))); for (int i = 0; i < in.nd; i++) f.regs[in.dst + i] = r[i]; }
    f.ip++; return;
  }
  case Instruction::ExtractValue: for (int i = 0; i < in.nd; i++) f.regs[in.dst + i] = opv(f, in.ops[0], in.off0 + i); f.ip++; return;
  case Instruction::InsertValue: { std::vector<V> r; for (int i = 0; i < in.nd; i++) r.push_back(opv(f, in.ops[0], i)); for (int i = 0; i < in.ops[1].n; i++) r[in.off0 + i] = opv(f, in.ops[1], i); for (int i = 0; i < in.nd; i++) f.regs[in.dst + i] = r[i]; f.ip++; return; }
  case Instruction::ExtractElement: { uint64_t ix = concretize(st, opv(f, in.ops[1])); set(opv(f, in.ops[0], ix)); f.ip++; return; }
  case Instruction::InsertElement: { uint64_t ix = concretize(st, opv(f, in.ops[2])); std::vector<V> r; for (int i = 0; i < in.nd; i++) r.push_back(opv(f, in.ops[0], i)); r[ix] = opv(f, in.ops[1]); for (int i = 0; i < in.nd; i++) f.regs[in.dst + i] = r[i]; f.ip++; return; }
  case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(in.I); std::vector<V> r; int n0 = in.ops[0].n; for (int i = 0; i < in.nd; i++) { int m = sv->getMaskValue(i); r.push_back(m < 0 ? V(0, tyW(in.ty->getScalarType())) : m < n0 ? opv(f, in.ops[0], m) : opv(f, in.ops[1], m - n0)); } for (int i = 0; i < in.nd; i++) f.regs[in.dst + i] = r[i]; f.ip++; return; }
  case Instruction::LandingPad: f.regs[in.dst] = V(t.curExc, 64); f.regs[in.dst + 1] = V((uint32_t)t.curSel, 32); f.ip++; return;
  case Instruction::Resume: { uint64_t e = concretize(st, opv(f, in.ops[0], 0)); unwindFrom(st, t, e, true); return; }
  case Instruction::Call: case Instruction::Invoke: {
    auto* cb = cast<CallBase>(in.I);
    const Function* callee = in.callee; size_t na = cb->arg_size();
    if (!callee) {
      if (cb->isInlineAsm()) { if (in.nd) throw PathEnd{"bound:inline assembly"}; f.ip++; return; }
      uint64_t a = concretize(st, opv(f, in.ops[na])); callee = fnAt(a);
      if (!callee) violate(st, "memory", a == 0 ? "call through a null function pointer" : "call through an invalid function pointer");
    }
    if (!callee->isDeclaration()) {
      std::vector<std::vector<V>> args(na); for (size_t i = 0; i < na; i++) for (int k = 0; k < in.ops[i].n; k++) args[i].push_back(opv(f, in.ops[i], k));
      pushCall(st, t, callee, args, cb); return;
    }
    int bi = in.builtin; int iid = callee->getIntrinsicID();
    std::vector<V> args; for (size_t i = 0; i < na; i++) for (int k = 0; k < in.ops[i].n; k++) args.push_back(opv(f, in.ops[i], k));
    V ret(0, in.w ? in.w : 64);
    if (iid) { if (!doIntrinsic(st, t, f, in, iid, args, ret)) return; }
    else {
      if (bi < 0) { auto bt = builtinIdx.find(callee->getName().str()); if (bt == builtinIdx.end()) throw PathEnd{"bound:call to an external function that has no model: " + demangleS(callee->getName().str())}; bi = bt->second; }
      if (!builtins[bi](st, t, f, in, args, ret)) return;
    }
    Frame& g = topMut(st.th[st.cur]);
    if (in.nd == 1) g.regs[in.dst] = ret;
    if (in.op == Instruction::Invoke) gotoBB(st, g, in.bb0); else g.ip++;
    return;
  }
  default: { std::string s; raw_string_ostream os(s); in.I->print(os); throw PathEnd{"bound:unsupported instruction " + os.str()}; }
  }
}

static std::string jesc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r; }
static size_t rssMB() { FILE* f = fopen("/proc/self/statm", "r"); long a = 0, b = 0; if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); } return b * 4096 / (1 << 20); }

int main(int argc, char** argv) {
  std::string bc, outFile;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") O.entry = val(); else if (a == "--max-time") O.maxTime = atof(val().c_str()); else if (a == "--max-steps") O.maxSteps = strtoull(val().c_str(), 0, 10);
    else if (a == "--preempt") O.preempt = atoi(val().c_str()); else if (a == "--no-reduce") O.reduce = false; else if (a == "--no-races") O.races = false; else if (a == "--no-dedup") O.dedup = false; else if (a == "--hash-vc") O.hashVC = true;
    else if (a == "--spurious") O.spurious = atoi(val().c_str()); else if (a == "--no-sched-atomics") O.schedAtomics = false; else if (a == "--sched-rmw") O.schedRmw = true; else if (a == "--max-viol") O.maxViol = atoi(val().c_str());
    else if (a == "--out") outFile = val(); else if (a == "--repo") O.repo = val(); else if (a == "--trace") O.trace = true; else if (a == "--timeout-ms") gTimeoutMs = atoi(val().c_str()); else if (a == "--cross") gCross = val(); else if (a == "--cross-time") gCrossTime = atof(val().c_str()); else if (a == "--max-mem") O.maxMem = atoi(val().c_str());
    else if (a == "--race-ignore") raceIgnore.insert(val());
    else if (a == "--ce") { gReplay = true; O.dedup = false; FILE* f = fopen(val().c_str(), "r"); static char b[1 << 20]; while (f && fgets(b, sizeof b, f)) { char* sp = strchr(b, ' '); if (!sp) continue; *sp = 0; if (!strcmp(b, "schedule")) { for (char* q = sp + 1; *q;) { char* e; long v = strtol(q, &e, 10); if (e == q) break; gSchedule.push_back(v); q = *e == ',' ? e + 1 : e; } } else gCE[b] = strtoull(sp + 1, 0, 0); } if (f) fclose(f); }
    else if (a == "--sched-unlock") O.schedUnlock = true;
    else if (a == "--max-paths") O.maxPaths = strtoull(val().c_str(), 0, 10);
    else if (a[0] != '-') bc = a; else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  T0 = std::chrono::steady_clock::now();
  SMDiagnostic err; M = parseIRFile(bc, err, LC); if (!M) { err.print("symx", errs()); return 2; }
  // a thread-local variable named directly means the copy of the running thread
  for (auto& G : M->globals()) if (G.isThreadLocal()) {
    convertUsersOfConstantsToInstructions({&G});
    std::vector<Use*> us; for (auto& u : G.uses()) us.push_back(&u);
    for (auto* u : us) {
      auto* in = dyn_cast<Instruction>(u->getUser()); if (!in) continue; if (auto* ii = dyn_cast<IntrinsicInst>(in)) if (ii->getIntrinsicID() == Intrinsic::threadlocal_address) continue;
      auto* phi = dyn_cast<PHINode>(in); IRBuilder<> B(phi ? phi->getIncomingBlock(*u)->getTerminator() : in); if (!phi && in->getDebugLoc()) B.SetCurrentDebugLocation(in->getDebugLoc()); u->set(B.CreateThreadLocalAddress(&G));
    }
  }
  DL = &M->getDataLayout(); registerBuiltins();
  std::string fatal; std::string sample;
  try {
    auto st = std::make_unique<State>(); st->sp.resize(3);
    for (auto& F : *M) addrOfFn(&F);
    for (auto& G : M->globals()) {
      uint64_t sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 8; if (G.isDeclaration()) sz = std::max<uint64_t>(sz, 256);
      uint64_t a = newObj(*st, GS, sz, 0, false); gvAddr[&G] = a; gvByAddr[a] = &G;
    }
    for (auto& G : M->globals()) if (G.hasInitializer() && !G.isThreadLocal()) initGlobal(*st, gvAddr[&G], G.getInitializer());
    for (auto& G : M->globals()) { std::string gn = G.getName().str(); if (gn.compare(0, 6, "_ZSt4c") == 0 || gn.find("env_") != std::string::npos || raceIgnore.count(gn)) mutObj(*st, gvAddr[&G])->norace = true; }
    for (auto& G : M->globals()) if (G.isConstant()) mutObj(*st, gvAddr[&G])->ro = true;
    gEndTime = (double)std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count() + (O.maxTime - elapsed()) * 1000;
    if (auto* tf = M->getFunction("pthread_mutex_trylock")) gTrylock = !tf->use_empty();
    const Function* EF = M->getFunction(O.entry); if (!EF || EF->isDeclaration()) throw Fatal{"no entry function " + O.entry};
    Thread t0; t0.id = 0; t0.vc.assign(1, 1); st->th.push_back(t0); st->spuriousLeft = O.spurious;
    // run constructors then the entry
    std::vector<std::pair<int, const Function*>> ctors;
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& op : arr->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* fn = stripFn(cs->getOperand(1))) ctors.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn}); }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    std::vector<const Function*> seq; for (auto& c : ctors) seq.push_back(c.second); seq.push_back(EF);
    // a synthetic driver: execute each in turn on the initial state
    bool initOk = true;
    for (size_t i = 0; i + 1 < seq.size() && initOk; i++) {
      std::vector<std::vector<V>> noargs; st->th[0].st.clear(); pushCall(*st, st->th[0], seq[i], noargs, nullptr);
      try { for (;;) { step(*st); if (!work.empty()) throw Fatal{"static initialiser forked"}; } } catch (PathEnd& p) { if (p.why != "done") { gIncon["static initialiser: " + p.why + " at " + locOf(curInst(*st).I)]++; initOk = false; } }
    }
    if (initOk) { std::vector<std::vector<V>> noargs; st->th[0].st.clear(); pushCall(*st, st->th[0], EF, noargs, nullptr); work.push_back(std::move(st)); }
    uint64_t iter = 0; bool stop = false;
    while (!work.empty() && !stop) {
      StateP s = std::move(work.back()); work.pop_back();
      try {
        for (;;) {
          step(*s);
          if (s->steps > O.maxSteps) { violate(*s, "nontermination", "no result within the step bound of " + std::to_string(O.maxSteps) + " instructions"); }
          if ((++iter & 0x3FF) == 0 || gTimeUp) { if (elapsed() > O.maxTime) { gIncon["time budget exhausted with unexplored paths"]++; stop = true; break; } }
        }
      } catch (PathEnd& p) {
        if (p.why == "done" || p.why == "exit") { gPaths++; gDone++; if (gDone <= 4 || (gDone & (gDone - 1)) == 0) { std::vector<std::pair<std::string, std::string>> in; fillInputs(*s, s->model, in); std::string js = "{\"inputs\":{"; int k = 0; for (auto& x : in) { if (k++ > 400) break; js += (k > 1 ? "," : "") + std::string("\"") + jesc(x.first) + "\":\"" + x.second + "\""; } js += "},\"schedule_len\":" + std::to_string(s->sched.size()) + ",\"constraints\":" + std::to_string(s->pc.size()) + ",\"steps\":" + std::to_string(s->steps) + "}"; sample += (sample.empty() ? "" : ",") + js; } }
        else if (p.why == "violation") { gPaths++; }
        else if (p.why == "pruned" || p.why == "sched") {}
        else if (p.why == "infeasible") { gInfeasible++; }
        else if (p.why.compare(0, 6, "bound:") == 0) { gPaths++; gIncon[p.why.substr(6) + " [" + (s->th[s->cur].st.empty() ? "" : stackOf(*s, s->cur)[0]) + "]"]++; }
        else { gIncon[p.why]++; }
        if ((int)gViol.size() >= O.maxViol) stop = true;
        if (gPaths > O.maxPaths) { gIncon["path bound"]++; stop = true; }
        if (elapsed() > O.maxTime) { gIncon["time budget exhausted with unexplored paths"]++; stop = true; }
        if ((gForks & 0x3FF) == 0 && rssMB() > O.maxMem) { gIncon["memory budget exhausted"]++; stop = true; }
      }
    }
  } catch (Fatal& f) { fatal = f.msg; gIncon["engine: " + f.msg]++; }
  catch (PathEnd& p) { gIncon["engine: " + p.why]++; }
  std::string js = "{";
  auto num = [&](const char* k, double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); js += std::string("\"") + k + "\":" + b + ","; };
  num("paths", gPaths); num("completed", gDone); num("forks", gForks); num("pruned", gPruned); num("infeasible", gInfeasible); num("instructions", gInstr); num("sched_points", gSchedPts); num("distinct_sched_states", seen.size()); num("max_schedule", gMaxSched);
  num("assert_queries", gAssertQueries); num("assert_proved", gAssertProved); num("mem_checks", gMemChecks);
  num("solver_queries", gS.queries); num("solver_sat", gS.sat); num("solver_unsat", gS.unsat); num("solver_unknown", gS.unknown); num("solver_cached", gS.cached); num("solver_model_hits", gS.modelHits); num("solver_time", gS.time); num("solver_fallback", gS.fallback); num("cross_checked", gS.cross); num("cross_disagree", gS.crossDisagree); num("cross_time", gS.crossTime);
  num("wall", elapsed()); num("violations_total", gViolTotal);
  auto mp = [&](const char* k, std::map<std::string, uint64_t>& m) { js += std::string("\"") + k + "\":{"; int n = 0; for (auto& x : m) js += (n++ ? "," : "") + std::string("\"") + jesc(x.first) + "\":" + std::to_string(x.second); js += "},"; };
  mp("reach", gReach); mp("asserts", gAssert); mp("inconclusive", gIncon);
  js += "\"samples\":[" + sample + "],";
  js += "\"violations\":["; int n = 0;
  for (auto& v : gViol) {
    js += (n++ ? "," : "") + std::string("{\"kind\":\"") + jesc(v.kind) + "\",\"msg\":\"" + jesc(v.msg) + "\",\"loc\":\"" + jesc(v.loc) + "\",\"stack\":[";
    int k = 0; for (auto& s : v.stack) js += (k++ ? "," : "") + std::string("\"") + jesc(s) + "\""; js += "],\"inputs\":["; k = 0;
    for (auto& s : v.inputs) js += (k++ ? "," : "") + std::string("[\"") + jesc(s.first) + "\",\"" + s.second + "\"]"; js += "],\"schedule\":["; k = 0;
    for (auto& s : v.sched) js += (k++ ? "," : "") + std::to_string(s.first); js += "],\"notes\":["; k = 0;
    for (auto& s : v.notes) js += (k++ ? "," : "") + std::string("\"") + jesc(s) + "\""; js += "]}";
  }
  js += "],\"functions\":["; n = 0;
  // coverage by source scope: a source function inlined elsewhere is still counted as encoded
  struct Cov { std::string file, name; unsigned line = 0; std::map<unsigned, bool> lines; };
  std::map<const DISubprogram*, Cov> cv;
  for (auto& fi : fnInfo) {
    if (!fi.second->touched) continue; int b = 0;
    for (auto& B : *fi.first) {
      bool c = fi.second->cov[b++];
      for (auto& I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        for (const DILocation* l = I.getDebugLoc().get(); l; l = l->getInlinedAt()) {
          auto* sp = l->getScope()->getSubprogram(); if (!sp) continue;
          auto& x = cv[sp];
          if (x.file.empty()) { x.file = sp->getFilename().str(); x.line = sp->getLine(); x.name = sp->getLinkageName().empty() ? sp->getName().str() : demangleS(sp->getLinkageName().str()); }
          if (l->getLine()) { bool& k = x.lines[l->getLine()]; k = k || c; }
        }
      }
    }
  }
  std::map<std::string, std::array<unsigned, 3>> fo;   // template instances are merged by source position
  std::map<std::string, std::pair<std::string, std::map<unsigned, bool>>> byPos;
  for (auto& x : cv) {
    auto p = x.second.file.find(O.repo); if (p == std::string::npos) continue;
    std::string f = x.second.file.substr(p + O.repo.size()); char k[32]; snprintf(k, sizeof k, ":%05u", x.second.line);
    auto& e = byPos[f + k]; if (e.first.empty() || x.second.name.size() < e.first.size()) e.first = x.second.name;
    for (auto& l : x.second.lines) { bool& q = e.second[l.first]; q = q || l.second; }
  }
  for (auto& x : byPos) {
    unsigned c = 0; for (auto& l : x.second.second) c += l.second; if (!c) continue;
    auto p = x.first.rfind(':');
    js += (n++ ? "," : "") + std::string("[\"") + jesc(x.second.first) + "\",\"" + jesc(x.first.substr(0, p)) + "\"," + std::to_string(atoi(x.first.c_str() + p + 1)) + "," + std::to_string(c) + "," + std::to_string(x.second.second.size()) + "]";
  }
  js += "]}";
  if (outFile.empty()) puts(js.c_str()); else { std::ofstream o(outFile); o << js << "\n"; }
  return gViol.empty() ? (gIncon.empty() ? 0 : 3) : 1;
}
