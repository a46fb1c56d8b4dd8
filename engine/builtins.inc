// Models of compiler intrinsics, the C++ runtime ABI, pthread primitives and the harness API.
#include <cxxabi.h>
static void copyMem(State& st, const V& dst, const V& src, uint64_t n) {
  if (!n) return;
  uint64_t d = concretize(st, dst), s = concretize(st, src);
  Loc ls = resolve(st, V(s, 64), n, false), ld = resolve(st, V(d, 64), n, true);
  raceCheck(st, ls.base, ls.off, n, false); raceCheck(st, ld.base, ld.off, n, true);
  const Obj* so = getObj(st, ls.base);
  std::vector<uint8_t> tmp(so->c.begin() + ls.off, so->c.begin() + ls.off + n); std::vector<E> te; bool any = false;
  if (so->s) { te.assign(so->s->begin() + ls.off, so->s->begin() + ls.off + n); for (E e : te) if (e) any = true; }
  Obj* o = mutObj(st, ld.base); memcpy(&o->c[ld.off], tmp.data(), n);
  if (any) { if (!o->s) o->s.reset(new std::vector<E>(o->size, nullptr)); std::copy(te.begin(), te.end(), o->s->begin() + ld.off); }
  else if (o->s) std::fill(o->s->begin() + ld.off, o->s->begin() + ld.off + n, nullptr);
}
static void setMem(State& st, const V& dst, const V& val, uint64_t n) {
  if (!n) return; uint64_t d = concretize(st, dst); Loc l = resolve(st, V(d, 64), n, true); raceCheck(st, l.base, l.off, n, true);
  Obj* o = mutObj(st, l.base);
  if (val.conc()) { memset(&o->c[l.off], (int)(val.c & 0xff), n); if (o->s) std::fill(o->s->begin() + l.off, o->s->begin() + l.off + n, nullptr); }
  else { E b = mkExtract(val.e, 0, 8); if (!o->s) o->s.reset(new std::vector<E>(o->size, nullptr)); for (uint64_t i = 0; i < n; i++) (*o->s)[l.off + i] = b; }
}
static bool doIntrinsic(State& st, Thread& t, Frame& f, const Inst& in, int id, std::vector<V>& a, V& ret) {
  auto un = [&](Kind k) { ret = vBin(k, a[0], a[1]); return true; }; (void)un;
  switch (id) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = concretize(st, a[2]); copyMem(st, a[0], a[1], n); return true; }
  case Intrinsic::memset: case Intrinsic::memset_inline: { uint64_t n = concretize(st, a[2]); setMem(st, a[0], a[1], n); return true; }
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::stackrestore: return true;
  case Intrinsic::stacksave: ret = V(0, 64); return true;
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address:
    if (id == Intrinsic::threadlocal_address) {
      auto* gv = dyn_cast<GlobalVariable>(cast<CallBase>(in.I)->getArgOperand(0)->stripPointerCasts()); if (!gv) throw PathEnd{"bound:threadlocal address"};
      uint64_t g = gvAddr[gv]; auto it = t.tls.find(g); if (it == t.tls.end()) { uint64_t x = newObj(st, 2 + t.id, DL->getTypeAllocSize(gv->getValueType()), 0, false); if (gv->hasInitializer()) initGlobal(st, x, gv->getInitializer()); t.tls[g] = x; ret = V(x, 64); } else ret = V(it->second, 64);
      return true;
    }
    ret = a[0]; return true;
  case Intrinsic::trap: case Intrinsic::ubsantrap: violate(st, "trap", "llvm.trap executed");
  case Intrinsic::vastart: {
    uint64_t p = concretize(st, a[0]); uint64_t n = f.va.size(); uint64_t ov = newObj(st, 2 + t.id, n * 8 + 8, 1, false); Frame& g = topMut(t); if (g.vaObj) {} g.vaObj = ov;
    for (uint64_t i = 0; i < n; i++) { V v = g.va[i]; if (v.w < 64) v = vZExt(v, 64); writeObj(st, ov, i * 8, v, 8); }
    storeMem(st, V(p, 64), V(48, 32), 4); storeMem(st, V(p + 4, 64), V(176, 32), 4); storeMem(st, V(p + 8, 64), V(ov, 64), 8); storeMem(st, V(p + 16, 64), V(0, 64), 8); return true;
  }
  case Intrinsic::vaend: return true;
  case Intrinsic::vacopy: copyMem(st, a[0], a[1], 24); return true;
  case Intrinsic::eh_typeid_for: ret = V((uint32_t)tiId(concretize(st, a[0])), 32); return true;
  case Intrinsic::umax: ret = vIte(lcond(st, vBin(K_Ult, a[0], a[1])), a[1], a[0]); return true;
  case Intrinsic::umin: ret = vIte(lcond(st, vBin(K_Ult, a[0], a[1])), a[0], a[1]); return true;
  case Intrinsic::smax: ret = vIte(lcond(st, vBin(K_Slt, a[0], a[1])), a[1], a[0]); return true;
  case Intrinsic::smin: ret = vIte(lcond(st, vBin(K_Slt, a[0], a[1])), a[0], a[1]); return true;
  case Intrinsic::abs: ret = vIte(lcond(st, vBin(K_Slt, a[0], V(0, a[0].w))), vBin(K_Sub, V(0, a[0].w), a[0]), a[0]); return true;
  case Intrinsic::uadd_sat: { V s = vBin(K_Add, a[0], a[1]); ret = vIte(vBin(K_Ult, s, a[0]), V(~0ull, s.w), s); return true; }
  case Intrinsic::usub_sat: ret = vIte(vBin(K_Ult, a[0], a[1]), V(0, a[0].w), vBin(K_Sub, a[0], a[1])); return true;
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
    unsigned w = a[0].w; bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
    bool mul = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow; unsigned ww = mul ? std::min(128u, 2 * w) : w + 1;
    E x = sg ? mkSExt(toE(a[0]), ww) : mkZExt(toE(a[0]), ww), y = sg ? mkSExt(toE(a[1]), ww) : mkZExt(toE(a[1]), ww);
    Kind k = mul ? K_Mul : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? K_Add : K_Sub;
    E r = mkBin(k, x, y); E lo = mkExtract(r, 0, w); E back = sg ? mkSExt(lo, ww) : mkZExt(lo, ww);
    Frame& g = topMut(t); g.regs[in.dst] = V(lo); g.regs[in.dst + 1] = V(mkNot(mkEq(r, back)));
    if (in.op == Instruction::Invoke) gotoBB(st, g, in.bb0); else g.ip++;
    return false;
  }
  case Intrinsic::bswap: { E r = nullptr; E x = toE(a[0]); for (unsigned i = 0; i < a[0].w; i += 8) { E b = mkExtract(x, i, 8); r = r ? mkConcat(r, b) : b; } ret = V(r); return true; }
  case Intrinsic::ctpop: { uint64_t v = concretize(st, a[0]); ret = V(__builtin_popcountll(v), a[0].w); return true; }
  case Intrinsic::ctlz: {
    if (a[0].conc()) { unsigned n = 0; for (int i = a[0].w - 1; i >= 0 && !((a[0].c >> i) & 1); --i) n++; ret = V(n, a[0].w); return true; }
    E r = mkConst(a[0].w, a[0].w); for (unsigned i = 0; i < a[0].w; i++) r = mkIte(mkExtract(a[0].e, i, 1), mkConst(a[0].w - 1 - i, a[0].w), r); ret = V(r); return true; }
  case Intrinsic::cttz: { if (a[0].conc()) { unsigned n = 0; while (n < a[0].w && !((a[0].c >> n) & 1)) n++; ret = V(n, a[0].w); return true; }
    E r = mkConst(a[0].w, a[0].w); for (int i = a[0].w - 1; i >= 0; i--) r = mkIte(mkExtract(a[0].e, i, 1), mkConst(i, a[0].w), r); ret = V(r); return true; }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    uint64_t s = concretize(st, a[2]) % a[0].w; E c = mkConcat(toE(a[0]), toE(a[1])); unsigned w = a[0].w;
    ret = id == Intrinsic::fshl ? V(mkExtract(c, w - s, w)) : V(mkExtract(c, s, w)); return true; }
  case Intrinsic::objectsize: ret = V(~0ull, in.w); return true;
  case Intrinsic::is_constant: ret = V(0, 1); return true;
  case Intrinsic::returnaddress: case Intrinsic::frameaddress: ret = V(0, 64); return true;
  case Intrinsic::ptrmask: ret = vBin(K_And, a[0], a[1]); return true;
  default: throw PathEnd{"bound:unsupported intrinsic " + in.callee->getName().str()};
  }
}

#define BI [](State& st, Thread& t, Frame& f, const Inst& in, std::vector<V>& a, V& ret) -> bool
#define UNUSED (void)st; (void)t; (void)f; (void)in; (void)a; (void)ret
static V addInput(State& st, const std::string& base, unsigned w) {
  if (gReplay) { std::string key = base + "#" + std::to_string(st.symCnt[base]++); uint64_t v = gCE.count(key) ? gCE[key] : 0; return V(w < 64 ? v & ((1ull << w) - 1) : v, w); }
  int k = st.symCnt[base]++; E e = mkSym(base + "#" + std::to_string(k), w); st.inputs.push_back({base + "#" + std::to_string(k), e}); return V(e);
}
static std::vector<E> bytesOf(State& st, uint64_t p, uint64_t n) {
  std::vector<E> r; if (!n) return r; Loc l = resolve(st, V(p, 64), n, false); raceCheck(st, l.base, l.off, n, false);
  for (uint64_t i = 0; i < n; i++) r.push_back(toE(readObj(st, l.base, l.off + i, 1))); return r;
}
static bool doLock(State& st, Thread& t, uint64_t m) {   // attempt; true if acquired
  auto& ms = st.mtx[m]; if (ms.owner < 0) { ms.owner = t.id; ms.count = 1; vcJoin(t.vc, ms.vc); return true; } return false;
}
static bool condWait(State& st, Thread& t, std::vector<V>& a, V& ret, bool timed) {
  uint64_t c = concretize(st, a[0]), m = concretize(st, a[1]);
  if (t.phase == 0) {
    // from the lock to the wait nothing of the other threads depends on this one: they might as well have run before the lock
    if (!(O.reduce && t.onlyLock == m && m && !gTrylock)) if (!schedPoint(st)) return false;
    auto& ms = st.mtx[m]; if (ms.owner != t.id) violate(st, "sync-misuse", "condition variable wait without owning the mutex");
    ms.vc = t.vc; tick(t); ms.owner = -1; ms.count = 0;
    t.phase = 1; t.status = T_Cond; t.waitA = c; t.waitB = m; t.signaled = false; t.timed = timed; blockCur(st);
  }
  // woken: signalled, timed out or spuriously
  bool to = false;
  if (!t.signaled) { if (t.timed) to = true; else if (st.spuriousLeft > 0) st.spuriousLeft--; else { blockCur(st); } }
  if (!doLock(st, t, m)) blockCur(st);
  becomeRunning(t); t.granted = false; t.onlyLock = m; ret = V(to ? 110 : 0, 32); return true;
}
static void wakeOne(State& st, Thread& w) { w.signaled = true; (void)st; }
static bool condSignal(State& st, Thread& t, std::vector<V>& a, V& ret, bool all) {
  if (!schedPoint(st)) return false; uint64_t c = concretize(st, a[0]); ret = V(0, 32); (void)t;
  std::vector<int> ws; for (auto& u : st.th) if (u.status == T_Cond && u.waitA == c && !u.signaled) ws.push_back(u.id);
  if (ws.empty()) return true;
  if (all) { for (int w : ws) wakeOne(st, st.th[w]); return true; }
  // choice of waiter: fork
  if (gReplay) { size_t w = 0; if (st.sched.size() < gSchedule.size() && gSchedule[st.sched.size()] >= 1000) { for (size_t i = 0; i < ws.size(); i++) if (ws[i] == gSchedule[st.sched.size()] - 1000) w = i; st.sched.push_back({1000 + ws[w], 0}); } wakeOne(st, st.th[ws[w]]); return true; }
  for (size_t i = 1; i < ws.size(); i++) { auto n = std::make_unique<State>(st); n->id = ++gForks; wakeOne(*n, n->th[ws[i]]); n->sched.push_back({1000 + ws[i], (int)ws.size()}); Frame& g = topMut(n->th[n->cur]); const Inst& ii = g.fn->bbs[g.bb][g.ip]; if (ii.nd == 1) g.regs[ii.dst] = V(0, 32); if (ii.op == Instruction::Invoke) gotoBB(*n, g, ii.bb0); else g.ip++; work.push_back(std::move(n)); }
  wakeOne(st, st.th[ws[0]]); return true;
}
static void spawnThread(State& st, Thread&, const Function* F, uint64_t arg, int& id) {
  id = st.th.size(); if (id >= MAXTH) throw PathEnd{"bound:more than 24 threads"};
  Thread n; n.id = id; Thread& t = st.th[st.cur]; tick(t); n.vc = t.vc; n.vc.resize(id + 1, 0); n.vc[id] = 1; st.everThreaded = true;
  st.th.push_back(n); while ((int)st.sp.size() <= 2 + id) st.sp.emplace_back();
  std::vector<std::vector<V>> args(1); args[0].push_back(V(arg, 64)); pushCall(st, st.th[id], F, args, nullptr);
}
static uint64_t addExcAlloc(State& st, Thread& t, uint64_t sz) { uint64_t a = newObj(st, 2 + t.id, sz ? sz : 1, 3, true); st.exc[a] = ExcInfo(); return a; }
static void excRelease(State& st, uint64_t e) { auto it = st.exc.find(e); if (it == st.exc.end()) return; if (--it->second.ref <= 0) { freeObj(st, e); st.exc.erase(it); } }

static void registerBuiltins() {
  // ---- allocation
  auto alloc = BI { UNUSED; uint64_t n = concretize(st, a[0]); ret = V(newObj(st, 2 + t.id, n ? n : 1, 1, true, in.I), 64); return true; };
  for (auto n : {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) reg(n, alloc);
  reg("calloc", BI { UNUSED; uint64_t n = concretize(st, a[0]) * concretize(st, a[1]); ret = V(newObj(st, 2 + t.id, n ? n : 1, 1, false, in.I), 64); return true; });
  auto fr = BI { UNUSED; uint64_t p = concretize(st, a[0]); if (!p) return true; const Obj* o = getObj(st, p); if (!o || o->kind != 1 || o->base != p) violate(st, "memory", "free of a pointer that is not an allocated block: " + addrStr(st, p)); if (!o->alive) violate(st, "memory", "double free"); raceCheck(st, p, 0, o->size, true); freeObj(st, p); return true; };
  for (auto n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) reg(n, fr);
  reg("realloc", BI { UNUSED; uint64_t p = concretize(st, a[0]), n = concretize(st, a[1]); uint64_t q = newObj(st, 2 + t.id, n ? n : 1, 1, true, in.I); if (p) { const Obj* o = getObj(st, p); if (!o || !o->alive || o->base != p) violate(st, "memory", "realloc of an invalid pointer"); copyMem(st, V(q, 64), V(p, 64), std::min<uint64_t>(o->size, n)); freeObj(st, p); } ret = V(q, 64); return true; });
  // ---- memory / string
  auto cpy = BI { UNUSED; uint64_t n = concretize(st, a[2]); copyMem(st, a[0], a[1], n); ret = a[0]; return true; };
  reg("memcpy", cpy); reg("memmove", cpy);
  reg("memset", BI { UNUSED; uint64_t n = concretize(st, a[2]); setMem(st, a[0], a[1], n); ret = a[0]; return true; });
  auto cmpf = [](bool eqOnly) { return Builtin([eqOnly](State& st, Thread& t, Frame& f, const Inst& in, std::vector<V>& a, V& ret) -> bool { UNUSED;
    uint64_t n = concretize(st, a[2]); if (!n) { ret = V(0, 32); return true; } uint64_t p = concretize(st, a[0]), q = concretize(st, a[1]);
    auto x = bytesOf(st, p, n), y = bytesOf(st, q, n); E alleq = mkConst(1, 1), lt = mkConst(0, 1);
    for (size_t i = n; i-- > 0;) { E e = mkEq(x[i], y[i]); alleq = mkAnd(e, alleq); if (!eqOnly) lt = mkIte(e, lt, mkBin(K_Ult, x[i], y[i])); }
    ret = eqOnly ? V(mkZExt(mkNot(alleq), 32)) : V(mkIte(alleq, mkConst(0, 32), mkIte(lt, mkConst(0xFFFFFFFF, 32), mkConst(1, 32)))); return true; }); };
  reg("memcmp", cmpf(false)); reg("bcmp", cmpf(true));
  reg("strlen", BI { UNUSED; uint64_t p = concretize(st, a[0]); uint64_t n = 0; for (;;) { Loc l = resolve(st, V(p + n, 64), 1, false); V b = readObj(st, l.base, l.off, 1); if (decideV(st, vBin(K_Eq, b, V(0, 8)))) break; n++; } raceCheck(st, p & ~0xFFFFFull, p & 0xFFFFF, n + 1, false); ret = V(n, 64); return true; });
  reg("strnlen", BI { UNUSED; uint64_t p = concretize(st, a[0]), mx = concretize(st, a[1]); uint64_t n = 0; for (; n < mx;) { Loc l = resolve(st, V(p + n, 64), 1, false); V b = readObj(st, l.base, l.off, 1); if (decideV(st, vBin(K_Eq, b, V(0, 8)))) break; n++; } ret = V(n, 64); return true; });
  reg("memchr", BI { UNUSED; uint64_t p = concretize(st, a[0]), n = concretize(st, a[2]); if (!n) { ret = V(0, 64); return true; } auto x = bytesOf(st, p, n); E c = toE(vExtract(a[1], 0, 8)); bool hc = true; for (E e : x) if (!isC(e)) hc = false;
    if (hc && isC(c)) { ret = V(0, 64); for (size_t i = 0; i < n; i++) if (x[i] == c) { ret = V(p + i, 64); break; } return true; }
    if (hc) { E r = mkConst(0, 64); for (size_t i = n; i-- > 0;) r = mkIte(mkEq(x[i], c), mkConst(p + i, 64), r); ret = V(r); return true; }
    for (size_t i = 0; i < n; i++) if (decide(st, mkEq(x[i], c))) { ret = V(p + i, 64); return true; }
    ret = V(0, 64); return true; });
  // ---- C++ ABI
  reg("__cxa_allocate_exception", BI { UNUSED; ret = V(addExcAlloc(st, t, concretize(st, a[0])), 64); return true; });
  reg("__cxa_free_exception", BI { UNUSED; uint64_t e = concretize(st, a[0]); freeObj(st, e); st.exc.erase(e); return true; });
  reg("__cxa_init_primary_exception", BI { UNUSED; uint64_t e = concretize(st, a[0]); st.exc[e].tinfo = concretize(st, a[1]); st.exc[e].dtor = concretize(st, a[2]); ret = a[0]; return true; });
  reg("__cxa_throw", BI { UNUSED; uint64_t e = concretize(st, a[0]); auto& x = st.exc[e]; x.tinfo = concretize(st, a[1]); x.dtor = concretize(st, a[2]); x.ref++; t.uncaught++; unwindFrom(st, t, e, false); return false; });
  reg("__cxa_rethrow", BI { UNUSED; if (t.caught.empty()) terminatePath(st, "rethrow with no active exception"); uint64_t e = t.caught.back(); st.exc[e].ref++; t.uncaught++; unwindFrom(st, t, e, false); return false; });
  reg("_Unwind_Resume", BI { UNUSED; uint64_t e = concretize(st, a[0]); unwindFrom(st, t, e, true); return false; });
  reg("__cxa_begin_catch", BI { UNUSED; uint64_t e = concretize(st, a[0]); t.caught.push_back(e); st.exc[e].handlers++; t.uncaught--; ret = V(e + st.exc[e].adj, 64); return true; });
  reg("__cxa_end_catch", BI { UNUSED; if (t.caught.empty()) return true; uint64_t e = t.caught.back(); t.caught.pop_back(); st.exc[e].handlers--; excRelease(st, e); return true; });
  reg("__cxa_get_exception_ptr", BI { UNUSED; ret = vBin(K_Add, a[0], V(st.exc[concretize(st, a[0])].adj, 64)); return true; });
  reg("__cxa_current_exception_type", BI { UNUSED; ret = V(t.caught.empty() ? 0 : st.exc[t.caught.back()].tinfo, 64); return true; });
  reg("_ZSt18uncaught_exceptionv", BI { UNUSED; ret = V(t.uncaught > 0, 1); return true; });
  reg("_ZSt19uncaught_exceptionsv", BI { UNUSED; ret = V(t.uncaught, 32); return true; });
  reg("_ZSt9terminatev", BI { UNUSED; terminatePath(st, "std::terminate called"); return false; });
  reg("__cxa_pure_virtual", BI { UNUSED; terminatePath(st, "pure virtual call"); return false; });
  reg("__cxa_call_unexpected", BI { UNUSED; terminatePath(st, "unexpected exception"); return false; });
  reg("__cxa_bad_cast", BI { UNUSED; terminatePath(st, "bad_cast"); return false; });
  reg("__cxa_atexit", BI { UNUSED; ret = V(0, 32); return true; });
  reg("__cxa_thread_atexit", BI { UNUSED; ret = V(0, 32); return true; });
  reg("__cxa_guard_acquire", BI { UNUSED; uint64_t g = concretize(st, a[0]); V b = loadMem(st, V(g, 64), 1, true); if (b.c & 1) { if (st.everThreaded) vcJoin(t.vc, st.avc[g]); if (t.status == T_Guard) { becomeRunning(t); t.granted = false; } ret = V(0, 32); return true; }
    if (st.guardOwner.count(g)) { if (st.guardOwner[g] == t.id) violate(st, "deadlock", "recursive initialisation of a static"); t.status = T_Guard; t.waitA = g; blockCur(st); }
    if (t.status == T_Guard) { becomeRunning(t); t.granted = false; }
    st.guardOwner[g] = t.id; ret = V(1, 32); return true; });
  reg("__cxa_guard_release", BI { UNUSED; uint64_t g = concretize(st, a[0]); storeMem(st, V(g, 64), V(1, 8), 1, true); st.guardOwner.erase(g); if (st.everThreaded) { vcJoin(st.avc[g], t.vc); tick(t); } return true; });
  reg("__cxa_guard_abort", BI { UNUSED; uint64_t g = concretize(st, a[0]); st.guardOwner.erase(g); return true; });
  reg("__cxa_demangle", BI { UNUSED;
    if (!gReplay) { uint64_t q = concretize(st, a[0]); bool sy = false; for (size_t i = 0; i < 4096; i++) { V b = loadMem(st, V(q + i, 64), 1, true); if (!b.conc()) { sy = true; break; } if (!b.c) break; }
      if (sy) {   // symbolic name: either refused or decoded to some text
        bool good = decide(st, mkEq(mkSym("demangle#" + std::to_string(st.symCnt["demangle"]), 8), mkConst(1, 8))); st.symCnt["demangle"]++;
        if (a[3].c) storeMem(st, a[3], V((uint32_t)(good ? 0 : -2), 32), 4); if (!good) { ret = V(0, 64); return true; }
        uint64_t p = newObj(st, 2 + t.id, 2, 1, false); Obj* o = mutObj(st, p); memcpy(o->c.data(), "?", 2); ret = V(p, 64); return true; } }
    std::string s = rdStr(st, concretize(st, a[0])); int status = 0; char* d = abi::__cxa_demangle(s.c_str(), nullptr, nullptr, &status); if (a[3].c) storeMem(st, a[3], V((uint32_t)status, 32), 4); if (!d) { ret = V(0, 64); return true; } size_t n = strlen(d) + 1; uint64_t p = newObj(st, 2 + t.id, n, 1, false); Obj* o = mutObj(st, p); memcpy(o->c.data(), d, n); ::free(d); ret = V(p, 64); return true; });
  reg("__dynamic_cast", BI { UNUSED; uint64_t p = concretize(st, a[0]); uint64_t vt = rdPtr(st, p); int64_t top = (int64_t)rdPtr(st, vt - 16); uint64_t ti = rdPtr(st, vt - 8); uint64_t adj = 0; if (tiMatch(st, ti, concretize(st, a[2]), adj)) ret = V(p + top + adj, 64); else ret = V(0, 64); return true; });
  // exception_ptr: {void* obj}
  reg("_ZNSt15__exception_ptr13exception_ptrC1EPv", BI { UNUSED; uint64_t e = concretize(st, a[1]); storeMem(st, a[0], V(e, 64), 8); if (e) st.exc[e].ref++; return true; });
  builtinIdx["_ZNSt15__exception_ptr13exception_ptrC2EPv"] = builtinIdx["_ZNSt15__exception_ptr13exception_ptrC1EPv"];
  reg("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", BI { UNUSED; uint64_t e = rdPtr(st, concretize(st, a[0])); if (e) st.exc[e].ref++; return true; });
  reg("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", BI { UNUSED; uint64_t e = rdPtr(st, concretize(st, a[0])); if (e) { excRelease(st, e); storeMem(st, a[0], V(0, 64), 8, true); } return true; });
  reg("_ZNKSt15__exception_ptr13exception_ptr6_M_getEv", BI { UNUSED; ret = V(rdPtr(st, concretize(st, a[0])), 64); return true; });
  reg("_ZNSt15__exception_ptr13exception_ptrC1ERKS0_", BI { UNUSED; uint64_t e = rdPtr(st, concretize(st, a[1])); storeMem(st, a[0], V(e, 64), 8); if (e) st.exc[e].ref++; return true; });
  builtinIdx["_ZNSt15__exception_ptr13exception_ptrC2ERKS0_"] = builtinIdx["_ZNSt15__exception_ptr13exception_ptrC1ERKS0_"];
  reg("_ZNSt15__exception_ptr13exception_ptrD1Ev", BI { UNUSED; uint64_t e = rdPtr(st, concretize(st, a[0])); if (e) excRelease(st, e); return true; });
  builtinIdx["_ZNSt15__exception_ptr13exception_ptrD2Ev"] = builtinIdx["_ZNSt15__exception_ptr13exception_ptrD1Ev"];
  reg("_ZNSt15__exception_ptr13exception_ptr4swapERS0_", BI { UNUSED; V x = loadMem(st, a[0], 8), y = loadMem(st, a[1], 8); storeMem(st, a[0], y, 8); storeMem(st, a[1], x, 8); return true; });
  reg("_ZSt17current_exceptionv", BI { UNUSED; uint64_t e = t.caught.empty() ? 0 : t.caught.back(); if (e) st.exc[e].ref++; storeMem(st, a[0], V(e, 64), 8); return true; });
  reg("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", BI { UNUSED; uint64_t e = rdPtr(st, concretize(st, a[0])); if (!e) terminatePath(st, "rethrow of a null exception_ptr"); st.exc[e].ref++; t.uncaught++; unwindFrom(st, t, e, false); return false; });
  reg("_Unwind_Backtrace", BI { UNUSED; ret = V(0, 32); return true; });
  // ---- threads
  reg("__symx_spawn", BI { UNUSED; const Function* F = fnAt(concretize(st, a[0])); if (!F) throw PathEnd{"bound:spawn target"}; if (!schedPoint(st)) return false; int id; spawnThread(st, t, F, concretize(st, a[1]), id); ret = V(id, 32); return true; });
  reg("__symx_join", BI { UNUSED; int id = concretize(st, a[0]); if (id < 0 || id >= (int)st.th.size()) violate(st, "sync-misuse", "join of an invalid thread"); if (id == t.id) violate(st, "deadlock", "a thread joins itself");
    if (st.th[id].status != T_Done) { t.status = T_Join; t.waitA = id; blockCur(st); } if (t.status == T_Join) { becomeRunning(t); t.granted = false; } vcJoin(t.vc, st.th[id].vc); return true; });
  reg("__symx_tid", BI { UNUSED; ret = V(t.id, 32); return true; });
  reg("pthread_self", BI { UNUSED; ret = V(t.id + 1, 64); return true; });
  reg("pthread_mutex_init", BI { UNUSED; ret = V(0, 32); return true; });
  reg("pthread_mutex_destroy", BI { UNUSED; st.mtx.erase(concretize(st, a[0])); ret = V(0, 32); return true; });
  reg("pthread_mutex_lock", BI { UNUSED; uint64_t m = concretize(st, a[0]); resolve(st, V(m, 64), 8, true); ret = V(0, 32);
    auto it = st.mtx.find(m); if (it != st.mtx.end() && it->second.owner == t.id) { V k = loadMem(st, V(m + 16, 64), 4, true); if ((k.c & 3) == 1) { it->second.count++; return true; } t.status = T_Mutex; t.waitA = m; blockCur(st); }
    if (t.status != T_Mutex) { if (!schedPoint(st)) return false; }
    if (!doLock(st, t, m)) { t.status = T_Mutex; t.waitA = m; blockCur(st); }
    if (t.status == T_Mutex) { becomeRunning(t); t.granted = false; } t.onlyLock = m; return true; });
  reg("pthread_mutex_trylock", BI { UNUSED; uint64_t m = concretize(st, a[0]); if (!schedPoint(st)) return false; ret = V(doLock(st, t, m) ? 0 : 16, 32); return true; });
  reg("pthread_mutex_unlock", BI { UNUSED; uint64_t m = concretize(st, a[0]); if (O.schedUnlock) if (!schedPoint(st)) return false; auto& ms = st.mtx[m]; if (ms.owner != t.id) violate(st, "sync-misuse", "unlock of a mutex the thread does not hold"); ret = V(0, 32); if (--ms.count > 0) return true; ms.owner = -1; ms.vc = t.vc; tick(t); return true; });
  reg("pthread_cond_init", BI { UNUSED; ret = V(0, 32); return true; });
  reg("pthread_cond_destroy", BI { UNUSED; ret = V(0, 32); return true; });
  reg("pthread_cond_wait", BI { UNUSED; return condWait(st, t, a, ret, false); });
  reg("pthread_cond_timedwait", BI { UNUSED; return condWait(st, t, a, ret, true); });
  reg("pthread_cond_clockwait", BI { UNUSED; return condWait(st, t, a, ret, true); });
  reg("pthread_cond_signal", BI { UNUSED; return condSignal(st, t, a, ret, false); });
  reg("pthread_cond_broadcast", BI { UNUSED; return condSignal(st, t, a, ret, true); });
  reg("pthread_rwlock_init", BI { UNUSED; ret = V(0, 32); return true; });
  reg("pthread_rwlock_destroy", BI { UNUSED; ret = V(0, 32); return true; });
  reg("pthread_rwlock_rdlock", BI { UNUSED; uint64_t m = concretize(st, a[0]); ret = V(0, 32); if (t.status == T_Run) if (!schedPoint(st)) return false; auto& r = st.rw[m]; if (r.writer >= 0) { t.status = T_RwR; t.waitA = m; blockCur(st); } r.readers[t.id]++; vcJoin(t.vc, r.vc); if (t.status == T_RwR) { becomeRunning(t); t.granted = false; } return true; });
  reg("pthread_rwlock_wrlock", BI { UNUSED; uint64_t m = concretize(st, a[0]); ret = V(0, 32); if (t.status == T_Run) if (!schedPoint(st)) return false; auto& r = st.rw[m]; if (r.writer >= 0 || !r.readers.empty()) { t.status = T_RwW; t.waitA = m; blockCur(st); } r.writer = t.id; vcJoin(t.vc, r.vc); if (t.status == T_RwW) { becomeRunning(t); t.granted = false; } return true; });
  reg("pthread_rwlock_unlock", BI { UNUSED; uint64_t m = concretize(st, a[0]); ret = V(0, 32); auto& r = st.rw[m]; if (r.writer == t.id) r.writer = -1; else { auto it = r.readers.find(t.id); if (it == r.readers.end()) violate(st, "sync-misuse", "rwlock unlock without holding it"); if (--it->second == 0) r.readers.erase(it); } vcJoin(r.vc, t.vc); tick(t); return true; });
  auto yield = BI { UNUSED; ret = V(0, 32); if (st.th.size() < 2) return true; t.sleeping = true;
    if (!t.granted) { int en = 0; for (auto& u : st.th) if (enabled(st, u)) en++; if (en <= 1) { H128 h = hashState(st); uint64_t hh = h.a ^ h.b; if (t.lastSleepHash == hh) violate(st, "livelock", "the only runnable thread sleeps in a loop that nothing can end"); t.lastSleepHash = hh; t.sleeping = false; return true; } }
    bool ok = schedPoint(st); st.th[st.cur].sleeping = false; return ok; };
  reg("nanosleep", yield); reg("clock_nanosleep", yield); reg("sched_yield", yield); reg("usleep", yield); reg("sleep", yield);
  reg("__symx_yield", BI { UNUSED; return schedPoint(st); });
  // bool std::__atomic_futex_unsigned_base::_M_futex_wait_until(unsigned*, unsigned, bool has_timeout, seconds, nanoseconds)
  auto fw = BI { UNUSED; uint64_t p = concretize(st, a[1]); bool timed = concretize(st, a[3]) & 1;
    if (t.phase == 0) { if (!O.reduce) if (!schedPoint(st)) return false; V v = loadMem(st, V(p, 64), 4, true); if (!decideV(st, vBin(K_Eq, v, vExtract(a[2], 0, 32)))) { ret = V(1, 1); return true; } t.phase = 1; t.status = T_Futex; t.waitA = p; t.signaled = false; t.timed = timed; blockCur(st); }
    ret = V(t.signaled ? 1 : 0, 1); becomeRunning(t); t.granted = false; return true; };
  reg("_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE", fw);
  reg("_ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE", fw);
  reg("_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj", BI { UNUSED; uint64_t p = concretize(st, a[0]); if (!O.reduce) if (!schedPoint(st)) return false; /* waking only lets others run */ for (auto& u : st.th) if (u.status == T_Futex && u.waitA == p) u.signaled = true; return true; });
  // pthread_once via rt: __symx_once_enter(flag) -> 1 run it, 0 already done ; __symx_once_leave(flag, ok)
  reg("__symx_once_enter", BI { UNUSED; uint64_t p = concretize(st, a[0]); if (t.status == T_Run) if (!schedPoint(st)) return false; auto it = st.once.find(p); int s = it == st.once.end() ? 0 : it->second; if (s == 1) { t.status = T_Once; t.waitA = p; blockCur(st); } if (t.status == T_Once) { becomeRunning(t); t.granted = false; } if (s == 2) { vcJoin(t.vc, st.avc[p]); ret = V(0, 32); } else { st.once[p] = 1; ret = V(1, 32); } return true; });
  reg("__symx_once_leave", BI { UNUSED; uint64_t p = concretize(st, a[0]); st.once[p] = concretize(st, a[1]) ? 2 : 0; vcJoin(st.avc[p], t.vc); tick(t); return true; });
  reg("__symx_nosched", BI { UNUSED; st.noSched = concretize(st, a[0]); return true; });
  reg("__symx_raceoff", BI { UNUSED; t.raceoff += concretize(st, a[0]) ? 1 : -1; return true; });
  reg("__symx_threads_alive", BI { UNUSED; int n = 0; for (auto& u : st.th) if (u.status != T_Done) n++; ret = V(n, 32); return true; });
  reg("__symx_thread_blocked", BI { UNUSED; int id = concretize(st, a[0]); ret = V(id < (int)st.th.size() ? (int)st.th[id].status : 99, 32); return true; });
  // ---- harness API
  reg("sym_bits", BI { UNUSED; std::string n = rdStr(st, concretize(st, a[0])); unsigned w = concretize(st, a[1]); V s = addInput(st, n, w); ret = vZExt(s, 64); return true; });
  reg("sym_bytes", BI { UNUSED; uint64_t p = concretize(st, a[0]), n = concretize(st, a[1]); std::string nm = rdStr(st, concretize(st, a[2])); if (!n) return true; Loc l = resolve(st, V(p, 64), n, true); for (uint64_t i = 0; i < n; i++) writeObj(st, l.base, l.off + i, addInput(st, nm, 8), 1); return true; });
  reg("sym_choice", BI { UNUSED; unsigned n = concretize(st, a[0]); std::string nm = rdStr(st, concretize(st, a[1])); std::string key = nm + "#" + std::to_string(st.symCnt[nm]); if (gReplay) { st.symCnt[nm]++; uint64_t v = gCE.count(key) ? gCE[key] : 0; ret = V(v < n ? v : n - 1, 32); return true; } E e = mkSym(key, 8); for (unsigned i = 0; i + 1 < n; i++) if (decide(st, mkEq(e, mkConst(i, 8)))) { st.symCnt[nm]++; st.inputs.push_back({key, e}); ret = V(i, 32); return true; }
    addPC(st, mkEq(e, mkConst(n - 1, 8))); st.model.v[(uint32_t)e->val] = n - 1; st.symCnt[nm]++; st.inputs.push_back({key, e}); ret = V(n - 1, 32); return true; });
  reg("sym_assume", BI { UNUSED; V c = a[0]; if (c.w > 1) c = vNot(vBin(K_Eq, c, V(0, c.w))); if (c.conc()) { if (!c.c) throw PathEnd{"infeasible"}; return true; }
    if (inPC(st, c.e)) return true; if (!evalExpr(c.e, st.model)) { Model m; SRes r = solveWith(st.pc, {c.e}, &m); if (r == S_UNSAT) throw PathEnd{"infeasible"}; if (r == S_UNKNOWN) throw PathEnd{"bound:solver gave no answer on an assumption"}; mergeModel(st, m); }
    addPC(st, c.e); if (!modelOk(st.pc, {}, st.model)) { Model m2; if (solveSat(st.pc, &m2, true) == S_SAT) st.model = m2; } return true; });
  reg("sym_assert", BI { UNUSED; V c = a[0]; if (c.w > 1) c = vNot(vBin(K_Eq, c, V(0, c.w))); std::string msg = rdStr(st, concretize(st, a[1])); gAssert[msg]++;
    gAssertQueries++;
    if (c.conc()) { if (c.c) { gAssertProved++; return true; } violate(st, "assert", msg); }
    E nc = mkNot(c.e); Model m; SRes r = inPC(st, c.e) ? S_UNSAT : solveWith(st.pc, {nc}, &m, true);
    if (r == S_UNSAT) { gAssertProved++; addPC(st, c.e); return true; }
    if (r == S_UNKNOWN) { gIncon["solver gave no answer on assertion: " + msg]++; return true; }
    Model full = st.model; for (auto& kv : m.v) full.v[kv.first] = kv.second;
    { auto save = st.pc; auto saves = st.pcs; addPC(st, nc); report(st, "assert", msg, full); st.pc = save; st.pcs = saves; }
    throw PathEnd{"violation"}; });
  reg("sym_fail", BI { UNUSED; std::string k = rdStr(st, concretize(st, a[0])), m = rdStr(st, concretize(st, a[1])); violate(st, k, m); return false; });
  reg("sym_reach", BI { UNUSED; std::string k = rdStr(st, concretize(st, a[0])); // vacuity witness: the path condition must be satisfiable (its model is at hand)
    if (modelOk(st.pc, {}, st.model)) gReach[k]++; else { Model m; if (solveSat(st.pc, &m, true) == S_SAT) { st.model = m; gReach[k]++; } } return true; });
  reg("sym_note", BI { UNUSED; std::string k = rdStr(st, concretize(st, a[0])); if (O.trace) fprintf(stderr, "[note t%d] %s\n", t.id, k.c_str()); st.notes.push_back(k); return true; });
  reg("sym_note_int", BI { UNUSED; std::string k = rdStr(st, concretize(st, a[0])); std::string v = a[1].conc() ? std::to_string((long long)a[1].c) : exprStr(a[1].e, 5); if (O.trace) fprintf(stderr, "[note t%d] %s = %s\n", t.id, k.c_str(), v.c_str()); st.notes.push_back(k + " = " + v); return true; });
  reg("sym_concretize", BI { UNUSED; ret = V(concretize(st, a[0]), 64); return true; });
  reg("sym_is_symbolic", BI { UNUSED; ret = V(!a[0].conc(), 32); return true; });
  reg("sym_must", BI { UNUSED; V c = a[0]; if (c.w > 1) c = vNot(vBin(K_Eq, c, V(0, c.w))); if (c.conc()) { ret = V(c.c, 32); return true; } if (inPC(st, c.e)) { ret = V(1, 32); return true; } if (!evalExpr(c.e, st.model)) { ret = V(0, 32); return true; } Model m; ret = V(solveWith(st.pc, {mkNot(c.e)}, &m) == S_UNSAT, 32); return true; });
  reg("sym_end_path", BI { UNUSED; throw PathEnd{"exit"}; return false; });
  reg("__symx_active", BI { UNUSED; ret = V(1, 32); return true; });
  reg("__symx_blocksize", BI { UNUSED; uint64_t p = concretize(st, a[0]); const Obj* o = getObj(st, p); ret = V(o && o->alive ? o->size - (p - o->base) : 0, 64); return true; });
  // ---- host helpers on concrete data
  reg("__symx_fmt_double", BI { UNUSED; std::string fmt = rdStr(st, concretize(st, a[2])); uint64_t n = concretize(st, a[1]), p = concretize(st, a[0]); if (!a[3].conc()) throw PathEnd{"bound:symbolic floating point formatting"}; double d; memcpy(&d, &a[3].c, 8); char buf[512]; int r = snprintf(buf, sizeof buf, fmt.c_str(), d); for (int i = 0; i <= r && (uint64_t)i < n; i++) storeMem(st, V(p + i, 64), V((uint8_t)((uint64_t)i == n - 1 ? 0 : buf[i]), 8), 1); ret = V((uint32_t)r, 32); return true; });
  reg("__symx_strftime", BI { UNUSED; uint64_t p = concretize(st, a[0]), n = concretize(st, a[1]); std::string fmt = rdStr(st, concretize(st, a[2])); uint64_t tp = concretize(st, a[3]); struct tm tmv; memset(&tmv, 0, sizeof tmv); int* fi = (int*)&tmv; for (int i = 0; i < 9; i++) fi[i] = (int)concretize(st, loadMem(st, V(tp + 4 * i, 64), 4)); std::vector<char> b(n + 1); size_t r = strftime(b.data(), n, fmt.c_str(), &tmv); if (r) for (size_t i = 0; i <= r; i++) storeMem(st, V(p + i, 64), V((uint8_t)b[i], 8), 1); ret = V(r, 64); return true; });
  reg("__symx_gmtime", BI { UNUSED; time_t tv = (time_t)concretize(st, a[0]); uint64_t tp = concretize(st, a[1]); struct tm tmv; gmtime_r(&tv, &tmv); int* fi = (int*)&tmv; for (int i = 0; i < 9; i++) storeMem(st, V(tp + 4 * i, 64), V((uint32_t)fi[i], 32), 4); storeMem(st, V(tp + 40, 64), V(0, 64), 8); storeMem(st, V(tp + 48, 64), V(0, 64), 8); return true; });
}
