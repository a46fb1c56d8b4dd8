// Integer linear forms with ranges: exact simplification of divisions by constants and of comparisons of multi-term sums.
// lin(e) is a form whose value is congruent to e modulo 2^w; when its range fits the unsigned (signed) range of the width it IS that value.
struct Lin { std::map<uint32_t, std::pair<E, i128>> t; i128 k = 0; };
struct Rg { i128 lo, hi; };
static const i128 LINMAX = (i128)1 << 56;
struct LinCtx {
  State& st; std::unordered_map<E, Rg> R; std::unordered_map<E, Lin> memo;
  LinCtx(State& s) : st(s) {}
  static i128 fdiv(i128 a, i128 b) { i128 q = a / b; if (a % b != 0 && ((a < 0) != (b < 0))) q--; return q; }
  Rg leafInit(E e) {
    if (e->k == K_SExt) { unsigned aw = e->a->w; return {-((i128)1 << (aw - 1)), ((i128)1 << (aw - 1)) - 1}; }
    Rg r{0, (i128)maskw(e->w > 64 ? 64 : e->w)};
    if (e->k == K_ZExt) r.hi = (i128)maskw(e->a->w);
    if (e->k == K_Ite && isC(e->b) && isC(e->c)) { i128 x = (i128)e->b->val, y = (i128)e->c->val; r = {std::min(x, y), std::max(x, y)}; }
    if ((e->k == K_UDiv || e->k == K_URem) && isC(e->b) && e->b->val) { i128 c = (i128)e->b->val; Lin l = lin(e->a); Rg a = range(l); bool fit = a.lo >= 0 && a.hi <= (i128)maskw(e->w); if (!fit) a = {0, (i128)maskw(e->w)}; r = e->k == K_UDiv ? Rg{a.lo / c, a.hi / c} : Rg{0, std::min(c - 1, a.hi)}; }
    return r;
  }
  Rg& leafR(E e) { auto it = R.find(e); if (it != R.end()) return it->second; Rg r = leafInit(e); return R[e] = r; }
  Rg range(const Lin& l) { Rg r{l.k, l.k}; for (auto& x : l.t) { Rg a = leafR(x.second.first); i128 c = x.second.second; if (c >= 0) { r.lo += c * a.lo; r.hi += c * a.hi; } else { r.lo += c * a.hi; r.hi += c * a.lo; } } return r; }
  static void acc(Lin& l, const Lin& o, i128 c) { l.k += o.k * c; for (auto& x : o.t) { auto& s = l.t[x.first]; s.first = x.second.first; s.second += x.second.second * c; if (s.second == 0) l.t.erase(x.first); } }
  static bool ok(const Lin& l) { i128 M = LINMAX; if (l.k > M * 256 || l.k < -M * 256 || l.t.size() > 40) return false; for (auto& x : l.t) if (x.second.second > M || x.second.second < -M) return false; return true; }
  Lin leaf(E e) { Lin l; l.t[e->id] = {e, 1}; return l; }
  bool fitsU(const Lin& l, unsigned w) { Rg r = range(l); return r.lo >= 0 && r.hi <= (i128)maskw(w); }
  bool fitsS(const Lin& l, unsigned w) { Rg r = range(l); return r.lo >= -((i128)1 << (w - 1)) && r.hi < ((i128)1 << (w - 1)); }
  Lin lin(E e) { auto it = memo.find(e); if (it != memo.end()) return it->second; Lin l = lin0(e); if (!ok(l)) l = leaf(e); memo[e] = l; return l; }
  Lin lin0(E e) {
    Lin l;
    if (e->w > 64) return leaf(e);
    switch (e->k) {
    case K_Const: l.k = sextv(e->val, e->w); return l;
    case K_Add: l = lin(e->a); acc(l, lin(e->b), 1); return l;
    case K_Sub: l = lin(e->a); acc(l, lin(e->b), -1); return l;
    case K_Mul: if (isC(e->b)) { i128 c = sextv(e->b->val, e->w); if (c > LINMAX || c < -LINMAX) break; acc(l, lin(e->a), c); return l; } break;
    case K_Shl: if (isC(e->b) && e->b->val < 50) { acc(l, lin(e->a), (i128)1 << (int)e->b->val); return l; } break;
    case K_ZExt: { l = lin(e->a); if (ok(l) && fitsU(l, e->a->w)) return l; break; }
    case K_SExt: { l = lin(e->a); if (ok(l) && fitsS(l, e->a->w)) return l; break; }
    case K_Or: if (isC(e->b) && e->b->val < ((u128)1 << std::min(lowZeros(e->a), 60u))) { l = lin(e->a); l.k += (i128)e->b->val; return l; } break;
    case K_Concat: { Lin h = lin(e->a), o = lin(e->b); if (e->b->w < 50 && ok(h) && ok(o) && fitsU(h, e->a->w) && (fitsU(o, e->b->w) || isC(e->b))) { if (isC(e->b)) { o = Lin(); o.k = (i128)e->b->val; } acc(o, h, (i128)1 << e->b->w); return o; } break; }
    case K_Extract: {
      if (e->a->w > 64) break; unsigned n = (unsigned)e->val; l = lin(e->a); if (!n) return l;
      if (n > 50 || !ok(l) || !(fitsU(l, e->a->w) || fitsS(l, e->a->w))) break;
      i128 m = (i128)1 << n; bool d = l.k % m == 0; for (auto& x : l.t) if (x.second.second % m != 0) d = false;
      if (!d) break; l.k /= m; for (auto& x : l.t) x.second.second /= m; return l; }
    default: break;
    }
    return leaf(e);
  }
  // L >= 0
  void refine(const Lin& l) {
    Rg tot = range(l);
    for (auto& x : l.t) {
      Rg& a = leafR(x.second.first); i128 c = x.second.second;
      i128 rest = tot.hi - (c >= 0 ? c * a.hi : c * a.lo);   // max of the others
      if (c > 0) { i128 b = -fdiv(rest, c); if (b > a.lo) { a.lo = b; tot = range(l); } }        // x >= ceil(-rest / c) = -floor(rest / c)
      else { i128 b = fdiv(rest, -c); if (b < a.hi) { a.hi = b; tot = range(l); } }
    }
  }
  // facts of the path condition that share symbols with e (transitively not needed)
  void learn(E c, bool neg) {
    if (c->w != 1) return;
    if (c->k == K_Xor && isC(c->b)) { learn(c->a, neg != (c->b->val != 0)); return; }
    if (c->k == K_And && !neg) { learn(c->a, false); learn(c->b, false); return; }
    if (c->k == K_Or && neg) { learn(c->a, true); learn(c->b, true); return; }
    if (c->k == K_Eq && c->a->w == 1) { if (isC(c->b)) learn(c->a, neg != (c->b->val == 0)); return; }
    if (c->k != K_Ult && c->k != K_Ule && c->k != K_Slt && c->k != K_Sle && c->k != K_Eq) return;
    E a = c->a, b = c->b; unsigned w = a->w; if (w > 64) return;
    Lin la = lin(a), lb = lin(b); bool sg = c->k == K_Slt || c->k == K_Sle;
    if (isC(a) && !sg) { la = Lin(); la.k = (i128)a->val; } if (isC(b) && !sg) { lb = Lin(); lb.k = (i128)b->val; }
    if (c->k == K_Eq) { if (neg) return; if (!((fitsU(la, w) && fitsU(lb, w)))) { if (isC(b)) { lb.k = sextv(b->val, w); } if (!(fitsS(la, w) && fitsS(lb, w))) return; } Lin d = la; acc(d, lb, -1); refine(d); Lin e; acc(e, d, -1); refine(e); return; }
    if (sg ? !(fitsS(la, w) && fitsS(lb, w)) : !(fitsU(la, w) && fitsU(lb, w))) return;
    bool strict = c->k == K_Ult || c->k == K_Slt; Lin d;
    if (!neg) { d = lb; acc(d, la, -1); if (strict) d.k -= 1; } else { d = la; acc(d, lb, -1); if (!strict) d.k -= 1; }   // not(a<b): a-b>=0 ; not(a<=b): a-b-1>=0
    refine(d);
  }
  void facts(E e) {
    std::vector<uint32_t> sy = symsOf(e);
    for (int pass = 0; pass < 2; pass++) {
      for (E c : st.pc) { auto& s = symsOf(c); bool hit = false; for (uint32_t x : s) if (std::binary_search(sy.begin(), sy.end(), x)) { hit = true; break; } if (hit && s.size() <= 40) learn(c, false); }
      memo.clear();
    }
  }
  E build(const Lin& l, unsigned w) {
    E r = nullptr;
    for (auto& x : l.t) {
      E f = x.second.first; E y = f->w == w ? f : f->w > w ? mkExtract(f, 0, w) : f->k == K_SExt ? mkSExt(f, w) : mkZExt(f, w);
      E t = x.second.second == 1 ? y : mkBin(K_Mul, y, mkConst((u128)x.second.second & maskw(w), w)); r = r ? mkBin(K_Add, r, t) : t;
    }
    E k = mkConst((u128)l.k & maskw(w), w); return r ? (l.k ? mkBin(K_Add, r, k) : r) : k;
  }
};
static unsigned bitsFor(i128 v) { unsigned n = 1; while (n < 64 && v > (i128)maskw(n)) n++; return n; }
// division or remainder of a symbolic value by a positive constant; true when simplified
static bool linDiv(State& st, E a, u128 cv, bool sg, bool rem, V& out) {
  unsigned w = a->w; if (w < 8 || w > 64 || cv < 2) return false;
  i128 c = sg ? sextv(cv, w) : (i128)cv; if (c < 2 || c > LINMAX) return false;
  LinCtx X(st); X.facts(a); Lin L = X.lin(a); Rg r = X.range(L); bool neg = false;
  if (!sg) { if (!X.fitsU(L, w)) return false; }
  else {
    if (!X.fitsS(L, w)) return false;
    if (r.lo < 0) {
      if (r.hi >= 0) { neg = decide(st, mkBin(K_Slt, a, mkConst(0, w))); LinCtx Y(st); Y.facts(a); X.R = Y.R; X.memo.clear(); L = X.lin(a); r = X.range(L); if (neg) r.hi = std::min(r.hi, (i128)-1); else r.lo = std::max(r.lo, (i128)0); }
      else neg = true;
    }
    if (neg) { Lin m; LinCtx::acc(m, L, -1); L = m; r = Rg{-r.hi, -r.lo}; }
  }
  Lin Q, Rr; Q.k = LinCtx::fdiv(L.k, c); Rr.k = L.k - Q.k * c;
  for (auto& x : L.t) { i128 k = x.second.second, q = k / c, m = k % c; if (q) Q.t[x.first] = {x.second.first, q}; if (m) Rr.t[x.first] = {x.second.first, m}; }
  Rg rr = X.range(Rr); i128 v0 = LinCtx::fdiv(rr.lo, c), v1 = LinCtx::fdiv(rr.hi, c);
  if (v0 != v1 && ((Q.t.empty() && Q.k == 0) || v1 - v0 > 6)) {
    Lin R2 = Rr; R2.k -= v0 * c; Rg r2 = X.range(R2); unsigned nb = bitsFor(std::max(r2.hi, c)); if (nb + 4 >= w) return false;                // narrow
    E x = X.build(R2, w), xn = mkExtract(x, 0, nb), cn = mkConst((u128)c, nb); Lin q2 = Q; q2.k += v0; E z;
    if (rem) z = mkZExt(mkBin(K_URem, xn, cn), w); else z = mkBin(K_Add, X.build(q2, w), mkZExt(mkBin(K_UDiv, xn, cn), w));
    if (neg) z = mkBin(K_Sub, mkConst(0, w), z); out = V(z); return true;
  }
  i128 v = v0; E re = X.build(Rr, w);
  for (; v < v1; v++) { i128 lim = c * (v + 1); if (decide(st, mkBin(K_Slt, re, mkConst((u128)lim & maskw(w), w)))) break; }
  Q.k += v;
  Lin res; if (!rem) res = Q; else { res = L; LinCtx::acc(res, Q, -c); }
  if (neg) { Lin m; LinCtx::acc(m, res, -1); res = m; }
  out = V(X.build(res, w)); return true;
}
// comparison of sums: 1/0 decided, -1 unknown; *simp receives a simpler equivalent condition when there is one
static int linCmp(State& st, E c, E* simp) {
  bool neg = false; while (c->k == K_Xor && c->w == 1 && isC(c->b)) { if (c->b->val) neg = !neg; c = c->a; }
  if (c->k != K_Ult && c->k != K_Ule && c->k != K_Slt && c->k != K_Sle && c->k != K_Eq) return -1;
  E a = c->a, b = c->b; unsigned w = a->w; if (w < 16 || w > 64) return -1;
  auto arith = [](E e) { return e->k == K_Add || e->k == K_Sub || e->k == K_Mul || e->k == K_UDiv || e->k == K_URem; };
  if (!arith(a) && !arith(b)) return -1;
  LinCtx X(st); X.facts(c); Lin la = X.lin(a), lb = X.lin(b); bool sg = c->k == K_Slt || c->k == K_Sle;
  if (isC(a) && !sg && c->k != K_Eq) { la = Lin(); la.k = (i128)a->val; } if (isC(b) && !sg && c->k != K_Eq) { lb = Lin(); lb.k = (i128)b->val; }
  if (c->k == K_Eq) { if (isC(b) && !X.fitsS(la, w)) { lb = Lin(); lb.k = (i128)b->val; } if (!(X.fitsU(la, w) && X.fitsU(lb, w)) && !(X.fitsS(la, w) && X.fitsS(lb, w))) return -1; }
  else if (sg ? !(X.fitsS(la, w) && X.fitsS(lb, w)) : !(X.fitsU(la, w) && X.fitsU(lb, w))) return -1;
  size_t terms = la.t.size() + lb.t.size(); Lin d = la; LinCtx::acc(d, lb, -1); Rg r = X.range(d); int res = -1;
  if (c->k == K_Eq) { if (r.lo > 0 || r.hi < 0) res = 0; else if (d.t.empty()) res = d.k == 0; }
  else if (c->k == K_Ult || c->k == K_Slt) { if (r.hi < 0) res = 1; else if (r.lo >= 0) res = 0; }
  else { if (r.hi <= 0) res = 1; else if (r.lo > 0) res = 0; }
  if (res >= 0) return neg ? !res : res;
  if (c->k != K_Eq && d.t.size() >= 2) {   // sum of non-negative terms against a threshold T: terms whose step reaches T must be zero
    bool pos = true, ng = true; for (auto& x : d.t) { Rg q = X.leafR(x.second.first); if (q.lo < 0) pos = ng = false; if (x.second.second > 0) ng = false; else pos = false; }
    bool strict = c->k == K_Ult || c->k == K_Slt;
    if (pos || ng) {
      i128 T; bool inv; if (pos) { T = -d.k + (strict ? 0 : 1); inv = false; } else { T = d.k + (strict ? 1 : 0); inv = true; }
      i128 rest = 0; E all = mkConst(1, 1); bool any = false;
      for (auto& x : d.t) { i128 k = x.second.second < 0 ? -x.second.second : x.second.second; if (k >= T) { any = true; all = mkAnd(all, mkEq(x.second.first, mkConst(0, x.second.first->w))); } else rest += k * X.leafR(x.second.first).hi; }
      if (any && rest < T && T > 0) { E n = all; if (inv) n = mkNot(n); *simp = neg ? mkNot(n) : n; return -1; }
    }
  }
  if ((d.t.size() < terms || (w == 64 && d.t.size() >= 3 && r.lo > -((i128)1 << 40) && r.hi < ((i128)1 << 40))) && r.lo > -((i128)1 << 62) && r.hi < ((i128)1 << 62)) {
    unsigned nw = std::min(64u, bitsFor(std::max(r.hi, -r.lo)) + 2); E x = X.build(d, nw), z = mkConst(0, nw);
    E n = c->k == K_Eq ? mkEq(x, z) : (c->k == K_Ult || c->k == K_Slt) ? mkBin(K_Slt, x, z) : mkBin(K_Sle, x, z); *simp = neg ? mkNot(n) : n;
  }
  return -1;
}

// read of a constant table at a symbolic offset: when the value depends on one of the offset's terms only, express it by that term
static bool linTable(State& st, uint64_t base, E off, unsigned nbytes, V& out) {
  LinCtx X(st); X.facts(off); Lin L = X.lin(off); if (L.t.empty() || L.t.size() > 3 || nbytes > 8) return false;
  std::vector<E> lv; std::vector<i128> co; std::vector<Rg> rg; u128 combos = 1;
  for (auto& x : L.t) { lv.push_back(x.second.first); co.push_back(x.second.second); Rg r = X.leafR(x.second.first); if (r.hi < r.lo || r.hi - r.lo > 255) return false; rg.push_back(r); combos *= (u128)(r.hi - r.lo + 1); if (combos > 1024) return false; }
  const Obj* o = getObj(st, base); std::vector<uint64_t> T; size_t n = lv.size(); std::vector<i128> cur(n); for (size_t i = 0; i < n; i++) cur[i] = rg[i].lo;
  std::vector<int> dep(n, 0); std::vector<std::map<i128, uint64_t>> by(n); std::vector<bool> fn(n, true);
  for (u128 c = 0; c < combos; c++) {
    i128 a = L.k; for (size_t i = 0; i < n; i++) a += co[i] * cur[i];
    if (a < 0 || a + nbytes > o->size) return false;
    V v = readObj(st, base, (uint32_t)a, nbytes); if (!v.conc()) return false;
    for (size_t i = 0; i < n; i++) { auto it = by[i].find(cur[i]); if (it == by[i].end()) by[i][cur[i]] = v.c; else if (it->second != v.c) fn[i] = false; }
    for (size_t i = 0; i < n; i++) { if (++cur[i] <= rg[i].hi) break; cur[i] = rg[i].lo; }
  }
  for (size_t i = 0; i < n; i++) if (fn[i]) {
    unsigned w = nbytes * 8; auto& m = by[i]; E f = lv[i]; E y = f->w == w ? f : f->w > w ? mkExtract(f, 0, w) : f->k == K_SExt ? mkSExt(f, w) : mkZExt(f, w);
    uint64_t g0 = m.begin()->second; i128 x0 = m.begin()->first; uint64_t d = m.size() > 1 ? std::next(m.begin())->second - g0 : 0; bool aff = true;
    for (auto& p : m) if (((g0 + d * (uint64_t)(p.first - x0)) & (uint64_t)maskw(w)) != p.second) { aff = false; break; }
    if (aff) { E r = d == 0 ? mkConst(g0, w) : mkBin(K_Add, mkBin(K_Mul, y, mkConst(d & (uint64_t)maskw(w), w)), mkConst((u128)((g0 - d * (uint64_t)x0) & (uint64_t)maskw(w)), w)); out = V(r); return true; }
    E r = nullptr; for (auto it = m.rbegin(); it != m.rend(); ++it) { E v = mkConst(it->second, w); r = r ? mkIte(mkEq(f, mkConst((u128)it->first & maskw(f->w), f->w)), v, r) : v; }
    out = V(r); return true;
  }
  return false;
}
