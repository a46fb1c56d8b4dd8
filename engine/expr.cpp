#include "expr.h"
#include <algorithm>
#include <unordered_set>

static inline uint64_t mix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; return h; }

struct HKey { size_t operator()(E e) const { return e->hash; } };
struct EqKey {
  bool operator()(E x, E y) const {
    return x->hash == y->hash && x->k == y->k && x->w == y->w && x->a == y->a && x->b == y->b && x->c == y->c && x->val == y->val;
  }
};
static std::unordered_set<E, HKey, EqKey> table;
static std::vector<std::string> symNames;
static std::vector<unsigned> symWidths;
static std::unordered_map<std::string, uint32_t> symIdx;
static uint32_t nextId = 1;
uint64_t numExprs() { return nextId; }

static E intern(Kind k, unsigned w, E a, E b, E c, u128 val) {
  Expr t; t.k = k; t.w = w; t.a = a; t.b = b; t.c = c; t.val = val; t.syms = nullptr;
  uint64_t h = mix(k * 0x9E3779B97F4A7C15ULL + w);
  h = mix(h ^ (a ? a->hash + 1 : 0)); h = mix(h ^ (b ? b->hash * 3 + 2 : 0)); h = mix(h ^ (c ? c->hash * 5 + 3 : 0));
  h = mix(h ^ (uint64_t)val); h = mix(h ^ (uint64_t)(val >> 64));
  t.hash = h;
  auto it = table.find(&t);
  if (it != table.end()) return *it;
  Expr* n = new Expr(t); n->id = nextId++;
  table.insert(n);
  return n;
}

E mkConst(u128 v, unsigned w) { return intern(K_Const, w, nullptr, nullptr, nullptr, v & maskw(w)); }
E mkSym(const std::string& name, unsigned w) {
  auto it = symIdx.find(name);
  uint32_t i;
  if (it == symIdx.end()) { i = symNames.size(); symNames.push_back(name); symWidths.push_back(w); symIdx[name] = i; }
  else { i = it->second; w = symWidths[i]; }
  return intern(K_Sym, w, nullptr, nullptr, nullptr, i);
}
const std::string& symName(uint32_t i) { return symNames[i]; }
unsigned symWidth(uint32_t i) { return symWidths[i]; }
uint32_t symCount() { return symNames.size(); }

u128 foldBin(Kind k, u128 a, u128 b, unsigned w) {
  u128 m = maskw(w);
  switch (k) {
  case K_Add: return (a + b) & m;
  case K_Sub: return (a - b) & m;
  case K_Mul: return (a * b) & m;
  case K_UDiv: return b ? (a / b) & m : m;
  case K_URem: return b ? (a % b) & m : a;
  case K_SDiv: { if (!b) return (sextv(a, w) < 0) ? 1 : m; i128 x = sextv(a, w), y = sextv(b, w); if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
  case K_SRem: { if (!b) return a; i128 x = sextv(a, w), y = sextv(b, w); if (y == -1) return 0; return (u128)(x % y) & m; }
  case K_And: return a & b;
  case K_Or: return a | b;
  case K_Xor: return a ^ b;
  case K_Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
  case K_LShr: return b >= w ? 0 : (a >> (unsigned)b);
  case K_AShr: { i128 x = sextv(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
  case K_Eq: return a == b;
  case K_Ult: return a < b;
  case K_Ule: return a <= b;
  case K_Slt: return sextv(a, w) < sextv(b, w);
  case K_Sle: return sextv(a, w) <= sextv(b, w);
  default: return 0;
  }
}
static bool isCmp(Kind k) { return k >= K_Eq && k <= K_Sle; }

E mkNot(E a) {
  if (isC(a)) return mkConst(!a->val, 1);
  if (a->k == K_Xor && a->w == 1 && isC(a->b) && a->b->val == 1) return a->a;
  if (a->k == K_Ult) return mkBin(K_Ule, a->b, a->a);
  if (a->k == K_Ule) return mkBin(K_Ult, a->b, a->a);
  if (a->k == K_Slt) return mkBin(K_Sle, a->b, a->a);
  if (a->k == K_Sle) return mkBin(K_Slt, a->b, a->a);
  return intern(K_Xor, 1, a, mkConst(1, 1), nullptr, 0);
}

static int lowMask(u128 v) {  // v == 2^k-1 ? k : -1
  if (v == 0) return -1;
  if ((v & (v + 1)) != 0) return -1;
  int k = 0; while (v) { k++; v >>= 1; }
  return k;
}
static int pow2(u128 v) { if (!v || (v & (v - 1))) return -1; int k = 0; while (v >>= 1) k++; return k; }
// number of leading bits known to be zero
static unsigned knownTopZeros(E e) {
  if (e->k == K_ZExt) return e->w - e->a->w;
  if (isC(e)) { unsigned n = 0; for (int i = e->w - 1; i >= 0 && !((e->val >> i) & 1); --i) n++; return n; }
  return 0;
}

E mkBin(Kind k, E a, E b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkConst(foldBin(k, a->val, b->val, w), isCmp(k) ? 1 : w);
  switch (k) {
  case K_Add:
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
      if (b->val == 0) return a;
      if (a->k == K_Add && isC(a->b)) return mkBin(K_Add, a->a, mkConst(a->b->val + b->val, w));
      if (a->k == K_Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    } else {
      if (a->k == K_Add && isC(a->b)) return mkBin(K_Add, mkBin(K_Add, a->a, b), a->b);
      if (b->k == K_Add && isC(b->b)) return mkBin(K_Add, mkBin(K_Add, a, b->a), b->b);
      if (a->id > b->id) std::swap(a, b);
    }
    break;
  case K_Sub:
    if (a == b) return mkConst(0, w);
    if (isC(b)) return mkBin(K_Add, a, mkConst(-b->val, w));
    if (a->k == K_Add && a->a == b) return a->b;
    if (a->k == K_Add && a->b == b) return a->a;
    if (a->k == K_Add && isC(a->b)) return mkBin(K_Add, mkBin(K_Sub, a->a, b), a->b);
    if (b->k == K_Add && isC(b->b)) return mkBin(K_Add, mkBin(K_Sub, a, b->a), mkConst(-b->b->val, w));
    break;
  case K_Mul:
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
      if (b->val == 0) return b;
      if (b->val == 1) return a;
      int p = pow2(b->val);
      if (p > 0) return mkBin(K_Shl, a, mkConst(p, w));
    } else if (a->id > b->id) std::swap(a, b);
    break;
  case K_UDiv:
    if (isC(b)) {
      if (b->val == 1) return a;
      int p = pow2(b->val);
      if (p > 0) return mkBin(K_LShr, a, mkConst(p, w));
      unsigned tz = knownTopZeros(a);
      if (tz) {  // narrow
        unsigned nw = w - tz;
        if (b->val > maskw(nw)) return mkConst(0, w);
        return mkZExt(mkBin(K_UDiv, mkExtract(a, 0, nw), mkConst(b->val, nw)), w);
      }
    }
    break;
  case K_URem:
    if (isC(b)) {
      if (b->val == 1) return mkConst(0, w);
      if (pow2(b->val) > 0) return mkBin(K_And, a, mkConst(b->val - 1, w));
      unsigned tz = knownTopZeros(a);
      if (tz) {
        unsigned nw = w - tz;
        if (b->val > maskw(nw)) return a;
        return mkZExt(mkBin(K_URem, mkExtract(a, 0, nw), mkConst(b->val, nw)), w);
      }
    }
    break;
  case K_SDiv: if (isC(b) && b->val == 1) return a;
    if (isC(b) && knownTopZeros(a) && !((b->val >> (w - 1)) & 1)) return mkBin(K_UDiv, a, b);
    break;
  case K_SRem: if (isC(b) && b->val == 1) return mkConst(0, w);
    if (isC(b) && knownTopZeros(a) && !((b->val >> (w - 1)) & 1)) return mkBin(K_URem, a, b);
    break;
  case K_And:
    if (a == b) return a;
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
      if (b->val == 0) return b;
      if (b->val == maskw(w)) return a;
      if (w > 1) {
        int m = lowMask(b->val);
        if (m > 0) return mkZExt(mkExtract(a, 0, m), w);
      }
      if (a->k == K_And && isC(a->b)) return mkBin(K_And, a->a, mkConst(a->b->val & b->val, w));
      if (a->k == K_Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    } else {
      if (w == 1 && (a == mkNot(b))) return mkConst(0, 1);
      if (a->id > b->id) std::swap(a, b);
    }
    break;
  case K_Or:
    if (a == b) return a;
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
      if (b->val == 0) return a;
      if (b->val == maskw(w)) return b;
      if (a->k == K_Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    } else {
      if (w == 1 && (a == mkNot(b))) return mkConst(1, 1);
      // zext(lo) | concat(hi, 0) -> concat
      for (int s = 0; s < 2; s++) {
        E x = s ? b : a, y = s ? a : b;
        if (x->k == K_ZExt && y->k == K_Concat && isC(y->b) && y->b->val == 0 && y->b->w >= x->a->w)
          return mkConcat(y->a, mkZExt(x->a, y->b->w));
      }
      if (a->id > b->id) std::swap(a, b);
    }
    break;
  case K_Xor:
    if (a == b) return mkConst(0, w);
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
      if (b->val == 0) return a;
      if (w == 1) return mkNot(a);
      if (a->k == K_Xor && isC(a->b)) return mkBin(K_Xor, a->a, mkConst(a->b->val ^ b->val, w));
      if (a->k == K_Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    } else if (a->id > b->id) std::swap(a, b);
    break;
  case K_Shl:
    if (isC(b)) {
      if (b->val == 0) return a;
      if (b->val >= w) return mkConst(0, w);
      unsigned s = (unsigned)b->val;
      return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
    }
    if (isC(a) && a->val == 0) return a;
    break;
  case K_LShr:
    if (isC(b)) {
      if (b->val == 0) return a;
      if (b->val >= w) return mkConst(0, w);
      unsigned s = (unsigned)b->val;
      return mkZExt(mkExtract(a, s, w - s), w);
    }
    if (isC(a) && a->val == 0) return a;
    break;
  case K_AShr:
    if (isC(b)) {
      if (b->val == 0) return a;
      unsigned s = b->val >= w ? w - 1 : (unsigned)b->val;
      return mkSExt(mkExtract(a, s, w - s), w);
    }
    break;
  case K_Eq:
    if (a == b) return mkConst(1, 1);
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
      if (w == 1) return b->val ? a : mkNot(a);
      if (a->k == K_ZExt) {
        if (b->val > maskw(a->a->w)) return mkConst(0, 1);
        return mkEq(a->a, mkConst(b->val, a->a->w));
      }
      if (a->k == K_SExt) {
        u128 t = b->val & maskw(a->a->w);
        if (((u128)sextv(t, a->a->w) & maskw(w)) != b->val) return mkConst(0, 1);
        return mkEq(a->a, mkConst(t, a->a->w));
      }
      if (a->k == K_Concat)
        return mkAnd(mkEq(a->a, mkExtract(b, a->b->w, a->a->w)), mkEq(a->b, mkExtract(b, 0, a->b->w)));
      if (a->k == K_Ite) {
        bool c1 = isC(a->b), c2 = isC(a->c);
        if (c1 && c2) return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
        if (c1) { E t = mkEq(a->c, b); return a->b->val == b->val ? mkOr(a->a, t) : mkAnd(mkNot(a->a), t); }
        if (c2) { E t = mkEq(a->b, b); return a->c->val == b->val ? mkOr(mkNot(a->a), t) : mkAnd(a->a, t); }
      }
      if (a->k == K_Add && isC(a->b)) return mkEq(a->a, mkConst(b->val - a->b->val, w));
      if (a->k == K_Xor && isC(a->b)) return mkEq(a->a, mkConst(b->val ^ a->b->val, w));
    } else {
      if (a->k == K_ZExt && b->k == K_ZExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
      if (a->k == K_SExt && b->k == K_SExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
      if (a->k == K_Add && b->k == K_Add && isC(a->b) && isC(b->b) && a->b == b->b) return mkEq(a->a, b->a);
      if (a->id > b->id) std::swap(a, b);
    }
    break;
  case K_Ult:
    if (a == b) return mkConst(0, 1);
    if (isC(b) && b->val == 0) return mkConst(0, 1);
    if (isC(b) && b->val == 1) return mkEq(a, mkConst(0, w));
    if (isC(a) && a->val == maskw(w)) return mkConst(0, 1);
    goto narrow;
  case K_Ule:
    if (a == b) return mkConst(1, 1);
    if (isC(a) && a->val == 0) return mkConst(1, 1);
    if (isC(b) && b->val == maskw(w)) return mkConst(1, 1);
    if (isC(b) && b->val == 0) return mkEq(a, b);
  narrow: {
    unsigned za = knownTopZeros(a), zb = knownTopZeros(b);
    if (a->k == K_ZExt && isC(b)) {
      unsigned nw = a->a->w;
      if (b->val > maskw(nw)) return mkConst(1, 1);
      return mkBin(k, a->a, mkConst(b->val, nw));
    }
    if (b->k == K_ZExt && isC(a)) {
      unsigned nw = b->a->w;
      if (a->val > maskw(nw)) return mkConst(0, 1);
      return mkBin(k, mkConst(a->val, nw), b->a);
    }
    if (a->k == K_ZExt && b->k == K_ZExt && za && zb) {
      unsigned nw = std::max(a->a->w, b->a->w);
      return mkBin(k, mkZExt(a->a, nw), mkZExt(b->a, nw));
    }
    if (a->k == K_Ite && isC(b) && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    break;
  }
  case K_Slt: case K_Sle: {
    if (a == b) return mkConst(k == K_Sle, 1);
    unsigned za = knownTopZeros(a), zb = knownTopZeros(b);
    if (za && zb) return mkBin(k == K_Slt ? K_Ult : K_Ule, a, b);
    if (za && isC(b)) return mkConst(0, 1);          // a>=0, b<0
    if (zb && isC(a)) return mkConst(1, 1);
    if (a->k == K_SExt && b->k == K_SExt && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
    if (a->k == K_SExt && isC(b)) {
      unsigned nw = a->a->w; i128 bv = sextv(b->val, w);
      i128 mx = (i128)maskw(nw - 1), mn = -mx - 1;
      if (bv > mx) return mkConst(1, 1);
      if (bv < mn) return mkConst(0, 1);
      return mkBin(k, a->a, mkConst((u128)bv, nw));
    }
    if (b->k == K_SExt && isC(a)) {
      unsigned nw = b->a->w; i128 av = sextv(a->val, w);
      i128 mx = (i128)maskw(nw - 1), mn = -mx - 1;
      if (av > mx) return mkConst(0, 1);
      if (av < mn) return mkConst(1, 1);
      return mkBin(k, mkConst((u128)av, nw), b->a);
    }
    if (a->k == K_Ite && isC(b) && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    break;
  }
  default: break;
  }
  return intern(k, isCmp(k) ? 1 : w, a, b, nullptr, 0);
}

E mkIte(E c, E a, E b) {
  if (isC(c)) return c->val ? a : b;
  if (a == b) return a;
  if (c->k == K_Xor && c->w == 1 && isC(c->b)) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isTrue(a) && isFalse(b)) return c;
    if (isFalse(a) && isTrue(b)) return mkNot(c);
    if (isTrue(a)) return mkOr(c, b);
    if (isFalse(a)) return mkAnd(mkNot(c), b);
    if (isTrue(b)) return mkOr(mkNot(c), a);
    if (isFalse(b)) return mkAnd(c, a);
  }
  if (a->k == K_Ite && a->a == c) return mkIte(c, a->b, b);
  if (b->k == K_Ite && b->a == c) return mkIte(c, a, b->c);
  return intern(K_Ite, a->w, c, a, b, 0);
}

E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  switch (a->k) {
  case K_Const: return mkConst(a->val >> lo, w);
  case K_Extract: return mkExtract(a->a, lo + (unsigned)a->val, w);
  case K_Concat: {
    unsigned lw = a->b->w;
    if (lo >= lw) return mkExtract(a->a, lo - lw, w);
    if (lo + w <= lw) return mkExtract(a->b, lo, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
  }
  case K_ZExt: {
    unsigned iw = a->a->w;
    if (lo >= iw) return mkConst(0, w);
    if (lo + w <= iw) return mkExtract(a->a, lo, w);
    return mkZExt(mkExtract(a->a, lo, iw - lo), w);
  }
  case K_SExt: {
    unsigned iw = a->a->w;
    if (lo + w <= iw) return mkExtract(a->a, lo, w);
    if (lo < iw) return mkSExt(mkExtract(a->a, lo, iw - lo), w);
    return mkSExt(mkExtract(a->a, iw - 1, 1), w);
  }
  case K_And: case K_Or: case K_Xor:
    return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  case K_Add: case K_Sub: case K_Mul:
    if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    break;
  case K_Ite:
    if (isC(a->b) || isC(a->c) || a->b->k == K_ZExt || a->c->k == K_ZExt || a->b->k == K_Concat || a->c->k == K_Concat || a->b->k == K_Ite || a->c->k == K_Ite)
      return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
    break;
  default: break;
  }
  return intern(K_Extract, w, a, nullptr, nullptr, lo);
}

E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst((hi->val << lo->w) | lo->val, w);
  if (isC(hi) && hi->val == 0) return mkZExt(lo, w);
  if (hi->k == K_Extract && lo->k == K_Extract && hi->a == lo->a && (unsigned)hi->val == (unsigned)lo->val + lo->w)
    return mkExtract(hi->a, (unsigned)lo->val, w);
  if (lo->k == K_Concat && hi->k == K_Extract && lo->a->k == K_Extract && hi->a == lo->a->a && (unsigned)hi->val == (unsigned)lo->a->val + lo->a->w)
    return mkConcat(mkExtract(hi->a, (unsigned)lo->a->val, hi->w + lo->a->w), lo->b);
  // a slice and the (possibly rewritten) slice just below it
  if (hi->k == K_Extract && (unsigned)hi->val >= lo->w && !isC(lo)) { unsigned l = (unsigned)hi->val - lo->w; if (mkExtract(hi->a, l, lo->w) == lo) return mkExtract(hi->a, l, w); }
  if (lo->k == K_Concat && hi->k == K_Extract && (unsigned)hi->val >= lo->a->w && !isC(lo->a)) { unsigned l = (unsigned)hi->val - lo->a->w; if (mkExtract(hi->a, l, lo->a->w) == lo->a) return mkConcat(mkExtract(hi->a, l, hi->w + lo->a->w), lo->b); }
  // merge adjacent constants
  if (hi->k == K_Concat && isC(hi->b) && isC(lo)) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (hi->k == K_ZExt) return mkZExt(mkConcat(hi->a, lo), w);
  // ite(c,a,b) bytes of the same condition
  if (hi->k == K_Ite && lo->k == K_Ite && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  return intern(K_Concat, w, hi, lo, nullptr, 0);
}
E mkZExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(a->val, w);
  if (a->k == K_ZExt) return mkZExt(a->a, w);
  return intern(K_ZExt, w, a, nullptr, nullptr, 0);
}
E mkSExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst((u128)sextv(a->val, a->w), w);
  if (a->k == K_SExt) return mkSExt(a->a, w);
  if (a->k == K_ZExt) return mkZExt(a->a, w);
  return intern(K_SExt, w, a, nullptr, nullptr, 0);
}

static const std::vector<uint32_t> noSyms;
const std::vector<uint32_t>& symsOf(E e) {
  if (e->syms) return *e->syms;
  if (e->k == K_Const) { e->syms = &noSyms; return noSyms; }
  if (e->k == K_Sym) { e->syms = new std::vector<uint32_t>{(uint32_t)e->val}; return *e->syms; }
  // iterative-safe enough: depth can be large for long ite chains, so use explicit stack
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    if (x->syms) { st.pop_back(); continue; }
    if (x->k == K_Const) { x->syms = &noSyms; st.pop_back(); continue; }
    if (x->k == K_Sym) { x->syms = new std::vector<uint32_t>{(uint32_t)x->val}; st.pop_back(); continue; }
    bool ready = true;
    for (E ch : {x->a, x->b, x->c}) if (ch && !ch->syms) { st.push_back(ch); ready = false; }
    if (!ready) continue;
    st.pop_back();
    const std::vector<uint32_t>* best = nullptr; bool same = true;
    for (E ch : {x->a, x->b, x->c}) if (ch && !ch->syms->empty()) { if (!best) best = ch->syms; else if (best != ch->syms && *best != *ch->syms) same = false; }
    if (!best) { x->syms = &noSyms; continue; }
    if (same) { x->syms = best; continue; }
    std::vector<uint32_t> r;
    for (E ch : {x->a, x->b, x->c}) if (ch) { std::vector<uint32_t> t; std::set_union(r.begin(), r.end(), ch->syms->begin(), ch->syms->end(), std::back_inserter(t)); r.swap(t); }
    x->syms = new std::vector<uint32_t>(r);
  }
  return *e->syms;
}

u128 evalExprC(E root, const Model& m, std::unordered_map<E, u128>& cache) {
  std::vector<E> st{root};
  auto get = [&](E x, u128& out) -> bool {
    if (x->k == K_Const) { out = x->val; return true; }
    if (x->k == K_Sym) { auto it = m.v.find((uint32_t)x->val); out = it == m.v.end() ? 0 : it->second; return true; }
    auto it = cache.find(x); if (it == cache.end()) return false; out = it->second; return true;
  };
  u128 out = 0;
  if (get(root, out)) return out;
  while (!st.empty()) {
    E x = st.back();
    u128 t; if (get(x, t)) { st.pop_back(); continue; }
    u128 va = 0, vb = 0, vc = 0;
    if (x->k == K_Ite) {
      if (!get(x->a, va)) { st.push_back(x->a); continue; }
      E ch = va ? x->b : x->c;
      if (!get(ch, vb)) { st.push_back(ch); continue; }
      cache[x] = vb; st.pop_back(); continue;
    }
    bool ok = true;
    if (x->a && !get(x->a, va)) { st.push_back(x->a); ok = false; }
    if (x->b && !get(x->b, vb)) { st.push_back(x->b); ok = false; }
    if (!ok) continue;
    (void)vc;
    u128 r;
    switch (x->k) {
    case K_Extract: r = (va >> (unsigned)x->val) & maskw(x->w); break;
    case K_Concat: r = ((va << x->b->w) | vb) & maskw(x->w); break;
    case K_ZExt: r = va; break;
    case K_SExt: r = (u128)sextv(va, x->a->w) & maskw(x->w); break;
    default: r = foldBin(x->k, va, vb, x->a->w);
    }
    cache[x] = r; st.pop_back();
  }
  get(root, out);
  return out;
}
u128 evalExpr(E e, const Model& m) { std::unordered_map<E, u128> c; return evalExprC(e, m, c); }

static std::string u128s(u128 v) { if (!v) return "0"; std::string s; while (v) { s += char('0' + (int)(v % 10)); v /= 10; } std::reverse(s.begin(), s.end()); return s; }
std::string exprStr(E e, int d) {
  static const char* nm[] = {"", "", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "concat", "extract", "zext", "sext"};
  if (e->k == K_Const) return u128s(e->val);
  if (e->k == K_Sym) return symNames[(uint32_t)e->val];
  if (d <= 0) return "...";
  std::string s = std::string("(") + nm[e->k];
  if (e->k == K_Extract) s += "[" + u128s(e->val) + "+" + std::to_string(e->w) + "]";
  for (E ch : {e->a, e->b, e->c}) if (ch) s += " " + exprStr(ch, d - 1);
  return s + ")";
}

V vBin(Kind k, const V& a, const V& b) {
  if (a.conc() && b.conc()) {
    unsigned w = a.w;
    uint64_t x = a.c, y = b.c;
    switch (k) {
    case K_Add: return V(x + y, w);
    case K_Sub: return V(x - y, w);
    case K_Mul: return V(x * y, w);
    case K_And: return V(x & y, w);
    case K_Or: return V(x | y, w);
    case K_Xor: return V(x ^ y, w);
    case K_Eq: return V(x == y, 1);
    case K_Ult: return V(x < y, 1);
    case K_Ule: return V(x <= y, 1);
    default: return V((uint64_t)foldBin(k, x, y, w), isCmp(k) ? 1 : w);
    }
  }
  return V(mkBin(k, toE(a), toE(b)));
}
V vIte(const V& c, const V& a, const V& b) {
  if (c.conc()) return c.c ? a : b;
  return V(mkIte(c.e, toE(a), toE(b)));
}
V vExtract(const V& a, unsigned lo, unsigned w) {
  if (a.conc()) return V(a.c >> lo, w);
  return V(mkExtract(a.e, lo, w));
}
V vZExt(const V& a, unsigned w) {
  if (a.conc() && w <= 64) return V(a.c, w);
  return V(mkZExt(toE(a), w));
}
V vSExt(const V& a, unsigned w) {
  if (a.conc() && w <= 64) return V((uint64_t)sextv(a.c, a.w), w);
  return V(mkSExt(toE(a), w));
}
