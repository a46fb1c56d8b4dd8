// Hash-consed bit-vector expression DAG with local simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <memory>
#include <map>
#include <set>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Kind : uint8_t {
  K_Const, K_Sym, K_Add, K_Sub, K_Mul, K_UDiv, K_SDiv, K_URem, K_SRem, K_And, K_Or, K_Xor,
  K_Shl, K_LShr, K_AShr, K_Eq, K_Ult, K_Ule, K_Slt, K_Sle, K_Ite, K_Concat, K_Extract, K_ZExt, K_SExt
};

struct Expr {
  Kind k; uint16_t w; uint32_t id; uint64_t hash;
  const Expr *a, *b, *c;
  u128 val;            // Const value / Sym index / Extract low bit
  mutable const std::vector<uint32_t>* syms;
};
typedef const Expr* E;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextv(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 s = (u128)1 << (w - 1);
  return (i128)((v ^ s) - s);
}

E mkConst(u128 v, unsigned w);
E mkSym(const std::string& name, unsigned w);
E mkBin(Kind k, E a, E b);
E mkIte(E c, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
inline bool isC(E e) { return e->k == K_Const; }
inline bool isTrue(E e) { return e->k == K_Const && e->w == 1 && e->val; }
inline bool isFalse(E e) { return e->k == K_Const && e->w == 1 && !e->val; }
E mkNot(E a);                 // 1-bit
inline E mkEq(E a, E b) { return mkBin(K_Eq, a, b); }
inline E mkAnd(E a, E b) { return mkBin(K_And, a, b); }
inline E mkOr(E a, E b) { return mkBin(K_Or, a, b); }
u128 foldBin(Kind k, u128 a, u128 b, unsigned w);
const std::vector<uint32_t>& symsOf(E e);   // sorted symbol indices
const std::string& symName(uint32_t idx);
unsigned symWidth(uint32_t idx);
uint32_t symCount();
std::string exprStr(E e, int depth = 6);
struct Model { std::unordered_map<uint32_t, u128> v; };   // missing = 0
u128 evalExpr(E e, const Model& m);
u128 evalExprC(E e, const Model& m, std::unordered_map<E, u128>& cache);
uint64_t numExprs();

// concrete-or-symbolic value (<=64 bits concrete; wider always symbolic nodes)
struct V {
  uint64_t c = 0; E e = nullptr; uint32_t w = 0;
  V() {}
  V(uint64_t c_, uint32_t w_) : c(w_ >= 64 ? c_ : c_ & ((1ull << w_) - 1)), e(nullptr), w(w_) {}
  explicit V(E x) : w(x->w) {
    if (x->k == K_Const && x->w <= 64) { c = (uint64_t)x->val; e = nullptr; }
    else { e = x; }
  }
  bool conc() const { return e == nullptr; }
};
inline E toE(const V& v) { return v.e ? v.e : mkConst(v.c, v.w); }
V vBin(Kind k, const V& a, const V& b);
V vIte(const V& c, const V& a, const V& b);
V vExtract(const V& a, unsigned lo, unsigned w);
V vZExt(const V& a, unsigned w);
V vSExt(const V& a, unsigned w);
inline V vNot(const V& a) { return a.conc() ? V(a.c ^ 1, 1) : V(mkNot(a.e)); }
