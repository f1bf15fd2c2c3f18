// Hash-consed bit-vector terms (widths 1..128) with local simplification.
#pragma once
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum Op : uint8_t {
  CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, SLT, ITE, CONCAT, EXTRACT, ZEXT, SEXT
};

struct Expr {
  Op op;
  uint8_t w;         // width
  uint16_t lo;       // EXTRACT: low bit
  uint32_t id;       // sequence number
  const Expr *a, *b, *c;
  u128 v;            // CONST value / VAR number
};
typedef const Expr *E;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline s128 sx128(u128 v, unsigned w) {
  if (w >= 128) return (s128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (s128)((v ^ m) - m);
}

struct ExprKey { Op op; uint8_t w; uint16_t lo; E a, b, c; u128 v; };
struct ExprHash { size_t operator()(const Expr *e) const {
  uint64_t h = e->op * 0x9E3779B97F4A7C15ull ^ (uint64_t)e->w << 8 ^ (uint64_t)e->lo << 16;
  auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
  mix((uint64_t)e->a); mix((uint64_t)e->b); mix((uint64_t)e->c); mix((uint64_t)e->v); mix((uint64_t)(e->v >> 64));
  return h; } };
struct ExprEq { bool operator()(const Expr *x, const Expr *y) const {
  return x->op == y->op && x->w == y->w && x->lo == y->lo && x->a == y->a && x->b == y->b && x->c == y->c && x->v == y->v; } };

struct ExprTable {
  std::vector<Expr *> table;   // open addressing
  size_t n = 0;
  std::vector<E> byId;
  std::vector<Expr *> slabs; size_t used = 4096;
  ExprTable() { table.assign(1 << 16, nullptr); }
  void grow() {
    std::vector<Expr *> old; old.swap(table); table.assign(old.size() * 2, nullptr);
    for (auto *e : old) if (e) { size_t h = ExprHash()(e) & (table.size() - 1); while (table[h]) h = (h + 1) & (table.size() - 1); table[h] = e; }
  }
  E intern(const Expr &k) {
    size_t h = ExprHash()(&k) & (table.size() - 1);
    while (table[h]) { if (ExprEq()(table[h], &k)) return table[h]; h = (h + 1) & (table.size() - 1); }
    if (used == 4096) { slabs.push_back((Expr *)malloc(sizeof(Expr) * 4096)); used = 0; }
    Expr *e = slabs.back() + used++;
    *e = k; e->id = (uint32_t)byId.size(); byId.push_back(e);
    table[h] = e; n++;
    if (n * 2 > table.size()) grow();
    return e;
  }
};
extern ExprTable ET;

static inline E mkraw(Op op, unsigned w, E a = nullptr, E b = nullptr, E c = nullptr, unsigned lo = 0, u128 v = 0) {
  Expr k; memset(&k, 0, sizeof k);
  k.op = op; k.w = (uint8_t)w; k.lo = (uint16_t)lo; k.a = a; k.b = b; k.c = c; k.v = v;
  return ET.intern(k);
}
static inline E mkconst(unsigned w, u128 v) { return mkraw(CONST, w, nullptr, nullptr, nullptr, 0, v & maskw(w)); }
static inline bool isC(E e) { return e->op == CONST; }
static inline bool isC(E e, u128 v) { return e->op == CONST && e->v == v; }

E mkvar(unsigned w, uint32_t num);
E mkextract(E x, unsigned lo, unsigned w);
E mkconcat(E hi, E lo);
E mkzext(E x, unsigned w);
E mksext(E x, unsigned w);
E mkbin(Op op, E a, E b);
E mkeq(E a, E b);
E mkult(E a, E b);
E mkslt(E a, E b);
E mkite(E c, E a, E b);
E mknot(E x); // 1-bit
static inline E mktrue() { return mkconst(1, 1); }
static inline E mkfalse() { return mkconst(1, 0); }
static inline E mkand1(E a, E b) { return mkbin(AND, a, b); }
static inline E mkor1(E a, E b) { return mkbin(OR, a, b); }
u128 foldbin(Op op, unsigned w, u128 a, u128 b);
E mkbswap(E x);
std::string estr(E e, int depth = 6);
