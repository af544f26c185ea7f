// Bit-vector expressions: hash-consed DAG, simplifying builders, evaluation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <algorithm>
#include <map>
#include <set>
#include <bitset>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

enum Op : u8 { O_CONST, O_VAR, O_UNINIT, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_NOT,
  O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT, O_ITE, O_TBL };

typedef std::bitset<256> Dom;

struct Expr;
typedef const Expr *E;
struct VarSet { std::vector<u32> v; u32 id; };

struct Expr {
  Op op; uint16_t w; u32 id; u64 c;       // const value / extract offset / var id / table id
  E a, b, d;
  const VarSet *vs;
  int uvar;                               // >=0: depends on that single byte only; -1: none; -2: several
  bool taint;                             // an uninitialised byte takes part
  mutable u32 stamp; mutable u64 val;     // evaluation cache
  mutable const Dom *tset;                // for unary 1-bit expressions: the values that make it true
};

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ULL << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }

struct Arena { std::vector<char *> blk; size_t used = 1 << 20;
  void *get(size_t n) { n = (n + 15) & ~15UL; if (used + n > (1 << 20)) { blk.push_back((char *)malloc(1 << 20)); used = 0; } void *p = blk.back() + used; used += n; return p; } };

struct Pool {
  Arena ar;
  struct Key { Op op; uint16_t w; u64 c; E a, b, d; bool operator==(const Key &o) const { return op == o.op && w == o.w && c == o.c && a == o.a && b == o.b && d == o.d; } };
  struct H { size_t operator()(const Key &k) const { u64 h = k.op * 0x9E3779B97F4A7C15ULL + k.w; auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; }; mix(k.c); mix((u64)k.a); mix((u64)k.b); mix((u64)k.d); return h; } };
  std::unordered_map<Key, E, H> tab;
  std::map<std::vector<u32>, VarSet *> vss;
  std::unordered_map<u64, const VarSet *> uni;
  std::vector<std::vector<u64>> tables; std::map<std::vector<u64>, u32> tabIdx;
  u32 nid = 0; u32 stamp = 0;
  const VarSet *emptyVS;
  Pool() { emptyVS = mkvs({}); tab.reserve(1 << 16); }
  const VarSet *mkvs(const std::vector<u32> &v) { auto it = vss.find(v); if (it != vss.end()) return it->second; auto *n = new VarSet{v, (u32)vss.size()}; vss[v] = n; return n; }
  const VarSet *join(const VarSet *a, const VarSet *b) {
    if (a == b || b->v.empty()) return a; if (a->v.empty()) return b;
    u64 k = ((u64)std::min(a->id, b->id) << 32) | std::max(a->id, b->id);
    auto it = uni.find(k); if (it != uni.end()) return it->second;
    std::vector<u32> r; std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
    auto *n = mkvs(r); uni[k] = n; return n; }
  u32 mktable(const std::vector<u64> &t) { auto it = tabIdx.find(t); if (it != tabIdx.end()) return it->second; u32 i = tables.size(); tables.push_back(t); tabIdx[t] = i; return i; }
  E mk(Op op, unsigned w, u64 c, E a = nullptr, E b = nullptr, E d = nullptr) {
    Key k{op, (uint16_t)w, c, a, b, d};
    auto it = tab.find(k); if (it != tab.end()) return it->second;
    Expr *e = (Expr *)ar.get(sizeof(Expr));
    e->op = op; e->w = w; e->id = nid++; e->c = c; e->a = a; e->b = b; e->d = d; e->stamp = 0; e->val = 0; e->tset = nullptr;
    const VarSet *vs = emptyVS; bool t = op == O_UNINIT;
    if (op == O_VAR) vs = mkvs({(u32)c});
    if (a) { vs = join(vs, a->vs); t |= a->taint; }
    if (b) { vs = join(vs, b->vs); t |= b->taint; }
    if (d) { vs = join(vs, d->vs); t |= d->taint; }
    e->vs = vs; e->taint = t; e->uvar = vs->v.empty() ? -1 : vs->v.size() == 1 ? (int)vs->v[0] : -2;
    tab[k] = e; return e; }
  E cst(u64 v, unsigned w) { return mk(O_CONST, w, v & maskw(w)); }
  E var(u32 id) { return mk(O_VAR, 8, id); }
  E uninit(unsigned w) { return mk(O_UNINIT, w, 0); }
};
extern Pool P;

static inline bool isC(E e) { return e->op == O_CONST; }
static inline bool isCV(E e, u64 v) { return e->op == O_CONST && e->c == v; }

u64 foldBin(Op op, u64 a, u64 b, unsigned w);
E mkBin(Op op, E a, E b); E mkNot(E a); E mkEq(E a, E b); E mkCmp(Op op, E a, E b);
E mkZext(E a, unsigned w); E mkSext(E a, unsigned w); E mkExtract(E a, unsigned off, unsigned w); E mkConcat(E hi, E lo); E mkIte(E c, E a, E b);
E mkTbl(u32 table, E v, unsigned w);
u64 evalE(E e, const std::vector<u8> &m);          // under a full model
void evalStamp();                                    // starts a new evaluation
u64 evalRec(E e, const u8 *m);
const Dom *trueSet(E e);                             // e: 1-bit and unary
E substVar(E e, u32 var, u8 val);
E substFixed(E e, const int16_t *fixed);
std::string show(E e, int depth = 6);
