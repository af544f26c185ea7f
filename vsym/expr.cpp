#include "expr.h"
Pool P;

u64 foldBin(Op op, u64 a, u64 b, unsigned w) {
  u64 m = maskw(w); a &= m; b &= m; i64 sa = sx(a, w), sb = sx(b, w);
  switch (op) {
  case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
  case O_UDIV: return b ? a / b : m; case O_UREM: return b ? a % b : a;
  case O_SDIV: return (b == 0 ? (sa < 0 ? 1 : m) : (sb == -1 ? (0 - a) & m : (u64)(sa / sb) & m));
  case O_SREM: return (b == 0 ? a : (sb == -1 ? 0 : (u64)(sa % sb) & m));
  case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
  case O_SHL: return b >= w ? 0 : (a << b) & m; case O_LSHR: return b >= w ? 0 : a >> b;
  case O_ASHR: return (b >= w ? (u64)(sa < 0 ? -1 : 0) : (u64)(sa >> b)) & m;
  case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b; case O_SLT: return sa < sb; case O_SLE: return sa <= sb;
  default: abort();
  }
}
static inline bool isCmp(Op o) { return o >= O_EQ && o <= O_SLE; }

E mkNot(E a) {
  if (a->taint) return P.uninit(1);
  if (isC(a)) return P.cst(!a->c, 1);
  if (a->op == O_NOT) return a->a;
  if (a->op == O_ULT) return mkCmp(O_ULE, a->b, a->a);
  if (a->op == O_ULE) return mkCmp(O_ULT, a->b, a->a);
  if (a->op == O_SLT) return mkCmp(O_SLE, a->b, a->a);
  if (a->op == O_SLE) return mkCmp(O_SLT, a->b, a->a);
  if (a->op == O_ITE) return mkIte(a->a, mkNot(a->b), mkNot(a->d));
  return P.mk(O_NOT, 1, 0, a);
}
E mkIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->taint) return P.uninit(a->w);
  if (c->op == O_NOT) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
    if (isC(a)) return a->c ? mkBin(O_OR, c, b) : mkBin(O_AND, mkNot(c), b);
    if (isC(b)) return b->c ? mkBin(O_OR, mkNot(c), a) : mkBin(O_AND, c, a);
  }
  return P.mk(O_ITE, a->w, 0, c, a, b);
}
static bool hasTbl(E e) { for (int i = 0; i < 64 && e->op == O_XOR; i++) { if (e->a->op == O_TBL || e->b->op == O_TBL) return true; e = e->a; } return e->op == O_TBL; }
static E mkExtract1(E a, unsigned off, unsigned w);
E mkExtract(E a, unsigned off, unsigned w) {
  if (off == 0 && w == a->w) return a;
  if (isC(a)) return P.cst(a->c >> off, w);
  switch (a->op) { case O_ADD: case O_SUB: case O_MUL: if (off) return mkExtract1(a, off, w);
  case O_AND: case O_OR: case O_XOR: case O_ITE: {
    static std::unordered_map<u64, E> memo; u64 k = (u64)a->id << 16 | off << 8 | w; auto it = memo.find(k); if (it != memo.end()) return it->second;
    E r = mkExtract1(a, off, w); if (memo.size() > 4000000) memo.clear(); memo[k] = r; return r; }
  default: return mkExtract1(a, off, w); }
}
static E mkExtract1(E a, unsigned off, unsigned w) {
  switch (a->op) {
  case O_UNINIT: return P.uninit(w);
  case O_EXTRACT: return mkExtract(a->a, off + a->c, w);
  case O_ZEXT: if (off >= a->a->w) return P.cst(0, w); if (off + w <= a->a->w) return mkExtract(a->a, off, w);
    return mkZext(mkExtract(a->a, off, a->a->w - off), w);
  case O_SEXT: if (off + w <= a->a->w) return mkExtract(a->a, off, w); break;
  case O_CONCAT: { unsigned lw = a->b->w; if (off >= lw) return mkExtract(a->a, off - lw, w); if (off + w <= lw) return mkExtract(a->b, off, w);
    return mkConcat(mkExtract(a->a, 0, off + w - lw), mkExtract(a->b, off, lw - off)); }
  case O_ITE: if ((isC(a->b) || isC(a->d)) || w < 64) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->d, off, w)); break;
  case O_AND: case O_OR: case O_XOR: return mkBin(a->op, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
  case O_ADD: case O_SUB: case O_MUL: if (off == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
  case O_TBL: { std::vector<u64> t = P.tables[a->c]; for (auto &x : t) x = (x >> off) & maskw(w); return mkTbl(P.mktable(t), a->a, w); }
  default: break;
  }
  return P.mk(O_EXTRACT, w, off, a);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return P.cst((hi->c << lo->w) | lo->c, w);
  if (isCV(hi, 0)) return mkZext(lo, w);
  if (hi->op == O_UNINIT && lo->op == O_UNINIT) return P.uninit(w);
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w) return mkExtract(hi->a, lo->c, w);
  // adjacent extracts of the same value inside a longer concatenation
  if (lo->op == O_CONCAT && hi->op == O_EXTRACT && lo->a->op == O_EXTRACT && hi->a == lo->a->a && hi->c == lo->a->c + lo->a->w)
    return mkConcat(mkExtract(hi->a, lo->a->c, hi->w + lo->a->w), lo->b);
  if (lo->op == O_ZEXT && isC(hi)) return mkConcat(mkConcat(hi, P.cst(0, lo->w - lo->a->w)), lo->a);
  if (hi->op == O_ZEXT) return mkZext(mkConcat(hi->a, lo), w);
  if (isC(hi) && lo->op == O_CONCAT && isC(lo->a)) return mkConcat(P.cst((hi->c << lo->a->w) | lo->a->c, hi->w + lo->a->w), lo->b);
  // extract of x's top then x's rest when x itself is lo's whole: (x>>k):(x low k)
  if (lo->op == O_EXTRACT && lo->c == 0 && hi->op == O_ZEXT) {}
  // right-associate
  if (hi->op == O_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
  return P.mk(O_CONCAT, w, 0, hi, lo);
}
E mkZext(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return P.cst(a->c, w);
  if (a->op == O_UNINIT) return P.mk(O_CONCAT, w, 0, P.cst(0, w - a->w), a);
  if (a->op == O_ZEXT) return mkZext(a->a, w);
  if (a->op == O_TBL) return mkTbl(a->c, a->a, w);
  if (a->op == O_XOR && hasTbl(a)) return mkBin(O_XOR, mkZext(a->a, w), mkZext(a->b, w));
  if (a->op == O_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkZext(a->b, w), mkZext(a->d, w));
  return P.mk(O_ZEXT, w, 0, a);
}
E mkSext(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return P.cst(sx(a->c, a->w), w);
  if (a->taint) return P.uninit(w);
  if (a->op == O_ZEXT) return mkZext(a, w);
  if (a->op == O_SEXT) return mkSext(a->a, w);
  if (a->op == O_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkSext(a->b, w), mkSext(a->d, w));
  return P.mk(O_SEXT, w, 0, a);
}
static bool affine(u32 t) {
  static std::unordered_map<u32, bool> memo; auto it = memo.find(t); if (it != memo.end()) return it->second;
  const auto &T = P.tables[t]; bool ok = T.size() == 256; for (int i = 1; ok && i < 256; i++) { int low = i & -i; ok = T[i] == (T[i ^ low] ^ T[low] ^ T[0]); }
  return memo[t] = ok;
}
E mkTbl(u32 t, E v, unsigned w) {
  const auto &T = P.tables[t]; bool same = true; for (int i = 1; i < 256; i++) if (T[i] != T[0]) { same = false; break; }
  if (same) return P.cst(T[0], w);
  if (v->w == 8 && v->op == O_TBL) { std::vector<u64> r(256); const auto &I = P.tables[v->c]; for (int i = 0; i < 256; i++) r[i] = T[I[i] & 255]; return mkTbl(P.mktable(r), v->a, w); }
  // an affine table distributes over exclusive or
  if (v->w == 8 && v->op == O_XOR && affine(t)) { u64 t0 = T[0]; E l = mkTbl(t, v->a, w), r = isC(v->b) ? P.cst(P.tables[t][v->b->c], w) : mkTbl(t, v->b, w); return mkBin(O_XOR, mkBin(O_XOR, l, r), P.cst(t0, w)); }
  return P.mk(O_TBL, w, t, v);
}
// numeric upper bound known from the shape
static u64 ubound(E e, int d = 0) {
  u64 m = maskw(e->w);
  if (d > 4) return m;
  switch (e->op) {
  case O_CONST: return e->c;
  case O_ZEXT: return ubound(e->a, d + 1);
  case O_AND: return std::min(ubound(e->a, d + 1), ubound(e->b, d + 1));
  case O_ITE: return std::max(ubound(e->b, d + 1), ubound(e->d, d + 1));
  case O_ADD: { u64 a = ubound(e->a, d + 1), b = ubound(e->b, d + 1); return (a > m - b) ? m : a + b; }
  case O_UREM: if (isC(e->b) && e->b->c) return e->b->c - 1; return m;
  case O_UDIV: if (isC(e->b) && e->b->c) return ubound(e->a, d + 1) / e->b->c; return m;
  case O_OR: case O_XOR: { u64 r = 0; int n = 0; E x = e; for (; n < 64 && x->op == e->op; n++, x = x->a) r |= ubound(x->b, d + 1); r |= ubound(x, d + 1); if (!r) return 0; return maskw(64 - __builtin_clzll(r)) & m; }
  case O_TBL: { u64 r = 0; for (u64 x : P.tables[e->c]) r = std::max(r, x); return r; }
  default: return m;
  }
}
E mkEq(E a, E b) {
  if (a == b && !a->taint) return P.cst(1, 1);
  if (a->taint || b->taint) return P.uninit(1);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return P.cst(a->c == b->c, 1);
    if (a->w == 1) return b->c ? a : mkNot(a);
    if (a->op == O_UDIV && isC(a->b) && a->b->c && b->c == 0) return mkCmp(O_ULT, a->a, a->b);
    switch (a->op) {
    case O_ZEXT: if (b->c > maskw(a->a->w)) return P.cst(0, 1); return mkEq(a->a, P.cst(b->c, a->a->w));
    case O_SEXT: { u64 lo = b->c & maskw(a->a->w); if ((u64)(sx(lo, a->a->w)) != (u64)sx(b->c, a->w)) return P.cst(0, 1); return mkEq(a->a, P.cst(lo, a->a->w)); }
    case O_ADD: if (isC(a->b)) return mkEq(a->a, P.cst(b->c - a->b->c, a->w)); break;
    case O_SUB: if (isC(a->a)) return mkEq(a->b, P.cst(a->a->c - b->c, a->w)); if (b->c == 0) return mkEq(a->a, a->b); break;
    case O_XOR: if (isC(a->b)) return mkEq(a->a, P.cst(b->c ^ a->b->c, a->w)); if (b->c == 0) return mkEq(a->a, a->b); break;
    case O_CONCAT: return mkBin(O_AND, mkEq(a->a, P.cst(b->c >> a->b->w, a->a->w)), mkEq(a->b, P.cst(b->c, a->b->w)));
    case O_ITE: if (isC(a->b) || isC(a->d) || a->b->op == O_ITE || a->d->op == O_ITE) return mkIte(a->a, mkEq(a->b, b), mkEq(a->d, b)); break;
    case O_OR: if (b->c == 0) return mkBin(O_AND, mkEq(a->a, b), mkEq(a->b, b)); break;
    case O_AND: if (isC(a->b) && (b->c & ~a->b->c)) return P.cst(0, 1); break;
    default: break;
    }
    if (b->c > ubound(a)) return P.cst(0, 1);
  } else {
    if (a->op == O_ZEXT && b->op == O_ZEXT) { unsigned w = std::max(a->a->w, b->a->w); return mkEq(mkZext(a->a, w), mkZext(b->a, w)); }
    if (a->op == O_CONCAT && b->op == O_CONCAT && a->b->w == b->b->w) return mkBin(O_AND, mkEq(a->a, b->a), mkEq(a->b, b->b));
    if (a->op == O_ADD && b->op == O_ADD && isC(a->b) && isC(b->b)) return mkEq(mkBin(O_ADD, a->a, P.cst(a->b->c - b->b->c, a->w)), b->a);
    if (a->op == O_ADD && isC(a->b) && a->a == b) return P.cst(a->b->c == 0, 1);
    if (a->id > b->id) std::swap(a, b);
  }
  return P.mk(O_EQ, 1, 0, a, b);
}
E mkCmp(Op op, E a, E b) {
  if (op == O_EQ) return mkEq(a, b);
  if (a->taint || b->taint) return P.uninit(1);
  unsigned w = a->w; u64 m = maskw(w);
  if (isC(a) && isC(b)) return P.cst(foldBin(op, a->c, b->c, w), 1);
  if (a == b) return P.cst(op == O_ULE || op == O_SLE, 1);
  if (op == O_SLT || op == O_SLE) {
    // both known non-negative: unsigned comparison
    u64 half = m >> 1;
    u64 ua = ubound(a), ub = ubound(b);
    if (ua <= half && ub <= half) return mkCmp(op == O_SLT ? O_ULT : O_ULE, a, b);
    if (isC(b) && b->c > half && ua <= half) return P.cst(0, 1);
    if (isC(a) && a->c > half && ub <= half) return P.cst(1, 1);
    if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkCmp(op, a->a, b->a);
    if (a->op == O_SEXT && isC(b)) { i64 v = sx(b->c, w); unsigned n = a->a->w; i64 hi = (i64)(maskw(n) >> 1), lo = -hi - 1;
      if (v > hi) return P.cst(1, 1); if (v < lo) return P.cst(0, 1); return mkCmp(op, a->a, P.cst(v, n)); }
    if (b->op == O_SEXT && isC(a)) { i64 v = sx(a->c, w); unsigned n = b->a->w; i64 hi = (i64)(maskw(n) >> 1), lo = -hi - 1;
      if (v > hi) return P.cst(0, 1); if (v < lo) return P.cst(1, 1); return mkCmp(op, P.cst(v, n), b->a); }
    if ((a->op == O_ITE && isC(a->b) && isC(a->d)) && isC(b)) return mkIte(a->a, mkCmp(op, a->b, b), mkCmp(op, a->d, b));
    return P.mk(op, 1, 0, a, b);
  }
  if (op == O_ULT) {
    if (isC(b)) { if (b->c == 0) return P.cst(0, 1); if (ubound(a) < b->c) return P.cst(1, 1); if (b->c == 1) return mkEq(a, P.cst(0, w)); }
    if (isC(a)) { if (a->c == m || a->c >= ubound(b)) return P.cst(0, 1); if (a->c == 0) return mkNot(mkEq(b, P.cst(0, w))); }
  } else {
    if (isC(b)) { if (ubound(a) <= b->c) return P.cst(1, 1); if (b->c == 0) return mkEq(a, P.cst(0, w)); }
    if (isC(a)) { if (a->c == 0) return P.cst(1, 1); if (a->c > ubound(b)) return P.cst(0, 1); }
  }
  if (a->op == O_ZEXT && isC(b)) { unsigned n = a->a->w; return mkCmp(op, a->a, P.cst(b->c, n)); }   // b <= ubound here
  if (b->op == O_ZEXT && isC(a)) { unsigned n = b->a->w; return mkCmp(op, P.cst(a->c, n), b->a); }
  if (a->op == O_ZEXT && b->op == O_ZEXT) { unsigned n = std::max(a->a->w, b->a->w); if (n < w) return mkCmp(op, mkZext(a->a, n), mkZext(b->a, n)); }
  // high:low against a constant
  if (a->op == O_CONCAT && isC(b)) { unsigned lw = a->b->w; u64 ch = b->c >> lw, cl = b->c & maskw(lw);
    E hi = a->a, lo = a->b; E C = P.cst(ch, hi->w);
    return mkBin(O_OR, mkCmp(O_ULT, hi, C), mkBin(O_AND, mkEq(hi, C), mkCmp(op, lo, P.cst(cl, lw)))); }
  if (b->op == O_CONCAT && isC(a)) return mkNot(mkCmp(op == O_ULT ? O_ULE : O_ULT, b, a));
  // pointer-like: (x + c1) < (y + c2) is left alone (wrap-around matters), except same base, small offsets
  if ((a->op == O_ITE && isC(a->b) && isC(a->d)) && isC(b)) return mkIte(a->a, mkCmp(op, a->b, b), mkCmp(op, a->d, b));
  // address-like constants: (zext(v) + C) < D  with no wrap possible
  if (isC(b) && a->op == O_ADD && isC(a->b)) { u64 u = ubound(a->a); u64 c1 = a->b->c; if (c1 <= m - u) { if (b->c < c1) return P.cst(0, 1); return mkCmp(op, a->a, P.cst(b->c - c1, w)); } }
  if (isC(a) && b->op == O_ADD && isC(b->b)) { u64 u = ubound(b->a); u64 c1 = b->b->c; if (c1 <= m - u) { if (a->c < c1) return P.cst(1, 1); return mkCmp(op, P.cst(a->c - c1, w), b->a); } }
  return P.mk(op, 1, 0, a, b);
}
// exclusive or of table values: one table per argument, in a fixed order
static bool xorLeaves(E e, std::vector<E> &out) { if (e->op == O_XOR) return xorLeaves(e->a, out) && xorLeaves(e->b, out); out.push_back(e); return out.size() <= 1000; }
static E xorTables(E a, E b) {
  auto has = hasTbl;
  if (!has(a) && !has(b)) return nullptr;
  std::vector<E> l; if (!xorLeaves(a, l) || !xorLeaves(b, l)) return nullptr;
  unsigned w = a->w; u64 k = 0; std::map<u32, std::pair<E, std::vector<u64>>> tb; std::map<u32, E> rest; bool any = false;
  for (E e : l) {
    if (isC(e)) k ^= e->c;
    else if (e->op == O_TBL) { any = true; auto &x = tb[e->a->id]; if (!x.first) { x.first = e->a; x.second.assign(256, 0); } const auto &T = P.tables[e->c]; for (int i = 0; i < 256; i++) x.second[i] ^= T[i]; }
    else if (rest.count(e->id)) rest.erase(e->id); else rest[e->id] = e;
  }
  if (!any) return nullptr;
  std::vector<E> r;
  for (auto &x : tb) { auto &T = x.second.second; u64 t0 = T[0]; k ^= t0; bool zero = true; for (auto &v : T) { v ^= t0; zero &= v == 0; } if (!zero) r.push_back(P.mk(O_TBL, w, P.mktable(T), x.second.first)); }
  for (auto &x : rest) r.push_back(x.second);
  std::sort(r.begin(), r.end(), [](E x, E y) { return x->id < y->id; });
  if (k || r.empty()) r.push_back(P.cst(k, w));
  E e = r[0]; for (size_t i = 1; i < r.size(); i++) e = P.mk(O_XOR, w, 0, e, r[i]);
  return e;
}
// combine values whose non-zero bytes do not meet
static E disjointOr(E a, E b) {
  unsigned w = a->w; if (w % 8 || w == 8) return nullptr;
  auto shape = [](E e) { return e->op == O_ZEXT || e->op == O_CONCAT || e->op == O_CONST; };
  if (!shape(a) || !shape(b)) return nullptr;
  // find cut points
  std::vector<E> parts; 
  for (unsigned i = 0; i < w; i += 8) { E x = mkExtract(a, i, 8), y = mkExtract(b, i, 8); if (isCV(x, 0)) parts.push_back(y); else if (isCV(y, 0)) parts.push_back(x); else return nullptr; }
  E r = parts[0]; for (size_t i = 1; i < parts.size(); i++) r = mkConcat(parts[i], r);
  return r;
}
E mkBin(Op op, E a, E b) {
  if (isCmp(op)) return mkCmp(op, a, b);
  unsigned w = a->w; u64 m = maskw(w);
  if (isC(a) && isC(b)) return P.cst(foldBin(op, a->c, b->c, w), w);
  // bitwise operations with constants stay precise on partly uninitialised values
  if (a->taint || b->taint) {
    if (op == O_AND && (isCV(a, 0) || isCV(b, 0))) return P.cst(0, w);
    if ((op == O_SHL || op == O_LSHR) && isC(b) && b->c < w && a->op == O_CONCAT) {}
    else if (op == O_AND && isC(b) && a->op == O_CONCAT) { unsigned lw = a->b->w; return mkConcat(mkBin(O_AND, a->a, P.cst(b->c >> lw, a->a->w)), mkBin(O_AND, a->b, P.cst(b->c, lw))); }
    else if (op == O_AND && isC(b) && b->c == m) return a;
    else return P.uninit(w);
  }
  if (isC(a) && (op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR)) std::swap(a, b);
  if (w == 1 && (op == O_ADD || op == O_SUB)) op = O_XOR; if (w == 1 && op == O_MUL) op = O_AND;
  switch (op) {
  case O_ADD:
    if (isCV(b, 0)) return a;
    if (isC(b)) { if (a->op == O_ADD && isC(a->b)) return mkBin(O_ADD, a->a, P.cst(a->b->c + b->c, w));
      if (a->op == O_SUB && isC(a->a)) return mkBin(O_SUB, P.cst(a->a->c + b->c, w), a->b); }
    else { if (a->op == O_ADD && isC(a->b)) return mkBin(O_ADD, mkBin(O_ADD, a->a, b), a->b);
      if (b->op == O_ADD && isC(b->b)) return mkBin(O_ADD, mkBin(O_ADD, a, b->a), b->b);
      if (b->op == O_SUB && b->b == a) return b->a; if (a->op == O_SUB && a->b == b) return a->a;
      if (E r = disjointOr(a, b)) return r;
      for (int k = 0; k < 2; k++, std::swap(a, b)) if (a->op == O_ADD && !isC(a->b)) {
        if (E r = disjointOr(a->b, b)) return mkBin(O_ADD, a->a, r);
        if (E r = disjointOr(a->a, b)) return mkBin(O_ADD, a->b, r); }
      if (a->id > b->id) std::swap(a, b); }
    if (w == 1) return mkBin(O_XOR, a, b);
    break;
  case O_SUB:
    if (isCV(b, 0)) return a; if (a == b) return P.cst(0, w);
    if (isC(b)) return mkBin(O_ADD, a, P.cst(0 - b->c, w));
    if (b->op == O_ADD && isC(b->b)) return mkBin(O_ADD, mkBin(O_SUB, a, b->a), P.cst(0 - b->b->c, w));
    if (a->op == O_ADD && isC(a->b)) return mkBin(O_ADD, mkBin(O_SUB, a->a, b), a->b);
    if (a->op == O_ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
    if (isC(a) && b->op == O_SUB && isC(b->a)) return mkBin(O_ADD, b->b, P.cst(a->c - b->a->c, w));
    if (b->op == O_SUB && b->a == a) return b->b;
    break;
  case O_MUL: if (isCV(b, 0)) return b; if (isCV(b, 1)) return a;
    if (isC(b) && (b->c & (b->c - 1)) == 0) return mkBin(O_SHL, a, P.cst(__builtin_ctzll(b->c), w));
    break;
  case O_UDIV: if (isC(b) && b->c) { if (b->c == 1) return a; if ((b->c & (b->c - 1)) == 0) return mkBin(O_LSHR, a, P.cst(__builtin_ctzll(b->c), w)); if (ubound(a) < b->c) return P.cst(0, w);
      if (a->op == O_UDIV && isC(a->b) && a->b->c) { unsigned __int128 pr = (unsigned __int128)a->b->c * b->c; if (pr > m) return P.cst(0, w); return mkBin(O_UDIV, a->a, P.cst((u64)pr, w)); }
      if (a->op == O_ZEXT && b->c <= maskw(a->a->w)) return mkZext(mkBin(O_UDIV, a->a, P.cst(b->c, a->a->w)), w); } break;
  case O_UREM: if (isC(b) && b->c) { if ((b->c & (b->c - 1)) == 0) return mkBin(O_AND, a, P.cst(b->c - 1, w)); if (ubound(a) < b->c) return a;
      if (a->op == O_ZEXT && b->c <= maskw(a->a->w)) return mkZext(mkBin(O_UREM, a->a, P.cst(b->c, a->a->w)), w); } break;
  case O_SDIV: if (isC(b) && b->c && b->c <= (m >> 1) && ubound(a) <= (m >> 1)) return mkBin(O_UDIV, a, b); break;
  case O_SREM: if (isC(b) && b->c && b->c <= (m >> 1) && ubound(a) <= (m >> 1)) return mkBin(O_UREM, a, b); break;
  case O_AND:
    if (a == b) return a; if (isCV(b, 0)) return b; if (isC(b) && b->c == m) return a;
    if (w == 1) { if (a == mkNot(b)) return P.cst(0, 1); break; }
    if (isC(b)) {
      if (a->op == O_AND && isC(a->b)) return mkBin(O_AND, a->a, P.cst(a->b->c & b->c, w));
      if (a->op == O_ZEXT) return mkZext(mkBin(O_AND, a->a, P.cst(b->c, a->a->w)), w);
      if (a->op == O_CONCAT) { unsigned lw = a->b->w; return mkConcat(mkBin(O_AND, a->a, P.cst(b->c >> lw, a->a->w)), mkBin(O_AND, a->b, P.cst(b->c, lw))); }
      if (((b->c + 1) & b->c) == 0) { unsigned k = 64 - __builtin_clzll(b->c); if (k < w) return mkZext(mkExtract(a, 0, k), w); }   // low mask
    }
    break;
  case O_OR:
    if (a == b) return a; if (isCV(b, 0)) return a; if (isC(b) && b->c == m) return b;
    if (w == 1) { if (a == mkNot(b)) return P.cst(1, 1); break; }
    if (E r = disjointOr(a, b)) return r;
    break;
  case O_XOR: if (a == b) return P.cst(0, w); if (isCV(b, 0)) return a; if (w == 1 && isC(b)) return mkNot(a); if (w == 1) return mkNot(mkEq(a, b));
    if (isC(b) && a->op == O_XOR && isC(a->b)) return mkBin(O_XOR, a->a, P.cst(a->b->c ^ b->c, w));
    if (E r = xorTables(a, b)) return r;
    break;
  case O_SHL: if (isC(b)) { if (b->c == 0) return a; if (b->c >= w) return P.cst(0, w); return mkConcat(mkExtract(a, 0, w - b->c), P.cst(0, b->c)); } break;
  case O_LSHR: if (isC(b)) { if (b->c == 0) return a; if (b->c >= w) return P.cst(0, w); return mkZext(mkExtract(a, b->c, w - b->c), w); } break;
  case O_ASHR: if (isC(b)) { if (b->c == 0) return a; if (ubound(a) <= (m >> 1)) return mkBin(O_LSHR, a, b); } break;
  default: break;
  }
  if ((isC(b) && a->op == O_ITE && isC(a->b) && isC(a->d))) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->d, b));
  if (op == O_AND || op == O_OR || op == O_XOR || op == O_MUL) if (!isC(b) && a->id > b->id) std::swap(a, b);
  return P.mk(op, w, 0, a, b);
}

void evalStamp() { P.stamp++; }
u64 evalRec(E e, const u8 *m) {
  if (e->op == O_CONST) return e->c;
  if (e->op == O_VAR) return m[e->c];
  if (e->stamp == P.stamp) return e->val;
  u64 r;
  switch (e->op) {
  case O_UNINIT: r = 0; break;
  case O_NOT: r = !evalRec(e->a, m); break;
  case O_ZEXT: r = evalRec(e->a, m); break;
  case O_SEXT: r = (u64)sx(evalRec(e->a, m), e->a->w) & maskw(e->w); break;
  case O_EXTRACT: r = (evalRec(e->a, m) >> e->c) & maskw(e->w); break;
  case O_CONCAT: r = (evalRec(e->a, m) << e->b->w) | evalRec(e->b, m); break;
  case O_ITE: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->d, m); break;
  case O_TBL: r = P.tables[e->c][evalRec(e->a, m)] & maskw(e->w); break;
  default: r = foldBin(e->op, evalRec(e->a, m), evalRec(e->b, m), e->a->w);
  }
  e->stamp = P.stamp; e->val = r; return r;
}
u64 evalE(E e, const std::vector<u8> &m) { evalStamp(); return evalRec(e, m.data()); }

static u8 scratch[65536];
const Dom *trueSet(E e) {
  if (e->tset) return e->tset;
  Dom *d = new Dom; u32 v = e->uvar;
  if (e->op == O_NOT) { *d = ~*trueSet(e->a); }
  else if (e->op == O_AND) { *d = *trueSet(e->a) & *trueSet(e->b); }
  else if (e->op == O_OR) { *d = *trueSet(e->a) | *trueSet(e->b); }
  else for (int i = 0; i < 256; i++) { scratch[v] = i; evalStamp(); if (evalRec(e, scratch) & 1) d->set(i); }
  e->tset = d; return d;
}
typedef std::unordered_map<E, E> Memo;
static E rebuild(E e, E a, E b, E d) {
  switch (e->op) {
  case O_NOT: return mkNot(a); case O_ZEXT: return mkZext(a, e->w); case O_SEXT: return mkSext(a, e->w);
  case O_EXTRACT: return mkExtract(a, e->c, e->w); case O_CONCAT: return mkConcat(a, b); case O_ITE: return mkIte(a, b, d);
  case O_TBL: return isC(a) ? P.cst(P.tables[e->c][a->c], e->w) : mkTbl(e->c, a, e->w);
  default: return mkBin(e->op, a, b);
  }
}
template <class F> static E subst(E e, F &f, Memo &mm) {
  if (e->vs->v.empty()) return e;
  bool any = false; for (u32 v : e->vs->v) if (f(v) >= 0) { any = true; break; }
  if (!any) return e;
  if (e->op == O_VAR) return P.cst(f(e->c), 8);
  auto it = mm.find(e); if (it != mm.end()) return it->second;
  E a = e->a ? subst(e->a, f, mm) : nullptr, b = e->b ? subst(e->b, f, mm) : nullptr, d = e->d ? subst(e->d, f, mm) : nullptr;
  E r = rebuild(e, a, b, d); mm[e] = r; return r;
}
E substVar(E e, u32 var, u8 val) { Memo mm; auto f = [&](u32 v) -> int { return v == var ? val : -1; }; return subst(e, f, mm); }
E substFixed(E e, const int16_t *fixed) { Memo mm; auto f = [&](u32 v) -> int { return fixed[v]; }; return subst(e, f, mm); }

std::string show(E e, int d) {
  static const char *nm[] = {"const","v","UNINIT","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","=","u<","u<=","s<","s<=","not","zext","sext","extract","concat","ite","tbl"};
  char b[64];
  if (e->op == O_CONST) { snprintf(b, 64, "%llu", (unsigned long long)e->c); return b; }
  if (e->op == O_VAR) { snprintf(b, 64, "v%llu", (unsigned long long)e->c); return b; }
  if (d == 0) return "...";
  std::string s = std::string("(") + nm[e->op]; snprintf(b, 64, ":%d", e->w); s += b;
  if (e->op == O_EXTRACT) { snprintf(b, 64, "@%llu", (unsigned long long)e->c); s += b; }
  for (E x : {e->a, e->b, e->d}) if (x) s += " " + show(x, d - 1);
  return s + ")";
}
