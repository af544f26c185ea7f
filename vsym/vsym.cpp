// vsym: bounded symbolic execution of LLVM bitcode.
//
// Every input byte of the harness is a symbolic bit-vector; every path through the program is
// followed; a branch, an address, a size or an assertion that depends on input is decided by the
// solver (finite-domain reasoning over one byte, Z3 over several).  See /verif/DESIGN.md.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3++.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <time.h>
#include <signal.h>
#include <fcntl.h>

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- values
struct V { E e; u64 c; uint16_t w; };     // e == null: constant c.  w == AGG: c is a vector<V>*
static const uint16_t AGG = 0xffff;
static inline V K(u64 c, unsigned w) { return V{nullptr, c & maskw(w), (uint16_t)w}; }
static inline V fromE(E e) { if (e->op == O_CONST) return K(e->c, e->w); return V{e, 0, e->w}; }
static inline E toE(const V &v) { return v.e ? v.e : P.cst(v.c, v.w); }
static inline V mkAgg(const std::vector<V> &x) { return V{nullptr, (u64) new std::vector<V>(x), AGG}; }

// ---------------------------------------------------------------- program
struct Opnd { int reg; V c; };
enum IOp : u8 { I_BIN, I_CMP, I_NOP, I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_ZEXT, I_SEXT, I_TRUNC, I_CAST, I_SELECT, I_BR, I_CBR, I_SWITCH, I_CALL, I_RET, I_UNREACH, I_EXTRACTV, I_INSERTV, I_FREEZE, I_UNSUP, I_NEGC };
struct Func;
struct Ins {
  IOp op; Op bop = O_ADD; bool inv = false; uint16_t w = 0, sw = 0; int dst = -1;
  std::vector<Opnd> o; std::vector<u64> sc; u64 k = 0;
  std::vector<std::pair<u64, int>> cases; int t0 = -1, t1 = -1;
  Func *callee = nullptr; int bi = 0; std::vector<unsigned> flat; unsigned nflat = 0;
  const char *fn = ""; const char *file = ""; unsigned line = 0; std::string *what = nullptr;
  const llvm::Instruction *I = nullptr; int callid = -1;
  bool flags_nsw = false, flags_nuw = false;
};
struct PhiMove { int dst; Opnd src; };
struct Block { std::vector<Ins> ins; std::map<int, std::vector<PhiMove>> phi; };
struct Func { std::string name; int nregs = 0, nargs = 0; bool vararg = false, def = false, repo = false; std::vector<Block> b; int id = 0; const llvm::Function *F = nullptr; std::vector<bool> argbyval; u64 steps = 0; bool built = false; bool used = false;};

static std::vector<Func *> funcs; static std::map<const llvm::Function *, Func *> fmap; static std::map<std::string, Func *> fname;
static const llvm::DataLayout *DL;

// ---------------------------------------------------------------- memory
struct Obj {
  int rc = 0; u32 size = 0; bool ro = false, freed = false; u8 kind = 0;   // kind: 0 global 1 stack 2 heap 3 input
  std::vector<u8> c; std::vector<E> s; const char *nm = "";
};
struct OR_ { Obj *p = nullptr; OR_() {} OR_(Obj *q) : p(q) { if (p) p->rc++; } OR_(const OR_ &o) : p(o.p) { if (p) p->rc++; } OR_(OR_ &&o) : p(o.p) { o.p = nullptr; }
  OR_ &operator=(OR_ o) { std::swap(p, o.p); return *this; } ~OR_() { if (p && --p->rc == 0) delete p; } };

static const u64 R_G = 1, R_S = 2, R_H = 3, R_F = 4, R_S2 = 5; static const u64 OFF0 = 0x400000;
static inline u64 addrOf(u64 r, u64 idx) { return (r << 44) | (idx << 24) | OFF0; }

static std::vector<OR_> GC;                // initial image of all globals
static std::vector<int> GWinv;
static std::vector<int> GTLS;                // indices in State::G of thread-local variables
static std::vector<int> GW;                // index in State::G or -1 (constant)
static std::map<const llvm::GlobalVariable *, int> gidx;
static std::vector<OR_> GInit;

struct Frame { Func *f; std::vector<V> r; int bb, pc, prev; u32 sbase; int retreg; u64 va; };
struct Err { std::string kind, loc, msg, fn; std::vector<u8> in; std::vector<std::string> stack; };
static const int MAXV = 4096;

struct State {
  std::vector<Frame> fr; std::vector<OR_> S, H, G;
  std::vector<const Dom *> dom; std::vector<int16_t> fixed; std::vector<u8> model; std::vector<uint16_t> multi;
  std::vector<E> cs; std::vector<V> obs; u64 wit = 0; u64 steps = 0; u32 nlive = 0; u32 depth = 0; std::vector<u32> chosen;
  int cur = 0; std::vector<Frame> fr2; std::vector<OR_> S2, tls2;   // the thread that is not running
};

// ---------------------------------------------------------------- run-wide bookkeeping
struct Stats { u64 paths = 0, killed = 0, forks = 0, q_dom = 0, q_model = 0, q_z3 = 0, q_cache = 0, z3_sat = 0, z3_unsat = 0, z3_unk = 0, xcheck = 0, xbad = 0, asserts = 0, asserts_sym = 0, memchecks = 0, steps = 0, errs = 0, limited = 0, maxdepth = 0, tables = 0, assumed_out = 0; double z3_time = 0; };
static Stats st;
struct Shared { volatile int active; volatile int stop; volatile int nproc; volatile int toterr; volatile double firsterr; volatile int seq; volatile u64 totpaths; };
static Shared *shm; static int NW = 1; static double deadline = 1e18, errGrace = 5; static std::string outdir; static u64 stepLimit = 4000000; static u64 xcheckEvery = 0; static u64 qcount = 0; static bool checkUninitBranch = true; static bool checkShift = false; static bool checkNsw=false; static int valLimit = 300;
static bool concreteMode = false; static std::vector<u8> concreteIn; static u32 seed = 1; static u32 sampleCap = 24;
static std::map<std::string, Err> errs; static std::map<std::string, u64> errCount; static std::map<std::string, u64> witCount; static std::vector<std::string> witNames; static std::map<std::string, int> witId;
static std::map<std::string, u64> unsup; struct Sample { std::vector<u8> in; std::vector<u64> obs; }; static std::vector<Sample> samples; static u64 sampleSeen = 0; static u64 rng = 88172645463325252ULL; static u64 rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
static std::map<std::string, u64> forkSites; static const char *wantForks = getenv("VSYM_FORKS"); static std::map<std::string, u64> assertSites; static std::map<std::string,u64> limits;

// ---------------------------------------------------------------- Z3
struct Z {
  z3::context ctx; z3::solver s; std::unordered_map<E, z3::expr> bv, bo;
  Z() : s(ctx, z3::solver::simple()) { limit(30000); }
  unsigned cur = 0; void limit(double ms) { unsigned m = (unsigned)(ms / 1000) * 1000; if (m == cur) return; cur = m; z3::params p(ctx); p.set("timeout", m); s.set(p); }
  z3::expr B(E e) { // boolean view of a 1-bit value
    auto it = bo.find(e); if (it != bo.end()) return it->second;
    z3::expr r(ctx);
    switch (e->op) {
    case O_CONST: r = ctx.bool_val(e->c != 0); break;
    case O_NOT: r = !B(e->a); break;
    case O_AND: r = B(e->a) && B(e->b); break;
    case O_OR: r = B(e->a) || B(e->b); break;
    case O_XOR: r = B(e->a) != B(e->b); break;
    case O_EQ: r = e->a->w == 1 ? (B(e->a) == B(e->b)) : (W(e->a) == W(e->b)); break;
    case O_ULT: r = z3::ult(W(e->a), W(e->b)); break;
    case O_ULE: r = z3::ule(W(e->a), W(e->b)); break;
    case O_SLT: r = W(e->a) < W(e->b); break;
    case O_SLE: r = W(e->a) <= W(e->b); break;
    case O_ITE: r = z3::ite(B(e->a), B(e->b), B(e->d)); break;
    case O_EXTRACT: r = W(e->a).extract(e->c, e->c) == ctx.bv_val(1, 1); break;
    default: r = W(e) == ctx.bv_val(1, 1);
    }
    bo.emplace(e, r); return r;
  }
  z3::expr tblZ(const std::vector<u64> &T, z3::expr x, unsigned w) { z3::expr r(ctx);
  // a function of one byte given as a table: runs of "constant" or "index plus constant"
      struct Run { int lo, hi; bool lin; u64 v; }; std::vector<Run> rs;
      for (int i = 0; i < 256;) { int j = i; while (j + 1 < 256 && T[j + 1] == T[i]) j++; int k = i; while (k + 1 < 256 && T[k + 1] - (k + 1) == T[i] - i) k++;
        if (j >= k) { rs.push_back({i, j, false, T[i]}); i = j + 1; } else { rs.push_back({i, k, true, T[i] - i}); i = k + 1; } }
      for (int q = (int)rs.size() - 1; q >= 0; q--) { z3::expr v(ctx); if (rs[q].lin) { z3::expr xx = w > 8 ? z3::zext(x, w - 8) : w < 8 ? x.extract(w - 1, 0) : x; v = xx + ctx.bv_val((uint64_t)(rs[q].v & maskw(w)), w); } else v = ctx.bv_val((uint64_t)(rs[q].v & maskw(w)), w);
        if (q == (int)rs.size() - 1) r = v; else r = z3::ite(z3::ule(x, ctx.bv_val(rs[q].hi, 8)), v, r); }
      return r; }
  z3::expr W(E e) {
    auto it = bv.find(e); if (it != bv.end()) return it->second;
    z3::expr r(ctx);
    if (e->w == 1 && e->op != O_TBL && e->op != O_CONST) { r = z3::ite(B(e), ctx.bv_val(1, 1), ctx.bv_val(0, 1)); bv.emplace(e, r); return r; }
    if (e->uvar >= 0 && !e->taint && (e->op == O_UDIV || e->op == O_UREM || e->op == O_SDIV || e->op == O_SREM || (e->op == O_MUL && e->w > 8))) {
      std::vector<u64> T(256); std::vector<u8> m(e->uvar + 1, 0); for (int i = 0; i < 256; i++) { m[e->uvar] = i; evalStamp(); T[i] = evalRec(e, m.data()); }
      r = tblZ(T, W(P.var(e->uvar)), e->w); bv.emplace(e, r); return r; }
    switch (e->op) {
    case O_CONST: r = ctx.bv_val((uint64_t)e->c, e->w); break;
    case O_VAR: r = ctx.bv_const(("v" + std::to_string(e->c)).c_str(), 8); break;
    case O_UNINIT: r = ctx.bv_val(0, e->w); break;
    case O_ADD: r = W(e->a) + W(e->b); break; case O_SUB: r = W(e->a) - W(e->b); break; case O_MUL: r = W(e->a) * W(e->b); break;
    case O_UDIV: r = z3::udiv(W(e->a), W(e->b)); break; case O_UREM: r = z3::urem(W(e->a), W(e->b)); break;
    case O_SDIV: r = W(e->a) / W(e->b); break; case O_SREM: r = z3::srem(W(e->a), W(e->b)); break;
    case O_AND: r = W(e->a) & W(e->b); break; case O_OR: r = W(e->a) | W(e->b); break; case O_XOR: r = W(e->a) ^ W(e->b); break;
    case O_SHL: r = z3::shl(W(e->a), W(e->b)); break; case O_LSHR: r = z3::lshr(W(e->a), W(e->b)); break; case O_ASHR: r = z3::ashr(W(e->a), W(e->b)); break;
    case O_ZEXT: r = e->a->w == 1 ? z3::ite(B(e->a), ctx.bv_val(1, e->w), ctx.bv_val(0, e->w)) : z3::zext(W(e->a), e->w - e->a->w); break;
    case O_SEXT: r = z3::sext(W(e->a), e->w - e->a->w); break;
    case O_EXTRACT: r = W(e->a).extract(e->c + e->w - 1, e->c); break;
    case O_CONCAT: r = z3::concat(W(e->a), W(e->b)); break;
    case O_ITE: r = z3::ite(B(e->a), W(e->b), W(e->d)); break;
    case O_TBL: r = tblZ(P.tables[e->c], W(e->a), e->w); break;
    default: fprintf(stderr, "vsym: z3 conversion: op %d\n", e->op); abort();
    }
    bv.emplace(e, r); return r;
  }
  std::map<std::pair<u32, const Dom *>, z3::expr> dc;
  z3::expr domc(u32 v, const Dom *d) {
    auto k = std::make_pair(v, d); auto it = dc.find(k); if (it != dc.end()) return it->second;
    z3::expr x = W(P.var(v)), r = ctx.bool_val(false);
    for (int i = 0; i < 256;) { if (!d->test(i)) { i++; continue; } int j = i; while (j + 1 < 256 && d->test(j + 1)) j++;
      z3::expr t = i == j ? (x == ctx.bv_val(i, 8)) : (z3::ule(ctx.bv_val(i, 8), x) && z3::ule(x, ctx.bv_val(j, 8))); r = r || t; i = j + 1; }
    dc.emplace(k, r); return r;
  }
};
static Z *z;
struct DomH { size_t operator()(const Dom &d) const { return std::hash<Dom>()(d); } };
static std::unordered_map<Dom, const Dom *, DomH> domTab;
static const Dom *inDom(const Dom &d) { auto it = domTab.find(d); if (it != domTab.end()) return it->second; const Dom *p = new Dom(d); domTab.emplace(d, p); return p; }
static const Dom *fullDom;

struct QKey { std::vector<u64> k; bool operator==(const QKey &o) const { return k == o.k; } };
struct QH { size_t operator()(const QKey &q) const { u64 h = 1469598103934665603ULL; for (u64 x : q.k) { h ^= x; h *= 1099511628211ULL; h ^= h >> 29; } return h; } };
struct QRes { bool sat; std::vector<std::pair<u32, u8>> m; };
static std::unordered_map<QKey, QRes, QH> qcache;

enum R3 { UNSAT, SAT, UNK };

static void slice(State &s, E cond, std::vector<E> &cons, std::vector<u32> &vars) {
  std::set<u32> vs(cond->vs->v.begin(), cond->vs->v.end()); std::vector<bool> in(s.cs.size(), false); bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < s.cs.size(); i++) if (!in[i]) { bool hit = false; for (u32 v : s.cs[i]->vs->v) if (vs.count(v)) { hit = true; break; }
      if (hit) { in[i] = true; ch = true; for (u32 v : s.cs[i]->vs->v) vs.insert(v); } } }
  for (size_t i = 0; i < s.cs.size(); i++) if (in[i]) cons.push_back(s.cs[i]);
  vars.assign(vs.begin(), vs.end());
}
static R3 z3query(State &s, E cond, std::vector<u8> *mo, bool nocache = false) {
  std::vector<E> cons; std::vector<u32> vars; slice(s, cond, cons, vars);
  QKey k; k.k.push_back(cond->id); { std::vector<u64> t; for (E c : cons) t.push_back(c->id); std::sort(t.begin(), t.end()); k.k.insert(k.k.end(), t.begin(), t.end()); }
  k.k.push_back(~0ULL); for (u32 v : vars) { k.k.push_back(v); k.k.push_back((u64)s.dom[v]); }
  if (!nocache) { auto it = qcache.find(k); if (it != qcache.end()) { st.q_cache++; if (!it->second.sat) return UNSAT; if (mo) { *mo = s.model; for (auto &p : it->second.m) (*mo)[p.first] = p.second; } return SAT; } }
  { double left = deadline - now(); if (left < -15) return UNK; z->limit(std::min(30000.0, std::max(3000.0, left * 1000 + 3000))); }
  static bool shq = getenv("VSYM_SHOW") != nullptr; if (shq) fprintf(stderr, "Q %s\n", show(cond, 14).c_str());
  double t0 = now(); st.q_z3++;
  z->s.push(); for (u32 v : vars) if (s.dom[v] != fullDom) z->s.add(z->domc(v, s.dom[v])); for (E c : cons) z->s.add(z->B(c)); z->s.add(z->B(cond));
  z3::check_result r = z->s.check(); R3 out; QRes qr; qr.sat = false;
  if (r == z3::sat) { out = SAT; st.z3_sat++; z3::model m = z->s.get_model(); std::vector<u8> nm = s.model;
    for (u32 v : vars) { u64 x = 0; z3::expr ev = m.eval(z->W(P.var(v)), true); ev.is_numeral_u64(x); nm[v] = x; qr.m.push_back({v, (u8)x}); }
    qr.sat = true; if (mo) *mo = nm; }
  else if (r == z3::unsat) { out = UNSAT; st.z3_unsat++; } else { out = UNK; st.z3_unk++; }
  z->s.pop(); st.z3_time += now() - t0;
  if (out != UNK && qcache.size() < 2000000) qcache[k] = qr;
  return out;
}
static bool consHold(State &s, u32 var, const std::vector<u8> &m) { evalStamp(); for (E c : s.cs) { bool h = false; for (u32 v : c->vs->v) if (v == var) { h = true; break; } if (h && !(evalRec(c, m.data()) & 1)) return false; } return true; }
// Rewrites e using what the path knows: fixed bytes, and one-byte conditions that every remaining value decides.
struct PS { State &s; std::unordered_map<E, E> memo;
  E go(E e) {
    if (e->op == O_CONST || e->op == O_UNINIT || e->taint) return e;
    if (e->uvar >= 0) { int f = s.fixed[e->uvar]; if (f >= 0) return substVar(e, e->uvar, f);
      if (e->w == 1) { const Dom &t = *trueSet(e); const Dom &d = *s.dom[e->uvar]; if ((t & d).none()) return P.cst(0, 1); if ((d & ~t).none()) return P.cst(1, 1); }
      return e; }
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    E r = e, a, b, d;
    switch (e->op) {
    case O_ITE: { E c = go(e->a); if (isC(c)) r = go(c->c ? e->b : e->d); else { a = go(e->b); b = go(e->d); r = (c == e->a && a == e->b && b == e->d) ? e : mkIte(c, a, b); } break; }
    case O_NOT: a = go(e->a); r = a == e->a ? e : mkNot(a); break;
    case O_ZEXT: a = go(e->a); r = a == e->a ? e : mkZext(a, e->w); break;
    case O_SEXT: a = go(e->a); r = a == e->a ? e : mkSext(a, e->w); break;
    case O_EXTRACT: a = go(e->a); r = a == e->a ? e : mkExtract(a, e->c, e->w); break;
    case O_CONCAT: a = go(e->a); b = go(e->b); r = a == e->a && b == e->b ? e : mkConcat(a, b); break;
    case O_EQ: a = go(e->a); b = go(e->b); r = a == e->a && b == e->b ? e : mkEq(a, b); break;
    case O_ULT: case O_ULE: case O_SLT: case O_SLE: a = go(e->a); b = go(e->b); r = a == e->a && b == e->b ? e : mkCmp(e->op, a, b); break;
    case O_VAR: case O_TBL: break;
    default: a = go(e->a); b = e->b ? go(e->b) : nullptr; if (b && (a != e->a || b != e->b)) r = mkBin(e->op, a, b); break;
    }
    if (r->uvar >= 0 && r->w == 1 && r != e) r = go(r);
    memo[e] = r; return r; } };
static E psimp(State &s, E e) { PS p{s, {}}; return p.go(e); }
// Is cond possible on this path?  On SAT, *mo is a model of path and cond.
static R3 check1(State &s, E cond, std::vector<u8> *mo) {
  if (isC(cond)) { if (cond->c) { if (mo) *mo = s.model; return SAT; } return UNSAT; }
  if (evalE(cond, s.model) & 1) { st.q_model++; if (mo) *mo = s.model; return SAT; }
  if (cond->uvar >= 0) { u32 v = cond->uvar; Dom d = *s.dom[v] & *trueSet(cond);
    if (d.none()) { st.q_dom++; return UNSAT; }
    if (!s.multi[v]) { st.q_dom++; if (mo) { *mo = s.model; (*mo)[v] = d._Find_first(); } return SAT; }
    std::vector<u8> m = s.model; int tries = 0;
    for (size_t i = d._Find_first(); i < 256 && tries < 64; i = d._Find_next(i), tries++) { m[v] = i; if (consHold(s, v, m)) { st.q_model++; if (mo) *mo = m; return SAT; } }
  }
  else { E c2 = psimp(s, cond); if (c2 != cond) { if (isC(c2)) { st.q_dom++; if (c2->c) { if (mo) *mo = s.model; return SAT; } return UNSAT; } return check1(s, c2, mo); } }
  return z3query(s, cond, mo);
}
static R3 check(State &s, E cond, std::vector<u8> *mo) {
  R3 r = check1(s, cond, mo); qcount++;
  if (xcheckEvery && !isC(cond) && qcount % xcheckEvery == 0 && r != UNK) { R3 r2 = z3query(s, cond, nullptr, true); if (r2 != UNK) { st.xcheck++; if (r2 != r) { st.xbad++; fprintf(stderr, "vsym: CROSS-CHECK MISMATCH %d %d %s\n", r, r2, show(cond).c_str()); } } }
  return r;
}
static void addCs(State &s, E c);
static void setDom(State &s, u32 v, const Dom &d) {
  if (d == *s.dom[v]) return;
  s.dom[v] = inDom(d);
  if (d.count() == 1 && s.fixed[v] < 0) { u8 val = d._Find_first(); s.fixed[v] = val;
    if (s.multi[v]) { std::vector<E> todo; std::vector<E> keep; for (E c : s.cs) { bool h = false; for (u32 x : c->vs->v) if (x == v) h = true; if (h) todo.push_back(c); else keep.push_back(c); }
      s.cs = keep; for (E c : todo) for (u32 x : c->vs->v) s.multi[x]--;
      for (E c : todo) addCs(s, substFixed(c, s.fixed.data())); } }
}
// c is known to be consistent with the path (s.model satisfies it)
static void addCs(State &s, E c) {
  if (isC(c)) return;
  if (c->op == O_AND) { addCs(s, c->a); addCs(s, c->b); return; }
  if (c->uvar >= 0) { setDom(s, c->uvar, *s.dom[c->uvar] & *trueSet(c)); return; }
  c = substFixed(c, s.fixed.data()); if (isC(c)) return; if (c->op == O_AND || c->uvar >= 0) { addCs(s, c); return; }
  for (E x : s.cs) if (x == c) return;
  s.cs.push_back(c); for (u32 v : c->vs->v) s.multi[v]++;
}
static V simp(State &s, V v) { if (!v.e || v.w == AGG) return v; if (v.e->uvar >= 0) { int f = s.fixed[v.e->uvar]; if (f >= 0) return fromE(substVar(v.e, v.e->uvar, f)); return v; }
  if (v.e->uvar == -2) { for (u32 x : v.e->vs->v) if (s.fixed[x] >= 0) return fromE(substFixed(v.e, s.fixed.data())); } return v; }

// ---------------------------------------------------------------- building the program
static unsigned bits(llvm::Type *t) { if (t->isPointerTy()) return 64; return DL->getTypeSizeInBits(t).getFixedValue(); }
static void flatTypes(llvm::Type *t, std::vector<llvm::Type *> &o) {
  if (auto *sT = llvm::dyn_cast<llvm::StructType>(t)) for (auto *x : sT->elements()) flatTypes(x, o);
  else if (auto *a = llvm::dyn_cast<llvm::ArrayType>(t)) for (u64 i = 0; i < a->getNumElements(); i++) flatTypes(a->getElementType(), o);
  else o.push_back(t);
}
static unsigned flatCount(llvm::Type *t) { std::vector<llvm::Type *> o; flatTypes(t, o); return o.size(); }
static void flatOffs(llvm::Type *t, u64 base, std::vector<std::pair<u64, unsigned>> &o) {
  if (auto *sT = llvm::dyn_cast<llvm::StructType>(t)) { auto *sl = DL->getStructLayout(sT); for (unsigned i = 0; i < sT->getNumElements(); i++) flatOffs(sT->getElementType(i), base + sl->getElementOffset(i), o); }
  else if (auto *a = llvm::dyn_cast<llvm::ArrayType>(t)) { u64 es = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) flatOffs(a->getElementType(), base + i * es, o); }
  else o.push_back({base, bits(t)});
}
static Func *getFunc(const llvm::Function *F);
static u64 constAddr(const llvm::GlobalValue *g) {
  if (auto *F = llvm::dyn_cast<llvm::Function>(g)) return addrOf(R_F, getFunc(F)->id);
  if (auto *G = llvm::dyn_cast<llvm::GlobalVariable>(g)) { auto it = gidx.find(G); if (it != gidx.end()) return addrOf(R_G, it->second); }
  if (auto *A = llvm::dyn_cast<llvm::GlobalAlias>(g)) if (auto *b = llvm::dyn_cast<llvm::GlobalValue>(A->getAliasee()->stripPointerCasts())) return constAddr(b);
  return 0;
}
static V constVal(const llvm::Constant *c);
static V constExprVal(const llvm::ConstantExpr *ce) {
  if (ce->getOpcode() == llvm::Instruction::GetElementPtr) { V b = constVal(ce->getOperand(0)); llvm::APInt off(64, 0);
    if (llvm::cast<llvm::GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) return K(b.c + off.getZExtValue(), 64); }
  V a = constVal(ce->getOperand(0)); unsigned w = bits(ce->getType());
  switch (ce->getOpcode()) {
  case llvm::Instruction::PtrToInt: case llvm::Instruction::IntToPtr: case llvm::Instruction::BitCast: case llvm::Instruction::Trunc: return K(a.c, w);
  case llvm::Instruction::Sub: return K(a.c - constVal(ce->getOperand(1)).c, w);
  case llvm::Instruction::Add: return K(a.c + constVal(ce->getOperand(1)).c, w);
  default: break; }
  std::string t; llvm::raw_string_ostream os(t); ce->print(os); fprintf(stderr, "vsym: constant expression not supported: %s\n", t.c_str()); exit(3);
}
static V constVal(const llvm::Constant *c) {
  if (auto *i = llvm::dyn_cast<llvm::ConstantInt>(c)) { if (i->getBitWidth() > 64) { fprintf(stderr, "vsym: wide constant\n"); } return K(i->getValue().extractBitsAsZExtValue(std::min(64u, i->getBitWidth()), 0), std::min(64u, i->getBitWidth())); }
  if (llvm::isa<llvm::ConstantPointerNull>(c)) return K(0, 64);
  if (auto *f = llvm::dyn_cast<llvm::ConstantFP>(c)) return K(f->getValueAPF().bitcastToAPInt().extractBitsAsZExtValue(std::min(64u, bits(c->getType())), 0), std::min(64u, bits(c->getType())));
  if (c->getType()->isAggregateType()) { std::vector<llvm::Type *> ts; flatTypes(c->getType(), ts); std::vector<V> vs;
    if (llvm::isa<llvm::UndefValue>(c)) { for (auto *t : ts) vs.push_back(fromE(P.uninit(bits(t)))); return mkAgg(vs); }
    if (llvm::isa<llvm::ConstantAggregateZero>(c)) { for (auto *t : ts) vs.push_back(K(0, bits(t))); return mkAgg(vs); }
    for (unsigned i = 0; i < c->getNumOperands(); i++) { V v = constVal(llvm::cast<llvm::Constant>(c->getOperand(i))); if (v.w == AGG) for (auto &x : *(std::vector<V> *)v.c) vs.push_back(x); else vs.push_back(v); }
    return mkAgg(vs); }
  if (llvm::isa<llvm::UndefValue>(c)) return fromE(P.uninit(std::min(64u, bits(c->getType()))));
  if (auto *g = llvm::dyn_cast<llvm::GlobalValue>(c)) return K(constAddr(g), 64);
  if (auto *ce = llvm::dyn_cast<llvm::ConstantExpr>(c)) return constExprVal(ce);
  std::string t; llvm::raw_string_ostream os(t); c->print(os); fprintf(stderr, "vsym: constant not supported: %s\n", t.c_str()); exit(3);
}
static void initMem(Obj *o, u64 off, const llvm::Constant *c) {
  llvm::Type *t = c->getType();
  if (llvm::isa<llvm::ConstantAggregateZero>(c) || llvm::isa<llvm::UndefValue>(c) || c->isNullValue()) return;
  if (auto *cd = llvm::dyn_cast<llvm::ConstantDataSequential>(c)) { llvm::StringRef r = cd->getRawDataValues(); memcpy(&o->c[off], r.data(), r.size()); return; }
  if (auto *sT = llvm::dyn_cast<llvm::StructType>(t)) { auto *sl = DL->getStructLayout(sT); for (unsigned i = 0; i < sT->getNumElements(); i++) initMem(o, off + sl->getElementOffset(i), llvm::cast<llvm::Constant>(c->getOperand(i))); return; }
  if (auto *a = llvm::dyn_cast<llvm::ArrayType>(t)) { u64 es = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) initMem(o, off + i * es, llvm::cast<llvm::Constant>(c->getOperand(i))); return; }
  V v = constVal(c); unsigned n = DL->getTypeStoreSize(t); for (unsigned i = 0; i < n && i < 8; i++) o->c[off + i] = v.c >> (8 * i);
}
static Func *getFunc(const llvm::Function *F) { auto it = fmap.find(F); if (it != fmap.end()) return it->second; Func *f = new Func; f->F = F; f->name = F->getName().str(); f->id = funcs.size(); f->def = !F->isDeclaration(); f->vararg = F->isVarArg(); f->nargs = F->arg_size(); funcs.push_back(f); fmap[F] = f; fname[f->name] = f; return f; }

enum Bi { B_NONE, B_U8, B_ASSUME, B_ASSERT, B_WITNESS, B_OBSERVE, B_LIVE, B_ISINIT, B_CHOOSE, B_CONC, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_ABORT, B_ASSERTFAIL, B_SKIP, B_VASTART, B_VACOPY, B_VAEND, B_BSWAP, B_UMAX, B_UMIN, B_SMAX, B_SMIN, B_ABS, B_CTPOP, B_EXIT, B_CTLZ, B_CTTZ, B_FSHL, B_FSHR, B_UADDO, B_USUBO, B_UMULO, B_SADDO, B_SSUBO, B_SMULO, B_TRAP, B_EXPECT, B_OBJSIZE, B_OBJLEFT, B_ISCONST, B_UADDSAT, B_USUBSAT, B_SYMFAIL, B_INENGINE, B_MEMEQ, B_STRLEN, B_STACKSAVE, B_READONLY, B_ALLOCA, B_COSTART, B_COSWITCH, B_ISSTATIC, B_UNDEFEXT };
static const std::map<std::string, int> bimap = {{"vf_u8", B_U8}, {"vf_assume", B_ASSUME}, {"vf_assert_", B_ASSERT}, {"vf_witness", B_WITNESS}, {"vf_observe", B_OBSERVE}, {"vf_live", B_LIVE}, {"vf_is_init", B_ISINIT}, {"vf_choose", B_CHOOSE}, {"vf_concrete", B_CONC}, {"vf_in_engine", B_INENGINE}, {"vf_readonly", B_READONLY}, {"vf_objleft", B_OBJLEFT}, {"vf_co_start", B_COSTART}, {"vf_co_switch", B_COSWITCH}, {"vf_is_static", B_ISSTATIC},
  {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"abort", B_ABORT}, {"__assert_fail", B_ASSERTFAIL}, {"exit", B_EXIT}, {"_exit", B_EXIT}, {"__builtin_trap", B_TRAP},
  {"__memcpy_chk", B_MEMCPY}, {"__memmove_chk", B_MEMMOVE}, {"__memset_chk", B_MEMSET}};

static void buildFunc(Func *f) {
  if (f->built) return; f->built = true; const llvm::Function *F = f->F;
  std::map<const llvm::Value *, int> reg; int n = 0; for (auto &a : F->args()) reg[&a] = n++;
  std::map<const llvm::BasicBlock *, int> bid; int bn = 0;
  for (auto &B : *F) { bid[&B] = bn++; for (auto &I : B) if (!I.getType()->isVoidTy()) reg[&I] = n++; }
  f->nregs = n; f->b.resize(bn);
  auto opnd = [&](const llvm::Value *v) -> Opnd { auto it = reg.find(v); if (it != reg.end()) return Opnd{it->second, K(0, 1)};
    if (auto *c = llvm::dyn_cast<llvm::Constant>(v)) return Opnd{-1, constVal(c)}; return Opnd{-1, K(0, 64)}; };
  const char *fn = strdup(f->name.c_str()); const char *dfile = ""; if (auto *sp = F->getSubprogram()) dfile = strdup(sp->getFilename().str().c_str());
  int callid = 0;
  for (auto &B : *F) { Block &bb = f->b[bid[&B]];
    for (auto &I : B) {
      if (auto *ph = llvm::dyn_cast<llvm::PHINode>(&I)) { for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) { int p = bid[ph->getIncomingBlock(i)]; auto &mv = bb.phi[p]; bool dup = false; for (auto &x : mv) if (x.dst == reg[&I]) dup = true; if (!dup) mv.push_back({reg[&I], opnd(ph->getIncomingValue(i))}); } continue; }
      Ins x; x.op = I_UNSUP; x.I = &I; x.fn = fn; x.file = dfile; if (auto &dl = I.getDebugLoc()) { x.line = dl.getLine(); if (auto *sc = llvm::dyn_cast_or_null<llvm::DIScope>(dl.getScope())) { std::string fl = sc->getFilename().str(); if (fl != dfile) x.file = strdup(fl.c_str()); } }
      if (!I.getType()->isVoidTy()) { x.dst = reg[&I]; if (!I.getType()->isAggregateType() && I.getType()->isSized()) x.w = bits(I.getType()); }
      unsigned opc = I.getOpcode();
      auto bad = [&]() { x.op = I_UNSUP; };
      bool isvec = I.getType()->isVectorTy(); for (auto &o : I.operands()) if (o->getType()->isVectorTy()) isvec = true;
      bool wide = x.w > 64; bool isfp = I.getType()->isFloatingPointTy();
      for (auto &o : I.operands()) { if (o->getType()->isIntegerTy() && o->getType()->getIntegerBitWidth() > 64) wide = true; }
      if (isvec || wide) { bad(); bb.ins.push_back(x); continue; }
      switch (opc) {
      case llvm::Instruction::Add: case llvm::Instruction::Sub: case llvm::Instruction::Mul: case llvm::Instruction::UDiv: case llvm::Instruction::SDiv: case llvm::Instruction::URem: case llvm::Instruction::SRem:
      case llvm::Instruction::And: case llvm::Instruction::Or: case llvm::Instruction::Xor: case llvm::Instruction::Shl: case llvm::Instruction::LShr: case llvm::Instruction::AShr: {
        static const std::map<unsigned, Op> m = {{llvm::Instruction::Add, O_ADD}, {llvm::Instruction::Sub, O_SUB}, {llvm::Instruction::Mul, O_MUL}, {llvm::Instruction::UDiv, O_UDIV}, {llvm::Instruction::SDiv, O_SDIV}, {llvm::Instruction::URem, O_UREM}, {llvm::Instruction::SRem, O_SREM}, {llvm::Instruction::And, O_AND}, {llvm::Instruction::Or, O_OR}, {llvm::Instruction::Xor, O_XOR}, {llvm::Instruction::Shl, O_SHL}, {llvm::Instruction::LShr, O_LSHR}, {llvm::Instruction::AShr, O_ASHR}};
        x.op = I_BIN; x.bop = m.at(opc); x.o = {opnd(I.getOperand(0)), opnd(I.getOperand(1))};
        if (auto *ob = llvm::dyn_cast<llvm::OverflowingBinaryOperator>(&I)) { x.flags_nsw = ob->hasNoSignedWrap(); x.flags_nuw = ob->hasNoUnsignedWrap(); }
        break; }
      case llvm::Instruction::ICmp: { auto *c = llvm::cast<llvm::ICmpInst>(&I); x.op = I_CMP; x.o = {opnd(I.getOperand(0)), opnd(I.getOperand(1))}; bool sw = false;
        switch (c->getPredicate()) { case llvm::CmpInst::ICMP_EQ: x.bop = O_EQ; break; case llvm::CmpInst::ICMP_NE: x.bop = O_EQ; x.inv = true; break;
        case llvm::CmpInst::ICMP_ULT: x.bop = O_ULT; break; case llvm::CmpInst::ICMP_ULE: x.bop = O_ULE; break; case llvm::CmpInst::ICMP_UGT: x.bop = O_ULT; sw = true; break; case llvm::CmpInst::ICMP_UGE: x.bop = O_ULE; sw = true; break;
        case llvm::CmpInst::ICMP_SLT: x.bop = O_SLT; break; case llvm::CmpInst::ICMP_SLE: x.bop = O_SLE; break; case llvm::CmpInst::ICMP_SGT: x.bop = O_SLT; sw = true; break; case llvm::CmpInst::ICMP_SGE: x.bop = O_SLE; sw = true; break; default: bad(); }
        if (sw) std::swap(x.o[0], x.o[1]); break; }
      case llvm::Instruction::Alloca: { auto *a = llvm::cast<llvm::AllocaInst>(&I); x.op = I_ALLOCA; x.k = DL->getTypeAllocSize(a->getAllocatedType()); x.o = {opnd(a->getArraySize())}; x.what = new std::string(a->getName().str()); break; }
      case llvm::Instruction::Load: { x.op = I_LOAD; x.o = {opnd(I.getOperand(0))}; x.k = DL->getTypeStoreSize(I.getType()); if (I.getType()->isAggregateType()) { std::vector<std::pair<u64, unsigned>> fo; flatOffs(I.getType(), 0, fo); for (auto &p : fo) { x.sc.push_back(p.first); x.flat.push_back(p.second); } x.w = 0; } break; }
      case llvm::Instruction::Store: { x.op = I_STORE; auto *t = I.getOperand(0)->getType(); x.o = {opnd(I.getOperand(0)), opnd(I.getOperand(1))}; x.k = DL->getTypeStoreSize(t); if (t->isAggregateType()) { std::vector<std::pair<u64, unsigned>> fo; flatOffs(t, 0, fo); for (auto &p : fo) { x.sc.push_back(p.first); x.flat.push_back(p.second); } } else { x.w = bits(t); } break; }
      case llvm::Instruction::GetElementPtr: { auto *g = llvm::cast<llvm::GEPOperator>(&I); x.op = I_GEP; x.o = {opnd(g->getPointerOperand())}; x.k = 0;
        for (auto it = llvm::gep_type_begin(g), e = llvm::gep_type_end(g); it != e; ++it) { llvm::Value *ix = it.getOperand();
          if (auto *sT = it.getStructTypeOrNull()) { x.k += DL->getStructLayout(sT)->getElementOffset(llvm::cast<llvm::ConstantInt>(ix)->getZExtValue()); }
          else { u64 es = DL->getTypeAllocSize(it.getIndexedType()); if (auto *ci = llvm::dyn_cast<llvm::ConstantInt>(ix)) x.k += (u64)ci->getSExtValue() * es; else { x.o.push_back(opnd(ix)); x.sc.push_back(es); x.flat.push_back(bits(ix->getType())); } } }
        break; }
      case llvm::Instruction::ZExt: x.op = I_ZEXT; x.o = {opnd(I.getOperand(0))}; break;
      case llvm::Instruction::SExt: x.op = I_SEXT; x.o = {opnd(I.getOperand(0))}; break;
      case llvm::Instruction::Trunc: x.op = I_TRUNC; x.o = {opnd(I.getOperand(0))}; break;
      case llvm::Instruction::PtrToInt: case llvm::Instruction::IntToPtr: case llvm::Instruction::BitCast: { x.op = I_CAST; x.o = {opnd(I.getOperand(0))}; break; }
      case llvm::Instruction::Freeze: x.op = I_CAST; x.o = {opnd(I.getOperand(0))}; break;
      case llvm::Instruction::Select: x.op = I_SELECT; x.o = {opnd(I.getOperand(0)), opnd(I.getOperand(1)), opnd(I.getOperand(2))}; if (I.getType()->isAggregateType()) bad(); break;
      case llvm::Instruction::Br: { auto *b = llvm::cast<llvm::BranchInst>(&I); if (b->isConditional()) { x.op = I_CBR; x.o = {opnd(b->getCondition())}; x.t0 = bid[b->getSuccessor(0)]; x.t1 = bid[b->getSuccessor(1)]; } else { x.op = I_BR; x.t0 = bid[b->getSuccessor(0)]; } break; }
      case llvm::Instruction::Switch: { auto *sI = llvm::cast<llvm::SwitchInst>(&I); x.op = I_SWITCH; x.o = {opnd(sI->getCondition())}; x.t0 = bid[sI->getDefaultDest()]; x.w = bits(sI->getCondition()->getType()); for (auto &cse : sI->cases()) x.cases.push_back({cse.getCaseValue()->getZExtValue(), bid[cse.getCaseSuccessor()]}); break; }
      case llvm::Instruction::Ret: x.op = I_RET; if (I.getNumOperands()) x.o = {opnd(I.getOperand(0))}; break;
      case llvm::Instruction::Unreachable: x.op = I_UNREACH; break;
      case llvm::Instruction::ExtractValue: { auto *ev = llvm::cast<llvm::ExtractValueInst>(&I); x.op = I_EXTRACTV; x.o = {opnd(I.getOperand(0))}; llvm::Type *t = I.getOperand(0)->getType(); unsigned off = 0; for (unsigned ix : ev->indices()) { for (unsigned j = 0; j < ix; j++) off += flatCount(t->isArrayTy() ? t->getArrayElementType() : t->getStructElementType(j)); t = t->isArrayTy() ? t->getArrayElementType() : t->getStructElementType(ix); } x.k = off; x.nflat = t->isAggregateType() ? flatCount(t) : 0; break; }
      case llvm::Instruction::InsertValue: { auto *iv = llvm::cast<llvm::InsertValueInst>(&I); x.op = I_INSERTV; x.o = {opnd(I.getOperand(0)), opnd(I.getOperand(1))}; llvm::Type *t = I.getOperand(0)->getType(); unsigned off = 0; for (unsigned ix : iv->indices()) { for (unsigned j = 0; j < ix; j++) off += flatCount(t->isArrayTy() ? t->getArrayElementType() : t->getStructElementType(j)); t = t->isArrayTy() ? t->getArrayElementType() : t->getStructElementType(ix); } x.k = off; break; }
      case llvm::Instruction::Call: { auto *c = llvm::cast<llvm::CallInst>(&I); x.op = I_CALL; x.callid = callid++;
        for (unsigned i = 0; i < c->arg_size(); i++) { if (c->getArgOperand(i)->getType()->isMetadataTy()) { x.o.push_back({-1, K(0, 64)}); continue; } x.o.push_back(opnd(c->getArgOperand(i))); x.flat.push_back(c->getParamAttr(i, llvm::Attribute::ByVal).isValid() ? DL->getTypeAllocSize(c->getParamByValType(i)) : 0); }
        const llvm::Function *cf = llvm::dyn_cast<llvm::Function>(c->getCalledOperand()->stripPointerCasts());
        if (c->isInlineAsm()) { auto *ia = llvm::cast<llvm::InlineAsm>(c->getCalledOperand()); if (ia->getAsmString().empty()) { if (I.getType()->isVoidTy()) x.bi = B_SKIP; else bad(); } else bad(); break; }
        if (!cf) { x.o.push_back(opnd(c->getCalledOperand())); x.bi = -1; break; }
        std::string nm = cf->getName().str();
        if (cf->isIntrinsic()) { auto id = cf->getIntrinsicID(); using namespace llvm;
          switch (id) {
          case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: x.bi = B_SKIP; break;
          case Intrinsic::stacksave: x.bi = B_STACKSAVE; break;
          case Intrinsic::memcpy: case Intrinsic::memcpy_inline: x.bi = B_MEMCPY; break; case Intrinsic::memmove: x.bi = B_MEMMOVE; break; case Intrinsic::memset: x.bi = B_MEMSET; break;
          case Intrinsic::vastart: x.bi = B_VASTART; break; case Intrinsic::vacopy: x.bi = B_VACOPY; break; case Intrinsic::vaend: x.bi = B_SKIP; break;
          case Intrinsic::bswap: x.bi = B_BSWAP; break; case Intrinsic::umax: x.bi = B_UMAX; break; case Intrinsic::umin: x.bi = B_UMIN; break; case Intrinsic::smax: x.bi = B_SMAX; break; case Intrinsic::smin: x.bi = B_SMIN; break; case Intrinsic::abs: x.bi = B_ABS; break;
          case Intrinsic::ctpop: x.bi = B_CTPOP; break; case Intrinsic::ctlz: x.bi = B_CTLZ; break; case Intrinsic::cttz: x.bi = B_CTTZ; break; case Intrinsic::fshl: x.bi = B_FSHL; break; case Intrinsic::fshr: x.bi = B_FSHR; break;
          case Intrinsic::uadd_with_overflow: x.bi = B_UADDO; break; case Intrinsic::usub_with_overflow: x.bi = B_USUBO; break; case Intrinsic::umul_with_overflow: x.bi = B_UMULO; break; case Intrinsic::sadd_with_overflow: x.bi = B_SADDO; break; case Intrinsic::ssub_with_overflow: x.bi = B_SSUBO; break; case Intrinsic::smul_with_overflow: x.bi = B_SMULO; break;
          case Intrinsic::uadd_sat: x.bi = B_UADDSAT; break; case Intrinsic::usub_sat: x.bi = B_USUBSAT; break;
          case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: x.bi = B_TRAP; break; case Intrinsic::expect: case Intrinsic::threadlocal_address: x.bi = B_EXPECT; break; case Intrinsic::objectsize: x.bi = B_OBJSIZE; break; case Intrinsic::is_constant: x.bi = B_ISCONST; break;
          default: bad(); }
          break; }
        auto it = bimap.find(nm);
        if (it != bimap.end() && (cf->isDeclaration())) { x.bi = it->second; x.what = new std::string(nm); break; }
        x.callee = getFunc(cf); x.bi = 0; if (!x.callee->def) { x.bi = B_UNDEFEXT; x.what = new std::string(nm); }
        break; }
      default: bad();
      }
      if (isfp && x.op != I_LOAD && x.op != I_CALL && x.op != I_SELECT && x.op != I_CAST && x.op != I_EXTRACTV) bad();
      bb.ins.push_back(x);
    }
  }
}
// Inline assembly of known meaning becomes calls of the models in models/libc.c.
static void lowerAsm(llvm::Module &M) {
  std::vector<llvm::CallInst *> v;
  for (auto &F : M) for (auto &B : F) for (auto &I : B) if (auto *c = llvm::dyn_cast<llvm::CallInst>(&I)) if (c->isInlineAsm()) v.push_back(c);
  for (auto *c : v) {
    auto *ia = llvm::cast<llvm::InlineAsm>(c->getCalledOperand()); std::string t = ia->getAsmString(), k = ia->getConstraintString();
    while (!t.empty() && (t.back() == '\n' || t.back() == '\t' || t.back() == ';' || t.back() == ' ')) t.pop_back();
    llvm::IRBuilder<> b(c);
    if (t.size() == 13 && t.compare(0, 5, "crc32") == 0 && t.substr(6) == " $1, $0" && k.compare(0, 5, "=r,rm") == 0) {
      auto *f = M.getFunction("vf_asm_" + t.substr(0, 6)); if (!f || f->arg_size() != 2) continue;
      if (f->getArg(0)->getType() != c->getArgOperand(0)->getType() || f->getArg(1)->getType() != c->getArgOperand(1)->getType() || f->getReturnType() != c->getType()) continue;
      auto *n = b.CreateCall(f, {c->getArgOperand(0), c->getArgOperand(1)}); n->setDebugLoc(c->getDebugLoc()); c->replaceAllUsesWith(n); c->eraseFromParent();
    } else if (c->getType()->isVoidTy() && c->arg_size() == 0 && (t == "mfence" || t == "sfence" || t == "lfence" || t == "pause" || t == "rep; nop" || t == "rep nop" || (t.compare(0, 5, "lock;") == 0 && t.find("$$0,0(%") != std::string::npos))) {
      c->eraseFromParent();                        // interleavings are sequentially consistent
    } else if (t == "cpuid" && k.compare(0, 27, "={ax},={bx},={cx},={dx},{ax") == 0) {
      auto *f = M.getFunction("vf_asm_cpuid"); if (!f || !c->getType()->isStructTy()) continue;
      llvm::Value *r = llvm::UndefValue::get(c->getType());
      for (unsigned i = 0; i < 4; i++) { auto *n = b.CreateCall(f, {c->getArgOperand(0), b.getInt32(i)}); n->setDebugLoc(c->getDebugLoc()); r = b.CreateInsertValue(r, n, {i}); }
      c->replaceAllUsesWith(r); c->eraseFromParent();
    }
  }
}
#include "exec.h"
