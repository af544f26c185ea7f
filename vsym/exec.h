// the interpreter: states, forking, memory checks, parallel exploration, report
static std::vector<State *> stackS;
static volatile sig_atomic_t gotTerm = 0;
static std::string repoPrefix;

static OR_ *slot(State &s, u64 addr, i64 &off) {
  u64 r = addr >> 44, idx = (addr >> 24) & 0xfffff; off = (i64)(addr & 0xffffff) - (i64)OFF0;
  if (r == R_S || r == R_S2) { auto &S = (r == R_S) == (s.cur == 0) ? s.S : s.S2; if (idx < S.size() && S[idx].p) return &S[idx]; }
  else if (r == R_H) { if (idx < s.H.size()) return &s.H[idx]; }
  else if (r == R_G) { if (idx < GC.size()) return GW[idx] < 0 ? &GC[idx] : &s.G[GW[idx]]; }
  return nullptr;
}
static Obj *wr(OR_ &r) { if (r.p->rc > 1) { Obj *n = new Obj(*r.p); n->rc = 0; r = OR_(n); } return r.p; }
static inline E byteE(Obj *o, u64 i) { if (!o->s.empty() && o->s[i]) return o->s[i]; return nullptr; }
static inline void setConst(Obj *o, u64 i, u8 v) { o->c[i] = v; if (!o->s.empty()) o->s[i] = nullptr; }
static inline void setByte(Obj *o, u64 i, E e) { if (e->op == O_CONST) { setConst(o, i, e->c); return; } if (o->s.empty()) o->s.assign(o->size, nullptr); o->s[i] = e; }
static Obj *newObj(u32 size, u8 kind, bool uninit) { Obj *o = new Obj; o->size = size; o->kind = kind; o->c.assign(size, 0); if (uninit && size) o->s.assign(size, P.uninit(8)); return o; }

static void locate(State &s, const Ins *x, Err &e) {
  auto push = [&](const Ins *i) { char b[512]; const char *f = i->file; snprintf(b, sizeof b, "%s (%s:%u)", i->fn, f, i->line); e.stack.push_back(b); };
  if (x) push(x);
  for (int k = (int)s.fr.size() - 2; k >= 0; k--) { Frame &f = s.fr[k]; int pc = f.pc - 1; if (pc >= 0 && pc < (int)f.f->b[f.bb].ins.size()) push(&f.f->b[f.bb].ins[pc]); }
  e.loc = e.stack.empty() ? "?" : e.stack[0];
  for (auto &q : e.stack) if (q.find(repoPrefix) != std::string::npos) { e.loc = q; break; }
}
static void report(State &s, const Ins *x, const std::string &kind, const std::string &msg) {
  Err e; e.kind = kind; e.msg = msg; locate(s, x, e); e.in.assign(s.model.begin(), s.model.end());
  std::string key = kind + "|" + e.loc + "|" + (kind == "assert" ? msg : "");
  if (kind == "unsupported" || kind == "limit") { unsup[kind + ": " + msg + " at " + e.loc]++; st.limited++; return; }
  st.errs++; if (errCount[key]++ == 0) errs[key] = e;
  __sync_fetch_and_add(&shm->toterr, 1); if (shm->firsterr == 0) shm->firsterr = now();
}
static const Ins *curIns;
static State *cloneS(State &s) { if (wantForks) { char b[300]; snprintf(b, sizeof b, "%s:%u %s", curIns->file, curIns->line, curIns->fn); forkSites[b]++; } State *n = new State(s); n->depth++; st.forks++; return n; }

// constrain s to cond (known SAT with model mo)
static void takeCs(State &s, E cond, const std::vector<u8> &mo) { s.model = mo; addCs(s, cond); }

// Make operand concrete: fork over every feasible value.  Returns false when the path must stop.
static bool concretize(State &s, Frame &f, const Opnd &op, V &out, const char *what) {
  V v = op.reg >= 0 ? f.r[op.reg] : op.c; v = simp(s, v);
  if (!v.e) { out = v; if (op.reg >= 0) f.r[op.reg] = v; return true; }
  if (v.e->taint) { report(s, curIns, "uninit", std::string("uninitialised value used as ") + what); return false; }
  bool lim = false; E e = v.e; std::vector<u64> vals; u64 v0 = evalE(e, s.model); std::vector<std::pair<u64, std::vector<u8>>> others;
  if (e->uvar >= 0) {
    u32 u = e->uvar; std::set<u64> seen; seen.insert(v0);
    const Dom &d = *s.dom[u]; std::vector<u8> m = s.model;
    for (size_t i = d._Find_first(); i < 256; i = d._Find_next(i)) { m[u] = i; u64 x = evalE(e, m); if (seen.insert(x).second) vals.push_back(x); }
    for (u64 x : vals) { std::vector<u8> mo; R3 r = check(s, mkEq(e, P.cst(x, e->w)), &mo); if (r == SAT) others.push_back({x, mo}); else if (r == UNK) { lim = true; report(s, curIns, "limit", "solver gave no answer"); } }
  } else {
    E ne = mkNot(mkEq(e, P.cst(v0, e->w))); 
    while (true) { std::vector<u8> mo; R3 r = check(s, ne, &mo); if (r == UNK) { lim = true; report(s, curIns, "limit", "solver gave no answer"); break; } if (r == UNSAT) break;
      u64 x = evalE(e, mo); others.push_back({x, mo}); ne = mkBin(O_AND, ne, mkNot(mkEq(e, P.cst(x, e->w))));
      if ((int)others.size() > valLimit) { report(s, curIns, "limit", std::string("more than the limit of values for ") + what); lim = true; break; } }
  }
  for (auto &o : others) { State *n = cloneS(s); takeCs(*n, mkEq(e, P.cst(o.first, e->w)), o.second); if (op.reg >= 0) n->fr.back().r[op.reg] = K(o.first, e->w); n->fr.back().pc--; stackS.push_back(n); }
  if (lim || !others.empty()) addCs(s, mkEq(e, P.cst(v0, e->w)));
  out = K(v0, e->w); if (op.reg >= 0) f.r[op.reg] = out;
  return true;
}
static bool memFault(State &s, u64 addr, u64 n, bool write, Obj *&o, i64 &off, OR_ **sl) {
  OR_ *p = slot(s, addr, off); st.memchecks++;
  const char *rw = write ? "write" : "read"; char b[200];
  if (!p) { snprintf(b, 200, "%s of %llu at address %llx", rw, (unsigned long long)n, (unsigned long long)addr); report(s, curIns, addr < 0x100000 ? "null-deref" : "wild-pointer", b); return false; }
  o = p->p;
  if (o->freed) { snprintf(b, 200, "%s of %llu in freed object of %u", rw, (unsigned long long)n, o->size); report(s, curIns, "use-after-free", b); return false; }
  if (off < 0 || (u64)off + n > o->size) { snprintf(b, 200, "%s of %llu at offset %lld of object of %u (%s)", rw, (unsigned long long)n, (long long)off, o->size, o->nm); report(s, curIns, write ? "oob-write" : "oob-read", b); return false; }
  if (write && o->ro) { report(s, curIns, "write-to-readonly", o->nm); return false; }
  if (sl) *sl = p; return true;
}
static std::unordered_map<E, E> wordOf;                // what the octets of a stored word read as -> that word
static V loadFrom(Obj *o, u64 off, unsigned n, unsigned w) {
  bool sym = false; if (!o->s.empty()) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
  if (!sym) { u64 v = 0; for (unsigned i = 0; i < n && i < 8; i++) v |= (u64)o->c[off + i] << (8 * i); return K(v, w); }
  E r = nullptr; for (unsigned i = 0; i < n; i++) { E b = byteE(o, off + i); if (!b) b = P.cst(o->c[off + i], 8); r = r ? mkConcat(b, r) : b; }
  if (!isC(r)) { auto it = wordOf.find(r); if (it != wordOf.end()) r = it->second; }
  if (w < r->w) r = mkExtract(r, 0, w);
  return fromE(r);
}
static void storeTo(Obj *o, u64 off, unsigned n, V v) {
  if (!v.e) { for (unsigned i = 0; i < n; i++) setConst(o, off + i, i < 8 ? v.c >> (8 * i) : 0); return; }
  E e = v.e; if (e->w < n * 8) e = mkZext(e, n * 8);
  E c = nullptr; for (unsigned i = 0; i < n; i++) { E b = mkExtract(e, 8 * i, 8); setByte(o, off + i, b); c = c ? mkConcat(b, c) : b; }
  if (c != e && !e->taint && c->w == e->w && n > 1) { if (wordOf.size() > 1000000) wordOf.clear(); wordOf[c] = e; }
}
// load through an address that depends on one byte, from constant memory: a table
static bool tableLoad(State &s, E a, unsigned n, unsigned w, V &out, bool &dead) {
  dead = false; if (a->uvar < 0 || a->taint || n > 8) return false; u32 u = a->uvar; const Dom &d = *s.dom[u];
  std::vector<u8> m = s.model; std::vector<u64> t(256, 0); Obj *base = nullptr; Dom good, badd; u64 lastv = 0;
  for (size_t i = d._Find_first(); i < 256; i = d._Find_next(i)) { m[u] = i; u64 ad = evalE(a, m); i64 off; OR_ *p = slot(s, ad, off);
    if (!p || p->p->freed || off < 0 || (u64)off + n > p->p->size) { badd.set(i); continue; }
    if (!base) base = p->p; if (p->p != base) return false;
    u64 v = 0; for (unsigned k = 0; k < n; k++) { if (byteE(base, off + k)) return false; v |= (u64)base->c[off + k] << (8 * k); }
    good.set(i); t[i] = v; lastv = v; }
  if (good.none()) return false;
  if (badd.any()) { // some values fall outside: report if really feasible
    Dom keep = *s.dom[u];
    State probe(s); std::vector<u8> mo; bool any = false;
    for (size_t i = badd._Find_first(); i < 256; i = badd._Find_next(i)) { if (check(s, mkEq(P.var(u), P.cst(i, 8)), &mo) == SAT) { probe.model = mo; any = true; m = mo; break; } }
    if (any) { i64 off; u64 ad = evalE(a, m); Obj *o; memFault(probe, ad, n, false, o, off, nullptr); }
    // continue on the good values
    std::vector<u8> mg; bool ok = false; for (size_t i = good._Find_first(); i < 256; i = good._Find_next(i)) if (check(s, mkEq(P.var(u), P.cst(i, 8)), &mg) == SAT) { ok = true; break; }
    if (!ok) { dead = true; return true; } s.model = mg; setDom(s, u, keep & good);
  }
  for (int i = 0; i < 256; i++) if (!good.test(i)) t[i] = lastv;
  for (auto &x : t) x &= maskw(w);
  st.tables++; out = fromE(mkTbl(P.mktable(t), P.var(u), w)); out = simp(s, out); return true;
}
// the same through an address base + scale * index where the index depends on several bytes but is below 256
static bool tableLoad2(State &s, E a, unsigned n, unsigned w, V &out, bool &dead) {
  dead = false; if (a->taint || n > 8) return false; u64 k = 0; E x = a; u64 sc = 1;
  while (x->op == O_ADD && (isC(x->a) || isC(x->b))) { if (isC(x->b)) { k += x->b->c; x = x->a; } else { k += x->a->c; x = x->b; } }
  if (x->op == O_MUL && isC(x->b)) { sc = x->b->c; x = x->a; } else if (x->op == O_MUL && isC(x->a)) { sc = x->a->c; x = x->b; } else if (x->op == O_SHL && isC(x->b) && x->b->c < 8) { sc = 1ull << x->b->c; x = x->a; }
  { E y = x; unsigned top = 0; if (y->op == O_ZEXT) { y = y->a; top = 1; } if (sc == 1 && y->op == O_CONCAT && isCV(y->b, 0) && y->b->w < 12 && (top || y->a->w >= 8)) { sc = 1ull << y->b->w; x = mkZext(y->a, std::max(16u, (unsigned)y->a->w)); } }
  i64 off; OR_ *p = slot(s, k, off); if (!p || p->p->freed || off < 0 || sc > 4096) return false; Obj *base = p->p;
  if (base->size > 256 * sc + 65536) return false;
  std::vector<u8> mo; if (evalE(x, s.model) > 255) return false; if (check(s, mkCmp(O_ULT, P.cst(255, x->w), x), &mo) != UNSAT) return false;
  std::vector<u64> t(256, 0); int lim = -1;
  for (int i = 0; i < 256; i++) { u64 o = off + sc * i; if (o + n > base->size) break; u64 v = 0; for (unsigned q = 0; q < n; q++) { if (byteE(base, o + q)) return false; v |= (u64)base->c[o + q] << (8 * q); } t[i] = v & maskw(w); lim = i; }
  if (lim < 0) return false;
  if (lim < 255) { E bad = mkCmp(O_ULT, P.cst(lim, x->w), x); if (check(s, bad, &mo) != UNSAT) return false; }   // let the general case report it
  for (int i = lim + 1; i < 256; i++) t[i] = t[lim];
  E ix = mkExtract(x, 0, 8); if (isC(ix)) return false;
  st.tables++; out = fromE(mkTbl(P.mktable(t), ix, w)); out = simp(s, out); return true;
}
static bool readStr(State &s, u64 a, std::string &o) { for (;;) { i64 off; OR_ *p = slot(s, a, off); if (!p || off < 0 || (u64)off >= p->p->size || byteE(p->p, off)) return false; char c = p->p->c[off]; if (!c) return true; o += c; a++; } }

static void endPath(State &s) {
  st.paths++; st.steps += s.steps; if (s.depth > st.maxdepth) st.maxdepth = s.depth;
  for (size_t i = 0; i < witNames.size(); i++) if (s.wit >> i & 1) witCount[witNames[i]]++;
  sampleSeen++; bool take = samples.size() < sampleCap; size_t at = samples.size(); if (!take) { u64 k = rnd() % sampleSeen; if (k < sampleCap) { take = true; at = k; } }
  if (take) { Sample sm; sm.in.assign(s.model.begin(), s.model.end()); evalStamp(); for (auto &v : s.obs) sm.obs.push_back(v.e ? evalRec(v.e, s.model.data()) : v.c); if (at == samples.size()) samples.push_back(sm); else samples[at] = sm; }
}
static void pushFrame(State &s, Func *f, int retreg) { buildFunc(f); f->used = true; s.fr.emplace_back(); Frame &n = s.fr.back(); n.f = f; n.r.assign(f->nregs, V{nullptr, 0, 1}); n.bb = 0; n.pc = 0; n.prev = -1; n.sbase = s.S.size(); n.retreg = retreg; n.va = 0; }
static u64 newStack(State &s, u32 size, const char *nm) { Obj *o = newObj(size, 1, true); o->nm = nm; s.S.push_back(OR_(o)); return addrOf(s.cur ? R_S2 : R_S, s.S.size() - 1); }
static u64 newHeap(State &s, u32 size, bool uninit) { Obj *o = newObj(size, 2, uninit); o->nm = "heap"; s.H.push_back(OR_(o)); s.nlive++; return addrOf(R_H, s.H.size() - 1); }
static bool doFree(State &s, u64 a) { if (!a) return true; i64 off; OR_ *p = slot(s, a, off); if ((a >> 44) != R_H || !p || off != 0) { report(s, curIns, "bad-free", "free of a pointer that malloc did not return"); return false; } if (p->p->freed) { report(s, curIns, "double-free", ""); return false; } Obj *o = wr(*p); o->freed = true; s.nlive--; return true; }

static void jump(Frame &f, int to) { // phi moves in parallel
  int from = f.bb; f.prev = from; f.bb = to; f.pc = 0; auto &ph = f.f->b[to].phi; if (ph.empty()) return; auto it = ph.find(from); if (it == ph.end()) return;
  auto &mv = it->second; if (mv.size() == 1) { f.r[mv[0].dst] = mv[0].src.reg >= 0 ? f.r[mv[0].src.reg] : mv[0].src.c; return; }
  std::vector<V> t; t.reserve(mv.size()); for (auto &x : mv) t.push_back(x.src.reg >= 0 ? f.r[x.src.reg] : x.src.c); for (size_t i = 0; i < mv.size(); i++) f.r[mv[i].dst] = t[i];
}
static V cmpV(Op op, bool inv, const V &a, const V &b) { if (!a.e && !b.e) { bool r = foldBin(op, a.c, b.c, a.w); return K(r != inv, 1); } E r = mkCmp(op, toE(a), toE(b)); return fromE(inv ? mkNot(r) : r); }
static V binV(Op op, const V &a, const V &b) { if (!a.e && !b.e) return K(foldBin(op, a.c, b.c, a.w), a.w); return fromE(mkBin(op, toE(a), toE(b))); }

// returns: 0 continue, 1 path ended (normally), 2 path killed
static int runPath(State &s) {
  static const V undefV = K(0, 1); (void)undefV;
  for (;;) {
    Frame *f = &s.fr.back(); const Ins &x = f->f->b[f->bb].ins[f->pc++]; curIns = &x;
    if (++s.steps > stepLimit) { report(s, &x, "hang", "step limit reached"); return 2; }
    if ((s.steps & 0xffff) == 0 && (now() > deadline || gotTerm)) { st.limited++; limits["deadline"]++; return 2; }
#define G(i) (x.o[i].reg >= 0 ? f->r[x.o[i].reg] : x.o[i].c)
#define SETR(v) do { V _v = (v); if (_v.e && _v.w != AGG) _v = simp(s, _v); f->r[x.dst] = _v; } while (0)
    switch (x.op) {
    case I_NOP: break;
    case I_BIN: { V a = G(0), b = G(1);
      if (x.bop == O_UDIV || x.bop == O_SDIV || x.bop == O_UREM || x.bop == O_SREM) { V bb = simp(s, b);
        if (!bb.e) { if (bb.c == 0) { report(s, &x, "div-by-zero", ""); return 2; } }
        else { E nz = mkNot(mkEq(bb.e, P.cst(0, bb.w))); std::vector<u8> mo; if (check(s, mkNot(nz), &mo) == SAT) { State pr(s); pr.model = mo; report(pr, &x, "div-by-zero", ""); if (check(s, nz, &mo) != SAT) return 2; takeCs(s, nz, mo); } } }
      if (checkShift && (x.bop == O_SHL || x.bop == O_LSHR || x.bop == O_ASHR)) { V bb = simp(s, b); E big = mkNot(mkCmp(O_ULT, toE(bb), P.cst(a.w, bb.w))); std::vector<u8> mo; if (!(isC(big) && !big->c) && check(s, big, &mo) == SAT) { State pr(s); pr.model = mo; report(pr, &x, "bad-shift", "shift count is not below the width"); if (check(s, mkNot(big), &mo) != SAT) return 2; takeCs(s, mkNot(big), mo); } }
      if (checkNsw && x.flags_nsw && (x.bop == O_ADD || x.bop == O_SUB || x.bop == O_MUL) && a.w <= 32) { E A = mkSext(toE(a), 64), B = mkSext(toE(b), 64); E r = mkBin(x.bop, A, B); E ok = mkEq(r, mkSext(mkExtract(r, 0, a.w), 64)); std::vector<u8> mo; if (!isC(ok) || !ok->c) if (check(s, mkNot(ok), &mo) == SAT) { State pr(s); pr.model = mo; report(pr, &x, "signed-overflow", ""); if (check(s, ok, &mo) != SAT) return 2; takeCs(s, ok, mo); } }
      SETR(binV(x.bop, a, b)); break; }
    case I_CMP: SETR(cmpV(x.bop, x.inv, G(0), G(1))); break;
    case I_ALLOCA: { V n; if (!concretize(s, *f, x.o[0], n, "alloca size")) return 2; if (x.k * n.c > 4000000) { report(s, &x, "stack-overflow", "alloca too large"); return 2; } f->r[x.dst] = K(newStack(s, x.k * n.c, x.what->c_str()), 64); break; }
    case I_LOAD: { V a = simp(s, G(0));
      if (a.e) { if (a.e->taint) { report(s, &x, "uninit", "uninitialised value used as address"); return 2; }
        if (x.flat.empty()) { V r; bool dead; if (tableLoad(s, a.e, x.k, x.w, r, dead)) { if (dead) return 2; f->r[x.dst] = r; break; } if (tableLoad2(s, a.e, x.k, x.w, r, dead)) { f->r[x.dst] = r; break; } }
        if (!concretize(s, *f, x.o[0], a, "address")) return 2; }
      Obj *o; i64 off; if (!memFault(s, a.c, x.k, false, o, off, nullptr)) return 2;
      if (!x.flat.empty()) { std::vector<V> vs; for (size_t i = 0; i < x.flat.size(); i++) vs.push_back(loadFrom(o, off + x.sc[i], (x.flat[i] + 7) / 8, x.flat[i])); f->r[x.dst] = mkAgg(vs); break; }
      SETR(loadFrom(o, off, x.k, x.w)); break; }
    case I_STORE: { V a; if (!concretize(s, *f, x.o[1], a, "address")) return 2; Obj *o; i64 off; OR_ *sl; if (!memFault(s, a.c, x.k, true, o, off, &sl)) return 2; o = wr(*sl); V v = G(0);
      if (!x.flat.empty()) { auto &vs = *(std::vector<V> *)v.c; for (size_t i = 0; i < x.flat.size(); i++) storeTo(o, off + x.sc[i], (x.flat[i] + 7) / 8, vs[i]); break; }
      storeTo(o, off, x.k, v); break; }
    case I_GEP: { V b = G(0); u64 k = x.k; E sum = nullptr;
      for (size_t i = 1; i < x.o.size(); i++) { V ix = G(i); if (!ix.e) k += (u64)sx(ix.c, ix.w) * x.sc[i - 1]; else { E t = mkBin(O_MUL, mkSext(ix.e, 64), P.cst(x.sc[i - 1], 64)); sum = sum ? mkBin(O_ADD, sum, t) : t; } }
      if (!b.e && !sum) f->r[x.dst] = K(b.c + k, 64); else { E r = toE(b); if (sum) r = mkBin(O_ADD, r, sum); r = mkBin(O_ADD, r, P.cst(k, 64)); SETR(fromE(r)); } break; }
    case I_ZEXT: { V a = G(0); if (!a.e) f->r[x.dst] = K(a.c, x.w); else f->r[x.dst] = fromE(mkZext(a.e, x.w)); break; }
    case I_SEXT: { V a = G(0); if (!a.e) f->r[x.dst] = K((u64)sx(a.c, a.w), x.w); else f->r[x.dst] = fromE(mkSext(a.e, x.w)); break; }
    case I_TRUNC: { V a = G(0); if (!a.e) f->r[x.dst] = K(a.c, x.w); else f->r[x.dst] = fromE(mkExtract(a.e, 0, x.w)); break; }
    case I_CAST: { V a = G(0); if (a.w == AGG || a.w == x.w) f->r[x.dst] = a; else if (!a.e) f->r[x.dst] = K(a.c, x.w); else f->r[x.dst] = fromE(a.w < x.w ? mkZext(a.e, x.w) : mkExtract(a.e, 0, x.w)); break; }
    case I_SELECT: { V c = simp(s, G(0)); if (!c.e) { f->r[x.dst] = c.c ? G(1) : G(2); break; } V a = G(1), b = G(2); if (c.e->taint && checkUninitBranch) { if (!(!a.e && !b.e && a.c == b.c)) { f->r[x.dst] = fromE(P.uninit(a.w)); break; } } SETR(fromE(mkIte(c.e, toE(a), toE(b)))); break; }
    case I_BR: jump(*f, x.t0); break;
    case I_CBR: { V c = simp(s, G(0)); if (!c.e) { jump(*f, c.c ? x.t0 : x.t1); break; }
      if (c.e->taint) { report(s, &x, "uninit", "branch on uninitialised value"); return 2; }
      bool m = evalE(c.e, s.model) & 1; E tc = m ? c.e : mkNot(c.e), oc = m ? mkNot(c.e) : c.e; std::vector<u8> mo; R3 r = check(s, oc, &mo);
      if (r == UNK) { report(s, &x, "limit", "solver gave no answer"); }
      if (r == SAT) { State *n = cloneS(s); takeCs(*n, oc, mo); jump(n->fr.back(), m ? x.t1 : x.t0); stackS.push_back(n); addCs(s, tc); }
      jump(*f, m ? x.t0 : x.t1); break; }
    case I_SWITCH: { V c = simp(s, G(0)); if (!c.e) { int t = x.t0; for (auto &p : x.cases) if (p.first == c.c) { t = p.second; break; } jump(*f, t); break; }
      if (c.e->taint) { report(s, &x, "uninit", "branch on uninitialised value"); return 2; }
      std::vector<std::pair<int, E>> tg; E dflt = P.cst(1, 1);
      for (auto &p : x.cases) { E q = mkEq(c.e, P.cst(p.first, x.w)); if (isC(q) && !q->c) continue; dflt = mkBin(O_AND, dflt, mkNot(q)); bool hit = false; for (auto &t : tg) if (t.first == p.second) { t.second = mkBin(O_OR, t.second, q); hit = true; } if (!hit) tg.push_back({p.second, q}); }
      bool merged = false; for (auto &t : tg) if (t.first == x.t0) { t.second = mkBin(O_OR, t.second, dflt); merged = true; } if (!merged) tg.push_back({x.t0, dflt});
      int mine = -1; for (size_t i = 0; i < tg.size(); i++) if (evalE(tg[i].second, s.model) & 1) { mine = i; break; }
      bool forked = false; for (size_t i = 0; i < tg.size(); i++) if ((int)i != mine) { std::vector<u8> mo; R3 r = check(s, tg[i].second, &mo); if (r == UNK) report(s, &x, "limit", "solver gave no answer"); if (r == SAT) { State *n = cloneS(s); takeCs(*n, tg[i].second, mo); jump(n->fr.back(), tg[i].first); stackS.push_back(n); forked = true; } }
      if (forked) addCs(s, tg[mine].second); jump(*f, tg[mine].first); break; }
    case I_RET: { V rv = x.o.empty() ? K(0, 1) : G(0); u32 sb = f->sbase; int rr = f->retreg; s.S.resize(sb); s.fr.pop_back(); if (s.fr.empty()) { if (s.cur) { report(s, &x, "unsupported", "the second thread returned"); return 2; } endPath(s); return 1; } if (rr >= 0) s.fr.back().r[rr] = rv; break; }
    case I_UNREACH: report(s, &x, "unreachable", "reached code the compiler believes unreachable"); return 2;
    case I_EXTRACTV: { V a = G(0); auto &vs = *(std::vector<V> *)a.c; if (x.nflat) { std::vector<V> t(vs.begin() + x.k, vs.begin() + x.k + x.nflat); f->r[x.dst] = mkAgg(t); } else f->r[x.dst] = vs[x.k]; break; }
    case I_INSERTV: { V a = G(0), b = G(1); std::vector<V> t = *(std::vector<V> *)a.c; if (b.w == AGG) { auto &q = *(std::vector<V> *)b.c; for (size_t i = 0; i < q.size(); i++) t[x.k + i] = q[i]; } else t[x.k] = b; f->r[x.dst] = mkAgg(t); break; }
    case I_CALL: {
      Func *cal = x.callee; int bi = x.bi; size_t na = x.o.size();
      if (bi == -1) { na--; V t; if (!concretize(s, *f, x.o[na], t, "function pointer")) return 2; if ((t.c >> 44) != R_F) { report(s, &x, "bad-call", "call through a bad pointer"); return 2; } cal = funcs[(t.c >> 24) & 0xfffff];
        if (!cal->def) { auto it = bimap.find(cal->name); if (it == bimap.end()) { report(s, &x, "unsupported", "external function " + cal->name); return 2; } bi = it->second; } else bi = 0; }
      if (bi == 0) {
        if (s.fr.size() > 200) { report(s, &x, "stack-overflow", "recursion deeper than 200"); return 2; }
        std::vector<V> args; for (size_t i = 0; i < na; i++) args.push_back(G(i));
        for (size_t i = 0; i < na && i < x.flat.size(); i++) if (x.flat[i]) { if (args[i].e) { report(s, &x, "unsupported", "symbolic byval pointer"); return 2; } i64 off; Obj *o; if (!memFault(s, args[i].c, x.flat[i], false, o, off, nullptr)) return 2; OR_ keep(o); u64 a = newStack(s, x.flat[i], "byval"); Obj *n = s.S.back().p; for (u32 k = 0; k < x.flat[i]; k++) { n->c[k] = keep.p->c[off + k]; n->s[k] = byteE(keep.p, off + k); } args[i] = K(a, 64); }
        u64 va = 0; u32 sb = s.S.size();
        if (cal->vararg) { size_t nf = cal->nargs; size_t nv = na > nf ? na - nf : 0; va = newStack(s, nv * 8 + 8, "varargs"); Obj *o = s.S.back().p; for (size_t i = 0; i < nv; i++) storeTo(o, i * 8, 8, args[nf + i]); }
        pushFrame(s, cal, x.dst); Frame &n = s.fr.back(); n.sbase = sb; n.va = va; for (int i = 0; i < cal->nargs && i < (int)args.size(); i++) n.r[i] = args[i];
        break; }
      switch (bi) {
      case B_SKIP: break;
      case B_U8: { u32 id = s.dom.size(); if (concreteMode) { f->r[x.dst] = K(id < concreteIn.size() ? concreteIn[id] : 0, 8); s.dom.push_back(fullDom); s.fixed.push_back(-1); s.model.push_back(id < concreteIn.size() ? concreteIn[id] : 0); s.multi.push_back(0); break; }
        if (id >= (u32)MAXV) { report(s, &x, "limit", "too many input bytes"); return 2; } s.dom.push_back(fullDom); s.fixed.push_back(-1); s.model.push_back(0); s.multi.push_back(0); f->r[x.dst] = fromE(P.var(id)); break; }
      case B_ASSUME: { V c = simp(s, G(0)); if (!c.e) { if (!c.c) { st.assumed_out++; return 2; } break; } E q = mkNot(mkEq(c.e, P.cst(0, c.w))); std::vector<u8> mo; R3 r = check(s, q, &mo); if (r == UNK) report(s, &x, "limit", "solver gave no answer"); if (r != SAT) { st.assumed_out++; return 2; } takeCs(s, q, mo); break; }
      case B_ASSERT: { V c = simp(s, G(0)); st.asserts++; std::string msg; V mp = G(1); readStr(s, mp.c, msg); assertSites[msg]++;
        if (!c.e) { if (!c.c) { report(s, &x, "assert", msg); return 2; } break; }
        if (!c.e->taint) { c = fromE(psimp(s, c.e)); if (!c.e) { if (!c.c) { report(s, &x, "assert", msg); return 2; } st.asserts_sym++; st.q_dom++; break; } }
        if (c.e->taint) { report(s, &x, "uninit", "assertion depends on uninitialised data: " + msg); return 2; }
        st.asserts_sym++; E q = mkNot(mkEq(c.e, P.cst(0, c.w))); std::vector<u8> mo; R3 r = check(s, mkNot(q), &mo); if (r == UNK) report(s, &x, "limit", "solver gave no answer");
        if (r == SAT) { State pr(s); pr.model = mo; report(pr, &x, "assert", msg); if (check(s, q, &mo) != SAT) return 2; takeCs(s, q, mo); } break; }
      case B_WITNESS: { std::string n; readStr(s, G(0).c, n); auto it = witId.find(n); int id; if (it == witId.end()) { id = witNames.size(); if (id >= 64) { break; } witNames.push_back(n); witId[n] = id; } else id = it->second; s.wit |= 1ULL << id; break; }
      case B_OBSERVE: { V v = simp(s, G(0)); if (v.e && v.e->taint) { report(s, &x, "uninit", "result depends on uninitialised memory"); return 2; } s.obs.push_back(v); break; }
      case B_LIVE: f->r[x.dst] = K(s.nlive, 64); break;
      case B_INENGINE: f->r[x.dst] = K(1, 32); break;
      case B_READONLY: { V a = simp(s, G(0)); i64 off; OR_ *p = slot(s, a.c, off); if (p) wr(*p)->ro = G(1).c != 0; break; }
      case B_OBJLEFT: { V a = simp(s, G(0)); i64 off; OR_ *p = a.e ? nullptr : slot(s, a.c, off); f->r[x.dst] = K(p && !p->p->freed && off >= 0 && off <= (i64)p->p->size ? p->p->size - off : 0, 64); break; }
      case B_ISINIT: { V a, n; if (!concretize(s, *f, x.o[0], a, "address") || !concretize(s, *f, x.o[1], n, "size")) return 2; bool ok = true; if (n.c) { Obj *o; i64 off; if (!memFault(s, a.c, n.c, false, o, off, nullptr)) return 2; for (u64 i = 0; i < n.c; i++) { E b = byteE(o, off + i); if (b && b->taint) ok = false; } } f->r[x.dst] = K(ok, x.w); break; }
      case B_COSTART: { V t = G(0); if (t.e || (t.c >> 44) != R_F || !s.fr2.empty() && s.cur) { report(s, &x, "unsupported", "vf_co_start"); return 2; } Func *g = funcs[(t.c >> 24) & 0xfffff]; V a = G(1);
        s.fr2.clear(); s.S2.clear(); s.fr.swap(s.fr2); s.S.swap(s.S2); pushFrame(s, g, -1); if (g->nargs) s.fr.back().r[0] = a; s.fr.swap(s.fr2); s.S.swap(s.S2);
        s.tls2.clear(); for (int i : GTLS) s.tls2.push_back(OR_(GC[GWinv[i]])); break; }
      case B_COSWITCH: if (s.fr2.empty()) { report(s, &x, "unsupported", "vf_co_switch without a second thread"); return 2; } s.fr.swap(s.fr2); s.S.swap(s.S2); s.cur ^= 1; for (size_t i = 0; i < GTLS.size(); i++) std::swap(s.G[GTLS[i]], s.tls2[i]); break;
      case B_ISSTATIC: { V a = G(0); if (a.e) { f->r[x.dst] = K(1, 32); break; } i64 off; OR_ *p = slot(s, a.c, off); f->r[x.dst] = K((a.c >> 44) == R_G && p && !p->p->ro && p->p->kind != 4, 32); break; }
      case B_CONC: { V a; if (!concretize(s, *f, x.o[0], a, "harness choice")) return 2; f->r[x.dst] = a; break; }
      case B_MALLOC: { V n; if (!concretize(s, *f, x.o[0], n, "malloc size")) return 2; if (n.c > 10000000) { report(s, &x, "limit", "allocation over 10 MB"); return 2; } f->r[x.dst] = K(newHeap(s, n.c, true), 64); break; }
      case B_CALLOC: { V n, m; if (!concretize(s, *f, x.o[0], n, "calloc size") || !concretize(s, *f, x.o[1], m, "calloc size")) return 2; if (n.c * m.c > 10000000) { report(s, &x, "limit", "allocation over 10 MB"); return 2; } f->r[x.dst] = K(newHeap(s, n.c * m.c, false), 64); break; }
      case B_REALLOC: { V p, n; if (!concretize(s, *f, x.o[0], p, "realloc pointer") || !concretize(s, *f, x.o[1], n, "realloc size")) return 2; if (n.c > 10000000) { report(s, &x, "limit", "allocation over 10 MB"); return 2; }
        u64 a = newHeap(s, n.c, true); if (p.c) { i64 off; OR_ *q = slot(s, p.c, off); if ((p.c >> 44) != R_H || !q || off != 0) { report(s, &x, "bad-free", "realloc of a pointer malloc did not return"); return 2; } if (q->p->freed) { report(s, &x, "use-after-free", "realloc"); return 2; }
          Obj *src = q->p, *d = s.H.back().p; u64 k = std::min((u64)src->size, n.c); for (u64 i = 0; i < k; i++) { d->c[i] = src->c[i]; d->s[i] = byteE(src, i); } if (!doFree(s, p.c)) return 2; } f->r[x.dst] = K(a, 64); break; }
      case B_FREE: { V p; if (!concretize(s, *f, x.o[0], p, "free pointer")) return 2; if (!doFree(s, p.c)) return 2; break; }
      case B_MEMCPY: case B_MEMMOVE: { V n, d, sr; if (!concretize(s, *f, x.o[2], n, "copy size") || !concretize(s, *f, x.o[0], d, "address") || !concretize(s, *f, x.o[1], sr, "address")) return 2; if (x.dst >= 0) f->r[x.dst] = d; if (!n.c) break;
        Obj *so, *dob; i64 o1, o2; OR_ *sl; if (!memFault(s, sr.c, n.c, false, so, o1, nullptr)) return 2; OR_ keep(so); if (!memFault(s, d.c, n.c, true, dob, o2, &sl)) return 2;
        std::vector<E> tb(n.c); std::vector<u8> tc(n.c); for (u64 i = 0; i < n.c; i++) { tb[i] = byteE(so, o1 + i); tc[i] = so->c[o1 + i]; }
        keep = OR_(); dob = wr(*sl); for (u64 i = 0; i < n.c; i++) if (tb[i]) setByte(dob, o2 + i, tb[i]); else setConst(dob, o2 + i, tc[i]); break; }
      case B_MEMSET: { V n, d; if (!concretize(s, *f, x.o[2], n, "memset size") || !concretize(s, *f, x.o[0], d, "address")) return 2; if (x.dst >= 0) f->r[x.dst] = d; if (!n.c) break; Obj *o; i64 off; OR_ *sl; if (!memFault(s, d.c, n.c, true, o, off, &sl)) return 2; o = wr(*sl); V v = G(1); E b = mkExtract(toE(v), 0, 8); for (u64 i = 0; i < n.c; i++) setByte(o, off + i, b); break; }
      case B_MEMCMP: { V n, a, b; if (!concretize(s, *f, x.o[2], n, "memcmp size") || !concretize(s, *f, x.o[0], a, "address") || !concretize(s, *f, x.o[1], b, "address")) return 2; if (!n.c) { f->r[x.dst] = K(0, 32); break; }
        Obj *p, *q; i64 o1, o2; if (!memFault(s, a.c, n.c, false, p, o1, nullptr) || !memFault(s, b.c, n.c, false, q, o2, nullptr)) return 2; E r = P.cst(0, 32);
        for (i64 i = n.c - 1; i >= 0; i--) { E u = byteE(p, o1 + i), v = byteE(q, o2 + i); if (!u) u = P.cst(p->c[o1 + i], 8); if (!v) v = P.cst(q->c[o2 + i], 8); E q = psimp(s, mkEq(u, v)); r = mkIte(q, r, mkBin(O_SUB, mkZext(u, 32), mkZext(v, 32))); } SETR(fromE(r)); break; }
      case B_ASSERTFAIL: { std::string m; readStr(s, G(0).c, m); report(s, &x, "abort", "assert(" + m + ") failed"); return 2; }
      case B_ABORT: report(s, &x, "abort", "abort() called"); return 2;
      case B_TRAP: report(s, &x, "abort", "trap"); return 2;
      case B_EXIT: report(s, &x, "exit", "exit() called"); return 2;
      case B_VASTART: { V a = G(0); Obj *o; i64 off; OR_ *sl; if (!memFault(s, a.c, 24, true, o, off, &sl)) return 2; o = wr(*sl); storeTo(o, off, 4, K(48, 32)); storeTo(o, off + 4, 4, K(304, 32)); storeTo(o, off + 8, 8, K(f->va, 64)); storeTo(o, off + 16, 8, K(0, 64)); break; }
      case B_VACOPY: { V d = G(0), a = G(1); Obj *so, *o; i64 o1, o2; OR_ *sl; if (!memFault(s, a.c, 24, false, so, o1, nullptr)) return 2; std::vector<V> t; for (int i = 0; i < 3; i++) t.push_back(loadFrom(so, o1 + 8 * i, 8, 64)); if (!memFault(s, d.c, 24, true, o, o2, &sl)) return 2; o = wr(*sl); for (int i = 0; i < 3; i++) storeTo(o, o2 + 8 * i, 8, t[i]); break; }
      case B_STACKSAVE: f->r[x.dst] = K(0, 64); break;
      case B_BSWAP: { V a = G(0); if (!a.e) { u64 r = 0; for (unsigned i = 0; i < a.w / 8; i++) r |= ((a.c >> (8 * i)) & 0xff) << (a.w - 8 - 8 * i); f->r[x.dst] = K(r, a.w); } else { E r = mkExtract(a.e, 0, 8); for (unsigned i = 8; i < a.w; i += 8) r = mkConcat(r, mkExtract(a.e, i, 8)); SETR(fromE(r)); } break; }
      case B_UMAX: { V a = G(0), b = G(1); E c = mkCmp(O_ULT, toE(a), toE(b)); SETR(fromE(mkIte(c, toE(b), toE(a)))); break; }
      case B_UMIN: { V a = G(0), b = G(1); E c = mkCmp(O_ULT, toE(a), toE(b)); SETR(fromE(mkIte(c, toE(a), toE(b)))); break; }
      case B_SMAX: { V a = G(0), b = G(1); E c = mkCmp(O_SLT, toE(a), toE(b)); SETR(fromE(mkIte(c, toE(b), toE(a)))); break; }
      case B_SMIN: { V a = G(0), b = G(1); E c = mkCmp(O_SLT, toE(a), toE(b)); SETR(fromE(mkIte(c, toE(a), toE(b)))); break; }
      case B_ABS: { V a = G(0); E e = toE(a); SETR(fromE(mkIte(mkCmp(O_SLT, e, P.cst(0, e->w)), mkBin(O_SUB, P.cst(0, e->w), e), e))); break; }
      case B_CTPOP: { E e = toE(G(0)); E r = P.cst(0, e->w); for (unsigned i = 0; i < e->w; i++) r = mkBin(O_ADD, r, mkZext(mkExtract(e, i, 1), e->w)); SETR(fromE(r)); break; }
      case B_CTLZ: { E e = toE(G(0)); E r = P.cst(e->w, e->w); for (unsigned i = 0; i < e->w; i++) r = mkIte(mkExtract(e, i, 1), P.cst(e->w - 1 - i, e->w), r); SETR(fromE(r)); break; }
      case B_CTTZ: { E e = toE(G(0)); E r = P.cst(e->w, e->w); for (int i = e->w - 1; i >= 0; i--) r = mkIte(mkExtract(e, i, 1), P.cst(i, e->w), r); SETR(fromE(r)); break; }
      case B_FSHL: case B_FSHR: { E a = toE(G(0)), b = toE(G(1)); V n; if (!concretize(s, *f, x.o[2], n, "funnel shift")) return 2; unsigned w = a->w, k = n.c % w; if (bi == B_FSHL) { SETR(fromE(k ? mkBin(O_OR, mkBin(O_SHL, a, P.cst(k, w)), mkBin(O_LSHR, b, P.cst(w - k, w))) : a)); } else SETR(fromE(k ? mkBin(O_OR, mkBin(O_SHL, a, P.cst(w - k, w)), mkBin(O_LSHR, b, P.cst(k, w))) : b)); break; }
      case B_UADDO: { E a = toE(G(0)), b = toE(G(1)); E r = mkBin(O_ADD, a, b); f->r[x.dst] = mkAgg({fromE(r), fromE(mkCmp(O_ULT, r, a))}); break; }
      case B_USUBO: { E a = toE(G(0)), b = toE(G(1)); f->r[x.dst] = mkAgg({fromE(mkBin(O_SUB, a, b)), fromE(mkCmp(O_ULT, a, b))}); break; }
      case B_UADDSAT: { E a = toE(G(0)), b = toE(G(1)); E r = mkBin(O_ADD, a, b); SETR(fromE(mkIte(mkCmp(O_ULT, r, a), P.cst(~0ULL, a->w), r))); break; }
      case B_USUBSAT: { E a = toE(G(0)), b = toE(G(1)); SETR(fromE(mkIte(mkCmp(O_ULT, a, b), P.cst(0, a->w), mkBin(O_SUB, a, b)))); break; }
      case B_UMULO: case B_SADDO: case B_SSUBO: case B_SMULO: { E a = toE(G(0)), b = toE(G(1)); unsigned w = a->w; if (w > 32) { V p = G(0), q = G(1); if (!p.e && !q.e) { u64 r = 0; bool o = false; if (bi == B_UMULO) o = __builtin_mul_overflow(p.c, q.c, &r); else { i64 t; if (bi == B_SADDO) o = __builtin_add_overflow((i64)p.c, (i64)q.c, &t); else if (bi == B_SSUBO) o = __builtin_sub_overflow((i64)p.c, (i64)q.c, &t); else o = __builtin_mul_overflow((i64)p.c, (i64)q.c, &t); r = t; } f->r[x.dst] = mkAgg({K(r, 64), K(o, 1)}); break; } report(s, &x, "unsupported", "64-bit overflow intrinsic"); return 2; }
        bool u = bi == B_UMULO; Op op = bi == B_SADDO ? O_ADD : bi == B_SSUBO ? O_SUB : O_MUL; E A = u ? mkZext(a, 64) : mkSext(a, 64), B = u ? mkZext(b, 64) : mkSext(b, 64); E r = mkBin(op, A, B); E lo = mkExtract(r, 0, w); E back = u ? mkZext(lo, 64) : mkSext(lo, 64); f->r[x.dst] = mkAgg({fromE(lo), fromE(mkNot(mkEq(r, back)))}); break; }
      case B_EXPECT: f->r[x.dst] = G(0); break;
      case B_OBJSIZE: f->r[x.dst] = K(~0ULL, x.w); break;
      case B_ISCONST: f->r[x.dst] = K(0, 1); break;
      case B_UNDEFEXT: report(s, &x, "unsupported", "external function " + (x.what ? *x.what : std::string("?"))); return 2;
      default: report(s, &x, "unsupported", "builtin"); return 2;
      }
      break; }
    default: { std::string t; llvm::raw_string_ostream os(t); x.I->print(os); report(s, &x, "unsupported", "instruction" + t.substr(0, 120)); return 2; }
    }
  }
}

// ---------------------------------------------------------------- output
static std::string js(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static std::string hx(const std::vector<u8> &v) { std::string o; char b[4]; for (u8 x : v) { snprintf(b, 4, "%02x", x); o += b; } return o; }
static void dump(const std::string &path, u64 left) {
  FILE *f = fopen((path + ".tmp").c_str(), "w"); if (!f) return;
  fprintf(f, "{\"paths\":%llu,\"killed\":%llu,\"forks\":%llu,\"q_dom\":%llu,\"q_model\":%llu,\"q_z3\":%llu,\"q_cache\":%llu,\"z3_sat\":%llu,\"z3_unsat\":%llu,\"z3_unk\":%llu,\"xcheck\":%llu,\"xbad\":%llu,\"asserts\":%llu,\"asserts_sym\":%llu,\"memchecks\":%llu,\"steps\":%llu,\"errcount\":%llu,\"limited\":%llu,\"assumed_out\":%llu,\"maxdepth\":%llu,\"tables\":%llu,\"left\":%llu,\"z3_time\":%.3f",
    (unsigned long long)st.paths, (unsigned long long)st.killed, (unsigned long long)st.forks, (unsigned long long)st.q_dom, (unsigned long long)st.q_model, (unsigned long long)st.q_z3, (unsigned long long)st.q_cache, (unsigned long long)st.z3_sat, (unsigned long long)st.z3_unsat, (unsigned long long)st.z3_unk, (unsigned long long)st.xcheck, (unsigned long long)st.xbad, (unsigned long long)st.asserts, (unsigned long long)st.asserts_sym, (unsigned long long)st.memchecks, (unsigned long long)st.steps, (unsigned long long)st.errs, (unsigned long long)st.limited, (unsigned long long)st.assumed_out, (unsigned long long)st.maxdepth, (unsigned long long)st.tables, (unsigned long long)left, st.z3_time);
  auto mp = [&](const char *n, const std::map<std::string, u64> &m) { fprintf(f, ",\"%s\":{", n); bool first = true; for (auto &p : m) { fprintf(f, "%s%s:%llu", first ? "" : ",", js(p.first).c_str(), (unsigned long long)p.second); first = false; } fprintf(f, "}"); };
  mp("witness", witCount); mp("unsup", unsup); mp("assert_sites", assertSites); mp("limits", limits); if (wantForks) { FILE *ff = fopen(wantForks, "a"); for (auto &p : forkSites) fprintf(ff, "%llu %s\n", (unsigned long long)p.second, p.first.c_str()); fclose(ff); }
  fprintf(f, ",\"functions\":["); bool first = true; for (auto *fn : funcs) if (fn->used) { std::string file; if (auto *sp = fn->F->getSubprogram()) file = sp->getFilename().str(); fprintf(f, "%s[%s,%s]", first ? "" : ",", js(fn->name).c_str(), js(file).c_str()); first = false; }
  fprintf(f, "],\"errors\":["); first = true; for (auto &p : errs) { auto &e = p.second; fprintf(f, "%s{\"kind\":%s,\"loc\":%s,\"msg\":%s,\"count\":%llu,\"in\":\"%s\",\"stack\":[", first ? "" : ",", js(e.kind).c_str(), js(e.loc).c_str(), js(e.msg).c_str(), (unsigned long long)errCount[p.first], hx(e.in).c_str()); bool f2 = true; for (auto &q : e.stack) { fprintf(f, "%s%s", f2 ? "" : ",", js(q).c_str()); f2 = false; } fprintf(f, "]}"); first = false; }
  fprintf(f, "],\"samples\":["); first = true; for (auto &sm : samples) { fprintf(f, "%s{\"in\":\"%s\",\"obs\":[", first ? "" : ",", hx(sm.in).c_str()); bool f2 = true; for (u64 o : sm.obs) { fprintf(f, "%s\"%llx\"", f2 ? "" : ",", (unsigned long long)o); f2 = false; } fprintf(f, "]}"); first = false; }
  fprintf(f, "]}\n"); fclose(f); rename((path + ".tmp").c_str(), path.c_str());
}
static void explore(const std::string &respath) {
  double lastSplit = now(); std::string mypath = respath; std::vector<pid_t> kids; u64 it = 0;
  while (!stackS.empty()) {
    if ((++it & 15) == 0 || st.paths < 4) {
      double t = now();
      if (t > deadline || gotTerm) { limits["deadline"] += stackS.size(); break; }
      if (shm->stop || (shm->firsterr > 0 && (t - shm->firsterr > errGrace || shm->toterr > 5000))) { limits["stopped after errors"] += stackS.size(); break; }
      if (NW > 1 && stackS.size() >= 2 && shm->active < NW && t - lastSplit > 0.01) {
        int a = __sync_add_and_fetch(&shm->active, 1);
        if (a > NW) __sync_fetch_and_sub(&shm->active, 1);
        else { lastSplit = t; int seq = __sync_add_and_fetch(&shm->seq, 1); fflush(stdout); pid_t p = fork();
          if (p == 0) { std::vector<State *> keep; for (size_t i = 0; i < stackS.size(); i += 2) keep.push_back(stackS[i]); stackS.swap(keep); kids.clear();
            st = Stats(); errs.clear(); errCount.clear(); witCount.clear(); unsup.clear(); samples.clear(); sampleSeen = 0; assertSites.clear(); limits.clear(); rng ^= 0x9E3779B97F4A7C15ULL * (seq + 1); rnd(); mypath = outdir + "/res." + std::to_string(seq) + ".json"; lastSplit = now(); }
          else if (p > 0) { std::vector<State *> keep; for (size_t i = 1; i < stackS.size(); i += 2) keep.push_back(stackS[i]); for (size_t i = 0; i < stackS.size(); i += 2) delete stackS[i]; stackS.swap(keep); kids.push_back(p); }
          else { __sync_fetch_and_sub(&shm->active, 1); } } } }
    if (stackS.empty()) break;
    State *s = stackS.back(); stackS.pop_back(); int r = runPath(*s); if (r == 2) { st.killed++; st.steps += s->steps; } delete s;
  }
  dump(mypath, stackS.size());
  __sync_fetch_and_sub(&shm->active, 1);
  int bad = 0; for (pid_t p : kids) { int w; waitpid(p, &w, 0); if (!WIFEXITED(w) || WEXITSTATUS(w)) bad = 1; }
  _exit(bad);
}
static void onTerm(int) { gotTerm = 1; }
int main(int argc, char **argv) {
  std::string bc, entry = "vf_main";
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "-o") outdir = nx(); else if (a == "-j") NW = atoi(nx().c_str()); else if (a == "-t") deadline = now() + atof(nx().c_str()); else if (a == "--entry") entry = nx(); else if (a == "--steps") stepLimit = strtoull(nx().c_str(), 0, 0);
    else if (a == "--xcheck") xcheckEvery = strtoull(nx().c_str(), 0, 0); else if (a == "--vallimit") valLimit = atoi(nx().c_str()); else if (a == "--shift") checkShift = true; else if (a == "--nsw") checkNsw = true; else if (a == "--grace") errGrace = atof(nx().c_str()); else if (a == "--repo") repoPrefix = nx(); else if (a == "--samples") sampleCap = atoi(nx().c_str());
    else if (a == "--seed") seed = atoi(nx().c_str()); else if (a == "--concrete") { concreteMode = true; std::string h = nx(); for (size_t k = 0; k + 1 < h.size(); k += 2) concreteIn.push_back(strtoul(h.substr(k, 2).c_str(), 0, 16)); }
    else bc = a; }
  if (bc.empty() || outdir.empty()) { fprintf(stderr, "usage: vsym -o DIR [-j N] [-t SEC] file.bc\n"); return 3; }
  signal(SIGTERM, onTerm);
  rng ^= (u64)seed * 0x2545F4914F6CDD1DULL; rnd();
  llvm::LLVMContext lc; llvm::SMDiagnostic dg; auto M = llvm::parseIRFile(bc, dg, lc); if (!M) { dg.print("vsym", llvm::errs()); return 3; }
  lowerAsm(*M);
  DL = &M->getDataLayout(); fullDom = inDom(Dom().set()); z = new Z;
  shm = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); shm->active = 1;
  int gi = 0, gw = 0; State *s0 = new State;
  for (auto &g : M->globals()) { gidx[&g] = gi++; }
  for (auto &g : M->globals()) { Obj *o = newObj(DL->getTypeAllocSize(g.getValueType()), 0, false); o->nm = strdup(g.getName().str().c_str()); o->ro = g.isConstant(); if (g.isThreadLocal()) o->kind = 4; GC.push_back(OR_(o)); GW.push_back(-1); if (g.isDeclaration()) o->nm = strdup(("extern " + g.getName().str()).c_str()); }
  { int i = 0; for (auto &g : M->globals()) { if (g.hasInitializer()) initMem(GC[i].p, 0, g.getInitializer()); if (!g.isConstant()) { if (g.isThreadLocal()) GTLS.push_back(gw); GW[i] = gw++; GWinv.push_back(i); s0->G.push_back(GC[i]); } i++; } }
  llvm::Function *F = M->getFunction(entry); if (!F || F->isDeclaration()) { fprintf(stderr, "vsym: no %s\n", entry.c_str()); return 3; }
  Func *f = getFunc(F); pushFrame(*s0, f, -1); stackS.push_back(s0);
  explore(outdir + "/res.0.json");
}
