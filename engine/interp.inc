// ------------------------------------------------------------------ interpreter
static inline const V &G(int o) { return o >= 0 ? S->regs[S->fr.back().base + o] : CP[~o]; }
static inline void SETR(int d, const V &v) { S->regs[S->fr.back().base + d] = v; }

static bool known1(E c, bool &v) { c = lookup(*S, c); if (isC(c)) { v = c->v != 0; return true; } return false; }
static uint64_t mask64(unsigned w) { return m64(w); }
static int64_t sx64(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= mask64(w); return (int64_t)((v ^ m) - m); }

static V binV(int op, unsigned w, const V &a, const V &b) {
  if (!a.s && !b.s && w <= 64) {
    uint64_t m = m64(w), x = a.c, y = b.c;
    switch (op) {
      case ADD: return mkV((x + y) & m); case SUB: return mkV((x - y) & m); case MUL: return mkV((x * y) & m);
      case AND: return mkV(x & y); case OR: return mkV(x | y); case XOR: return mkV(x ^ y);
      case SHL: return mkV(y >= w ? 0 : (x << y) & m); case LSHR: return mkV(y >= w ? 0 : x >> y);
      default: return mkV((uint64_t)foldbin((Op)op, w, x, y));
    }
  }
  E r = mkbin((Op)op, toE(a, w), toE(b, w));
  return fromE(lookup(*S, r));
}
static E cmpE(unsigned p, E a, E b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return mkeq(a, b); case CmpInst::ICMP_NE: return mknot(mkeq(a, b));
    case CmpInst::ICMP_ULT: return mkult(a, b); case CmpInst::ICMP_UGT: return mkult(b, a); case CmpInst::ICMP_ULE: return mknot(mkult(b, a)); case CmpInst::ICMP_UGE: return mknot(mkult(a, b));
    case CmpInst::ICMP_SLT: return mkslt(a, b); case CmpInst::ICMP_SGT: return mkslt(b, a); case CmpInst::ICMP_SLE: return mknot(mkslt(b, a)); case CmpInst::ICMP_SGE: return mknot(mkslt(a, b));
  }
  abort();
}
static V cmpV(unsigned p, unsigned w, const V &a, const V &b) {
  if (!a.s && !b.s && w <= 64) {
    uint64_t x = a.c, y = b.c; int64_t sx = sx64(x, w), sy = sx64(y, w);
    switch (p) {
      case CmpInst::ICMP_EQ: return mkV(x == y); case CmpInst::ICMP_NE: return mkV(x != y); case CmpInst::ICMP_ULT: return mkV(x < y); case CmpInst::ICMP_UGT: return mkV(x > y); case CmpInst::ICMP_ULE: return mkV(x <= y); case CmpInst::ICMP_UGE: return mkV(x >= y);
      case CmpInst::ICMP_SLT: return mkV(sx < sy); case CmpInst::ICMP_SGT: return mkV(sx > sy); case CmpInst::ICMP_SLE: return mkV(sx <= sy); case CmpInst::ICMP_SGE: return mkV(sx >= sy);
    }
  }
  return fromE(lookup(*S, cmpE(p, toE(a, w), toE(b, w))));
}
static double toD(uint64_t c, unsigned w) { if (w == 32) { float f; uint32_t x = (uint32_t)c; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static uint64_t frD(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t c; memcpy(&c, &d, 8); return c; }

static bool takeEdge(uint32_t id) {
  const Edge &e = EDGES[id];
  if (e.n) {
    static std::vector<V> t; t.clear();
    for (uint32_t i = 0; i < e.n; i++) t.push_back(G(OPS[e.o + 2 * i + 1]));
    for (uint32_t i = 0; i < e.n; i++) SETR(OPS[e.o + 2 * i], t[i]);
  }
  S->fr.back().pc = e.target; return true;
}
static void popFrame() {
  Frame &f = S->fr.back();
  while (S->allocas.size() > f.nAlloca) { S->mem.drop(S->allocas.back()); S->allocas.pop_back(); }
  S->regs.resize(f.base); S->fr.pop_back();
}
static void pushFrame(Fn *f, const std::vector<V> &args, int dst) {
  ensure(f); f->execd++;
  if (S->fr.size() > 2000) fault("stack-overflow", f->dem);
  Frame fr{f, 0, (uint32_t)S->regs.size(), dst, (uint32_t)S->allocas.size()};
  S->regs.resize(S->regs.size() + f->nregs, mkV(0));
  for (size_t i = 0; i < args.size() && i < f->nargs; i++) S->regs[fr.base + i] = args[i];
  S->fr.push_back(fr);
}
static std::string readStrSlice(uint64_t p) { V a = loadV(p, 64), n = loadV(p + 8, 64); if (a.s || n.s || n.c > 4096) return "?"; return concStr(a.c, n.c); }

static void useApp(uint32_t id) { if (S->appset.insert(id).second) S->apps.push_back(id); }

static std::vector<std::string> CTRL;
static bool builtin(Fn *f, std::vector<V> &a, int dst, unsigned nret) {
  auto A = [&](int i, const char *w = "argument") { return conc(a[i], 64, w); };
  auto ret = [&](V v) { if (dst >= 0 && nret) SETR(dst, v); };
  switch (f->builtin) {
    case B_MALLOC: ret(mkV(heapAlloc(A(0, "malloc size"), 16))); return true;
    case B_CALLOC: { uint64_t x = A(0, "calloc"), y = A(1, "calloc"); ret(mkV(heapAlloc(x * y, 16))); return true; }
    case B_PMEMALIGN: { uint64_t n = A(2, "alloc size"), p = A(0); uint64_t r = heapAlloc(n, A(1)); storeV(p, mkV(r), 64); ret(mkV(0)); return true; }
    case B_REALLOC: {
      uint64_t p = A(0), n = A(1, "realloc size"); if (!p) { ret(mkV(heapAlloc(n, 16))); return true; }
      Obj *o = S->mem.get((uint32_t)(p >> 32)); if (!o || o->kind != K_HEAP || (uint32_t)p) fault("memory", "invalid realloc"); if (o->freed) fault("memory", "realloc after free");
      uint32_t old = o->size; uint64_t r = heapAlloc(n, 16); copyBytes(r, p, std::min<uint64_t>(old, n)); heapFree(p); ret(mkV(r)); return true;
    }
    case B_FREE: heapFree(A(0)); return true;
    case B_MEMCPY: case B_MEMMOVE: { uint64_t d = A(0, "memcpy dst"), s = A(1, "memcpy src"), n = A(2, "memcpy len"); copyBytes(d, s, n); ret(mkV(d)); return true; }
    case B_MEMSET: { uint64_t d = A(0), n = A(2, "memset len"); if (n) { uint32_t off; E b = toE(a[1], a[1].s ? a[1].s->w : 8); if (b->w > 8) b = mkextract(b, 0, 8); Obj *o = chk(d, n, true, off); if (isC(b)) { memset(o->d + off, (int)b->v & 255, n); if (o->s) memset(o->s + off, 0, n * sizeof(E)); } else for (uint64_t i = 0; i < n; i++) setByte(o, off + i, b); } ret(mkV(d)); return true; }
    case B_BCMP: case SX_MEMEQ: {
      uint64_t p = A(0), q = A(1), n = A(2, "bcmp len"); auto x = readBytes(p, n), y = readBytes(q, n); E e = mktrue();
      for (uint64_t i = 0; i < n && !isC(e, 0); i++) e = mkand1(e, lookup(*S, mkeq(x[i], y[i])));
      e = lookup(*S, e);
      if (f->builtin == SX_MEMEQ) ret(fromE(mkzext(e, 8))); else ret(fromE(mkzext(mknot(e), 32))); return true;
    }
    case B_MEMCMP: {
      uint64_t p = A(0), q = A(1), n = A(2, "memcmp len"); auto x = readBytes(p, n), y = readBytes(q, n); uint64_t k = 0;
      while (k < n && x[k] == y[k]) k++;
      E r = mkconst(32, 0); for (int64_t i = (int64_t)n - 1; i >= (int64_t)k; i--) r = mkite(mkeq(x[i], y[i]), r, mkite(mkult(x[i], y[i]), mkconst(32, 0xffffffff), mkconst(32, 1)));
      ret(fromE(lookup(*S, r))); return true;
    }
    case B_STRLEN: { uint64_t p = A(0), n = 0; while (true) { V b = loadV(p + n, 8); uint64_t c = conc(b, 8, "strlen"); if (!c) break; n++; } ret(mkV(n)); return true; }
    case B_PANICFMT: {
      std::string msg, loc;
      try { uint64_t fa = a[0].c; V pp = loadV(fa, 64), pn = loadV(fa + 8, 64); if (!pp.s && !pn.s && pn.c) msg = readStrSlice(pp.c);
        if (a.size() > 1) { uint64_t l = a.back().c; loc = readStrSlice(l); V ln = loadV(l + 16, 32); loc += ":" + std::to_string(ln.c); } } catch (PathEnd &) { loc = "?"; }
      fault("panic", loc + " " + msg); return true;
    }
    case B_PANICHOOK: fault("panic", where().substr(0, 200)); return true;
    case B_OOM: fault("panic", "allocation failure"); return true;
    case B_ABORT: fault("abort", where().substr(0, 200)); return true;
    case B_GETENV: case B_NOPRET0: ret(mkV(0)); return true;
    case B_GETRANDOM: { uint64_t p = A(0), n = A(1); std::vector<E> z(n, mkconst(8, 7)); writeBytes(p, z); ret(mkV(n)); return true; }
    case SX_SYM: {
      uint64_t p = A(0), n = A(1); std::string nm = concStr(A(2), A(3));
      uint32_t k = S->symCnt[nm]++; static std::map<std::tuple<std::string, uint32_t, uint32_t>, uint32_t> vars;
      auto key = std::make_tuple(nm, k, (uint32_t)n); auto it = vars.find(key); uint32_t v0; if (it == vars.end()) { v0 = newVars(n, -1); vars[key] = v0; } else v0 = it->second;
      std::vector<E> b; for (uint64_t i = 0; i < n; i++) b.push_back(mkvar(8, v0 + i));
      writeBytes(p, b); auto e = std::make_shared<Ev>(); e->kind = 0; e->a = v0; e->n = n; e->name = nm + (k ? "." + std::to_string(k) : ""); e->prev = S->log; S->log = e; return true;
    }
    case SX_CHOOSE: {
      uint64_t n = A(0); S->nChoose++;
      // Sharding: the first choices divide the shards among their options, until every state has one shard to itself
      if (S->shCnt == 0) { S->shRank = SHARD < 0 ? 0 : SHARD; S->shCnt = SHARD < 0 ? 1 : NSHARD; }
      uint64_t rank = S->shRank, cnt = S->shCnt; bool split = cnt > 1;
      auto setlog = [&](State &s, uint64_t v) { auto e = std::make_shared<Ev>(); e->kind = 1; e->a = (uint32_t)v; e->n = (uint32_t)n; e->prev = s.log; s.log = e; };
      std::vector<uint64_t> opts; for (uint64_t i = 0; i < n; i++) if (!split || (n >= cnt ? i % cnt == rank : rank % n == i)) opts.push_back(i);
      if (split) { if (n >= cnt) { S->shCnt = 1; S->shRank = 0; } else { uint64_t o = rank % n; S->shRank = rank / n; S->shCnt = (cnt - o + n - 1) / n; } }
      if (opts.empty()) endPath("shard");
      for (size_t i = opts.size(); i-- > 1;) { auto s = cloneState(); State *o = S; S = s.get(); ret(mkV(opts[i])); S->fr.back().pc++; S = o; setlog(*s, opts[i]); pushWork(std::move(s)); }
      setlog(*S, opts[0]); ret(mkV(opts[0])); return true;
    }
    case SX_ASSUME: {
      E c = toE(a[0], a[0].s ? a[0].s->w : 1); if (c->w > 1) c = mknot(mkeq(c, mkconst(c->w, 0)));
      c = lookup(*S, c); if (isC(c, 1)) return true; if (isC(c, 0)) endPath("assume");
      if (evalE(*S->model, c)) { addConj(*S, c); return true; }
      ModelP om; SatRes r = solve(S->pc, c, S->apps, S->model, om);
      if (r == R_UNKNOWN) { incomplete("solver unknown (assume) at " + where()); endPath("unknown"); }
      if (r == R_UNSAT) endPath("assume");
      addConj(*S, c); S->model = om; return true;
    }
    case SX_CHECK: {
      std::string lab = concStr(A(1), A(2)); CHECKS++;
      E c = toE(a[0], a[0].s ? a[0].s->w : 1); if (c->w > 1) c = mknot(mkeq(c, mkconst(c->w, 0)));
      c = lookup(*S, c); if (isC(c, 1)) return true;
      if (isC(c, 0)) { violation("check", lab, "", S->model); endPath("check failed: " + lab); }
      CHECKS_SYM++;
      ModelP om; SatRes r;
      if (!evalE(*S->model, c)) { om = S->model; r = R_SAT; } else r = solve(S->pc, mknot(c), S->apps, S->model, om);
      if (r == R_UNKNOWN) incomplete("solver unknown (check " + lab + ")");
      if (r == R_SAT) {
        violation("check", lab, "", om);
        ModelP m2; if (evalE(*S->model, c)) { addConj(*S, c); return true; }
        SatRes r2 = solve(S->pc, c, S->apps, S->model, m2); if (r2 != R_SAT) endPath("check failed: " + lab);
        addConj(*S, c); S->model = m2; return true;
      }
      S->known[c->id] = mktrue(); S->known[mknot(c)->id] = mkfalse(); return true;
    }
    case SX_FEAS: { // 1 if the condition can be true on this path (no fork, no constraint)
      E c = toE(a[0], a[0].s ? a[0].s->w : 1); if (c->w > 1) c = mknot(mkeq(c, mkconst(c->w, 0))); c = lookup(*S, c);
      if (isC(c)) { ret(mkV(c->v != 0)); return true; } if (evalE(*S->model, c)) { ret(mkV(1)); return true; }
      ModelP om; SatRes r = solve(S->pc, c, S->apps, S->model, om); if (r == R_UNKNOWN) incomplete("solver unknown (feasible)"); ret(mkV(r == R_SAT)); return true;
    }
    case SX_REACH: { std::string l = concStr(A(0), A(1)); REACH[l]++; S->trace += l; S->trace += ';'; return true; }
    case SX_WATCH: S->watch = readBytes(A(0), A(1)); S->watched = 0; return true;
    case SX_HUSH: S->hush = (uint32_t)((int)S->hush + (int)A(0)); return true;
    case SX_WATCHED: ret(mkV(S->watched)); return true;
    case SX_TIER: ret(mkV(TIER)); return true;
    case SX_PRINT: if (VERB) { std::string m = concStr(A(0), A(1)); V v = a[2]; fprintf(stderr, "[%llu] %s %s\n", (unsigned long long)PATHS, m.c_str(), v.s ? estr(v.s, 12).c_str() : std::to_string(v.c).c_str()); } return true;
    case SX_UF: {
      uint32_t tag = (uint32_t)A(0); auto in = readBytes(A(1), A(2)); uint64_t op = A(3), ol = A(4);
      uint32_t id = getApp(tag, in, (uint32_t)ol, false); useApp(id); writeBytes(op, APPS[id].out); return true;
    }
    case SX_MODE: ret(mkV(S->mode)); return true;
    case SX_SETMODE: S->mode = (uint32_t)A(0); return true;
    case SX_NATIVE: ret(mkV(0)); return true;
    case SX_FRESH: {
      uint64_t p = A(0), n = A(1); uint32_t tag = (uint32_t)A(2); uint32_t k = S->freshCnt[tag]++; std::vector<E> in; for (int i = 0; i < 4; i++) in.push_back(mkconst(8, (k >> (8 * i)) & 255));
      uint32_t id = getApp(tag + 1000, in, (uint32_t)n, true); useApp(id); writeBytes(p, APPS[id].out); return true;
    }
    case SX_LADD: S->ledger[(uint32_t)A(0)].push_back(std::make_shared<std::vector<E>>(readBytes(A(1), A(2)))); return true;
    case SX_LHAS: {
      auto r = readBytes(A(1), A(2)); E any = mkfalse();
      // expressions are hash-consed: the very same bytes were recorded
      for (auto &rec : S->ledger[(uint32_t)A(0)]) if (*rec == r) { ret(mkV(1)); return true; }
      for (auto &rec : S->ledger[(uint32_t)A(0)]) { if (rec->size() != r.size()) continue; E e = mktrue(); for (size_t i = 0; i < r.size() && !isC(e, 0); i++) e = mkand1(e, lookup(*S, mkeq((*rec)[i], r[i]))); any = mkor1(any, lookup(*S, e)); }
      ret(fromE(mkzext(lookup(*S, any), 8))); return true;
    }
    case SX_MEMXOR: { uint64_t d = A(0), n = A(3); auto x = readBytes(A(1), n), y = readBytes(A(2), n); for (uint64_t i = 0; i < n; i++) x[i] = mkbin(XOR, x[i], y[i]); writeBytes(d, x); return true; }
    case SX_KSHOOK: return true;
    case SX_CONC: { // concretise by forking (width 64)
      ret(mkV(conc(a[0], 64, "harness"))); return true; }
    case SX_SCAN: { // does any live (kind: 1 heap+stack+global) or freed-with-content memory contain these bytes? returns count
      auto pat = readBytes(A(0), A(1)); uint64_t self = A(0) >> 32; uint64_t cnt = 0;
      for (uint32_t id = 1; id < S->mem.next; id++) { if (id == self) continue; Obj *o = S->mem.get(id); if (!o || o->freed || o->kind == K_FUNC || o->size < pat.size()) continue;
        for (uint32_t off = 0; off + pat.size() <= o->size; off++) { bool eq = true; for (size_t i = 0; i < pat.size() && eq; i++) eq = byteAt(o, off + i) == pat[i]; if (eq) cnt++; } }
      ret(mkV(cnt)); return true;
    }
    case SX_PUT: S->gstore[A(0)] = readBytes(A(1), A(2)); return true;
    case SX_GET: { auto &b = S->gstore[A(0)]; uint64_t n = A(2); std::vector<E> x(b.begin(), b.begin() + std::min<size_t>(n, b.size())); writeBytes(A(1), x); ret(mkV(b.size())); return true; }
    case SX_CTRL: return true;
  }
  return false;
}

static void callFn(Fn *f, std::vector<V> &a, int dst, unsigned nret) {
  if (f->builtin) { builtin(f, a, dst, nret); S->fr.back().pc++; return; }
  if (f->isDecl) { incomplete("call of unmodelled external " + f->name); endPath("unmodelled external " + f->name); }
  pushFrame(f, a, dst);
}

static void step() {
  Frame &fr = S->fr.back();
  if (fr.pc >= fr.f->code.size()) { incomplete("pc out of range"); endPath("internal"); }
  Inst &I = fr.f->code[fr.pc];
  const int *o = &OPS[I.o];
  I.cov = true;
  switch (I.op) {
    case I_BIN: {
      if (I.sub == UDIV || I.sub == SDIV || I.sub == UREM || I.sub == SREM) { // rustc guards these explicitly
        const V &b = G(o[1]); if (!b.s && b.c == 0 && I.w <= 64) fault("panic", "division by zero"); }
      SETR(I.dst, binV(I.sub, I.w, G(o[0]), G(o[1]))); fr.pc++; return; }
    case I_ICMP: SETR(I.dst, cmpV(I.sub, I.w, G(o[0]), G(o[1]))); fr.pc++; return;
    case I_ZEXT: { V a = G(o[0]); if (a.s || I.w > 64) a = fromE(lookup(*S, mkzext(toE(a, I.w2), I.w))); SETR(I.dst, a); fr.pc++; return; }
    case I_SEXT: { V a = G(o[0]); if (a.s || I.w > 64) a = fromE(lookup(*S, mksext(toE(a, I.w2), I.w))); else a = mkV((uint64_t)sx64(a.c, I.w2) & m64(I.w)); SETR(I.dst, a); fr.pc++; return; }
    case I_TRUNC: { V a = G(o[0]); if (a.s) a = fromE(lookup(*S, mkextract(a.s, 0, I.w))); else a = mkV(a.c & m64(I.w)); SETR(I.dst, a); fr.pc++; return; }
    case I_SELECT: {
      V c = G(o[0]); V a = G(o[1]), b = G(o[2]);
      if (!c.s) { SETR(I.dst, c.c & 1 ? a : b); fr.pc++; return; }
      E ce = lookup(*S, c.s); if (isC(ce)) { SETR(I.dst, ce->v ? a : b); fr.pc++; return; }
      if (I.sub && !(a.s == b.s && a.c == b.c)) { bool t = branch(ce); SETR(I.dst, t ? a : b); S->fr.back().pc++; return; }
      SETR(I.dst, fromE(lookup(*S, mkite(ce, toE(a, I.w), toE(b, I.w))))); fr.pc++; return;
    }
    case I_LOAD: { V p = G(o[0]); uint64_t a = conc(p, 64, "load address"); V v = loadV(a + I.imm, I.w); SETR(I.dst, v); S->fr.back().pc++; return; }
    case I_STORE: { V p = G(o[0]); uint64_t a = conc(p, 64, "store address"); V v = G(o[1]); if (v.s) { E l = lookup(*S, v.s); v = fromE(l); } if (I.w > 64 && !v.s) v = fromE(mkconst(I.w, v.c)); storeV(a + I.imm, v, I.w); S->fr.back().pc++; return; }
    case I_ALLOCA: { uint64_t n = conc(G(o[0]), 64, "alloca"); Obj *ob = newObj((uint32_t)(I.imm * n), K_STACK); uint32_t id = S->mem.add(ob); S->allocas.push_back(id); SETR(I.dst, mkV(addrOf(id))); S->fr.back().pc++; return; }
    case I_GEP: {
      V p = G(o[0]); uint64_t c = I.imm; E s = p.s; if (!s) c += p.c;
      for (uint32_t k = 1; k < I.n; k += 3) { const V &x = G(o[k]); unsigned w = (unsigned)o[k + 1]; int64_t sc = o[k + 2]; if (!x.s) c += (uint64_t)(sx64(x.c, w) * sc); else { E t = mkbin(MUL, mksext(x.s, 64), mkconst(64, (uint64_t)sc)); s = s ? mkbin(ADD, s, t) : t; } }
      V r = s ? fromE(lookup(*S, mkbin(ADD, s, mkconst(64, c)))) : mkV(c); SETR(I.dst, r); fr.pc++; return;
    }
    case I_BR: takeEdge((uint32_t)I.imm); return;
    case I_CBR: { V c = G(o[0]); bool t; if (!c.s) t = c.c & 1; else t = branch(c.s); takeEdge(t ? I.imm >> 32 : (uint32_t)I.imm); return; }
    case I_SWITCH: {
      V c = G(o[0]); auto &cs = SWT[I.imm >> 32];
      if (!c.s) { for (auto &p : cs) if (p.first == c.c) { takeEdge(p.second); return; } takeEdge((uint32_t)I.imm); return; }
      E e = lookup(*S, c.s); if (isC(e)) { for (auto &p : cs) if (p.first == (uint64_t)e->v) { takeEdge(p.second); return; } takeEdge((uint32_t)I.imm); return; }
      // follow the model's case first; one fork per distinct feasible target
      for (auto &p : cs) if (branch(mkeq(e, mkconst(I.w, p.first)))) { takeEdge(p.second); return; }
      takeEdge((uint32_t)I.imm); return;
    }
    case I_RET: {
      static std::vector<V> r; r.clear(); for (uint32_t k = 0; k < I.n; k++) r.push_back(G(o[k]));
      int dst = fr.dst; popFrame(); if (S->fr.empty()) throw PathEnd{"ok"};
      if (dst >= 0) for (size_t k = 0; k < r.size(); k++) SETR(dst + k, r[k]);
      S->fr.back().pc++; return;
    }
    case I_CALL: {
      Fn *f; uint32_t st = 0;
      if (I.sub) { uint64_t a = conc(G(o[0]), 64, "call target"); auto it = FNOBJ.find((uint32_t)(a >> 32)); if (it == FNOBJ.end() || (uint32_t)a) fault("memory", "call of non-function"); f = it->second; st = 1; } else f = (Fn *)I.imm;
      static std::vector<V> args; args.clear(); for (uint32_t k = st; k < I.n; k++) { V v = G(o[k]); if (v.s) v = fromE(lookup(*S, v.s)); args.push_back(v); }
      callFn(f, args, I.dst, I.w); return;
    }
    case I_MOV: { V v = G(o[0]); SETR(I.dst, v); fr.pc++; return; }
    case I_UNREACH: fault("abort", "unreachable code reached at " + where().substr(0, 200)); return;
    case I_TRAP: fault("abort", "trap at " + where().substr(0, 200)); return;
    case I_EXTDYN: { uint64_t i = conc(G(o[0]), I.w, "vector index"); if (i + 1 >= I.n) fault("memory", "vector index"); SETR(I.dst, G(o[1 + i])); S->fr.back().pc++; return; }
    case I_INSDYN: { uint64_t i = conc(G(o[0]), I.w, "vector index"); V v = G(o[1]); static std::vector<V> t; t.clear(); for (uint32_t k = 2; k < I.n; k++) t.push_back(G(o[k])); if (i < t.size()) t[i] = v; for (size_t k = 0; k < t.size(); k++) SETR(I.dst + k, t[k]); S->fr.back().pc++; return; }
    case I_BITCAT: { E e = toE(G(o[I.n - 1]), I.w2); for (int k = (int)I.n - 2; k >= 0; k--) e = mkconcat(e, toE(G(o[k]), I.w2)); SETR(I.dst, fromE(lookup(*S, e))); fr.pc++; return; }
    case I_BITSPLIT: { V a = G(o[0]); if (!a.s && I.w2 <= 64) a = mkV((a.c >> I.imm) & m64(I.w)); else a = fromE(lookup(*S, mkextract(toE(a, I.w2), (unsigned)I.imm, I.w))); SETR(I.dst, a); fr.pc++; return; }
    case I_FBIN: { uint64_t a = conc(G(o[0]), I.w, "float"), b = conc(G(o[1]), I.w, "float"); double x = toD(a, I.w), y = toD(b, I.w), r = 0; switch (I.sub) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: incomplete("float op"); endPath("unsupported"); } SETR(I.dst, mkV(frD(r, I.w))); S->fr.back().pc++; return; }
    case I_FNEG: { uint64_t a = conc(G(o[0]), I.w, "float"); SETR(I.dst, mkV(frD(-toD(a, I.w), I.w))); S->fr.back().pc++; return; }
    case I_FCMP: {
      uint64_t a = conc(G(o[0]), I.w, "float"), b = conc(G(o[1]), I.w, "float"); double x = toD(a, I.w), y = toD(b, I.w); bool un = x != x || y != y, r = false;
      switch (I.sub) { case CmpInst::FCMP_OEQ: r = x == y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break; case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break;
        case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_TRUE: r = true; break; }
      SETR(I.dst, mkV(r)); S->fr.back().pc++; return;
    }
    case I_FCAST: {
      uint64_t a = conc(G(o[0]), I.w2, "float"); uint64_t r = 0;
      switch (I.sub) { case Instruction::UIToFP: r = frD((double)a, I.w); break; case Instruction::SIToFP: r = frD((double)sx64(a, I.w2), I.w); break; case Instruction::FPToUI: r = (uint64_t)toD(a, I.w2) & m64(I.w); break; case Instruction::FPToSI: r = (uint64_t)(int64_t)toD(a, I.w2) & m64(I.w); break; case Instruction::FPExt: case Instruction::FPTrunc: r = frD(toD(a, I.w2), I.w); break; default: incomplete("float cast"); endPath("unsupported"); }
      SETR(I.dst, mkV(r)); S->fr.back().pc++; return;
    }
    case I_ARMW: {
      uint64_t p = conc(G(o[0]), 64, "atomic address"); V v = G(o[1]); V old = loadV(p, I.w), nv = v;
      switch (I.sub) { case AtomicRMWInst::Xchg: break; case AtomicRMWInst::Add: nv = binV(ADD, I.w, old, v); break; case AtomicRMWInst::Sub: nv = binV(SUB, I.w, old, v); break; case AtomicRMWInst::And: nv = binV(AND, I.w, old, v); break; case AtomicRMWInst::Or: nv = binV(OR, I.w, old, v); break; case AtomicRMWInst::Xor: nv = binV(XOR, I.w, old, v); break; default: incomplete("atomicrmw"); endPath("unsupported"); }
      storeV(p, nv, I.w); SETR(I.dst, old); S->fr.back().pc++; return;
    }
    case I_CAS: {
      uint64_t p = conc(G(o[0]), 64, "atomic address"); V old = loadV(p, I.w); V eq = cmpV(CmpInst::ICMP_EQ, I.w, old, G(o[1])); bool t = eq.s ? branch(eq.s) : eq.c;
      if (t) storeV(p, G(o[2]), I.w); SETR(I.dst, old); SETR(I.dst + 1, mkV(t)); S->fr.back().pc++; return;
    }
    case I_OVF: {
      V a = G(o[0]), b = G(o[1]); unsigned w = I.w; V r, f; bool sg = I.sub & 1; int k = I.sub / 2;
      if (!a.s && !b.s && w <= 64) {
        if (!sg) { u128 x = a.c, y = b.c, z = k == 0 ? x + y : k == 1 ? x - y : x * y; r = mkV((uint64_t)z & m64(w)); f = mkV(k == 1 ? x < y : (z >> w) != 0); }
        else { s128 x = sx64(a.c, w), y = sx64(b.c, w), z = k == 0 ? x + y : k == 1 ? x - y : x * y; r = mkV((uint64_t)z & m64(w)); f = mkV(z != (s128)sx64((uint64_t)z & m64(w), w)); }
      } else {
        E x = toE(a, w), y = toE(b, w); Op op = k == 0 ? ADD : k == 1 ? SUB : MUL; E z = mkbin(op, x, y), c;
        if (!sg && k == 0) c = mkult(z, x); else if (!sg && k == 1) c = mkult(x, y);
        else { unsigned w2 = k == 2 ? 2 * w : w + 1; if (w2 > 128) { incomplete("wide overflow arithmetic"); endPath("unsupported"); } E X = sg ? mksext(x, w2) : mkzext(x, w2), Y = sg ? mksext(y, w2) : mkzext(y, w2); E Z = mkbin(op, X, Y); c = mknot(mkeq(Z, sg ? mksext(mkextract(Z, 0, w), w2) : mkzext(mkextract(Z, 0, w), w2))); }
        r = fromE(lookup(*S, z)); f = fromE(lookup(*S, c));
      }
      SETR(I.dst, r); SETR(I.dst + 1, f); fr.pc++; return;
    }
    case I_SAT: { if (I.sub >= 2) { unsigned w = I.w; E x = mksext(toE(G(o[0]), w), w + 1), y = mksext(toE(G(o[1]), w), w + 1); E z = mkbin(I.sub == 2 ? ADD : SUB, x, y); u128 mx = maskw(w - 1), mn = maskw(w + 1) ^ maskw(w - 1); E lo = mkslt(z, mkconst(w + 1, mn)), hi = mkslt(mkconst(w + 1, mx), z); E r = mkite(hi, mkconst(w, mx), mkite(lo, mkconst(w, (u128)1 << (w - 1)), mkextract(z, 0, w))); SETR(I.dst, fromE(lookup(*S, r))); fr.pc++; return; } E x = toE(G(o[0]), I.w), y = toE(G(o[1]), I.w), r; if (I.sub == 0) { E z = mkbin(ADD, x, y); r = mkite(mkult(z, x), mkconst(I.w, maskw(I.w)), z); } else r = mkite(mkult(x, y), mkconst(I.w, 0), mkbin(SUB, x, y)); SETR(I.dst, fromE(lookup(*S, r))); fr.pc++; return; }
    case I_MINMAX: { V a = G(o[0]), b = G(o[1]); unsigned p = I.sub == 0 ? CmpInst::ICMP_ULT : I.sub == 1 ? CmpInst::ICMP_UGT : I.sub == 2 ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT; V c = cmpV(p, I.w, a, b); V r; if (!c.s) r = c.c ? a : b; else r = fromE(lookup(*S, mkite(c.s, toE(a, I.w), toE(b, I.w)))); SETR(I.dst, r); fr.pc++; return; }
    case I_BSWAP: SETR(I.dst, fromE(lookup(*S, mkbswap(toE(G(o[0]), I.w))))); fr.pc++; return;
    case I_CTLZ: case I_CTTZ: case I_CTPOP: {
      V a = G(o[0]); unsigned w = I.w; E e = toE(a, w), r;
      if (I.op == I_CTPOP) { r = mkconst(w, 0); for (unsigned i = 0; i < w; i++) r = mkbin(ADD, r, w == 1 ? mkextract(e, i, 1) : mkzext(mkextract(e, i, 1), w)); }
      else { r = mkconst(w, w); if (I.op == I_CTLZ) for (unsigned i = 0; i < w; i++) r = mkite(mkextract(e, i, 1), mkconst(w, w - 1 - i), r); else for (int i = w - 1; i >= 0; i--) r = mkite(mkextract(e, i, 1), mkconst(w, i), r); }
      SETR(I.dst, fromE(lookup(*S, r))); fr.pc++; return;
    }
    case I_BITREV: { E e = toE(G(o[0]), I.w); E r = mkextract(e, 0, 1); for (unsigned i = 1; i < I.w; i++) r = mkconcat(r, mkextract(e, i, 1)); SETR(I.dst, fromE(lookup(*S, r))); fr.pc++; return; }
    case I_FSH: {
      unsigned w = I.w; E a = toE(G(o[0]), w), b = toE(G(o[1]), w), s = toE(G(o[2]), w); s = mkbin(UREM, s, mkconst(w, w)); E inv = mkbin(SUB, mkconst(w, w), s), r;
      if (I.sub == 0) r = mkbin(OR, mkbin(SHL, a, s), mkbin(LSHR, b, inv)); else r = mkbin(OR, mkbin(SHL, a, inv), mkbin(LSHR, b, s));
      SETR(I.dst, fromE(lookup(*S, r))); fr.pc++; return;
    }
    case I_FPCLASS: {
      unsigned w = I.w, mb = w == 64 ? 52 : 23, eb = w - 1 - mb; E e = toE(G(o[0]), w), man = mkextract(e, 0, mb), ex = mkextract(e, mb, eb), sg = mkextract(e, w - 1, 1), qb = mkextract(e, mb - 1, 1); uint64_t mask = G(o[1]).c;
      E m0 = mkeq(man, mkconst(mb, 0)), e0 = mkeq(ex, mkconst(eb, 0)), e1 = mkeq(ex, mkconst(eb, maskw(eb))), nan = mkand1(e1, mknot(m0)), inf = mkand1(e1, m0), zero = mkand1(e0, m0), subn = mkand1(e0, mknot(m0)), norm = mkand1(mknot(e0), mknot(e1)), pos = mknot(sg);
      E cl[10] = {mkand1(nan, mknot(qb)), mkand1(nan, qb), mkand1(inf, sg), mkand1(norm, sg), mkand1(subn, sg), mkand1(zero, sg), mkand1(zero, pos), mkand1(subn, pos), mkand1(norm, pos), mkand1(inf, pos)}; E r = mkfalse();
      for (int i = 0; i < 10; i++) if (mask >> i & 1) r = mkor1(r, cl[i]);
      SETR(I.dst, fromE(lookup(*S, r))); fr.pc++; return;
    }
    case I_ABS: { E a = toE(G(o[0]), I.w); SETR(I.dst, fromE(lookup(*S, mkite(mkslt(a, mkconst(I.w, 0)), mkbin(SUB, mkconst(I.w, 0), a), a)))); fr.pc++; return; }
    case I_RELOAD: { uint64_t b = conc(G(o[0]), 64, "load.relative"), x = conc(G(o[1]), 64, "load.relative"); x = (uint64_t)sx64(x, 64); auto it = RELTAB.find(b + x); if (it == RELTAB.end()) { incomplete("load.relative"); endPath("unsupported"); } SETR(I.dst, mkV(it->second)); S->fr.back().pc++; return; }
    case I_REDUCE: { V r = G(o[0]); for (uint32_t k = 1; k < I.n; k++) r = binV(I.sub, I.w, r, G(o[k])); SETR(I.dst, r); fr.pc++; return; }
    case I_NOP: case I_ASSUME: fr.pc++; return;
    case I_UNSUP: incomplete("unsupported " + *(std::string *)I.imm); endPath("unsupported"); return;
  }
}

// ------------------------------------------------------------------ globals
static void initObj(State &st, Obj *o, uint64_t base, Constant *c, uint64_t off) {
  Type *T = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(o->d + off, r.data(), r.size()); return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *L = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initObj(st, o, base, cs->getOperand(i), off + L->getElementOffset(i)); return; }
  if (auto *ca = dyn_cast<ConstantArray>(c)) { uint64_t sz = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initObj(st, o, base, ca->getOperand(i), off + i * sz); return; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) if (ce->getOpcode() == Instruction::Trunc) if (auto *su = dyn_cast<ConstantExpr>(ce->getOperand(0))) if (su->getOpcode() == Instruction::Sub) { uint64_t a = constU(su->getOperand(0)); RELTAB[base + off] = a; return; }
  std::vector<V> v; evalConst(c, v); auto &sl = slots(T);
  for (size_t i = 0; i < v.size(); i++) { unsigned n = (sl[i].w + 7) / 8; if (v[i].s) { u128 x = v[i].s->v; memcpy(o->d + off + sl[i].off, &x, n); } else memcpy(o->d + off + sl[i].off, &v[i].c, std::min(n, 8u)); }
}

static std::string jesc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

int main(int argc, char **argv) {
  std::string bc, entry, outp; bool dump = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") outp = nx(); else if (a == "--shard") { std::string s = nx(); sscanf(s.c_str(), "%d/%d", &SHARD, &NSHARD); } else if (a == "--time") TLIMIT = atof(nx().c_str());
    else if (a == "--maxviol") MAXVIOL = atoi(nx().c_str()); else if (a == "-v") VERB = true; else if (a == "--sites") SITES = true; else if (a == "--qtimeout") SOLVER_TIMEOUT_MS = atoi(nx().c_str()); else if (a == "--dump") dump = true; else if (a == "--vtime") VTIME = atof(nx().c_str()); else if (a == "--tier") TIER = atoi(nx().c_str()); else if (a == "--witness") MAXWIT = atoi(nx().c_str()); else bc = a;
  }
  T0 = std::chrono::steady_clock::now();
  const std::pair<const char *, int> bl[] = {{"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"posix_memalign", B_PMEMALIGN}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_BCMP}, {"strlen", B_STRLEN}, {"abort", B_ABORT}, {"getenv", B_GETENV}, {"getrandom", B_GETRANDOM},
    {"sx_sym", SX_SYM}, {"sx_choose", SX_CHOOSE}, {"sx_assume", SX_ASSUME}, {"sx_check", SX_CHECK}, {"sx_reach", SX_REACH}, {"sx_uf", SX_UF}, {"sx_memeq", SX_MEMEQ}, {"sx_mode", SX_MODE}, {"sx_set_mode", SX_SETMODE}, {"sx_sym_fresh", SX_FRESH}, {"sx_ledger_add", SX_LADD}, {"sx_ledger_has", SX_LHAS}, {"sx_memxor", SX_MEMXOR}, {"sx_keystream_hook", SX_KSHOOK}, {"sx_print", SX_PRINT}, {"sx_native", SX_NATIVE}, {"sx_feasible", SX_FEAS}, {"sx_scan", SX_SCAN}, {"sx_conc", SX_CONC}, {"sx_put", SX_PUT}, {"sx_get", SX_GET}, {"sx_tier", SX_TIER}, {"sx_watch", SX_WATCH}, {"sx_watched", SX_WATCHED}, {"sx_hush", SX_HUSH}};
  for (auto &p : bl) BUILTIN[p.first] = p.second;
  LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(bc, err, ctx); if (!mod) { err.print("symx", errs()); return 70; }
  MOD = mod.get(); DL = &MOD->getDataLayout();
  Function *ef = MOD->getFunction(entry); if (!ef) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 70; }
  auto st = std::make_unique<State>();
  for (auto &F : *MOD) { Fn *f = getFn(&F); Obj *o = newObj(0, K_FUNC); uint32_t id = st->mem.add(o); f->objid = id; FNOBJ[id] = f; GADDR[&F] = addrOf(id); }
  std::vector<std::pair<GlobalVariable *, uint32_t>> gl;
  for (auto &g : MOD->globals()) { uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 8; if (g.isDeclaration() && sz < 16) sz = 16; Obj *o = newObj((uint32_t)sz, K_GLOBAL); uint32_t id = st->mem.add(o); GADDR[&g] = addrOf(id); gl.push_back({&g, id}); }
  for (auto &p : gl) if (p.first->hasInitializer()) { Obj *o = st->mem.get(p.second); initObj(*st, o, addrOf(p.second), p.first->getInitializer(), 0); o->ro = p.first->isConstant(); }
  auto m0 = std::make_shared<Model>(); m0->id = 1; st->model = m0;
  S = st.get(); pushFrame(getFn(ef), {}, -1);
  WORK.push_back(std::move(st));
  bool timeout = false; uint64_t maxDepth = 0;
  while (!WORK.empty()) {
    auto cur = std::move(WORK.back()); WORK.pop_back(); S = cur.get(); PATHS++; maxDepth = std::max<uint64_t>(maxDepth, S->depth);
    std::string why; uint64_t n = 0;
    try { while (true) { step(); if ((++n & 0xffff) == 0) { if (elapsed() > TLIMIT) { timeout = true; throw PathEnd{"timeout"}; } if (n > MAXSTEPS) { violation("hang", "does not terminate", "step limit", S->model); throw PathEnd{"step limit"}; } } } } catch (PathEnd &e) { why = e.why; }
    INSTS += n; ENDS[why.substr(0, 160)]++; if (why == "ok") { PATHS_OK++; if ((int)WITS.size() < MAXWIT && witCnt[S->trace]++ < 2) WITS.push_back({S->trace, eventsOf(S->model)}); } if (why == "assume") PATHS_ASSUME++;
    if (elapsed() > TLIMIT) timeout = true;
    if (timeout) break;
  }
  if (timeout) incomplete("time limit after " + std::to_string(PATHS) + " paths");
  // coverage of the repository's code
  std::set<std::string> fnames; std::map<std::string, std::set<unsigned>> lines; uint64_t covInst = 0;
  for (auto &f : FNS) for (size_t i = 0; i < f->code.size(); i++) if (f->code[i].cov) {
    covInst++; Instruction *in = f->dbg[i]; if (!in) continue;
    for (const DILocation *L = in->getDebugLoc().get(); L; L = L->getInlinedAt()) { std::string d = L->getDirectory().str(), fn = L->getFilename().str(); if (fn[0] != '/') fn = d + "/" + fn; auto q = fn.find("/repo/src/"); if (q != 0) continue; if (auto *sp = L->getScope()->getSubprogram()) fnames.insert(demangle(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str())); lines[fn.substr(6)].insert(L->getLine()); }
  }
  std::ostringstream js;
  js << "{\n \"entry\": \"" << entry << "\", \"shard\": \"" << (SHARD < 0 ? 0 : SHARD) << "/" << NSHARD << "\",\n \"paths\": " << PATHS << ", \"paths_ok\": " << PATHS_OK << ", \"paths_assume\": " << PATHS_ASSUME << ", \"forks\": " << FORKS << ", \"insts\": " << INSTS << ", \"max_depth\": " << maxDepth
     << ",\n \"checks\": " << CHECKS << ", \"checks_symbolic\": " << CHECKS_SYM << ", \"queries\": " << SS.queries << ", \"sat\": " << SS.sat << ", \"unsat\": " << SS.unsat << ", \"unknown\": " << SS.unknown << ", \"z3calls\": " << SS.z3calls << ", \"cache_hits\": " << SS.cacheHits << ", \"full_queries\": " << SS.fullQueries << ", \"repaired\": " << SS.repaired << ", \"z3_time\": " << SS.z3time << ", \"z3_max\": " << SS.maxq << ", \"wall\": " << elapsed()
     << ",\n \"terms\": " << ET.byId.size() << ", \"vars\": " << VARS.size() << ", \"apps\": " << APPS.size() << ", \"covered_ir\": " << covInst << ",\n \"reach\": {";
  bool first = true; for (auto &p : REACH) { js << (first ? "" : ", ") << "\"" << jesc(p.first) << "\": " << p.second; first = false; }
  js << "},\n \"incomplete\": ["; first = true; for (auto &p : INCOMPLETE) { js << (first ? "" : ", ") << "\"" << jesc(p) << "\""; first = false; }
  js << "],\n \"ends\": {"; first = true; for (auto &p : ENDS) { js << (first ? "" : ", ") << "\"" << jesc(p.first) << "\": " << p.second; first = false; }
  js << "},\n \"functions\": ["; first = true; for (auto &p : fnames) { js << (first ? "" : ", ") << "\"" << jesc(p) << "\""; first = false; }
  js << "],\n \"lines\": {"; first = true; for (auto &p : lines) { js << (first ? "" : ", ") << "\"" << jesc(p.first) << "\": " << p.second.size(); first = false; }
  js << "},\n \"witnesses\": ["; first = true;
  for (auto &v : WITS) { js << (first ? "\n  " : ",\n  ") << "{\"trace\": \"" << jesc(v.trace) << "\", \"events\": ["; bool f2 = true; for (auto &p : v.inputs) { js << (f2 ? "" : ", ") << "[\"" << jesc(p.first) << "\", \"" << p.second << "\"]"; f2 = false; } js << "]}"; first = false; }
  js << "],\n \"violations\": ["; first = true;
  for (auto &v : VIOLS) { js << (first ? "\n  " : ",\n  ") << "{\"kind\": \"" << jesc(v.kind) << "\", \"label\": \"" << jesc(v.label) << "\", \"detail\": \"" << jesc(v.detail) << "\", \"trace\": \"" << jesc(v.trace) << "\", \"events\": ["; bool f2 = true; for (auto &p : v.inputs) { js << (f2 ? "" : ", ") << "[\"" << jesc(p.first) << "\", \"" << p.second << "\"]"; f2 = false; } js << "]}"; first = false; }
  js << "]\n}\n";
  if (outp.empty()) fputs(js.str().c_str(), stdout); else { std::ofstream o(outp); o << js.str(); }
  if (SITES) { std::vector<std::pair<double, std::string>> v; for (auto &p : zSites) v.push_back({p.second.second, std::to_string(p.second.first) + " " + p.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 12; i++) fprintf(stderr, "%8.2fs %s\n", v[i].first, v[i].second.c_str()); }
  if (SITES) { std::vector<std::pair<uint64_t, std::string>> v; for (auto &p : forkSites) v.push_back({p.second, p.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "%6llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
  (void)dump; fflush(nullptr); _exit(0);
}
