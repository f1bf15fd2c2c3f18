// symx: symbolic execution of rustc-produced LLVM IR (whole program, after LTO).
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <unistd.h>
#include <fstream>
#include <sstream>
using namespace llvm;

// ------------------------------------------------------------------ values
struct V { uint64_t c; E s; };
static inline V mkV(uint64_t c) { return V{c, nullptr}; }
static inline E toE(const V &v, unsigned w) { return v.s ? v.s : mkconst(w, v.c); }
static inline V fromE(E e) { if (e->op == CONST && e->w <= 64) return V{(uint64_t)e->v, nullptr}; return V{0, e}; }
static inline uint64_t m64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

// ------------------------------------------------------------------ program
enum IOp : uint8_t {
  I_BIN, I_ICMP, I_ZEXT, I_SEXT, I_TRUNC, I_SELECT, I_LOAD, I_STORE, I_ALLOCA, I_GEP, I_BR, I_CBR, I_SWITCH,
  I_RET, I_CALL, I_MOV, I_UNREACH, I_EXTDYN, I_INSDYN, I_BITCAT, I_BITSPLIT, I_FBIN, I_FCMP, I_FCAST, I_FNEG, I_ARMW, I_CAS,
  I_OVF, I_SAT, I_MINMAX, I_BSWAP, I_CTLZ, I_CTTZ, I_CTPOP, I_BITREV, I_FSH, I_RELOAD, I_ABS, I_NOP, I_TRAP, I_ASSUME, I_UNSUP, I_REDUCE, I_FPCLASS
};
struct Inst { IOp op; uint8_t sub; uint8_t w; uint8_t w2; int dst; uint32_t o; uint32_t n; uint64_t imm; bool cov; };
struct Edge { uint32_t target; uint32_t o, n; };  // n pairs (dst, src)
struct Fn {
  Function *F = nullptr; std::string name, dem; bool compiled = false; int builtin = 0; bool isDecl = false;
  std::vector<Inst> code; std::vector<Instruction *> dbg;
  uint32_t nregs = 0, nargs = 0; int objid = 0; uint64_t execd = 0;
};
static std::vector<int> OPS; static std::vector<V> CP; static std::vector<Edge> EDGES; static std::vector<std::vector<std::pair<uint64_t, uint32_t>>> SWT;
static std::vector<std::unique_ptr<Fn>> FNS; static std::unordered_map<const Function *, Fn *> FNM;
static std::unordered_map<uint32_t, Fn *> FNOBJ;
static Module *MOD; static const DataLayout *DL;

// ------------------------------------------------------------------ memory
struct Obj { int ref; uint32_t size; uint8_t kind; bool freed; bool ro; uint32_t align; uint8_t *d; E *s; const char *name; };
enum { K_GLOBAL, K_STACK, K_HEAP, K_FUNC };
static Obj *newObj(uint32_t size, uint8_t kind) { Obj *o = new Obj{1, size, kind, false, false, 1, nullptr, nullptr, nullptr}; o->d = (uint8_t *)calloc(size ? size : 1, 1); return o; }
static void relObj(Obj *o) { if (o && --o->ref == 0) { free(o->d); free(o->s); delete o; } }
static Obj *dupObj(Obj *o) { Obj *n = new Obj(*o); n->ref = 1; n->d = (uint8_t *)malloc(o->size ? o->size : 1); memcpy(n->d, o->d, o->size); if (o->s) { n->s = (E *)malloc(sizeof(E) * o->size); memcpy(n->s, o->s, sizeof(E) * o->size); } return n; }
struct Chunk { int ref; Obj *o[64]; };
struct Mem {
  std::vector<Chunk *> ch; uint32_t next = 1;
  Mem() {}
  Mem(const Mem &m) : ch(m.ch), next(m.next) { for (auto *c : ch) c->ref++; }
  Mem &operator=(const Mem &) = delete;
  ~Mem() { for (auto *c : ch) if (--c->ref == 0) { for (auto *o : c->o) relObj(o); delete c; } }
  Obj *get(uint32_t id) const { uint32_t k = id >> 6; if (k >= ch.size()) return nullptr; return ch[k]->o[id & 63]; }
  Chunk *wchunk(uint32_t k) {
    while (k >= ch.size()) { Chunk *c = new Chunk; c->ref = 1; memset(c->o, 0, sizeof c->o); ch.push_back(c); }
    Chunk *c = ch[k];
    if (c->ref > 1) { Chunk *n = new Chunk(*c); n->ref = 1; for (auto *o : n->o) if (o) o->ref++; c->ref--; ch[k] = n; c = n; }
    return c;
  }
  Obj *wr(uint32_t id) { Chunk *c = wchunk(id >> 6); Obj *&o = c->o[id & 63]; if (!o) return nullptr; if (o->ref > 1) { Obj *n = dupObj(o); o->ref--; o = n; } return o; }
  uint32_t add(Obj *o) { uint32_t id = next++; Chunk *c = wchunk(id >> 6); c->o[id & 63] = o; return id; }
  void drop(uint32_t id) { // keep a tombstone (freed)
    Obj *o = get(id); if (!o) return;
    Chunk *c = wchunk(id >> 6); Obj *t = newObj(0, o->kind); t->freed = true; t->size = 0; relObj(c->o[id & 63]); c->o[id & 63] = t;
  }
  void remove(uint32_t id) { Chunk *c = wchunk(id >> 6); relObj(c->o[id & 63]); c->o[id & 63] = nullptr; }
};
static uint64_t addrOf(uint32_t id) { return (uint64_t)id << 32; }

// ------------------------------------------------------------------ state
struct Frame { Fn *f; uint32_t pc, base; int dst; uint32_t nAlloca; };
struct Ev { uint8_t kind; uint32_t a, n; std::string name; std::shared_ptr<Ev> prev; }; // 0 sym(var0,len) 1 choose(val,n)
struct State {
  Mem mem; std::vector<Frame> fr; std::vector<V> regs; std::vector<uint32_t> allocas;
  std::vector<E> pc; std::unordered_map<uint32_t, E> known; ModelP model; std::vector<uint32_t> apps; std::unordered_set<uint32_t> appset;
  std::map<uint32_t, std::vector<std::shared_ptr<std::vector<E>>>> ledger;
  std::map<uint32_t, uint32_t> freshCnt; std::map<std::string, uint32_t> symCnt;
  std::shared_ptr<Ev> log; uint32_t mode = 1; uint64_t steps = 0; uint32_t nChoose = 0; uint64_t shRank = 0, shCnt = 0; uint32_t depth = 0;
  std::string trace;
  std::map<uint64_t, std::vector<E>> gstore; std::vector<E> watch; uint32_t watched = 0, hush = 0;
};
static std::vector<std::unique_ptr<State>> WORK;
static State *S;

// ------------------------------------------------------------------ options / results
struct Viol { std::string label, kind, detail; std::vector<std::pair<std::string, std::string>> inputs; std::vector<uint64_t> choices; std::string trace; };
static double VTIME = 0;
static std::vector<Viol> VIOLS; static std::map<std::string, int> violCnt; static std::map<std::string, uint64_t> REACH;
static uint64_t PATHS = 0, PATHS_OK = 0, PATHS_ASSUME = 0, FORKS = 0, INSTS = 0, CHECKS = 0, CHECKS_SYM = 0; static std::vector<std::string> INCOMPLETE; static std::set<std::string> incSet;
static std::map<std::string, std::pair<uint64_t, double>> zSites; static std::map<std::string, uint64_t> ENDS; static std::map<std::string, uint64_t> forkSites;
struct Wit { std::string trace; std::vector<std::pair<std::string, std::string>> inputs; };
static std::vector<Wit> WITS; static std::map<std::string, int> witCnt; static int TIER = 0, MAXWIT = 0;
static int SHARD = -1, NSHARD = 1; static double TLIMIT = 800; static uint64_t MAXCONC = 600; static int MAXVIOL = 3; static bool VERB = false; static uint64_t MAXSTEPS = 400000000ull; static bool SITES = false;
static std::chrono::steady_clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
static void incomplete(const std::string &w) { if (incSet.insert(w).second) { INCOMPLETE.push_back(w); if (VERB) fprintf(stderr, "INCOMPLETE %s\n", w.c_str()); } }

struct PathEnd { std::string why; };    // thrown: path over
struct Refork {};                       // unused

static std::string where() {
  std::string r; int k = 0;
  for (int i = (int)S->fr.size() - 1; i >= 0 && k < 12; i--, k++) {
    Frame &f = S->fr[i]; r += f.f->dem.substr(0, 90);
    uint32_t p = f.pc; if (p < f.f->dbg.size()) if (Instruction *I = f.f->dbg[p]) if (const DILocation *L = I->getDebugLoc().get()) { std::string fn = L->getFilename().str(); auto q = fn.rfind('/'); (void)q; r += "@" + fn.substr(fn.size() > 40 ? fn.size() - 40 : 0) + ":" + std::to_string(L->getLine()); }
    r += " < ";
  }
  return r;
}
static void endPath(const std::string &w) { throw PathEnd{w}; }

// ------------------------------------------------------------------ path condition
static void addConj(State &s, E e) {
  if (isC(e, 1)) return;
  if (e->op == AND && e->w == 1) { addConj(s, e->a); addConj(s, e->b); s.known[e->id] = mktrue(); s.known[mknot(e)->id] = mkfalse(); return; }
  if (s.known.count(e->id)) return;
  s.pc.push_back(e);
  s.known[e->id] = mktrue();
  s.known[mknot(e)->id] = mkfalse();
  if (e->op == EQ && isC(e->b)) s.known[e->a->id] = e->b;
  if (e->op == XOR && e->w == 1 && isC(e->b, 1)) { if (e->a->op == OR) { addConj(s, mknot(e->a->a)); addConj(s, mknot(e->a->b)); } }
}
static E lookup(State &s, E e) { auto it = s.known.find(e->id); return it == s.known.end() ? e : it->second; }
static std::unique_ptr<State> cloneState() { auto n = std::make_unique<State>(*S); n->depth++; FORKS++; return n; }
static void pushWork(std::unique_ptr<State> n) { WORK.push_back(std::move(n)); if (SITES) forkSites[where().substr(0, 300)]++; }

// What an (in)equality that is implied by the path fixes, without repeating it in the path condition.
static void learn(State &s, E e) {
  if (e->op == AND && e->w == 1) { learn(s, e->a); learn(s, e->b); }
  if (e->op == EQ && isC(e->b) && !isC(e->a)) s.known[e->a->id] = e->b;
}
// The term with everything the path has already fixed put in.
static std::vector<uint32_t> simpEp; static std::vector<E> simpVal; static uint32_t simpCur = 0; static unsigned simpLeft = 0;
static E simp(State &s, E e) {
  if (isC(e)) return e;
  auto it = s.known.find(e->id); if (it != s.known.end()) return it->second;
  if (e->op == VAR) return e;
  if (e->id < simpEp.size() && simpEp[e->id] == simpCur) return simpVal[e->id];
  if (!simpLeft) return e;
  simpLeft--;
  E a = e->a ? simp(s, e->a) : nullptr, b = e->b ? simp(s, e->b) : nullptr, c = e->c ? simp(s, e->c) : nullptr, r = e;
  if (a != e->a || b != e->b || c != e->c) switch (e->op) {
    case EQ: r = mkeq(a, b); break;
    case ULT: r = mkult(a, b); break;
    case SLT: r = mkslt(a, b); break;
    case ITE: r = mkite(a, b, c); break;
    case CONCAT: r = mkconcat(a, b); break;
    case EXTRACT: r = mkextract(a, e->lo, e->w); break;
    case ZEXT: r = mkzext(a, e->w); break;
    case SEXT: r = mksext(a, e->w); break;
    default: r = mkbin(e->op, a, b);
  }
  if (r != e && !isC(r)) { auto q = s.known.find(r->id); if (q != s.known.end()) r = q->second; }
  if (e->id >= simpEp.size()) { size_t n = ET.byId.size() + 4096; simpEp.resize(n, 0); simpVal.resize(n); }
  simpEp[e->id] = simpCur; simpVal[e->id] = r;
  return r;
}
static E simplify(State &s, E e) { simpCur++; simpLeft = 4000; return simp(s, e); }

// Decide a 1-bit term on the current path; forks if both sides are feasible.
// The other side is queued at the *current* instruction and re-executes it.
static bool branch(E c) {
  E c0 = c = lookup(*S, c);
  if (isC(c)) return c->v != 0;
  c = simplify(*S, c);
  if (isC(c)) { S->known[c0->id] = c; return c->v != 0; }
  bool v = evalE(*S->model, c) != 0;
  E other = v ? mknot(c) : c, mine = v ? c : mknot(c);
  double z0 = SS.z3time; ModelP om; SatRes r = solve(S->pc, other, S->apps, S->model, om); if (SITES) { auto &q = zSites[where().substr(0, 400)]; q.first++; q.second += SS.z3time - z0; }
  if (r == R_UNKNOWN) { incomplete("solver unknown at " + where()); }
  if (r == R_SAT) { auto n = cloneState(); addConj(*n, other); n->model = om; pushWork(std::move(n)); addConj(*S, mine); }
  else if (r == R_UNSAT) { S->known[c->id] = v ? mktrue() : mkfalse(); S->known[mknot(c)->id] = v ? mkfalse() : mktrue(); learn(*S, mine); }
  else addConj(*S, mine);
  return v;
}
// Concrete value of a term: forks over all feasible values.
static uint64_t conc(const V &x, unsigned w, const char *what) {
  if (!x.s) return x.c;
  E e = lookup(*S, x.s);
  if (isC(e)) return (uint64_t)e->v;
  e = simplify(*S, e);
  if (isC(e)) { S->known[x.s->id] = e; return (uint64_t)e->v; }
  uint64_t v = (uint64_t)evalE(*S->model, e);
  E eq = mkeq(e, mkconst(w, v));
  eq = lookup(*S, eq);
  if (isC(eq, 1)) return v;
  ModelP om; SatRes r = solve(S->pc, mknot(eq), S->apps, S->model, om);
  if (r == R_UNKNOWN) incomplete(std::string("solver unknown (concretise ") + what + ") at " + where());
  if (r == R_SAT) { auto n = cloneState(); addConj(*n, mknot(eq)); n->model = om; pushWork(std::move(n)); addConj(*S, eq); }
  else if (r == R_UNSAT) learn(*S, eq);
  S->known[e->id] = S->known[x.s->id] = mkconst(w, v);
  return v;
}

// ------------------------------------------------------------------ violations
static std::string hex(const std::string &b) { static const char *h = "0123456789abcdef"; std::string r; for (unsigned char c : b) { r += h[c >> 4]; r += h[c & 15]; } return r; }
static std::vector<std::pair<std::string, std::string>> eventsOf(const ModelP &m, bool ufs = false) {
  std::vector<std::pair<std::string, std::string>> r; std::vector<std::shared_ptr<Ev>> evs; for (auto p = S->log; p; p = p->prev) evs.push_back(p);
  for (int i = (int)evs.size() - 1; i >= 0; i--) {
    auto &e = *evs[i];
    if (e.kind == 0) { std::string b; for (uint32_t k = 0; k < e.n; k++) b.push_back((char)evalVar(*m, e.a + k)); r.push_back({e.name, hex(b)}); }
    else r.push_back({"#choose", std::to_string(e.a)});
  }
  // values of the ideal functions that this model chose
  if (ufs) for (auto &u : m->uf) r.push_back({"#uf " + std::to_string(u.first.first) + " " + hex(u.first.second), hex(u.second)});
  return r;
}
static void violation(const std::string &kind, const std::string &label, const std::string &detail, const ModelP &m) {
  std::string key = kind + "|" + label + "|" + (kind == "check" ? "" : detail);
  if (violCnt[key]++ >= MAXVIOL) return;
  Viol v; v.kind = kind; v.label = label; v.detail = detail; v.trace = where();
  for (E e : S->pc) if (!evalE(*m, e)) incomplete("a counterexample that does not satisfy its path condition at " + where());
  v.inputs = eventsOf(m, true);
  if (VERB) { fprintf(stderr, "VIOL %s %s %s\n  at %s\n", kind.c_str(), label.c_str(), detail.c_str(), v.trace.c_str()); for (auto &p : v.inputs) fprintf(stderr, "   %s=%s\n", p.first.c_str(), p.second.c_str()); }
  if (VTIME > 0 && VIOLS.empty()) TLIMIT = std::min(TLIMIT, elapsed() + VTIME);
  VIOLS.push_back(v);
}
static void fault(const std::string &kind, const std::string &detail) {
  violation(kind, kind, detail, S->model);
  endPath(kind + ": " + detail);
}

// ------------------------------------------------------------------ memory access
static Obj *chk(uint64_t a, uint64_t n, bool w, uint32_t &off) {
  uint32_t id = (uint32_t)(a >> 32); off = (uint32_t)a;
  Obj *o = S->mem.get(id);
  if (!o) fault("memory", "invalid pointer");
  if (o->freed) fault("memory", "use after free");
  if (o->kind == K_FUNC) fault("memory", "data access to function");
  if ((uint64_t)off + n > o->size) { char b[128]; snprintf(b, 128, "out of bounds: off %u len %llu size %u", off, (unsigned long long)n, o->size); fault("memory", b); }
  if (w) { if (o->ro) fault("memory", "write to constant"); o = S->mem.wr(id); }
  return o;
}
static E byteAt(Obj *o, uint32_t i) { if (o->s && o->s[i]) return o->s[i]; return mkconst(8, o->d[i]); }
static void setByte(Obj *o, uint32_t i, E e) {
  if (isC(e)) { o->d[i] = (uint8_t)e->v; if (o->s) o->s[i] = nullptr; return; }
  E k = lookup(*S, e); if (isC(k)) { o->d[i] = (uint8_t)k->v; if (o->s) o->s[i] = nullptr; return; }
  if (!o->s) o->s = (E *)calloc(o->size, sizeof(E));
  o->s[i] = e;
}
static V loadV(uint64_t a, unsigned w) {
  unsigned n = (w + 7) / 8; uint32_t off; Obj *o = chk(a, n, false, off);
  bool sym = false; if (o->s) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
  if (!sym) {
    if (w <= 64) { uint64_t v = 0; memcpy(&v, o->d + off, n); return mkV(v & m64(w)); }
    u128 v = 0; memcpy(&v, o->d + off, n); return fromE(mkconst(w, v));
  }
  E e = byteAt(o, off + n - 1); for (int i = (int)n - 2; i >= 0; i--) e = mkconcat(e, byteAt(o, off + i));
  if (e->w > w) e = mkextract(e, 0, w);
  e = lookup(*S, e);
  return fromE(e);
}
static void storeV(uint64_t a, const V &v, unsigned w) {
  unsigned n = (w + 7) / 8; uint32_t off; Obj *o = chk(a, n, true, off);
  if (!v.s) { uint64_t c = v.c & m64(w); memcpy(o->d + off, &c, n <= 8 ? n : 8); if (n > 8) memset(o->d + off + 8, 0, n - 8); if (o->s) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr; return; }
  E e = v.s; if (e->w < n * 8) e = mkzext(e, n * 8);
  for (unsigned i = 0; i < n; i++) setByte(o, off + i, mkextract(e, i * 8, 8));
}
static std::vector<E> readBytes(uint64_t a, uint64_t n) { std::vector<E> r; if (!n) return r; uint32_t off; Obj *o = chk(a, n, false, off); r.reserve(n); for (uint64_t i = 0; i < n; i++) { E e = byteAt(o, off + i); r.push_back(isC(e) ? e : lookup(*S, e)); } return r; }
static void writeBytes(uint64_t a, const std::vector<E> &b) { if (b.empty()) return; uint32_t off; Obj *o = chk(a, b.size(), true, off); for (size_t i = 0; i < b.size(); i++) setByte(o, off + i, b[i]); }
static void copyBytes(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  uint32_t so, dof; Obj *src = chk(s, n, false, so); bool sym = false;
  if (src->s) for (uint64_t i = 0; i < n; i++) if (src->s[so + i]) { sym = true; break; }
  if (!sym) {
    Obj *dst = chk(d, n, true, dof); src = S->mem.get((uint32_t)(s >> 32));
    memmove(dst->d + dof, src->d + so, n); if (dst->s) memset(dst->s + dof, 0, n * sizeof(E)); return;
  }
  writeBytes(d, readBytes(s, n));
}
static std::string concStr(uint64_t a, uint64_t n) { std::string r; if (!n) return r; uint32_t off; Obj *o = chk(a, n, false, off); for (uint64_t i = 0; i < n; i++) r.push_back((char)o->d[off + i]); return r; }

static const uint64_t HUGE_ALLOC = 1ull << 30;
static uint64_t heapAlloc(uint64_t n, uint64_t al, bool = true) {
  if (n >= HUGE_ALLOC) fault("huge-allocation", "allocation of " + std::to_string(n) + " bytes");
  Obj *o = newObj((uint32_t)n, K_HEAP); o->align = (uint32_t)al; return addrOf(S->mem.add(o));
}
static void heapFree(uint64_t p) {
  if (!p) return;
  Obj *o = S->mem.get((uint32_t)(p >> 32));
  if (!o || (uint32_t)p || o->kind != K_HEAP) fault("memory", "invalid free");
  if (o->freed) fault("memory", "double free");
  if (!S->watch.empty() && !S->hush) { // does the block still hold 8 consecutive bytes of the watched secret?
    auto &p = S->watch; bool hit = false;
    for (uint32_t off = 0; off + 8 <= o->size && !hit; off++) for (size_t k = 0; k + 8 <= p.size() && !hit; k++) { bool eq = true; for (size_t i = 0; i < 8 && eq; i++) eq = byteAt(o, off + i) == p[k + i]; hit = eq; }
    if (hit) S->watched++;
  }
  S->mem.drop((uint32_t)(p >> 32));
}

// ------------------------------------------------------------------ compile
struct Slot { uint64_t off; unsigned w; };
static std::unordered_map<Type *, std::vector<Slot>> slotMemo;
static void flatInto(Type *T, uint64_t off, std::vector<Slot> &r) {
  if (T->isIntegerTy()) { // more than 128 bits: in pieces of 64
    unsigned w = T->getIntegerBitWidth(); if (w > 128) { for (unsigned b = 0; b < w; b += 64) r.push_back({off + b / 8, std::min(64u, w - b)}); return; }
    r.push_back({off, w}); return;
  }
  if (T->isPointerTy()) { r.push_back({off, 64}); return; }
  if (T->isFloatTy()) { r.push_back({off, 32}); return; }
  if (T->isDoubleTy()) { r.push_back({off, 64}); return; }
  if (auto *st = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flatInto(st->getElementType(i), off + L->getElementOffset(i), r); return; }
  if (auto *at = dyn_cast<ArrayType>(T)) { uint64_t sz = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) flatInto(at->getElementType(), off + i * sz, r); return; }
  if (auto *vt = dyn_cast<FixedVectorType>(T)) { Type *et = vt->getElementType(); uint64_t sz = (DL->getTypeSizeInBits(et) + 7) / 8; for (unsigned i = 0; i < vt->getNumElements(); i++) flatInto(et, off + i * sz, r); return; }
  r.push_back({off, 64}); // metadata, label: never used
}
static const std::vector<Slot> &slots(Type *T) { auto it = slotMemo.find(T); if (it != slotMemo.end()) return it->second; auto &r = slotMemo[T]; std::vector<Slot> t; flatInto(T, 0, t); slotMemo[T] = t; (void)r; return slotMemo[T]; }
static unsigned nslots(Type *T) { return T->isVoidTy() ? 0 : slots(T).size(); }

static std::unordered_map<const GlobalValue *, uint64_t> GADDR;
static std::unordered_map<uint64_t, uint64_t> RELTAB; // address of i32 slot -> target
static void evalConst(Constant *c, std::vector<V> &out);
static uint64_t constU(Constant *c) { std::vector<V> v; evalConst(c, v); return v[0].c; }
static void evalConst(Constant *c, std::vector<V> &out) {
  Type *T = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    unsigned w = ci->getBitWidth();
    if (w > 128) { for (unsigned b = 0; b < w; b += 64) out.push_back(mkV(ci->getValue().extractBits(std::min(64u, w - b), b).getZExtValue())); return; }
    if (w <= 64) out.push_back(mkV(ci->getZExtValue()));
    else { u128 v = ci->getValue().extractBits(64, 0).getZExtValue() | (u128)ci->getValue().extractBits(w - 64, 64).getZExtValue() << 64; out.push_back(fromE(mkconst(w, v))); }
    return;
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { out.push_back(mkV(cf->getValueAPF().bitcastToAPInt().getZExtValue())); return; }
  if (auto *gv = dyn_cast<GlobalValue>(c)) {
    if (auto *ga = dyn_cast<GlobalAlias>(gv)) { evalConst(ga->getAliasee(), out); return; }
    auto it = GADDR.find(gv); if (it == GADDR.end()) { fprintf(stderr, "no address for %s\n", gv->getName().str().c_str()); exit(70); }
    out.push_back(mkV(it->second)); return;
  }
  if (isa<ConstantPointerNull>(c)) { out.push_back(mkV(0)); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (auto &s : slots(T)) out.push_back(s.w > 64 ? fromE(mkconst(s.w, 0)) : mkV(0)); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) evalConst(cd->getElementAsConstant(i), out); return; }
  if (isa<ConstantAggregate>(c)) { for (unsigned i = 0; i < c->getNumOperands(); i++) evalConst(cast<Constant>(c->getOperand(i)), out); return; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) break;
        out.push_back(mkV(constU(ce->getOperand(0)) + off.getZExtValue())); return; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
        uint64_t v = constU(ce->getOperand(0)); if (T->isIntegerTy()) v &= m64(T->getIntegerBitWidth()); out.push_back(mkV(v)); return; }
      case Instruction::Trunc: out.push_back(mkV(constU(ce->getOperand(0)) & m64(T->getIntegerBitWidth()))); return;
      case Instruction::ZExt: out.push_back(mkV(constU(ce->getOperand(0)))); return;
      case Instruction::Add: out.push_back(mkV((constU(ce->getOperand(0)) + constU(ce->getOperand(1))) & m64(T->getIntegerBitWidth()))); return;
      case Instruction::Sub: out.push_back(mkV((constU(ce->getOperand(0)) - constU(ce->getOperand(1))) & m64(T->getIntegerBitWidth()))); return;
      case Instruction::Xor: out.push_back(mkV(constU(ce->getOperand(0)) ^ constU(ce->getOperand(1)))); return;
      case Instruction::ICmp: { uint64_t a = constU(ce->getOperand(0)), b = constU(ce->getOperand(1)); if (ce->getPredicate() == CmpInst::ICMP_EQ) { out.push_back(mkV(a == b)); return; } if (ce->getPredicate() == CmpInst::ICMP_NE) { out.push_back(mkV(a != b)); return; } break; }
      default: break;
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "unsupported constant %s\n", os.str().c_str()); exit(70);
}

struct Compiler {
  Fn *fn; std::unordered_map<const Value *, int> reg; std::unordered_map<const BasicBlock *, uint32_t> bbStart; std::vector<std::pair<uint32_t, const BasicBlock *>> fixEdges;
  std::vector<std::pair<uint32_t, std::pair<const BasicBlock *, const BasicBlock *>>> pend; Instruction *cur = nullptr;
  int rg(const Value *v) { auto it = reg.find(v); if (it != reg.end()) return it->second; int r = fn->nregs; fn->nregs += std::max(1u, nslots(v->getType())); reg[v] = r; return r; }
  int tmp(unsigned n = 1) { int r = fn->nregs; fn->nregs += n; return r; }
  std::unordered_map<const Value *, std::vector<int>> cmemo;
  std::vector<int> ops(Value *v) {
    std::vector<int> r;
    if (auto *c = dyn_cast<Constant>(v)) {
      auto it = cmemo.find(v); if (it != cmemo.end()) return it->second;
      std::vector<V> vs; evalConst(c, vs); for (auto &x : vs) { r.push_back(~(int)CP.size()); CP.push_back(x); }
      cmemo[v] = r; return r;
    }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return r;
    int b = rg(v); for (unsigned i = 0; i < nslots(v->getType()); i++) r.push_back(b + i); return r;
  }
  int op1(Value *v) { return ops(v)[0]; }
  int cst(uint64_t c) { CP.push_back(mkV(c)); return ~(int)(CP.size() - 1); }
  Inst &emit(IOp op, int dst, std::initializer_list<int> o, unsigned w = 0, unsigned sub = 0, unsigned w2 = 0, uint64_t imm = 0) { return emitv(op, dst, std::vector<int>(o), w, sub, w2, imm); }
  Inst &emitv(IOp op, int dst, const std::vector<int> &o, unsigned w = 0, unsigned sub = 0, unsigned w2 = 0, uint64_t imm = 0) {
    Inst i; i.op = op; i.sub = sub; i.w = w; i.w2 = w2; i.dst = dst; i.o = OPS.size(); i.n = o.size(); i.imm = imm; i.cov = false;
    OPS.insert(OPS.end(), o.begin(), o.end()); fn->code.push_back(i); fn->dbg.push_back(cur); return fn->code.back();
  }
  uint32_t edge(const BasicBlock *from, const BasicBlock *to) {
    uint32_t id = EDGES.size(); EDGES.push_back({0, 0, 0}); pend.push_back({id, {from, to}}); return id;
  }
  void unsup(Instruction &I, const char *why) { std::string s; raw_string_ostream os(s); I.print(os); emit(I_UNSUP, 0, {}); auto *p = new std::string(std::string(why) + ": " + os.str()); fn->code.back().imm = (uint64_t)p; }
  void compile();
  void inst(Instruction &I);
  bool wideInst(Instruction &I);
  void intrin(IntrinsicInst &I, Intrinsic::ID id);
};
static unsigned bw(Type *T) { return slots(T)[0].w; }

static std::map<std::string, int> BUILTIN;
enum { B_NONE, B_MALLOC = 1, B_CALLOC, B_REALLOC, B_FREE, B_PMEMALIGN, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_BCMP, B_STRLEN, B_PANICFMT, B_PANICHOOK, B_ABORT, B_OOM, B_GETENV,
  SX_SYM, SX_CHOOSE, SX_ASSUME, SX_CHECK, SX_REACH, SX_UF, SX_MEMEQ, SX_MODE, SX_SETMODE, SX_FRESH, SX_LADD, SX_LHAS, SX_MEMXOR, SX_KSHOOK, SX_PRINT, SX_NATIVE, SX_LOGLEN, SX_LOGGET, SX_FEAS, SX_SCAN, B_NOPRET0, B_GETRANDOM, SX_CONC, SX_PUT, SX_GET, SX_CTRL, SX_TIER, SX_WATCH, SX_WATCHED, SX_HUSH };

static Fn *getFn(Function *F) {
  auto it = FNM.find(F); if (it != FNM.end()) return it->second;
  auto f = std::make_unique<Fn>(); f->F = F; f->name = F->getName().str(); f->dem = demangle(f->name); f->isDecl = F->isDeclaration();
  auto b = BUILTIN.find(f->name); if (b != BUILTIN.end()) f->builtin = b->second;
  if (!f->builtin) {
    const std::string &d = f->dem;
    if (d.find("core::panicking::panic_fmt") == 0 || d.find("core::panicking::panic_nounwind_fmt") == 0) f->builtin = B_PANICFMT;
    else if (d.find("std::panicking::rust_panic_with_hook") == 0 || d.find("std::panicking::begin_panic") == 0) f->builtin = B_PANICHOOK;
    else if (d.find("alloc::alloc::handle_alloc_error") == 0 || d.find("std::alloc::rust_oom") == 0 || f->name.find("rust_oom") != std::string::npos || f->name == "__rust_alloc_error_handler" || f->name == "__rg_oom") f->builtin = B_OOM;
    else if (d.find("std::process::abort") == 0 || d.find("std::sys::unix::abort_internal") == 0) f->builtin = B_ABORT;
  }
  Fn *r = f.get(); FNS.push_back(std::move(f)); FNM[F] = r; return r;
}

void Compiler::compile() {
  Function &F = *fn->F;
  for (auto &A : F.args()) { rg(&A); }
  fn->nargs = fn->nregs;
  for (auto &B : F) {
    bbStart[&B] = fn->code.size();
    for (auto &I : B) { cur = &I; if (!isa<PHINode>(I)) inst(I); }
  }
  for (auto &p : pend) {
    Edge &e = EDGES[p.first]; const BasicBlock *from = p.second.first, *to = p.second.second;
    std::vector<int> cp;
    for (auto &I : *to) {
      auto *ph = dyn_cast<PHINode>(&I); if (!ph) break;
      int d = rg(ph); auto s = ops(const_cast<Value *>(ph->getIncomingValueForBlock(from)));
      for (size_t i = 0; i < s.size(); i++) { cp.push_back(d + i); cp.push_back(s[i]); }
    }
    e.target = bbStart[to]; e.o = OPS.size(); e.n = cp.size() / 2; OPS.insert(OPS.end(), cp.begin(), cp.end());
  }
  fn->compiled = true;
}

static int binop(unsigned o) {
  switch (o) { case Instruction::Add: return ADD; case Instruction::Sub: return SUB; case Instruction::Mul: return MUL; case Instruction::UDiv: return UDIV; case Instruction::SDiv: return SDIV;
    case Instruction::URem: return UREM; case Instruction::SRem: return SREM; case Instruction::And: return AND; case Instruction::Or: return OR; case Instruction::Xor: return XOR;
    case Instruction::Shl: return SHL; case Instruction::LShr: return LSHR; case Instruction::AShr: return ASHR; }
  return -1;
}

static bool wide(Type *T) { return T->isIntegerTy() && T->getIntegerBitWidth() > 128; }
// integers of more than 128 bits, in 64-bit pieces; false: nothing wide here, or nothing special about it
bool Compiler::wideInst(Instruction &I) {
  Type *T = I.getType(); Type *AT = I.getNumOperands() ? I.getOperand(0)->getType() : T;
  if (!wide(T) && !wide(AT)) { for (auto &o : I.operands()) if (wide(o->getType()) && isa<IntrinsicInst>(&I)) { unsup(I, "wide intrinsic"); return true; } return false; }
  if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
    auto a = ops(bo->getOperand(0)); int d = rg(&I); auto &sl = slots(T); int n = sl.size(); int o = binop(bo->getOpcode());
    if (o == AND || o == OR || o == XOR) { auto b = ops(bo->getOperand(1)); for (int i = 0; i < n; i++) emit(I_BIN, d + i, {a[i], b[i]}, sl[i].w, o); return true; }
    auto *k = dyn_cast<ConstantInt>(bo->getOperand(1));
    if ((o == SHL || o == LSHR) && k && T->getIntegerBitWidth() % 64 == 0 && k->getValue().ult(T->getIntegerBitWidth())) {
      unsigned sh = k->getZExtValue(), q = sh / 64, r = sh % 64;
      for (int i = 0; i < n; i++) {
        int x = o == SHL ? i - (int)q : i + (int)q, y = o == SHL ? x - 1 : x + 1; // x gives the main part, y what crosses over
        auto at = [&](int j) { return j < 0 || j >= n ? cst(0) : a[j]; };
        if (!r) { emit(I_MOV, d + i, {at(x)}); continue; }
        int t = tmp(), u = tmp(); emit(I_BIN, t, {at(x), cst(r)}, 64, o); emit(I_BIN, u, {at(y), cst(64 - r)}, 64, o == SHL ? LSHR : SHL); emit(I_BIN, d + i, {t, u}, 64, OR);
      }
      return true;
    }
    unsup(I, "wide arithmetic"); return true;
  }
  if (auto *ic = dyn_cast<ICmpInst>(&I)) {
    if (!ic->isEquality()) { unsup(I, "wide comparison"); return true; }
    auto a = ops(ic->getOperand(0)), b = ops(ic->getOperand(1)); auto &sl = slots(AT); int d = rg(&I), acc = -1; bool ne = ic->getPredicate() == CmpInst::ICMP_NE;
    for (size_t i = 0; i < a.size(); i++) { int t = tmp(); emit(I_ICMP, t, {a[i], b[i]}, sl[i].w, ic->getPredicate()); if (acc < 0) acc = t; else { int u = tmp(); emit(I_BIN, u, {acc, t}, 1, ne ? OR : AND); acc = u; } }
    emit(I_MOV, d, {acc}); return true;
  }
  if (auto *ca = dyn_cast<CastInst>(&I)) {
    auto a = ops(ca->getOperand(0)); auto &ss = slots(AT), &ds = slots(T); 
    if (ca->getOpcode() == Instruction::ZExt) {
      int d = rg(&I); unsigned sw = AT->getIntegerBitWidth();
      for (size_t i = 0; i < ds.size(); i++) {
        if (wide(AT)) { if (i < a.size()) { if (ss[i].w == ds[i].w) emit(I_MOV, d + i, {a[i]}); else emit(I_ZEXT, d + i, {a[i]}, ds[i].w, 0, ss[i].w); } else emit(I_MOV, d + i, {cst(0)}); }
        else if (sw <= 64) { if (i == 0) { if (sw == 64) emit(I_MOV, d, {a[0]}); else emit(I_ZEXT, d, {a[0]}, ds[0].w, 0, sw); } else emit(I_MOV, d + i, {cst(0)}); }
        else { if (i < 2) { int t = a[0]; if (sw < 128) { t = tmp(); emit(I_ZEXT, t, {a[0]}, 128, 0, sw); } emit(I_BITSPLIT, d + i, {t}, 64, 0, 128, i * 64); } else emit(I_MOV, d + i, {cst(0)}); }
      }
      return true;
    }
    if (ca->getOpcode() == Instruction::Trunc) {
      int d = rg(&I); unsigned dw = T->getIntegerBitWidth();
      if (wide(T)) { for (size_t i = 0; i < ds.size(); i++) if (ss[i].w == ds[i].w) emit(I_MOV, d + i, {a[i]}); else emit(I_TRUNC, d + i, {a[i]}, ds[i].w, 0, ss[i].w); }
      else if (dw <= 64) { if (dw == 64) emit(I_MOV, d, {a[0]}); else emit(I_TRUNC, d, {a[0]}, dw, 0, 64); }
      else { int t = dw == 128 ? d : tmp(); emitv(I_BITCAT, t, {a[0], a[1]}, 128, 0, 64); if (dw < 128) emit(I_TRUNC, d, {t}, dw, 0, 128); }
      return true;
    }
    if (ca->getOpcode() == Instruction::BitCast) return false;
    unsup(I, "wide cast"); return true;
  }
  if (isa<SwitchInst>(&I) || isa<IntrinsicInst>(&I)) { unsup(I, "wide operation"); return true; }
  return false;
}
void Compiler::inst(Instruction &I) {
  Type *T = I.getType();
  if (wideInst(I)) return;
  if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
    auto a = ops(bo->getOperand(0)), b = ops(bo->getOperand(1)); int d = rg(&I); unsigned w = bw(T);
    int o = binop(bo->getOpcode());
    for (size_t i = 0; i < a.size(); i++) { if (o >= 0) emit(I_BIN, d + i, {a[i], b[i]}, w, o); else emit(I_FBIN, d + i, {a[i], b[i]}, w, bo->getOpcode()); }
    return;
  }
  if (auto *ic = dyn_cast<ICmpInst>(&I)) {
    auto a = ops(ic->getOperand(0)), b = ops(ic->getOperand(1)); int d = rg(&I); unsigned w = bw(ic->getOperand(0)->getType());
    for (size_t i = 0; i < a.size(); i++) emit(I_ICMP, d + i, {a[i], b[i]}, w, ic->getPredicate()); return;
  }
  if (auto *fc = dyn_cast<FCmpInst>(&I)) {
    auto a = ops(fc->getOperand(0)), b = ops(fc->getOperand(1)); int d = rg(&I); unsigned w = bw(fc->getOperand(0)->getType());
    for (size_t i = 0; i < a.size(); i++) emit(I_FCMP, d + i, {a[i], b[i]}, w, fc->getPredicate()); return;
  }
  if (auto *ca = dyn_cast<CastInst>(&I)) {
    auto a = ops(ca->getOperand(0)); int d = rg(&I); Type *ST = ca->getSrcTy(); unsigned sw = a.empty() ? 0 : bw(ST), dw = bw(T); unsigned ds = nslots(T);
    switch (ca->getOpcode()) {
      case Instruction::ZExt: for (size_t i = 0; i < a.size(); i++) emit(I_ZEXT, d + i, {a[i]}, dw, 0, sw); return;
      case Instruction::SExt: for (size_t i = 0; i < a.size(); i++) emit(I_SEXT, d + i, {a[i]}, dw, 0, sw); return;
      case Instruction::Trunc: for (size_t i = 0; i < a.size(); i++) emit(I_TRUNC, d + i, {a[i]}, dw, 0, sw); return;
      case Instruction::PtrToInt: case Instruction::IntToPtr:
        for (size_t i = 0; i < a.size(); i++) { if (dw < sw) emit(I_TRUNC, d + i, {a[i]}, dw, 0, sw); else emit(I_ZEXT, d + i, {a[i]}, dw, 0, sw); } return;
      case Instruction::BitCast:
        if (a.size() == ds) { for (size_t i = 0; i < a.size(); i++) emit(I_MOV, d + i, {a[i]}); return; }
        if (sw * a.size() == dw * ds) {
          if (ds == 1 && dw <= 128) { emitv(I_BITCAT, d, a, dw, 0, sw); return; }
          if (a.size() == 1) { for (unsigned i = 0; i < ds; i++) emit(I_BITSPLIT, d + i, {a[0]}, dw, 0, sw, i * dw); return; }
          if (ds > a.size() && ds % a.size() == 0) { unsigned k = ds / a.size(); for (unsigned i = 0; i < ds; i++) emit(I_BITSPLIT, d + i, {a[i / k]}, dw, 0, sw, (i % k) * dw); return; }
          if (a.size() % ds == 0) { unsigned k = a.size() / ds; for (unsigned i = 0; i < ds; i++) emitv(I_BITCAT, d + i, std::vector<int>(a.begin() + i * k, a.begin() + (i + 1) * k), dw, 0, sw); return; }
        }
        unsup(I, "bitcast"); return;
      default: for (size_t i = 0; i < a.size(); i++) emit(I_FCAST, d + i, {a[i]}, dw, ca->getOpcode(), sw); return;
    }
  }
  if (auto *fr = dyn_cast<FreezeInst>(&I)) { auto a = ops(fr->getOperand(0)); int d = rg(&I); for (size_t i = 0; i < a.size(); i++) emit(I_MOV, d + i, {a[i]}); return; }
  if (auto *un = dyn_cast<UnaryOperator>(&I)) { auto a = ops(un->getOperand(0)); int d = rg(&I); for (size_t i = 0; i < a.size(); i++) emit(I_FNEG, d + i, {a[i]}, bw(T)); return; }
  if (auto *se = dyn_cast<SelectInst>(&I)) {
    auto c = ops(se->getCondition()), a = ops(se->getTrueValue()), b = ops(se->getFalseValue()); int d = rg(&I); auto &sl = slots(T);
    bool ptr = T->isPointerTy();
    for (size_t i = 0; i < a.size(); i++) emit(I_SELECT, d + i, {c.size() > 1 ? c[i] : c[0], a[i], b[i]}, sl[i].w, ptr || T->isAggregateType()); return;
  }
  if (auto *ld = dyn_cast<LoadInst>(&I)) {
    int p = op1(ld->getPointerOperand()); int d = rg(&I); auto &sl = slots(T);
    for (size_t i = 0; i < sl.size(); i++) emit(I_LOAD, d + i, {p}, sl[i].w, 0, 0, sl[i].off); return;
  }
  if (auto *st = dyn_cast<StoreInst>(&I)) {
    auto v = ops(st->getValueOperand()); int p = op1(st->getPointerOperand()); auto &sl = slots(st->getValueOperand()->getType());
    for (size_t i = 0; i < sl.size(); i++) emit(I_STORE, 0, {p, v[i]}, sl[i].w, 0, 0, sl[i].off); return;
  }
  if (auto *al = dyn_cast<AllocaInst>(&I)) {
    int n = al->isArrayAllocation() ? op1(al->getArraySize()) : cst(1);
    emit(I_ALLOCA, rg(&I), {n}, 0, 0, 0, DL->getTypeAllocSize(al->getAllocatedType())); return;
  }
  if (auto *ge = dyn_cast<GetElementPtrInst>(&I)) {
    if (T->isVectorTy()) { unsup(I, "vector gep"); return; }
    std::vector<int> o{op1(ge->getPointerOperand())}; int64_t off = 0;
    for (auto gti = gep_type_begin(ge), e = gep_type_end(ge); gti != e; ++gti) {
      Value *ix = gti.getOperand();
      if (auto *st = gti.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
      uint64_t sc = DL->getTypeAllocSize(gti.getIndexedType());
      if (auto *ci = dyn_cast<ConstantInt>(ix)) { off += ci->getSExtValue() * (int64_t)sc; continue; }
      o.push_back(op1(ix)); o.push_back(bw(ix->getType())); o.push_back((int)sc);
    }
    emitv(I_GEP, rg(&I), o, 64, 0, 0, (uint64_t)off); return;
  }
  if (auto *br = dyn_cast<BranchInst>(&I)) {
    if (br->isUnconditional()) { emit(I_BR, 0, {}, 0, 0, 0, edge(I.getParent(), br->getSuccessor(0))); return; }
    int c = op1(br->getCondition()); uint32_t e1 = edge(I.getParent(), br->getSuccessor(0)), e2 = edge(I.getParent(), br->getSuccessor(1));
    emit(I_CBR, 0, {c}, 0, 0, 0, (uint64_t)e1 << 32 | e2); return;
  }
  if (auto *sw = dyn_cast<SwitchInst>(&I)) {
    int c = op1(sw->getCondition()); uint32_t idx = SWT.size(); SWT.emplace_back();
    for (auto &cs : sw->cases()) { uint64_t v = cs.getCaseValue()->getValue().getActiveBits() <= 64 ? cs.getCaseValue()->getZExtValue() : ~0ull; SWT[idx].push_back({v, edge(I.getParent(), cs.getCaseSuccessor())}); }
    uint32_t de = edge(I.getParent(), sw->getDefaultDest());
    emit(I_SWITCH, 0, {c}, bw(sw->getCondition()->getType()), 0, 0, (uint64_t)idx << 32 | de); return;
  }
  if (auto *rt = dyn_cast<ReturnInst>(&I)) { if (rt->getReturnValue()) emitv(I_RET, 0, ops(rt->getReturnValue())); else emit(I_RET, 0, {}); return; }
  if (isa<UnreachableInst>(&I)) { emit(I_UNREACH, 0, {}); return; }
  if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
    auto a = ops(ev->getAggregateOperand()); unsigned skip = 0; Type *ct = ev->getAggregateOperand()->getType();
    for (unsigned ix : ev->indices()) { for (unsigned k = 0; k < ix; k++) skip += nslots(ct->isStructTy() ? ct->getStructElementType(k) : ct->getArrayElementType()); ct = ct->isStructTy() ? ct->getStructElementType(ix) : ct->getArrayElementType(); }
    int d = rg(&I); for (unsigned i = 0; i < nslots(T); i++) emit(I_MOV, d + i, {a[skip + i]}); return;
  }
  if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
    auto a = ops(iv->getAggregateOperand()), b = ops(iv->getInsertedValueOperand()); unsigned skip = 0; Type *ct = T;
    for (unsigned ix : iv->indices()) { for (unsigned k = 0; k < ix; k++) skip += nslots(ct->isStructTy() ? ct->getStructElementType(k) : ct->getArrayElementType()); ct = ct->isStructTy() ? ct->getStructElementType(ix) : ct->getArrayElementType(); }
    int d = rg(&I); for (unsigned i = 0; i < a.size(); i++) emit(I_MOV, d + i, {i >= skip && i < skip + b.size() ? b[i - skip] : a[i]}); return;
  }
  if (auto *ee = dyn_cast<ExtractElementInst>(&I)) {
    auto a = ops(ee->getVectorOperand()); int d = rg(&I);
    if (auto *ci = dyn_cast<ConstantInt>(ee->getIndexOperand())) { emit(I_MOV, d, {a[ci->getZExtValue()]}); return; }
    std::vector<int> o{op1(ee->getIndexOperand())}; o.insert(o.end(), a.begin(), a.end()); emitv(I_EXTDYN, d, o, bw(ee->getIndexOperand()->getType())); return;
  }
  if (auto *ie = dyn_cast<InsertElementInst>(&I)) {
    auto a = ops(ie->getOperand(0)); int v = op1(ie->getOperand(1)); int d = rg(&I);
    if (auto *ci = dyn_cast<ConstantInt>(ie->getOperand(2))) { for (size_t i = 0; i < a.size(); i++) emit(I_MOV, d + i, {i == ci->getZExtValue() ? v : a[i]}); return; }
    std::vector<int> o{op1(ie->getOperand(2)), v}; o.insert(o.end(), a.begin(), a.end()); emitv(I_INSDYN, d, o, bw(ie->getOperand(2)->getType())); return;
  }
  if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) {
    auto a = ops(sv->getOperand(0)), b = ops(sv->getOperand(1)); int d = rg(&I); auto mask = sv->getShuffleMask();
    for (size_t i = 0; i < mask.size(); i++) { int m = mask[i]; emit(I_MOV, d + i, {m < 0 ? cst(0) : m < (int)a.size() ? a[m] : b[m - a.size()]}); } return;
  }
  if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) { emit(I_ARMW, rg(&I), {op1(rm->getPointerOperand()), op1(rm->getValOperand())}, bw(T), rm->getOperation()); return; }
  if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) { emit(I_CAS, rg(&I), {op1(cx->getPointerOperand()), op1(cx->getCompareOperand()), op1(cx->getNewValOperand())}, bw(cx->getCompareOperand()->getType())); return; }
  if (isa<FenceInst>(&I)) return;
  if (auto *cb = dyn_cast<CallBase>(&I)) {
    if (auto *ii = dyn_cast<IntrinsicInst>(cb)) { intrin(*ii, ii->getIntrinsicID()); return; }
    if (cb->isInlineAsm()) { if (nslots(T) == 0) { emit(I_NOP, 0, {}); } else unsup(I, "inline asm"); }
    else {
      std::vector<int> o;
      Function *cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
      if (!cf) if (auto *ga = dyn_cast<GlobalAlias>(cb->getCalledOperand())) cf = dyn_cast<Function>(ga->getAliaseeObject());
      if (!cf) o.push_back(op1(cb->getCalledOperand()));
      for (auto &A : cb->args()) { auto x = ops(A.get()); o.insert(o.end(), x.begin(), x.end()); }
      int d = T->isVoidTy() ? -1 : rg(&I);
      emitv(I_CALL, d, o, nslots(T), cf ? 0 : 1, 0, cf ? (uint64_t)getFn(cf) : 0);
    }
    if (auto *iv = dyn_cast<InvokeInst>(cb)) emit(I_BR, 0, {}, 0, 0, 0, edge(I.getParent(), iv->getNormalDest()));
    return;
  }
  if (isa<LandingPadInst>(&I) || isa<ResumeInst>(&I)) { unsup(I, "unwind"); return; }
  unsup(I, "instruction");
}
void Compiler::intrin(IntrinsicInst &I, Intrinsic::ID id) {
  Type *T = I.getType();
  auto elem = [&](IOp op, unsigned sub, int nargs) {
    int d = rg(&I); unsigned n = nslots(T); std::vector<std::vector<int>> a; for (int k = 0; k < nargs; k++) a.push_back(ops(I.getArgOperand(k)));
    for (unsigned i = 0; i < n; i++) { std::vector<int> o; for (auto &x : a) o.push_back(x[i]); emitv(op, d + i, o, bw(T), sub); }
  };
  switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: case Intrinsic::memset: {
      std::vector<int> o{op1(I.getArgOperand(0)), op1(I.getArgOperand(1)), op1(I.getArgOperand(2))};
      static Fn *mc = nullptr, *mm = nullptr, *ms = nullptr;
      if (!mc) { auto mk = [&](int b, const char *n) { auto f = std::make_unique<Fn>(); f->builtin = b; f->name = f->dem = n; Fn *r = f.get(); FNS.push_back(std::move(f)); return r; }; mc = mk(B_MEMCPY, "memcpy"); mm = mk(B_MEMMOVE, "memmove"); ms = mk(B_MEMSET, "memset"); }
      emitv(I_CALL, -1, o, 0, 0, 0, (uint64_t)(id == Intrinsic::memset ? ms : id == Intrinsic::memmove ? mm : mc)); return;
    }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation: return;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: { auto a = ops(I.getArgOperand(0)); int d = rg(&I); for (size_t i = 0; i < a.size(); i++) emit(I_MOV, d + i, {a[i]}); return; }
    case Intrinsic::threadlocal_address: emit(I_MOV, rg(&I), {op1(I.getArgOperand(0))}); return;
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      int k = id == Intrinsic::uadd_with_overflow ? 0 : id == Intrinsic::sadd_with_overflow ? 1 : id == Intrinsic::usub_with_overflow ? 2 : id == Intrinsic::ssub_with_overflow ? 3 : id == Intrinsic::umul_with_overflow ? 4 : 5;
      if (T->getStructElementType(0)->isVectorTy()) { unsup(I, "vector ovf"); return; }
      emit(I_OVF, rg(&I), {op1(I.getArgOperand(0)), op1(I.getArgOperand(1))}, bw(I.getArgOperand(0)->getType()), k); return;
    }
    case Intrinsic::uadd_sat: elem(I_SAT, 0, 2); return; case Intrinsic::usub_sat: elem(I_SAT, 1, 2); return; case Intrinsic::sadd_sat: elem(I_SAT, 2, 2); return; case Intrinsic::ssub_sat: elem(I_SAT, 3, 2); return;
    case Intrinsic::umin: elem(I_MINMAX, 0, 2); return; case Intrinsic::umax: elem(I_MINMAX, 1, 2); return; case Intrinsic::smin: elem(I_MINMAX, 2, 2); return; case Intrinsic::smax: elem(I_MINMAX, 3, 2); return;
    case Intrinsic::bswap: elem(I_BSWAP, 0, 1); return; case Intrinsic::ctlz: elem(I_CTLZ, 0, 1); return; case Intrinsic::cttz: elem(I_CTTZ, 0, 1); return; case Intrinsic::ctpop: elem(I_CTPOP, 0, 1); return; case Intrinsic::bitreverse: elem(I_BITREV, 0, 1); return;
    case Intrinsic::fshl: elem(I_FSH, 0, 3); return; case Intrinsic::fshr: elem(I_FSH, 1, 3); return; case Intrinsic::abs: elem(I_ABS, 0, 1); return;
    case Intrinsic::is_fpclass: if (I.getArgOperand(0)->getType()->isFloatTy() || I.getArgOperand(0)->getType()->isDoubleTy()) { emit(I_FPCLASS, rg(&I), {op1(I.getArgOperand(0)), op1(I.getArgOperand(1))}, bw(I.getArgOperand(0)->getType())); return; } unsup(I, "fpclass"); return;
    case Intrinsic::load_relative: emit(I_RELOAD, rg(&I), {op1(I.getArgOperand(0)), op1(I.getArgOperand(1))}, 64); return;
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: emit(I_TRAP, 0, {}); return;
    case Intrinsic::is_constant: emit(I_MOV, rg(&I), {cst(0)}); return;
    case Intrinsic::objectsize: emit(I_MOV, rg(&I), {cst(~0ull)}); return;
    case Intrinsic::vector_reduce_add: emitv(I_REDUCE, rg(&I), ops(I.getArgOperand(0)), bw(T), ADD); return;
    case Intrinsic::vector_reduce_or: emitv(I_REDUCE, rg(&I), ops(I.getArgOperand(0)), bw(T), OR); return;
    case Intrinsic::vector_reduce_and: emitv(I_REDUCE, rg(&I), ops(I.getArgOperand(0)), bw(T), AND); return;
    case Intrinsic::vector_reduce_xor: emitv(I_REDUCE, rg(&I), ops(I.getArgOperand(0)), bw(T), XOR); return;
    default: unsup(I, "intrinsic"); return;
  }
}
static void ensure(Fn *f) { if (!f->compiled && !f->isDecl) { Compiler c; c.fn = f; c.compile(); } }

#include "interp.inc"
