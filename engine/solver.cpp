#include "solver.h"
#include <chrono>
#include <unistd.h>

std::vector<VarInfo> VARS;
std::vector<App> APPS;
Stats SS;
unsigned SOLVER_TIMEOUT_MS = 60000;

uint32_t newVars(uint32_t n, int app) {
  uint32_t r = VARS.size();
  for (uint32_t i = 0; i < n; i++) VARS.push_back({app, i});
  return r;
}

// ---- sha256 ----
static const uint32_t K[64] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
static inline uint32_t ror(uint32_t x, int n) { return x >> n | x << (32 - n); }
void sha256(const uint8_t *p, size_t n, uint8_t out[32]) {
  uint32_t h[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
  std::string m((const char *)p, n); m.push_back((char)0x80);
  while (m.size() % 64 != 56) m.push_back(0);
  for (int i = 7; i >= 0; i--) m.push_back((char)((uint64_t)n * 8 >> (8 * i)));
  for (size_t o = 0; o < m.size(); o += 64) {
    uint32_t w[64]; const uint8_t *q = (const uint8_t *)m.data() + o;
    for (int i = 0; i < 16; i++) w[i] = q[4*i] << 24 | q[4*i+1] << 16 | q[4*i+2] << 8 | q[4*i+3];
    for (int i = 16; i < 64; i++) { uint32_t a = w[i-15], b = w[i-2]; w[i] = w[i-16] + (ror(a,7)^ror(a,18)^a>>3) + w[i-7] + (ror(b,17)^ror(b,19)^b>>10); }
    uint32_t v[8]; memcpy(v, h, 32);
    for (int i = 0; i < 64; i++) {
      uint32_t t1 = v[7] + (ror(v[4],6)^ror(v[4],11)^ror(v[4],25)) + ((v[4]&v[5])^(~v[4]&v[6])) + K[i] + w[i];
      uint32_t t2 = (ror(v[0],2)^ror(v[0],13)^ror(v[0],22)) + ((v[0]&v[1])^(v[0]&v[2])^(v[1]&v[2]));
      v[7]=v[6];v[6]=v[5];v[5]=v[4];v[4]=v[3]+t1;v[3]=v[2];v[2]=v[1];v[1]=v[0];v[0]=t1+t2;
    }
    for (int i = 0; i < 8; i++) h[i] += v[i];
  }
  for (int i = 0; i < 8; i++) { out[4*i]=h[i]>>24; out[4*i+1]=h[i]>>16; out[4*i+2]=h[i]>>8; out[4*i+3]=h[i]; }
}
void prf(uint32_t tag, const std::string &in, uint32_t outlen, uint8_t *out) {
  uint8_t d[32];
  if (tag == 2 && outlen == 32) { sha256((const uint8_t *)in.data(), in.size(), out); return; }
  for (uint32_t o = 0, c = 0; o < outlen; o += 32, c++) {
    std::string s = "prf"; s.append((char *)&tag, 4); s.append((char *)&outlen, 4); s.append((char *)&c, 4); s += in;
    sha256((const uint8_t *)s.data(), s.size(), d);
    memcpy(out + o, d, std::min<uint32_t>(32, outlen - o));
  }
}

// ---- applications ----
static std::map<std::vector<uint32_t>, uint32_t> appIdx;
uint32_t getApp(uint32_t tag, const std::vector<E> &in, uint32_t outlen, bool symOut) {
  std::vector<uint32_t> key; key.reserve(in.size() + 3);
  key.push_back(tag); key.push_back(outlen); key.push_back(symOut);
  for (E e : in) key.push_back(e->id);
  auto it = appIdx.find(key);
  if (it != appIdx.end()) return it->second;
  uint32_t id = APPS.size();
  App a; a.tag = tag; a.in = in; a.outlen = outlen; a.concIn = true; a.symOut = symOut;
  for (E e : in) if (!isC(e)) { a.concIn = false; break; }
  if (a.concIn && !symOut) {
    std::string s; for (E e : in) s.push_back((char)e->v);
    std::vector<uint8_t> o(outlen); prf(tag, s, outlen, o.data());
    for (uint8_t b : o) a.out.push_back(mkconst(8, b));
    a.var0 = ~0u;
  } else {
    a.symOut = true;
    a.var0 = newVars(outlen, id);
    for (uint32_t i = 0; i < outlen; i++) a.out.push_back(mkvar(8, a.var0 + i));
  }
  APPS.push_back(std::move(a));
  appIdx[key] = id;
  return id;
}

// ---- evaluation ----
static uint64_t memoModel = 0;
static std::vector<u128> memoVal; static std::vector<uint32_t> memoEp; static uint32_t curEp = 0;
static std::vector<std::string> appVal; static std::vector<uint32_t> appEp;

static const std::string &evalApp(const Model &m, uint32_t ai);
static u128 ev(const Model &m, E e) {
  if (e->op == CONST) return e->v;
  if (e->id < memoEp.size() && memoEp[e->id] == curEp) return memoVal[e->id];
  u128 r = 0;
  switch (e->op) {
    case VAR: {
      uint32_t v = (uint32_t)e->v; const VarInfo &vi = VARS[v];
      if (vi.app >= 0) r = (uint8_t)evalApp(m, vi.app)[vi.byte];
      else r = v < m.vals.size() && m.vals[v] >= 0 ? m.vals[v] : 0;
      break;
    }
    case EQ: r = ev(m, e->a) == ev(m, e->b); break;
    case ULT: r = ev(m, e->a) < ev(m, e->b); break;
    case SLT: r = sx128(ev(m, e->a), e->a->w) < sx128(ev(m, e->b), e->b->w); break;
    case ITE: r = ev(m, e->a) ? ev(m, e->b) : ev(m, e->c); break;
    case CONCAT: r = ev(m, e->a) << e->b->w | ev(m, e->b); break;
    case EXTRACT: r = (ev(m, e->a) >> e->lo) & maskw(e->w); break;
    case ZEXT: r = ev(m, e->a); break;
    case SEXT: r = (u128)sx128(ev(m, e->a), e->a->w) & maskw(e->w); break;
    default: r = foldbin(e->op, e->w, ev(m, e->a), ev(m, e->b));
  }
  if (e->id >= memoEp.size()) { size_t n = ET.byId.size() + 1024; memoEp.resize(n, 0); memoVal.resize(n); }
  memoEp[e->id] = curEp; memoVal[e->id] = r;
  return r;
}
static void useModel(const Model &m) { if (memoModel != m.id) { memoModel = m.id; curEp++; } }
static const std::string &evalApp(const Model &m, uint32_t ai) {
  if (ai >= appEp.size()) { appEp.resize(APPS.size() + 64, 0); appVal.resize(APPS.size() + 64); }
  if (appEp[ai] == curEp) return appVal[ai];
  std::string in; const size_t n = APPS[ai].in.size();
  for (size_t i = 0; i < n; i++) in.push_back((char)(uint8_t)ev(m, APPS[ai].in[i]));
  uint32_t tag = APPS[ai].tag, outlen = APPS[ai].outlen;
  std::string o;
  auto it = m.uf.find({tag, in});
  if (it != m.uf.end() && it->second.size() == outlen) o = it->second;
  else { o.resize(outlen); prf(tag, in, outlen, (uint8_t *)&o[0]); }
  if (ai >= appEp.size()) { appEp.resize(APPS.size() + 64, 0); appVal.resize(APPS.size() + 64); }
  appEp[ai] = curEp; appVal[ai] = o;
  return appVal[ai];
}
u128 evalE(const Model &m, E e) { useModel(m); return ev(m, e); }
uint8_t evalVar(const Model &m, uint32_t v) { return (uint8_t)evalE(m, mkvar(8, v)); }

// ---- variable sets ----
static std::unordered_map<uint32_t, std::vector<uint32_t>> varMemo;
static std::vector<uint32_t> seenEp; static uint32_t seenCur = 0;
const std::vector<uint32_t> &varsOf(E e) {
  auto it = varMemo.find(e->id);
  if (it != varMemo.end()) return it->second;
  if (seenEp.size() < ET.byId.size()) seenEp.resize(ET.byId.size() + 1024, 0);
  seenCur++;
  std::vector<uint32_t> r; std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back(); st.pop_back();
    if (x->op == CONST || seenEp[x->id] == seenCur) continue;
    seenEp[x->id] = seenCur;
    if (x->op == VAR) { r.push_back((uint32_t)x->v); continue; }
    if (x->a) st.push_back(x->a);
    if (x->b) st.push_back(x->b);
    if (x->c) st.push_back(x->c);
  }
  std::sort(r.begin(), r.end());
  return varMemo[e->id] = r;
}

// ---- axioms: (in_i == in_j) <=> (out_i == out_j) ----
static std::unordered_map<uint64_t, E> axMemo;
static E axiom(uint32_t i, uint32_t j) {
  if (i > j) std::swap(i, j);
  auto it = axMemo.find((uint64_t)i << 32 | j);
  if (it != axMemo.end()) return it->second;
  const App &a = APPS[i], &b = APPS[j];
  E ine, oute;
  if (a.in.size() != b.in.size()) ine = mkfalse();
  else { ine = mktrue(); for (size_t k = 0; k < a.in.size() && !isC(ine, 0); k++) ine = mkand1(ine, mkeq(a.in[k], b.in[k])); }
  if (a.outlen != b.outlen) { return axMemo[(uint64_t)i << 32 | j] = mktrue(); }
  oute = mktrue();
  for (size_t k = 0; k < a.outlen && !isC(oute, 0); k++) oute = mkand1(oute, mkeq(a.out[k], b.out[k]));
  return axMemo[(uint64_t)i << 32 | j] = mkeq(ine, oute);
}

// ---- Z3 ----
static Z3_context C; static bool zinit = false;
static std::vector<Z3_ast> zmemo; static size_t zcount = 0;
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(70); }
static void zstart() {
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  C = Z3_mk_context_rc(cfg); Z3_del_config(cfg); Z3_set_error_handler(C, zerr);
  zmemo.clear(); zcount = 0; zinit = true;
}
// with a reference-counted context every intermediate result must be kept
static Z3_ast ZK(Z3_ast a) { Z3_inc_ref(C, a); return a; }
static Z3_sort ZKS(Z3_sort a) { Z3_inc_ref(C, Z3_sort_to_ast(C, a)); return a; }
static Z3_ast b2v(Z3_ast b) { // Bool -> BV1
  Z3_ast one = ZK(Z3_mk_unsigned_int64(C, 1, ZKS(Z3_mk_bv_sort(C, 1)))), zero = ZK(Z3_mk_unsigned_int64(C, 0, ZKS(Z3_mk_bv_sort(C, 1))));
  return ZK(Z3_mk_ite(C, b, one, zero));
}
// Width-1 terms are translated to Bool, everything else to BV.
static Z3_ast tr(E e);
static Z3_ast trBV(E e) { Z3_ast a = tr(e); if (e->w == 1) a = b2v(a); return a; }
static Z3_ast v2b(Z3_ast v) { return ZK(Z3_mk_eq(C, v, ZK(Z3_mk_unsigned_int64(C, 1, ZKS(Z3_mk_bv_sort(C, 1)))))); }
static Z3_ast tr(E e) {
  if (e->id < zmemo.size() && zmemo[e->id]) return zmemo[e->id];
  Z3_ast r = nullptr; bool b1 = e->w == 1;
  switch (e->op) {
    case CONST:
      if (b1) r = e->v ? ZK(Z3_mk_true(C)) : ZK(Z3_mk_false(C));
      else if (e->w <= 64) r = ZK(Z3_mk_unsigned_int64(C, (uint64_t)e->v, ZKS(Z3_mk_bv_sort(C, e->w))));
      else r = ZK(Z3_mk_concat(C, ZK(Z3_mk_unsigned_int64(C, (uint64_t)(e->v >> 64), ZKS(Z3_mk_bv_sort(C, e->w - 64)))), ZK(Z3_mk_unsigned_int64(C, (uint64_t)e->v, ZKS(Z3_mk_bv_sort(C, 64))))));
      break;
    case VAR: { char n[32]; snprintf(n, 32, "v%u", (unsigned)e->v); r = ZK(Z3_mk_const(C, Z3_mk_string_symbol(C, n), ZKS(Z3_mk_bv_sort(C, e->w)))); break; }
    case EQ: r = ZK(Z3_mk_eq(C, tr(e->a), tr(e->b))); break;
    case ULT: r = ZK(Z3_mk_bvult(C, trBV(e->a), trBV(e->b))); break;
    case SLT: r = ZK(Z3_mk_bvslt(C, trBV(e->a), trBV(e->b))); break;
    case ITE: r = ZK(Z3_mk_ite(C, tr(e->a), tr(e->b), tr(e->c))); break;
    case CONCAT: r = ZK(Z3_mk_concat(C, trBV(e->a), trBV(e->b))); break;
    case EXTRACT: r = ZK(Z3_mk_extract(C, e->lo + e->w - 1, e->lo, trBV(e->a))); if (b1) r = v2b(r); break;
    case ZEXT: r = ZK(Z3_mk_zero_ext(C, e->w - e->a->w, trBV(e->a))); break;
    case SEXT: r = ZK(Z3_mk_sign_ext(C, e->w - e->a->w, trBV(e->a))); break;
    case AND: if (b1) { Z3_ast x[2] = {tr(e->a), tr(e->b)}; r = ZK(Z3_mk_and(C, 2, x)); } else r = ZK(Z3_mk_bvand(C, tr(e->a), tr(e->b))); break;
    case OR: if (b1) { Z3_ast x[2] = {tr(e->a), tr(e->b)}; r = ZK(Z3_mk_or(C, 2, x)); } else r = ZK(Z3_mk_bvor(C, tr(e->a), tr(e->b))); break;
    case XOR: r = b1 ? (isC(e->b, 1) ? ZK(Z3_mk_not(C, tr(e->a))) : ZK(Z3_mk_xor(C, tr(e->a), tr(e->b)))) : ZK(Z3_mk_bvxor(C, tr(e->a), tr(e->b))); break;
    default: {
      Z3_ast a = trBV(e->a), b = trBV(e->b);
      switch (e->op) {
        case ADD: r = ZK(Z3_mk_bvadd(C, a, b)); break; case SUB: r = ZK(Z3_mk_bvsub(C, a, b)); break; case MUL: r = ZK(Z3_mk_bvmul(C, a, b)); break;
        case UDIV: r = ZK(Z3_mk_bvudiv(C, a, b)); break; case SDIV: r = ZK(Z3_mk_bvsdiv(C, a, b)); break;
        case UREM: r = ZK(Z3_mk_bvurem(C, a, b)); break; case SREM: r = ZK(Z3_mk_bvsrem(C, a, b)); break;
        case SHL: r = ZK(Z3_mk_bvshl(C, a, b)); break; case LSHR: r = ZK(Z3_mk_bvlshr(C, a, b)); break; case ASHR: r = ZK(Z3_mk_bvashr(C, a, b)); break;
        default: abort();
      }
      if (b1) r = v2b(r);
    }
  }
  if (e->id >= zmemo.size()) zmemo.resize(ET.byId.size() + 1024, nullptr);
  zmemo[e->id] = r; zcount++;
  return r;
}

struct QRes { SatRes r; std::vector<std::pair<uint32_t, uint8_t>> vals; };
struct VH { size_t operator()(const std::vector<uint32_t> &v) const { uint64_t h = v.size(); for (uint32_t x : v) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; } return h; } };
static std::unordered_map<std::vector<uint32_t>, QRes, VH> qcache;

static QRes rawSolve(std::vector<E> &cs) {
  std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
  cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  std::vector<uint32_t> key;
  for (E e : cs) { if (isC(e, 0)) { return {R_UNSAT, {}}; } if (!isC(e)) key.push_back(e->id); }
  auto it = qcache.find(key);
  if (it != qcache.end()) { SS.cacheHits++; return it->second; }
  if (zcount > 3000000 && zinit) { Z3_del_context(C); zinit = false; }
  if (!zinit) zstart();
  auto t0 = std::chrono::steady_clock::now();
  Z3_solver s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV")); Z3_solver_inc_ref(C, s);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), SOLVER_TIMEOUT_MS);
  Z3_solver_set_params(C, s, p);
  std::set<uint32_t> vs;
  for (E e : cs) { if (isC(e)) continue; Z3_solver_assert(C, s, tr(e)); for (uint32_t v : varsOf(e)) vs.insert(v); }
  Z3_lbool r = Z3_solver_check(C, s);
  SS.z3calls++;
  QRes q;
  if (r == Z3_L_FALSE) q.r = R_UNSAT;
  else if (r == Z3_L_UNDEF) q.r = R_UNKNOWN;
  else {
    q.r = R_SAT;
    Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m);
    for (uint32_t v : vs) {
      Z3_ast o; Z3_ast t = tr(mkvar(8, v));
      if (!Z3_model_eval(C, m, t, true, &o)) { q.r = R_UNKNOWN; break; }
      uint64_t x = 0; if (!Z3_get_numeral_uint64(C, o, &x)) { q.r = R_UNKNOWN; break; }
      q.vals.push_back({v, (uint8_t)x});
    }
    Z3_model_dec_ref(C, m);
  }
  Z3_params_dec_ref(C, p); Z3_solver_dec_ref(C, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  SS.z3time += dt; if (dt > SS.maxq) SS.maxq = dt;
  if (qcache.size() > 200000) qcache.clear();
  qcache[key] = q;
  return q;
}

static uint64_t modelIds = 1;
static std::shared_ptr<Model> rebase(const ModelP &base, const QRes &q) {
  auto m = std::make_shared<Model>();
  m->id = ++modelIds;
  if (base) { m->vals = base->vals; m->uf = base->uf; }
  std::map<uint32_t, std::vector<std::pair<uint32_t, uint8_t>>> byApp;
  for (auto &p : q.vals) {
    if (VARS[p.first].app >= 0) { byApp[VARS[p.first].app].push_back({VARS[p.first].byte, p.second}); continue; }
    if (p.first >= m->vals.size()) m->vals.resize(p.first + 1, -1);
    m->vals[p.first] = p.second;
  }
  for (auto &ab : byApp) {   // creation order: inputs refer to earlier applications only
    m->id = ++modelIds;        // invalidate evaluation memo
    std::string in; for (E e : APPS[ab.first].in) in.push_back((char)(uint8_t)evalE(*m, e));
    auto k = std::make_pair(APPS[ab.first].tag, in);
    std::string o;
    auto it = m->uf.find(k);
    if (it != m->uf.end()) o = it->second;
    else { o.resize(APPS[ab.first].outlen); prf(APPS[ab.first].tag, in, o.size(), (uint8_t *)&o[0]); }
    for (auto &bv : ab.second) o[bv.first] = (char)bv.second;
    m->uf[k] = o;
  }
  m->id = ++modelIds;
  return m;
}

// ---- model repair: a satisfying assignment is often one small change away.
// A candidate only counts after every path constraint evaluated to true under it.
static bool setTo(Model &m, const Model &base, E e, u128 t) {
  t &= maskw(e->w);
  switch (e->op) {
    case CONST: return e->v == t;
    case VAR: { uint32_t v = (uint32_t)e->v; if (VARS[v].app >= 0) return false; if (v >= m.vals.size()) m.vals.resize(v + 1, -1); m.vals[v] = (int)(uint8_t)t; return true; }
    case CONCAT: return setTo(m, base, e->a, t >> e->b->w) && setTo(m, base, e->b, t & maskw(e->b->w));
    case ZEXT: return (t >> e->a->w) == 0 && setTo(m, base, e->a, t);
    case SEXT: { u128 lo = t & maskw(e->a->w); return ((u128)sx128(lo, e->a->w) & maskw(e->w)) == t && setTo(m, base, e->a, lo); }
    case EXTRACT: { u128 c = evalE(base, e->a); u128 k = maskw(e->w) << e->lo; return setTo(m, base, e->a, (c & ~k) | (t << e->lo)); }
    case XOR: return isC(e->a) ? setTo(m, base, e->b, t ^ e->a->v) : setTo(m, base, e->a, t ^ evalE(base, e->b));
    case ADD: return isC(e->a) ? setTo(m, base, e->b, t - e->a->v) : setTo(m, base, e->a, t - evalE(base, e->b));
    case SUB: return isC(e->a) ? setTo(m, base, e->b, e->a->v - t) : setTo(m, base, e->a, t + evalE(base, e->b));
    case AND: { E x = isC(e->a) ? e->b : e->a, k = isC(e->a) ? e->a : e->b; u128 kv = evalE(base, k); if (t & ~kv) return false; return setTo(m, base, x, (evalE(base, x) & ~kv) | t); }
    case OR: { E x = isC(e->a) ? e->b : e->a, k = isC(e->a) ? e->a : e->b; u128 kv = evalE(base, k); if ((t & kv) != kv) return false; return setTo(m, base, x, t); }
    case SHL: { if (!isC(e->b) || e->b->v >= e->w) return false; unsigned n = (unsigned)e->b->v; if (t & maskw(n)) return n == 0 ? setTo(m, base, e->a, t) : false; return setTo(m, base, e->a, t >> n); }
    case LSHR: { if (!isC(e->b) || e->b->v >= e->w) return false; unsigned n = (unsigned)e->b->v; u128 c = evalE(base, e->a); return setTo(m, base, e->a, ((t << n) & maskw(e->w)) | (n ? (c & maskw(n)) : 0)); }
    case ITE: return evalE(base, e->a) ? setTo(m, base, e->b, t) : setTo(m, base, e->c, t);
    default: return false;
  }
}
static bool satisfy(Model &m, const Model &base, E c, bool val, int alt) {
  switch (c->op) {
    case CONST: return (c->v != 0) == val;
    case XOR: if (isC(c->b, 1)) return satisfy(m, base, c->a, !val, alt); return false;
    case AND: if (val) return satisfy(m, base, c->a, true, alt) && satisfy(m, base, c->b, true, alt); return satisfy(m, base, alt & 1 ? c->a : c->b, false, alt >> 1);
    case OR: if (!val) return satisfy(m, base, c->a, false, alt) && satisfy(m, base, c->b, false, alt); return satisfy(m, base, alt & 1 ? c->a : c->b, true, alt >> 1);
    case EQ: {
      if (c->a->w == 1 && isC(c->b)) return satisfy(m, base, c->a, (c->b->v != 0) == val, alt);
      E x = c->a, y = c->b; if (alt & 1) std::swap(x, y); if (isC(x)) std::swap(x, y);
      u128 t = evalE(base, y); if (!val) t ^= 1; return setTo(m, base, x, t);
    }
    case ULT: case SLT: {
      u128 mx = c->op == ULT ? maskw(c->a->w) : maskw(c->a->w - 1), mn = c->op == ULT ? 0 : (u128)1 << (c->a->w - 1);
      u128 av = evalE(base, c->a), bv = evalE(base, c->b);
      if (val) { if (!isC(c->a) && (isC(c->b) || !(alt & 1))) return setTo(m, base, c->a, alt & 2 ? mn : bv - 1); return setTo(m, base, c->b, alt & 2 ? mx : av + 1); }
      if (!isC(c->a) && (isC(c->b) || !(alt & 1))) return setTo(m, base, c->a, alt & 2 ? mx : bv); return setTo(m, base, c->b, alt & 2 ? mn : av);
    }
    default: return false;
  }
}
static bool repair(const std::vector<E> &pc, E cond, const ModelP &base, ModelP &out) {
  if (!base) return false;
  for (int alt = 0; alt < 4; alt++) {
    auto m = std::make_shared<Model>(); m->vals = base->vals; m->uf = base->uf; m->id = ++modelIds;
    if (!satisfy(*m, *base, cond, true, alt)) continue;
    if (m->vals == base->vals) continue;
    if (!evalE(*m, cond)) continue;
    bool ok = true;
    for (size_t i = pc.size(); ok && i-- > 0;) ok = evalE(*m, pc[i]) != 0;
    if (ok) { out = m; return true; }
  }
  return false;
}

SatRes solve(const std::vector<E> &pc, E cond, const std::vector<uint32_t> &apps, const ModelP &base, ModelP &out) {
  SS.queries++;
  if (repair(pc, cond, base, out)) { SS.sat++; SS.repaired++; return R_SAT; }
  for (int full = 0; full < 2; full++) {
    if (full) SS.fullQueries++;
    std::vector<E> cs{cond};
    std::unordered_set<uint32_t> vs; std::vector<uint32_t> work;
    std::vector<char> used(pc.size(), 0);
    std::set<uint32_t> act; // active symbolic applications
    auto addv = [&](E e) { for (uint32_t v : varsOf(e)) if (vs.insert(v).second) work.push_back(v); };
    addv(cond);
    // variables of all constraints, for "same-tag" activation
    if (full) for (size_t i = 0; i < pc.size(); i++) { used[i] = 1; cs.push_back(pc[i]); addv(pc[i]); }
    std::map<uint32_t, std::vector<uint32_t>> pcApps; // tag -> apps whose outputs occur in pc
    bool pcAppsDone = false;
    bool changed = true; size_t wi = 0; std::set<uint32_t> tagsDone;
    while (changed) {
      changed = false;
      for (; wi < work.size(); wi++) { int a = VARS[work[wi]].app; if (a >= 0) act.insert(a); }
      // pull in constraints sharing a variable
      for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
        for (uint32_t v : varsOf(pc[i])) if (vs.count(v)) { used[i] = 1; cs.push_back(pc[i]); addv(pc[i]); changed = true; break; }
      }
      // applications of an active tag whose outputs are constrained elsewhere
      std::set<uint32_t> tags; for (uint32_t a : act) tags.insert(APPS[a].tag);
      for (uint32_t t : tags) if (tagsDone.insert(t).second) {
        if (!pcAppsDone) { pcAppsDone = true; for (E e : pc) for (uint32_t v : varsOf(e)) if (VARS[v].app >= 0) pcApps[APPS[VARS[v].app].tag].push_back(VARS[v].app); }
        for (uint32_t a : pcApps[t]) if (act.insert(a).second) changed = true;
      }
      // axioms
      std::vector<uint32_t> av(act.begin(), act.end());
      for (size_t i = 0; i < av.size(); i++) {
        for (size_t j = i + 1; j < av.size(); j++) if (APPS[av[i]].tag == APPS[av[j]].tag) {
          E ax = axiom(av[i], av[j]); if (isC(ax, 1)) continue;
          size_t n = work.size(); cs.push_back(ax); addv(ax); if (work.size() != n) changed = true;
        }
        for (uint32_t k : apps) if (APPS[k].var0 == ~0u && APPS[k].tag == APPS[av[i]].tag) {
          E ax = axiom(av[i], k); if (isC(ax, 1)) continue;
          size_t n = work.size(); cs.push_back(ax); addv(ax); if (work.size() != n) changed = true;
        }
      }
      std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
      cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
      if (wi < work.size()) changed = true;
    }
    QRes q = rawSolve(cs);
    if (q.r == R_UNSAT) { SS.unsat++; return R_UNSAT; }
    if (q.r == R_UNKNOWN) { SS.unknown++; return R_UNKNOWN; }
    auto m = rebase(base, q);
    bool ok = evalE(*m, cond) != 0;
    for (size_t i = 0; ok && i < pc.size(); i++) ok = evalE(*m, pc[i]) != 0;
    if (ok) { SS.sat++; out = m; return R_SAT; }
  }
  SS.unknown++;
  return R_UNKNOWN;
}
