#include "expr.h"
ExprTable ET;

E mkvar(unsigned w, uint32_t num) { return mkraw(VAR, w, nullptr, nullptr, nullptr, 0, num); }

u128 foldbin(Op op, unsigned w, u128 a, u128 b) {
  u128 m = maskw(w); a &= m; b &= m;
  switch (op) {
    case ADD: return (a + b) & m;
    case SUB: return (a - b) & m;
    case MUL: return (a * b) & m;
    case UDIV: return b ? a / b : m;
    case UREM: return b ? a % b : a;
    case SDIV: { s128 x = sx128(a, w), y = sx128(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
    case SREM: { s128 x = sx128(a, w), y = sx128(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case AND: return a & b;
    case OR: return a | b;
    case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case LSHR: return b >= w ? 0 : (a >> (unsigned)b);
    case ASHR: { s128 x = sx128(a, w); unsigned k = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> k) & m; }
    default: abort();
  }
}

E mkextract(E x, unsigned lo, unsigned w) {
  assert(lo + w <= x->w && w > 0);
  if (lo == 0 && w == x->w) return x;
  switch (x->op) {
    case CONST: return mkconst(w, x->v >> lo);
    case EXTRACT: return mkextract(x->a, x->lo + lo, w);
    case CONCAT: {
      unsigned lw = x->b->w;
      if (lo + w <= lw) return mkextract(x->b, lo, w);
      if (lo >= lw) return mkextract(x->a, lo - lw, w);
      return mkconcat(mkextract(x->a, 0, lo + w - lw), mkextract(x->b, lo, lw - lo));
    }
    case ZEXT: {
      unsigned iw = x->a->w;
      if (lo >= iw) return mkconst(w, 0);
      if (lo + w <= iw) return mkextract(x->a, lo, w);
      return mkzext(mkextract(x->a, lo, iw - lo), w);
    }
    case SEXT: {
      unsigned iw = x->a->w;
      if (lo + w <= iw) return mkextract(x->a, lo, w);
      if (lo < iw) return mksext(mkextract(x->a, lo, iw - lo), w);
      return mksext(mkextract(x->a, iw - 1, 1), w);
    }
    case AND: case OR: case XOR: return mkbin(x->op, mkextract(x->a, lo, w), mkextract(x->b, lo, w));
    case ADD: case SUB: case MUL:
      if (lo == 0) return mkbin(x->op, mkextract(x->a, 0, w), mkextract(x->b, 0, w));
      break;
    case ITE: return mkite(x->a, mkextract(x->b, lo, w), mkextract(x->c, lo, w));
    default: break;
  }
  return mkraw(EXTRACT, w, x, nullptr, nullptr, lo);
}

E mkconcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  assert(w <= 128);
  if (isC(hi) && isC(lo)) return mkconst(w, hi->v << lo->w | lo->v);
  if (isC(hi, 0)) return mkzext(lo, w);
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && hi->lo == lo->lo + lo->w) return mkextract(hi->a, lo->lo, w);
  // hi:extract(x), lo == x's low part taken whole
  if (hi->op == EXTRACT && hi->a == lo && false) return nullptr;
  // right-nested concat: hi ++ (l1 ++ l2): try to merge hi with l1
  if (lo->op == CONCAT) {
    E h = hi, l1 = lo->a;
    if ((h->op == EXTRACT && l1->op == EXTRACT && h->a == l1->a && h->lo == l1->lo + l1->w) || (isC(h) && isC(l1)))
      return mkconcat(mkconcat(h, l1), lo->b);
  }
  if (hi->op == CONCAT) return mkconcat(hi->a, mkconcat(hi->b, lo)); // keep right-nested
  if (hi->op == ZEXT) return mkzext(mkconcat(hi->a, lo), w);
  if (hi->op == XOR && lo->op == XOR) {
    // distribute so that xor-masked words keep one shape
  }
  return mkraw(CONCAT, w, hi, lo);
}

E mkzext(E x, unsigned w) {
  assert(w >= x->w && w <= 128);
  if (w == x->w) return x;
  if (isC(x)) return mkconst(w, x->v);
  if (x->op == ZEXT) return mkzext(x->a, w);
  if (x->op == ITE && isC(x->b) && isC(x->c)) return mkite(x->a, mkconst(w, x->b->v), mkconst(w, x->c->v));
  return mkraw(ZEXT, w, x);
}
E mksext(E x, unsigned w) {
  assert(w >= x->w && w <= 128);
  if (w == x->w) return x;
  if (isC(x)) return mkconst(w, (u128)sx128(x->v, x->w));
  if (x->op == ZEXT) return mkzext(x->a, w);
  if (x->op == SEXT) return mksext(x->a, w);
  if (x->op == ITE && isC(x->b) && isC(x->c)) return mkite(x->a, mksext(x->b, w), mksext(x->c, w));
  return mkraw(SEXT, w, x);
}

E mknot(E x) {
  assert(x->w == 1);
  if (isC(x)) return mkconst(1, !x->v);
  if (x->op == XOR && isC(x->b, 1)) return x->a;
  return mkraw(XOR, 1, x, mkconst(1, 1));
}

static bool isNot(E x) { return x->w == 1 && x->op == XOR && isC(x->b, 1); }

// (x concat 0_k) with zext(y), y <= k bits: or, xor and add all put the two side by side
static unsigned lowzeros(E x) {
  if (x->op == ZEXT) x = x->a;
  if (x->op != CONCAT) return 0;
  while (x->op == CONCAT) x = x->b;
  return isC(x, 0) ? x->w : 0;
}
static unsigned hiwidth(E x) { if (x->op == ZEXT) return x->a->w; if (isC(x)) { unsigned n = 0; while (n < x->w && (x->v >> n)) n++; return n; } return x->w; }
static E disjoint(E a, E b) {
  unsigned w = a->w;
  for (int k = 0; k < 2; k++) {
    unsigned z = lowzeros(a), h = hiwidth(b);
    if (z && h && h <= z && z < w) return mkconcat(mkextract(a, z, w - z), mkextract(b, 0, z));
    std::swap(a, b);
  }
  return nullptr;
}

E mkbin(Op op, E a, E b) {
  unsigned w = a->w;
  assert(a->w == b->w);
  if (isC(a) && isC(b)) return mkconst(w, foldbin(op, w, a->v, b->v));
  bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR;
  if (comm && isC(a)) std::swap(a, b);
  u128 m = maskw(w);
  switch (op) {
    case ADD:
      if (isC(b, 0)) return a;
      if (isC(b) && a->op == ADD && isC(a->b)) return mkbin(ADD, a->a, mkconst(w, a->b->v + b->v));
      if (isC(b) && a->op == ITE && isC(a->b) && isC(a->c)) return mkite(a->a, mkbin(ADD, a->b, b), mkbin(ADD, a->c, b));
      if (!isC(b)) if (E r = disjoint(a, b)) return r;
      break;
    case SUB:
      if (a == b) return mkconst(w, 0);
      if (isC(b)) return mkbin(ADD, a, mkconst(w, -b->v));
      if (a->op == ADD && a->a == b) return a->b;
      if (a->op == ADD && a->b == b) return a->a;
      break;
    case MUL:
      if (isC(b, 0)) return b;
      if (isC(b, 1)) return a;
      if (isC(b) && (b->v & (b->v - 1)) == 0) { unsigned k = 0; while (((b->v >> k) & 1) == 0) k++; return mkbin(SHL, a, mkconst(w, k)); }
      break;
    case AND: {
      if (isC(b, 0)) return b;
      if (isC(b, m)) return a;
      if (a == b) return a;
      if (w == 1) {
        if (mknot(a) == b) return mkconst(1, 0);
        if (a->op == AND && (a->a == b || a->b == b)) return a;
        if (b->op == AND && (b->a == a || b->b == a)) return b;
        if (a->id > b->id) std::swap(a, b);
        break;
      }
      if (isC(b)) {
        if (a->op == AND && isC(a->b)) return mkbin(AND, a->a, mkconst(w, a->b->v & b->v));
        // contiguous mask -> extract
        u128 v = b->v; unsigned lo = 0; while (!((v >> lo) & 1)) lo++;
        u128 t = v >> lo; if ((t & (t + 1)) == 0) {
          unsigned n = 0; while (n < 128 && ((t >> n) & 1)) n++;
          E x = mkextract(a, lo, n);
          if (lo) x = mkconcat(x, mkconst(lo, 0));
          return mkzext(x, w);
        }
        if (a->op == ZEXT) return mkzext(mkbin(AND, a->a, mkconst(a->a->w, b->v)), w);
      }
      break;
    }
    case OR: {
      if (isC(b, 0)) return a;
      if (isC(b, m)) return b;
      if (a == b) return a;
      if (w == 1) {
        if (mknot(a) == b) return mkconst(1, 1);
        if (a->id > b->id) std::swap(a, b);
        break;
      }
      if (E r = disjoint(a, b)) return r;
      break;
    }
    case XOR:
      if (isC(b, 0)) return a;
      if (a == b) return mkconst(w, 0);
      if (a->op == XOR) {
        if (a->a == b) return a->b;
        if (a->b == b) return a->a;
        if (isC(b) && isC(a->b)) return mkbin(XOR, a->a, mkconst(w, a->b->v ^ b->v));
        if (b->op == XOR) {
          if (a->a == b->a) return mkbin(XOR, a->b, b->b);
          if (a->a == b->b) return mkbin(XOR, a->b, b->a);
          if (a->b == b->a) return mkbin(XOR, a->a, b->b);
          if (a->b == b->b) return mkbin(XOR, a->a, b->a);
        }
        if (isC(a->b) && !isC(b)) return mkbin(XOR, mkbin(XOR, a->a, b), a->b);
      }
      if (b->op == XOR) {
        if (b->a == a) return b->b;
        if (b->b == a) return b->a;
        if (isC(b->b)) return mkbin(XOR, mkbin(XOR, a, b->a), b->b);
      }
      if (w > 1 && !isC(b)) if (E r = disjoint(a, b)) return r;
      if (!isC(b) && a->id > b->id) std::swap(a, b);
      break;
    case SHL:
      if (isC(b)) {
        if (b->v == 0) return a;
        if (b->v >= w) return mkconst(w, 0);
        unsigned k = (unsigned)b->v;
        return mkconcat(mkextract(a, 0, w - k), mkconst(k, 0));
      }
      break;
    case LSHR:
      if (isC(b)) {
        if (b->v == 0) return a;
        if (b->v >= w) return mkconst(w, 0);
        unsigned k = (unsigned)b->v;
        return mkzext(mkextract(a, k, w - k), w);
      }
      break;
    case ASHR:
      if (isC(b)) {
        if (b->v == 0) return a;
        unsigned k = b->v >= w ? w - 1 : (unsigned)b->v;
        return mksext(mkextract(a, k, w - k), w);
      }
      break;
    case UDIV: if (isC(b) && b->v && (b->v & (b->v - 1)) == 0) { unsigned k = 0; while (((b->v >> k) & 1) == 0) k++; return mkbin(LSHR, a, mkconst(w, k)); } break;
    case UREM: if (isC(b) && b->v && (b->v & (b->v - 1)) == 0) return mkbin(AND, a, mkconst(w, b->v - 1)); break;
    default: break;
  }
  return mkraw(op, w, a, b);
}

E mkeq(E a, E b) {
  assert(a->w == b->w);
  if (a == b) return mktrue();
  if (isC(a) && isC(b)) return mkconst(1, a->v == b->v);
  if (isC(a)) std::swap(a, b);
  unsigned w = a->w;
  if (w == 1) {
    if (isC(b, 1)) return a;
    if (isC(b, 0)) return mknot(a);
    return mknot(mkbin(XOR, a, b));
  }
  if (isC(b)) {
    switch (a->op) {
      case ZEXT: if (b->v >> a->a->w) return mkfalse(); return mkeq(a->a, mkconst(a->a->w, b->v));
      case SEXT: { E t = mkconst(a->a->w, b->v); if (mksext(t, w) != b) return mkfalse(); return mkeq(a->a, t); }
      case CONCAT: return mkand1(mkeq(a->a, mkextract(b, a->b->w, a->a->w)), mkeq(a->b, mkextract(b, 0, a->b->w)));
      case XOR: if (isC(a->b)) return mkeq(a->a, mkconst(w, a->b->v ^ b->v)); if (b->v == 0) return mkeq(a->a, a->b); break;
      case ADD: if (isC(a->b)) return mkeq(a->a, mkconst(w, b->v - a->b->v)); break;
      case SUB: if (b->v == 0) return mkeq(a->a, a->b); break;
      case OR: if (b->v == 0) return mkand1(mkeq(a->a, b), mkeq(a->b, b)); break;
      case ITE:
        if (isC(a->b) || isC(a->c)) return mkite(a->a, mkeq(a->b, b), mkeq(a->c, b));
        break;
      default: break;
    }
  } else {
    if (a->op == XOR && b->op == XOR) {
      // (x^k)==(y^k): common operand cancels
      if (a->a == b->a) return mkeq(a->b, b->b);
      if (a->a == b->b) return mkeq(a->b, b->a);
      if (a->b == b->a) return mkeq(a->a, b->b);
      if (a->b == b->b) return mkeq(a->a, b->a);
    }
    if (a->op == XOR) { if (a->a == b) return mkeq(a->b, mkconst(w, 0)); if (a->b == b) return mkeq(a->a, mkconst(w, 0)); }
    if (b->op == XOR) { if (b->a == a) return mkeq(b->b, mkconst(w, 0)); if (b->b == a) return mkeq(b->a, mkconst(w, 0)); }
    if (a->op == CONCAT && b->op == CONCAT && a->b->w == b->b->w) return mkand1(mkeq(a->a, b->a), mkeq(a->b, b->b));
    if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkeq(a->a, b->a);
    if (a->id > b->id) std::swap(a, b);
  }
  return mkraw(EQ, 1, a, b);
}

E mkult(E a, E b) {
  if (a == b) return mkfalse();
  if (isC(a) && isC(b)) return mkconst(1, a->v < b->v);
  if (isC(b, 0)) return mkfalse();
  if (isC(b, 1)) return mkeq(a, mkconst(a->w, 0));
  if (isC(a, maskw(a->w))) return mkfalse();
  if (isC(a, 0)) return mknot(mkeq(b, mkconst(b->w, 0)));
  if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkult(a->a, b->a);
  if (a->op == ZEXT && isC(b)) { unsigned iw = a->a->w; if (b->v >> iw) return mktrue(); return mkult(a->a, mkconst(iw, b->v)); }
  if (b->op == ZEXT && isC(a)) { unsigned iw = b->a->w; if (a->v >> iw) return mkfalse(); return mkult(mkconst(iw, a->v), b->a); }
  if (a->op == ITE && isC(a->b) && isC(a->c) && isC(b)) return mkite(a->a, mkult(a->b, b), mkult(a->c, b));
  return mkraw(ULT, 1, a, b);
}
E mkslt(E a, E b) {
  if (a == b) return mkfalse();
  if (isC(a) && isC(b)) return mkconst(1, sx128(a->v, a->w) < sx128(b->v, b->w));
  if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkult(a->a, b->a);
  if (a->op == ITE && isC(b) && (isC(a->b) || isC(a->c))) return mkite(a->a, mkslt(a->b, b), mkslt(a->c, b));
  if (b->op == ITE && isC(a) && (isC(b->b) || isC(b->c))) return mkite(b->a, mkslt(a, b->b), mkslt(a, b->c));
  if (a->op == ZEXT && isC(b)) { if (sx128(b->v, b->w) < 0) return mkfalse(); return mkult(a, b); }
  if (b->op == ZEXT && isC(a)) { if (sx128(a->v, a->w) < 0) return mktrue(); return mkult(a, b); }
  return mkraw(SLT, 1, a, b);
}
E mkite(E c, E a, E b) {
  assert(c->w == 1 && a->w == b->w);
  if (isC(c)) return c->v ? a : b;
  if (a == b) return a;
  if (isNot(c)) { c = c->a; std::swap(a, b); }
  if (a->w == 1) {
    if (isC(a, 1) && isC(b, 0)) return c;
    if (isC(a, 0) && isC(b, 1)) return mknot(c);
    if (isC(a, 1)) return mkor1(c, b);
    if (isC(a, 0)) return mkand1(mknot(c), b);
    if (isC(b, 0)) return mkand1(c, a);
    if (isC(b, 1)) return mkor1(mknot(c), a);
  }
  if (a->op == ITE && a->a == c) a = a->b;
  if (b->op == ITE && b->a == c) b = b->c;
  if (a == b) return a;
  return mkraw(ITE, a->w, c, a, b);
}
E mkbswap(E x) {
  unsigned n = x->w / 8;
  E r = mkextract(x, 0, 8);
  for (unsigned i = 1; i < n; i++) r = mkconcat(r, mkextract(x, i * 8, 8));
  return r;
}
std::string estr(E e, int d) {
  static const char *nm[] = {"c", "v", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "slt", "ite", "cat", "ext", "zx", "sx"};
  char b[64];
  if (e->op == CONST) { snprintf(b, 64, "%llx:%d", (unsigned long long)e->v, e->w); return b; }
  if (e->op == VAR) { snprintf(b, 64, "v%u", (unsigned)e->v); return b; }
  if (d == 0) return "..";
  std::string s = "("; s += nm[e->op];
  if (e->op == EXTRACT) { snprintf(b, 64, "[%d+%d]", e->lo, e->w); s += b; }
  for (E x : {e->a, e->b, e->c}) if (x) s += " " + estr(x, d - 1);
  return s + ")";
}
