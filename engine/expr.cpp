#include "expr.h"
#include <cmath>
ExprPool P;

ExprPool::ExprPool() {
  table.assign(1 << 16, nullptr);
  auto* s = new VarSet(); emptySet = s;
  T = nullptr; F = nullptr;
  T = mk(K_CONST, 1, 0, nullptr, nullptr, nullptr, 1, 0);
  F = mk(K_CONST, 1, 0, nullptr, nullptr, nullptr, 0, 0);
}
const VarSet* ExprPool::internSet(std::vector<uint32_t>& v) {
  if (v.empty()) return emptySet;
  u64 hh = 1469598103934665603ull; for (auto x : v) { hh ^= x; hh *= 1099511628211ull; }
  auto& b = setTab[hh];
  for (auto* s : b) if (s->v == v) return s;
  auto* n = new VarSet(); n->v = v; b.push_back(n); return n;
}
const VarSet* ExprPool::uni(const VarSet* a, const VarSet* b) {
  if (a == b || b == emptySet) return a; if (a == emptySet) return b;
  if (a > b) std::swap(a, b);
  u64 key = ((u64)a * 0x9E3779B97F4A7C15ull) ^ (u64)b;
  auto it = unionMemo.find(key);
  if (it != unionMemo.end()) {
    // verify (hash key is not injective): cheap subset check
    auto* s = it->second;
    if (std::includes(s->v.begin(), s->v.end(), a->v.begin(), a->v.end()) &&
        std::includes(s->v.begin(), s->v.end(), b->v.begin(), b->v.end()) && s->v.size() <= a->v.size() + b->v.size()) return s;
  }
  std::vector<uint32_t> r; std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
  auto* s = internSet(r); unionMemo[key] = s; return s;
}
void ExprPool::grow() {
  std::vector<Expr*> old; old.swap(table); table.assign(old.size() * 2, nullptr);
  u64 m = table.size() - 1;
  for (auto* e : old) if (e) {
    u64 i = h(e->k, e->w, e->aux, e->a, e->b, e->c, e->lo, e->hi) & m;
    while (table[i]) i = (i + 1) & m; table[i] = e;
  }
}
Expr* ExprPool::mk(uint8_t k, unsigned w, unsigned aux, Expr* a, Expr* b, Expr* c, u64 lo, u64 hi) {
  if (cnt * 2 > table.size()) grow();
  u64 m = table.size() - 1;
  u64 i = h(k, w, aux, a, b, c, lo, hi) & m;
  while (Expr* e = table[i]) {
    if (e->k == k && e->w == w && e->aux == aux && e->a == a && e->b == b && e->c == c && e->lo == lo && e->hi == hi) return e;
    i = (i + 1) & m;
  }
  Expr* e = alloc(); e->k = k; e->w = w; e->aux = aux; e->id = nextId++; e->a = a; e->b = b; e->c = c; e->lo = lo; e->hi = hi;
  e->z = nullptr; e->evGen = 0;
  if (k == K_VAR) { std::vector<uint32_t> v{aux}; e->vars = internSet(v); }
  else { const VarSet* s = emptySet; if (a) s = a->vars; if (b) s = uni(s, b->vars); if (c) s = uni(s, c->vars); e->vars = s; }
  table[i] = e; cnt++; return e;
}

Expr* eConst(u128 v, unsigned w) { v &= maskw(w); return P.mk(K_CONST, w, 0, nullptr, nullptr, nullptr, (u64)v, (u64)(v >> 64)); }
Expr* eVar(const std::string& name, unsigned w) {
  std::string key = name + ":" + std::to_string(w);
  auto it = P.varByName.find(key);
  if (it != P.varByName.end()) return P.vars[it->second].e;
  uint32_t idx = P.vars.size(); P.vars.push_back({name, w, nullptr});
  Expr* e = P.mk(K_VAR, w, idx, nullptr, nullptr, nullptr, idx, 0);
  P.vars[idx].e = e; P.varByName[key] = idx; return e;
}

static inline double asD(u128 v) { double d; u64 x = (u64)v; memcpy(&d, &x, 8); return d; }
static inline float asF(u128 v) { float d; uint32_t x = (uint32_t)v; memcpy(&d, &x, 4); return d; }
static inline u128 ofD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static inline u128 ofF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }

template <class T> static T rnd(T x, unsigned mode) {
  switch (mode) { case 0: return std::floor(x); case 1: return std::ceil(x); case 2: return std::trunc(x); case 3: return std::nearbyint(x); default: return std::round(x); }
}

u128 foldOp(uint8_t k, unsigned w, unsigned aux, unsigned wa, u128 a, u128 b, u128 c, unsigned wb) {
  u128 m = maskw(w);
  switch (k) {
    case K_ADD: return (a + b) & m; case K_SUB: return (a - b) & m; case K_MUL: return (a * b) & m;
    case K_UDIV: return b == 0 ? m : (a / b) & m;
    case K_UREM: return b == 0 ? a : (a % b) & m;
    case K_SDIV: { i128 x = (i128)sx(a, w), y = (i128)sx(b, w); if (y == 0) return (x < 0 ? 1 : m); if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
    case K_SREM: { i128 x = (i128)sx(a, w), y = (i128)sx(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case K_AND: return a & b; case K_OR: return a | b; case K_XOR: return a ^ b;
    case K_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case K_LSHR: return b >= w ? 0 : (a >> (unsigned)b);
    case K_ASHR: { i128 x = (i128)sx(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
    case K_EQ: return a == b; case K_ULT: return a < b; case K_ULE: return a <= b;
    case K_SLT: return (i128)sx(a, wa) < (i128)sx(b, wa); case K_SLE: return (i128)sx(a, wa) <= (i128)sx(b, wa);
    case K_ITE: return a ? b : c;
    case K_CONCAT: return ((a << wb) | b) & m;
    case K_EXTRACT: return (a >> aux) & m;
    case K_ZEXT: return a; case K_SEXT: return sx(a, wa) & m;
    case K_FADD: return w == 64 ? ofD(asD(a) + asD(b)) : ofF(asF(a) + asF(b));
    case K_FSUB: return w == 64 ? ofD(asD(a) - asD(b)) : ofF(asF(a) - asF(b));
    case K_FMUL: return w == 64 ? ofD(asD(a) * asD(b)) : ofF(asF(a) * asF(b));
    case K_FDIV: return w == 64 ? ofD(asD(a) / asD(b)) : ofF(asF(a) / asF(b));
    case K_FREM: return w == 64 ? ofD(std::fmod(asD(a), asD(b))) : ofF(std::fmod(asF(a), asF(b)));
    case K_FOEQ: return wa == 64 ? asD(a) == asD(b) : asF(a) == asF(b);
    case K_FOLT: return wa == 64 ? asD(a) < asD(b) : asF(a) < asF(b);
    case K_FOLE: return wa == 64 ? asD(a) <= asD(b) : asF(a) <= asF(b);
    case K_FUNO: return wa == 64 ? (std::isnan(asD(a)) || std::isnan(asD(b))) : (std::isnan(asF(a)) || std::isnan(asF(b)));
    case K_FTOSI: case K_FTOUI: {
      double d = wa == 64 ? asD(a) : (double)asF(a);
      if (std::isnan(d)) return 0;
      d = std::trunc(d);
      if (k == K_FTOSI) {
        double lim = std::ldexp(1.0, w - 1);
        if (d >= lim) return maskw(w - 1); if (d < -lim) return ((u128)1 << (w - 1));
        return (u128)(i128)d & m;
      } else {
        double lim = std::ldexp(1.0, w);
        if (d >= lim) return m; if (d <= 0) return 0;
        return (u128)d & m;
      }
    }
    case K_SITOF: { i128 x = (i128)sx(a, wa); return w == 64 ? ofD((double)x) : ofF((float)x); }
    case K_UITOF: return w == 64 ? ofD((double)a) : ofF((float)a);
    case K_FEXT: return ofD((double)asF(a)); case K_FTRUNC: return ofF((float)asD(a));
    case K_FROUND: return w == 64 ? ofD(rnd(asD(a), aux)) : ofF(rnd(asF(a), aux));
    case K_FSQRT: return w == 64 ? ofD(std::sqrt(asD(a))) : ofF(std::sqrt(asF(a)));
    case K_FFMA: return w == 64 ? ofD(std::fma(asD(a), asD(b), asD(c))) : ofF(std::fma(asF(a), asF(b), asF(c)));
  }
  fprintf(stderr, "foldOp %d\n", k); abort();
}

Expr* eNot(Expr* a) {
  if (isC(a)) return eConst(~a->val(), a->w);
  if (a->k == K_XOR && isC(a->b) && a->b->val() == maskw(a->w)) return a->a;
  if (a->w == 1) {
    if (a->k == K_ULT) return eCmp(K_ULE, a->b, a->a);
    if (a->k == K_ULE) return eCmp(K_ULT, a->b, a->a);
    if (a->k == K_SLT) return eCmp(K_SLE, a->b, a->a);
    if (a->k == K_SLE) return eCmp(K_SLT, a->b, a->a);
  }
  return P.mk(K_XOR, a->w, 0, a, eConst(maskw(a->w), a->w), nullptr);
}

static inline bool isNotOf(Expr* a, Expr* b) {
  return (a->k == K_XOR && isC(a->b) && a->b->val() == maskw(a->w) && a->a == b) ||
         (b->k == K_XOR && isC(b->b) && b->b->val() == maskw(b->w) && b->a == a);
}

// contiguous low mask? returns number of bits or 0
static inline unsigned lowMask(u128 v) { unsigned n = 0; while (v & 1) { n++; v >>= 1; } return v == 0 ? n : 0; }

Expr* eBin(Kind k, Expr* a, Expr* b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) return eConst(foldOp(k, w, 0, w, a->val(), b->val(), 0, w), w);
  bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR;
  if (comm && isC(a)) std::swap(a, b);
  if (comm && !isC(b) && a->id > b->id) std::swap(a, b);
  u128 m = maskw(w);
  if (isC(b)) {
    u128 v = b->val();
    switch (k) {
      case K_ADD: if (v == 0) return a; if (a->k == K_ADD && isC(a->b)) return eBin(K_ADD, a->a, eConst(a->b->val() + v, w));
        if (w == 1) return eNot(a);
        break;
      case K_SUB: return eBin(K_ADD, a, eConst(0 - v, w));
      case K_MUL: if (v == 0) return b; if (v == 1) return a; break;
      case K_AND: {
        if (v == 0) return b; if (v == m) return a;
        if (a->k == K_AND && isC(a->b)) return eBin(K_AND, a->a, eConst(a->b->val() & v, w));
        unsigned n = lowMask(v);
        if (n) return eZext(eExtract(a, 0, n), w);
        if (a->k == K_ZEXT && (v & maskw(a->a->w)) == maskw(a->a->w)) return a;
        if (a->k == K_ZEXT) return eZext(eBin(K_AND, a->a, eConst(v, a->a->w)), w);
        if (a->k == K_CONCAT) return eConcat(eBin(K_AND, a->a, eConst(v >> a->b->w, a->a->w)), eBin(K_AND, a->b, eConst(v, a->b->w)));
        break; }
      case K_OR: if (v == 0) return a; if (v == m) return b;
        if (a->k == K_OR && isC(a->b)) return eBin(K_OR, a->a, eConst(a->b->val() | v, w));
        break;
      case K_XOR: if (v == 0) return a; if (v == m) return eNot(a);
        if (a->k == K_XOR && isC(a->b)) return eBin(K_XOR, a->a, eConst(a->b->val() ^ v, w));
        break;
      case K_SHL: if (v == 0) return a; if (v >= w) return eConst(0, w);
        return eConcat(eExtract(a, 0, w - (unsigned)v), eConst(0, (unsigned)v));
      case K_LSHR: if (v == 0) return a; if (v >= w) return eConst(0, w);
        return eZext(eExtract(a, (unsigned)v, w - (unsigned)v), w);
      case K_ASHR: if (v == 0) return a; if (v >= w) v = w - 1;
        return eSext(eExtract(a, (unsigned)v, w - (unsigned)v), w);
      case K_UDIV: if (v == 1) return a;
        if (v && (v & (v - 1)) == 0) { unsigned s = 0; while (((u128)1 << s) != v) s++; return eBin(K_LSHR, a, eConst(s, w)); } break;
      case K_UREM: if (v && (v & (v - 1)) == 0) return eBin(K_AND, a, eConst(v - 1, w)); break;
      case K_SDIV: if (v == 1) return a; break;
      default: break;
    }
    // (ite c K1 K2) op K
    if (a->k == K_ITE && isC(a->b) && isC(a->c))
      return eIte(a->a, eBin(k, a->b, b), eBin(k, a->c, b));
  }
  if (isC(a)) {
    if (a->val() == 0 && (k == K_SHL || k == K_LSHR || k == K_ASHR || k == K_UREM || k == K_SREM)) return a;
    if (b->k == K_ITE && isC(b->b) && isC(b->c)) return eIte(b->a, eBin(k, a, b->b), eBin(k, a, b->c));
  }
  if (a == b) {
    switch (k) { case K_AND: case K_OR: return a; case K_XOR: case K_SUB: return eConst(0, w); default: break; }
  }
  if (w == 1 && isNotOf(a, b)) { if (k == K_AND) return P.F; if (k == K_OR) return P.T; if (k == K_XOR) return P.T; }
  if (w == 1 && (k == K_AND || k == K_OR)) {
    // absorption: a & (a & x) etc.
    if (a->k == k && (a->a == b || a->b == b)) return a;
    if (b->k == k && (b->a == a || b->b == a)) return b;
  }
  if (k == K_OR && w > 1) {
    // concat(x,0) | zext(y) -> concat
    for (int s = 0; s < 2; s++) {
      Expr* x = s ? b : a; Expr* y = s ? a : b;
      if (x->k == K_CONCAT && isC(x->b) && x->b->val() == 0 && y->k == K_ZEXT && y->a->w <= x->b->w)
        return eConcat(x->a, eZext(y->a, x->b->w));
      if (x->k == K_CONCAT && isC(x->b) && x->b->val() == 0 && y->k == K_CONCAT && isC(y->a) && y->a->val() == 0 && y->b->w <= x->b->w)
        return eConcat(x->a, eZext(y->b, x->b->w));
      if (x->k == K_CONCAT && isC(x->b) && x->b->val() == 0 && y->k == K_CONCAT && y->b->w == x->b->w)
        return eConcat(eBin(K_OR, x->a, y->a), y->b);
      if (x->k == K_ZEXT && x->a->k == K_CONCAT && isC(x->a->b) && x->a->b->val() == 0 && y->k == K_ZEXT && y->a->w <= x->a->b->w)
        return eZext(eConcat(x->a->a, eZext(y->a, x->a->b->w)), w);
    }
  }
  return P.mk(k, w, 0, a, b, nullptr);
}

Expr* eCmp(Kind k, Expr* a, Expr* b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) return foldOp(k, 1, 0, w, a->val(), b->val(), 0, w) ? P.T : P.F;
  if (a == b) return (k == K_EQ || k == K_ULE || k == K_SLE) ? P.T : P.F;
  if (k == K_EQ) {
    if (isC(a)) std::swap(a, b);
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    if (w == 1) { if (isC(b)) return b->lo ? a : eNot(a); if (isNotOf(a, b)) return P.F; }
    if (isC(b)) {
      u128 v = b->val();
      if (a->k == K_ZEXT) { if (v >> a->a->w) return P.F; return eCmp(K_EQ, a->a, eConst(v, a->a->w)); }
      if (a->k == K_SEXT) { u128 lowv = v & maskw(a->a->w); if ((sx(lowv, a->a->w) & maskw(w)) != v) return P.F; return eCmp(K_EQ, a->a, eConst(lowv, a->a->w)); }
      if (a->k == K_CONCAT) return eBin(K_AND, eCmp(K_EQ, a->a, eConst(v >> a->b->w, a->a->w)), eCmp(K_EQ, a->b, eConst(v, a->b->w)));
      if (a->k == K_ADD && isC(a->b)) return eCmp(K_EQ, a->a, eConst(v - a->b->val(), w));
      if (a->k == K_XOR && isC(a->b)) return eCmp(K_EQ, a->a, eConst(v ^ a->b->val(), w));
      if (a->k == K_ITE) {
        bool cb = isC(a->b), cc = isC(a->c);
        if (cb && cc) { bool x = a->b->val() == v, y = a->c->val() == v; if (x && y) return P.T; if (x) return a->a; if (y) return eNot(a->a); return P.F; }
        if (cb) { if (a->b->val() == v) return eBin(K_OR, a->a, eCmp(K_EQ, a->c, b)); return eBin(K_AND, eNot(a->a), eCmp(K_EQ, a->c, b)); }
        if (cc) { if (a->c->val() == v) return eBin(K_OR, eNot(a->a), eCmp(K_EQ, a->b, b)); return eBin(K_AND, a->a, eCmp(K_EQ, a->b, b)); }
      }
    } else {
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return eCmp(K_EQ, a->a, b->a);
      if (a->k == K_CONCAT && b->k == K_CONCAT && a->a->w == b->a->w) return eBin(K_AND, eCmp(K_EQ, a->a, b->a), eCmp(K_EQ, a->b, b->b));
    }
    return P.mk(K_EQ, 1, 0, a, b, nullptr);
  }
  u128 m = maskw(w);
  if (k == K_ULT) {
    if (isC(b) && b->val() == 0) return P.F; if (isC(b) && b->val() == 1) return eCmp(K_EQ, a, eConst(0, w));
    if (isC(a) && a->val() == m) return P.F; if (isC(a) && a->val() == 0) return eNot(eCmp(K_EQ, b, a));
    if (isC(b) && b->val() == m) return eNot(eCmp(K_EQ, a, b));
  }
  if (k == K_ULE) {
    if (isC(a) && a->val() == 0) return P.T; if (isC(b) && b->val() == m) return P.T;
    if (isC(b) && b->val() == 0) return eCmp(K_EQ, a, b);
    if (isC(a) && a->val() == m) return eCmp(K_EQ, a, b);
    if (isC(a) && a->val() == 1) return eNot(eCmp(K_EQ, b, eConst(0, w)));
  }
  if (k == K_ULT || k == K_ULE) {
    if (a->k == K_ZEXT && isC(b)) { u128 mm = maskw(a->a->w); if (b->val() > mm) return P.T; return eCmp(k, a->a, eConst(b->val(), a->a->w)); }
    if (b->k == K_ZEXT && isC(a)) { u128 mm = maskw(b->a->w); if (a->val() > mm) return P.F; return eCmp(k, eConst(a->val(), b->a->w), b->a); }
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return eCmp(k, a->a, b->a);
  }
  if (k == K_SLT || k == K_SLE) {
    // zext operands are non-negative: use unsigned compare
    auto nonneg = [](Expr* e) { return (e->k == K_ZEXT) || (isC(e) && !((e->val() >> (e->w - 1)) & 1)); };
    if (nonneg(a) && nonneg(b)) return eCmp(k == K_SLT ? K_ULT : K_ULE, a, b);
    if (nonneg(a) && isC(b)) return P.F;  // b negative
    if (nonneg(b) && isC(a)) return P.T;
    if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return eCmp(k, a->a, b->a);
  }
  if (a->k == K_ITE && isC(a->b) && isC(a->c) && isC(b)) {
    bool x = foldOp(k, 1, 0, w, a->b->val(), b->val(), 0, w), y = foldOp(k, 1, 0, w, a->c->val(), b->val(), 0, w);
    if (x && y) return P.T; if (!x && !y) return P.F; return x ? a->a : eNot(a->a);
  }
  if (b->k == K_ITE && isC(b->b) && isC(b->c) && isC(a)) {
    bool x = foldOp(k, 1, 0, w, a->val(), b->b->val(), 0, w), y = foldOp(k, 1, 0, w, a->val(), b->c->val(), 0, w);
    if (x && y) return P.T; if (!x && !y) return P.F; return x ? b->a : eNot(b->a);
  }
  return P.mk(k, 1, 0, a, b, nullptr);
}

Expr* eIte(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return c->lo ? a : b;
  if (a == b) return a;
  if (c->k == K_XOR && isC(c->b)) return eIte(c->a, b, a); // not
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->lo ? c : eNot(c);
    if (isC(a)) return a->lo ? eBin(K_OR, c, b) : eBin(K_AND, eNot(c), b);
    if (isC(b)) return b->lo ? eBin(K_OR, eNot(c), a) : eBin(K_AND, c, a);
  }
  if (a->k == K_ITE && a->a == c) return eIte(c, a->b, b);
  if (b->k == K_ITE && b->a == c) return eIte(c, a, b->c);
  return P.mk(K_ITE, a->w, 0, c, a, b);
}

Expr* eConcat(Expr* h, Expr* l) {
  unsigned w = h->w + l->w;
  if (isC(h) && isC(l)) return eConst((h->val() << l->w) | l->val(), w);
  if (isC(h) && h->val() == 0) return eZext(l, w);
  if (h->k == K_EXTRACT && l->k == K_EXTRACT && h->a == l->a && h->aux == l->aux + l->w) return eExtract(h->a, l->aux, w);
  // concat(extract(x,hi), concat(extract(x,lo), y))
  if (h->k == K_EXTRACT && l->k == K_CONCAT && l->a->k == K_EXTRACT && l->a->a == h->a && h->aux == l->a->aux + l->a->w)
    return eConcat(eExtract(h->a, l->a->aux, h->w + l->a->w), l->b);
  if (h->k == K_ZEXT) return eZext(eConcat(h->a, l), w);
  return P.mk(K_CONCAT, w, 0, h, l, nullptr);
}

Expr* eExtract(Expr* a, unsigned off, unsigned w) {
  if (off == 0 && w == a->w) return a;
  if (isC(a)) return eConst(a->val() >> off, w);
  switch (a->k) {
    case K_EXTRACT: return eExtract(a->a, a->aux + off, w);
    case K_CONCAT: {
      unsigned lw = a->b->w;
      if (off + w <= lw) return eExtract(a->b, off, w);
      if (off >= lw) return eExtract(a->a, off - lw, w);
      return eConcat(eExtract(a->a, 0, off + w - lw), eExtract(a->b, off, lw - off)); }
    case K_ZEXT: {
      unsigned iw = a->a->w;
      if (off >= iw) return eConst(0, w);
      if (off + w <= iw) return eExtract(a->a, off, w);
      return eZext(eExtract(a->a, off, iw - off), w); }
    case K_SEXT: {
      unsigned iw = a->a->w;
      if (off + w <= iw) return eExtract(a->a, off, w);
      if (off == 0) return eSext(a->a, w);
      break; }
    case K_AND: case K_OR: case K_XOR:
      return eBin((Kind)a->k, eExtract(a->a, off, w), eExtract(a->b, off, w));
    case K_ITE:
      if ((isC(a->b) || isC(a->c))) return eIte(a->a, eExtract(a->b, off, w), eExtract(a->c, off, w));
      break;
    case K_ADD: case K_SUB: case K_MUL:
      if (off == 0) return eBin((Kind)a->k, eExtract(a->a, 0, w), eExtract(a->b, 0, w));
      break;
    default: break;
  }
  return P.mk(K_EXTRACT, w, off, a, nullptr, nullptr);
}
Expr* eZext(Expr* a, unsigned w) {
  if (w == a->w) return a; if (w < a->w) return eExtract(a, 0, w);
  if (isC(a)) return eConst(a->val(), w);
  if (a->k == K_ZEXT) return eZext(a->a, w);
  if (a->k == K_ITE && isC(a->b) && isC(a->c)) return eIte(a->a, eZext(a->b, w), eZext(a->c, w));
  return P.mk(K_ZEXT, w, 0, a, nullptr, nullptr);
}
Expr* eSext(Expr* a, unsigned w) {
  if (w == a->w) return a; if (w < a->w) return eExtract(a, 0, w);
  if (isC(a)) return eConst(sx(a->val(), a->w), w);
  if (a->k == K_SEXT) return eSext(a->a, w);
  if (a->k == K_ZEXT) return eZext(a->a, w);
  if (a->k == K_ITE && isC(a->b) && isC(a->c)) return eIte(a->a, eSext(a->b, w), eSext(a->c, w));
  return P.mk(K_SEXT, w, 0, a, nullptr, nullptr);
}
// upper bounds of the bits needed to hold a term as an unsigned / a signed (two's complement) number
static unsigned ubits(Expr* e, int d = 0) {
  if (isC(e)) { u128 v = e->val(); unsigned n = 0; while (v) { n++; v >>= 1; } return n; }
  if (d > 6) return e->w;
  switch (e->k) {
    case K_ZEXT: return std::min<unsigned>(e->w, ubits(e->a, d + 1));
    case K_AND: return std::min(ubits(e->a, d + 1), ubits(e->b, d + 1));
    case K_LSHR: if (isC(e->b) && e->b->val() < e->w) { unsigned n = ubits(e->a, d + 1), k = (unsigned)e->b->lo; return n > k ? n - k : 0; } return e->w;
    case K_ITE: return std::max(ubits(e->b, d + 1), ubits(e->c, d + 1));
    default: return e->w;
  }
}
static unsigned sbits(Expr* e, int d = 0) {
  unsigned u = ubits(e, d); if (u < e->w) return u + 1;
  if (d > 6) return e->w;
  switch (e->k) {
    case K_SEXT: return std::min<unsigned>(e->w, sbits(e->a, d + 1));
    case K_ASHR: if (isC(e->b) && e->b->val() < e->w) return std::min<unsigned>(e->w - (unsigned)e->b->lo, e->w); return e->w;
    case K_ITE: return std::max(sbits(e->b, d + 1), sbits(e->c, d + 1));
    default: return e->w;
  }
}
static Expr* fit(Expr* x, unsigned w, bool sg) { if (x->w == w) return x; if (x->w > w) return eExtract(x, 0, w); return sg ? eSext(x, w) : eZext(x, w); }
Expr* eFp(Kind k, unsigned w, unsigned aux, Expr* a, Expr* b, Expr* c) {
  { // integers that a double (float) holds exactly survive the conversion there and back
    unsigned mant = a->w == 64 ? 53 : a->w == 32 ? 24 : 0;
    if (mant && (k == K_FTOUI || k == K_FTOSI)) {
      if (a->k == K_UITOF) { unsigned n = ubits(a->a); if (n <= mant && n <= (k == K_FTOUI ? w : w - 1)) return fit(a->a, w, false); }
      if (a->k == K_SITOF && k == K_FTOSI) { unsigned n = sbits(a->a); if (n <= mant + 1 && n <= w) return fit(a->a, w, true); }
    }
    if (k == K_FUNO && (a->k == K_UITOF || a->k == K_SITOF) && (b->k == K_UITOF || b->k == K_SITOF || isC(b))) { if (!isC(b) ) return eConst(0, 1); }
    if (mant && k == K_FOEQ && a->k == K_UITOF && b->k == K_UITOF && a->a->w == b->a->w && ubits(a->a) <= mant && ubits(b->a) <= mant) return eCmp(K_EQ, a->a, b->a);
    if (mant && k == K_FOEQ && a->k == K_SITOF && b->k == K_SITOF && a->a->w == b->a->w && sbits(a->a) <= mant + 1 && sbits(b->a) <= mant + 1) return eCmp(K_EQ, a->a, b->a);
    if (k == K_FOEQ && a == b) return eNot(eFp(K_FUNO, 1, 0, a, a));
  }
  if (isC(a) && (!b || isC(b)) && (!c || isC(c)))
    return eConst(foldOp(k, w, aux, a->w, a->val(), b ? b->val() : 0, c ? c->val() : 0, b ? b->w : 0), w);
  if ((k == K_FOEQ || k == K_FUNO) && a->id > b->id) std::swap(a, b);
  return P.mk(k, w, aux, a, b, c);
}

static uint32_t gEvGen = 0;
void newEval() { gEvGen++; }
u128 evalExpr(Expr* e, const Model& m) {
  if (e->k == K_CONST) return e->val();
  if (e->k == K_VAR) return e->aux < m.v.size() ? (u128)(m.v[e->aux] & (u64)maskw(e->w)) : 0;
  if (e->evGen == gEvGen) return ((u128)e->evHi << 64) | e->evLo;
  u128 r;
  if (e->k == K_ITE) r = evalExpr(e->a, m) ? evalExpr(e->b, m) : evalExpr(e->c, m);
  else if (e->w == 1 && e->k == K_AND) r = evalExpr(e->a, m) ? evalExpr(e->b, m) : 0;
  else if (e->w == 1 && e->k == K_OR) r = evalExpr(e->a, m) ? 1 : evalExpr(e->b, m);
  else r = foldOp(e->k, e->w, e->aux, e->a->w, evalExpr(e->a, m), e->b ? evalExpr(e->b, m) : 0, e->c ? evalExpr(e->c, m) : 0, e->b ? e->b->w : 0);
  e->evGen = gEvGen; e->evLo = (u64)r; e->evHi = (u64)(r >> 64); return r;
}
