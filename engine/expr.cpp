#include "expr.h"
#include <unordered_map>
#include <map>
#include <set>
#include <deque>
#include <cmath>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <algorithm>

static std::vector<E*> table;      // open addressing
static size_t tcount = 0;
static std::deque<E> arena;
static uint32_t epoch = 1;
void evalEpoch() { epoch++; }
size_t exprCount() { return tcount; }

struct VSHash { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = v.size(); for (auto x : v) h = h * 1000003u ^ x; return h; } };
static std::unordered_map<std::vector<uint32_t>, VarSet*, VSHash> vsets;
static const VarSet* internVS(std::vector<uint32_t>&& v) {
  auto it = vsets.find(v);
  if (it != vsets.end()) return it->second;
  VarSet* s = new VarSet{v};
  vsets.emplace(std::move(v), s);
  return s;
}
static const VarSet* emptyVS() { static const VarSet* e = internVS({}); return e; }
static std::unordered_map<uint64_t, const VarSet*> unionCache;
static std::unordered_map<const VarSet*, uint32_t> vsId;
static uint32_t vid(const VarSet* s) { auto it = vsId.find(s); if (it != vsId.end()) return it->second; uint32_t i = vsId.size(); vsId[s] = i; return i; }
static const VarSet* unionVS(const VarSet* a, const VarSet* b) {
  if (a == b || b->v.empty()) return a;
  if (a->v.empty()) return b;
  uint32_t x = vid(a), y = vid(b); if (x > y) std::swap(x, y);
  uint64_t key = ((uint64_t)x << 32) | y;
  auto it = unionCache.find(key);
  if (it != unionCache.end()) return it->second;
  std::vector<uint32_t> r; r.reserve(a->v.size() + b->v.size());
  std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
  const VarSet* s = internVS(std::move(r));
  unionCache[key] = s;
  return s;
}
bool varsSubset(const VarSet* a, const std::vector<bool>& b) { for (auto x : a->v) if (x >= b.size() || !b[x]) return false; return true; }
bool varsIntersect(const VarSet* a, const std::vector<bool>& b) { for (auto x : a->v) if (x < b.size() && b[x]) return true; return false; }

static uint32_t hashN(K k, unsigned w, uint32_t aux, uint64_t c, E* a, E* b, E* d) {
  uint64_t h = k * 0x9E3779B97F4A7C15ULL + w;
  h = (h ^ aux) * 0xff51afd7ed558ccdULL; h ^= h >> 29;
  h = (h ^ c) * 0xff51afd7ed558ccdULL; h ^= h >> 29;
  h = (h ^ (a ? a->id + 1 : 0)) * 0xc4ceb9fe1a85ec53ULL; h ^= h >> 31;
  h = (h ^ (b ? b->id + 1 : 0)) * 0xff51afd7ed558ccdULL; h ^= h >> 29;
  h = (h ^ (d ? d->id + 1 : 0)) * 0xc4ceb9fe1a85ec53ULL; h ^= h >> 32;
  return (uint32_t)h;
}
static void grow() {
  std::vector<E*> n(table.empty() ? 1 << 16 : table.size() * 2, nullptr);
  for (E* e : table) if (e) { size_t i = e->h & (n.size() - 1); while (n[i]) i = (i + 1) & (n.size() - 1); n[i] = e; }
  table.swap(n);
}
static void analyse(E* e) {
  uint64_t M = wmask(e->w);
  uint64_t u = M; uint8_t tz = 0;
  switch (e->k) {
    case KConst: u = e->c; tz = e->c ? __builtin_ctzll(e->c) : 64; break;
    case KZExt: u = e->a->umax; tz = e->a->tz; break;
    case KSExt: tz = e->a->tz; if (e->a->umax < (1ULL << (e->a->w - 1))) u = e->a->umax; break;
    case KAnd: u = std::min(e->a->umax, e->b->umax); tz = std::max(e->a->tz, e->b->tz); break;
    case KOr: case KXor: { uint64_t m = e->a->umax | e->b->umax; if (m) { int hb = 63 - __builtin_clzll(m); u = wmask(hb + 1); } else u = 0; tz = std::min(e->a->tz, e->b->tz); break; }
    case KAdd: { unsigned __int128 s = (unsigned __int128)e->a->umax + e->b->umax; u = s > M ? M : (uint64_t)s; tz = std::min(e->a->tz, e->b->tz); break; }
    case KSub: tz = std::min(e->a->tz, e->b->tz); break;
    case KMul: { unsigned __int128 s = (unsigned __int128)e->a->umax * e->b->umax; u = s > M ? M : (uint64_t)s; tz = std::min(64, (int)e->a->tz + e->b->tz); break; }
    case KUDiv: u = e->a->umax; if (isC(e->b) && e->b->c) u = e->a->umax / e->b->c; else u = M; break;
    case KURem: if (isC(e->b) && e->b->c) u = std::min(e->a->umax, e->b->c - 1); else u = std::max(e->a->umax, (uint64_t)0); break;
    case KShl: if (isC(e->b)) { unsigned s = e->b->c; tz = std::min(64u, e->a->tz + s); if (e->a->umax <= (M >> s)) u = e->a->umax << s; } else tz = e->a->tz; break;
    case KLShr: if (isC(e->b)) u = e->a->umax >> e->b->c; else u = e->a->umax; break;
    case KAShr: if (e->a->umax < (1ULL << (e->w - 1))) u = e->a->umax; break;
    case KExtract: if (e->aux == 0) { tz = e->a->tz; if (e->a->umax <= M) u = e->a->umax; } else { uint64_t s = e->a->umax >> e->aux; if (s <= M) u = s; tz = e->a->tz > e->aux ? e->a->tz - e->aux : 0; } break;
    case KConcat: u = e->a->w + e->b->w <= 64 ? ((e->a->umax << e->b->w) | wmask(e->b->w)) : M; if (e->a->umax == 0) u = e->b->umax; if (isC(e->b) && e->b->c == 0) { tz = e->b->w + e->a->tz; u = e->a->umax << e->b->w; } else tz = std::min<int>(e->b->tz, e->b->w); break;
    case KIte: u = std::max(e->b->umax, e->d->umax); tz = std::min(e->b->tz, e->d->tz); break;
    default: break;
  }
  if (tz > e->w) tz = e->w;
  e->umax = u & M; if (u > M) e->umax = M;
  e->tz = tz;
}
static E* mk(K k, unsigned w, uint32_t aux, uint64_t c, E* a = nullptr, E* b = nullptr, E* d = nullptr) {
  if (tcount * 2 >= table.size()) grow();
  uint32_t h = hashN(k, w, aux, c, a, b, d);
  size_t i = h & (table.size() - 1);
  while (E* e = table[i]) {
    if (e->h == h && e->k == k && e->w == w && e->aux == aux && e->c == c && e->a == a && e->b == b && e->d == d) return e;
    i = (i + 1) & (table.size() - 1);
  }
  arena.emplace_back();
  E* e = &arena.back();
  *e = E{}; e->k = k; e->w = w; e->aux = aux; e->c = c; e->a = a; e->b = b; e->d = d; e->h = h; e->id = tcount++;
  if (k == KVar) e->vars = internVS({aux});
  else { const VarSet* s = emptyVS(); if (a) s = unionVS(s, a->vars); if (b) s = unionVS(s, b->vars); if (d) s = unionVS(s, d->vars); e->vars = s; }
  analyse(e);
  table[i] = e;
  return e;
}
E* mkConst(uint64_t c, unsigned w) { return mk(KConst, w, 0, c & wmask(w)); }
E* mkVar(uint32_t id) { return mk(KVar, 8, id, 0); }

uint64_t foldBin(K k, uint64_t a, uint64_t b, unsigned w, bool& ok) {
  uint64_t M = wmask(w); ok = true;
  switch (k) {
    case KAdd: return (a + b) & M;
    case KSub: return (a - b) & M;
    case KMul: return (a * b) & M;
    case KUDiv: if (!b) { return M; } return a / b;
    case KURem: if (!b) { return a; } return a % b;
    case KSDiv: { int64_t x = sext64(a, w), y = sext64(b, w); if (!y) return x >= 0 ? M : 1; if (y == -1) return (0 - a) & M; return (uint64_t)(x / y) & M; }
    case KSRem: { int64_t x = sext64(a, w), y = sext64(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & M; }
    case KAnd: return a & b;
    case KOr: return a | b;
    case KXor: return a ^ b;
    case KShl: return b >= w ? 0 : (a << b) & M;
    case KLShr: return b >= w ? 0 : (a & M) >> b;
    case KAShr: { int64_t x = sext64(a, w); return (uint64_t)(x >> (b >= w ? w - 1 : b)) & M; }
    case KEq: return a == b;
    case KUlt: return a < b;
    case KUle: return a <= b;
    case KSlt: return sext64(a, w) < sext64(b, w);
    case KSle: return sext64(a, w) <= sext64(b, w);
    default: ok = false; return 0;
  }
}
static float asF(uint64_t v) { uint32_t x = v; float f; memcpy(&f, &x, 4); return f; }
static double asD(uint64_t v) { double f; memcpy(&f, &v, 8); return f; }
static uint64_t frF(float f) { uint32_t x; if (f != f) return 0x7fc00000u; memcpy(&x, &f, 4); return x; }
static uint64_t frD(double f) { uint64_t x; if (f != f) return 0x7ff8000000000000ULL; memcpy(&x, &f, 8); return x; }
template <class T> static T fround(T x, uint32_t m) { switch (m) { case 0: return std::nearbyint(x); case 1: return std::floor(x); case 2: return std::ceil(x); case 3: return std::trunc(x); default: return std::round(x); } }
template <class T> static uint64_t toI(T x, unsigned w, bool sg) {
  // x86 semantics for out-of-range conversions ("integer indefinite")
  uint64_t indef = w >= 64 ? 1ULL << 63 : (w == 32 ? 0x80000000u : 0);
  if (x != x) return w >= 32 ? indef : 0;
  if (sg || w < 32) {
    long double lo = -(long double)(1ULL << ((w < 32 ? 32 : w) - 1)), hi = -lo;
    long double t = truncl((long double)x);
    if (t < lo || t >= hi) return w >= 32 ? indef : 0;
    return (uint64_t)(int64_t)t & wmask(w);
  }
  long double t = truncl((long double)x);
  if (w == 32) { // cvttsd2si 64-bit then truncate
    if (t < -9223372036854775808.0L || t >= 9223372036854775808.0L) return 0;
    return (uint64_t)(int64_t)t & wmask(32);
  }
  if (t >= 18446744073709551616.0L || t < -9223372036854775808.0L) return 1ULL << 63;
  if (t < 0) return (uint64_t)(int64_t)t;
  return (uint64_t)t;
}
uint64_t foldF(K k, unsigned w, uint64_t a, uint64_t b, uint64_t d, unsigned aw, uint32_t aux) {
  #define BF(OP) (w == 32 ? frF(asF(a) OP asF(b)) : frD(asD(a) OP asD(b)))
  #define CF(OP) (aw == 32 ? (uint64_t)(asF(a) OP asF(b)) : (uint64_t)(asD(a) OP asD(b)))
  switch (k) {
    case KFAdd: return BF(+);
    case KFSub: return BF(-);
    case KFMul: return BF(*);
    case KFDiv: return BF(/);
    case KFRem: return w == 32 ? frF(fmodf(asF(a), asF(b))) : frD(fmod(asD(a), asD(b)));
    case KFSqrt: return w == 32 ? frF(sqrtf(asF(a))) : frD(sqrt(asD(a)));
    case KFFma: return w == 32 ? frF(fmaf(asF(a), asF(b), asF(d))) : frD(fma(asD(a), asD(b), asD(d)));
    case KFOeq: return CF(==);
    case KFOlt: return CF(<);
    case KFOle: return CF(<=);
    case KFUno: return aw == 32 ? (asF(a) != asF(a) || asF(b) != asF(b)) : (asD(a) != asD(a) || asD(b) != asD(b));
    case KFExt: return frD((double)asF(a));
    case KFTrunc: return frF((float)asD(a));
    case KFToSI: return aw == 32 ? toI(asF(a), w, true) : toI(asD(a), w, true);
    case KFToUI: return aw == 32 ? toI(asF(a), w, false) : toI(asD(a), w, false);
    case KSIToF: return w == 32 ? frF((float)sext64(a, aw)) : frD((double)sext64(a, aw));
    case KUIToF: return w == 32 ? frF((float)a) : frD((double)a);
    case KFRound: return w == 32 ? frF(fround(asF(a), aux)) : frD(fround(asD(a), aux));
    default: abort();
  }
}
E* mkNot(E* a) {
  if (isC(a)) return mkConst(!a->c, 1);
  if (a->k == KNot) return a->a;
  if (a->k == KUlt) return mkCmp(KUle, a->b, a->a);
  if (a->k == KUle) return mkCmp(KUlt, a->b, a->a);
  if (a->k == KSlt) return mkCmp(KSle, a->b, a->a);
  if (a->k == KSle) return mkCmp(KSlt, a->b, a->a);
  return mk(KNot, 1, 0, 0, a);
}
static bool commut(K k) { return k == KAdd || k == KMul || k == KAnd || k == KOr || k == KXor || k == KEq; }
// Sums are kept flat where cancellation is possible: collects  sum(coef_i * term_i) + c  of add/sub/not chains.
static void linear(E* e, uint64_t f, std::vector<std::pair<E*, uint64_t>>& t, uint64_t& c, int depth) {
  if (isC(e)) { c += f * e->c; return; }
  if (depth && e->k == KAdd) { linear(e->a, f, t, c, depth - 1); linear(e->b, f, t, c, depth - 1); return; }
  if (depth && e->k == KSub) { linear(e->a, f, t, c, depth - 1); linear(e->b, 0 - f, t, c, depth - 1); return; }
  if (depth && e->k == KXor && isC(e->b) && e->b->c == wmask(e->w)) { c -= f; linear(e->a, 0 - f, t, c, depth - 1); return; }
  for (auto& x : t) if (x.first == e) { x.second += f; return; }
  t.push_back({e, f});
}
static E* linearCancel(K k, E* a, E* b) {
  if (a->k != KAdd && a->k != KSub && b->k != KAdd && b->k != KSub && a->k != KXor && b->k != KXor) return nullptr;
  std::vector<std::pair<E*, uint64_t>> t; uint64_t c = 0, M = wmask(a->w);
  linear(a, 1, t, c, 6); size_t na = t.size(); uint64_t ca = c; (void)ca;
  std::vector<std::pair<E*, uint64_t>> tb; uint64_t cb = 0; linear(b, k == KAdd ? 1 : ~0ULL, tb, cb, 6);
  bool cancel = false;
  for (auto& x : tb) { bool hit = false; for (size_t i = 0; i < na; i++) if (t[i].first == x.first) { t[i].second += x.second; hit = true; if (!(t[i].second & M)) cancel = true; } if (!hit) t.push_back(x); }
  if (!cancel) return nullptr;
  c += cb;
  E *pos = nullptr, *neg = nullptr;
  for (auto& x : t) { uint64_t f = x.second & M; if (!f) continue; bool ng = f >> (a->w - 1); if (ng) f = (0 - f) & M; E* term = f == 1 ? x.first : mkBin(KMul, x.first, mkConst(f, a->w)); E*& d = ng ? neg : pos; d = d ? mkBin(KAdd, d, term) : term; }
  E* r = pos && neg ? mkBin(KSub, pos, neg) : pos ? pos : neg ? mkBin(KSub, mkConst(0, a->w), neg) : mkConst(0, a->w);
  return mkBin(KAdd, r, mkConst(c, a->w));
}
E* mkBin(K k, E* a, E* b) {
  unsigned w = a->w; assert(a->w == b->w);
  uint64_t M = wmask(w);
  if (isC(a) && isC(b)) { bool ok; uint64_t r = foldBin(k, a->c, b->c, w, ok); return mkConst(r, w); }
  if (commut(k)) { if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); }  // constant to the right
  if (w == 1) {
    if (k == KAnd) { if (isC(b)) return b->c ? a : b; if (a == b) return a; if (a->k == KNot && a->a == b) return mkConst(0, 1); if (b->k == KNot && b->a == a) return mkConst(0, 1); }
    else if (k == KOr) { if (isC(b)) return b->c ? b : a; if (a == b) return a; if (a->k == KNot && a->a == b) return mkConst(1, 1); if (b->k == KNot && b->a == a) return mkConst(1, 1); }
    else if (k == KXor) { if (isC(b)) return b->c ? mkNot(a) : a; if (a == b) return mkConst(0, 1); }
    else if (k == KAdd || k == KSub) return mkBin(KXor, a, b);
    else if (k == KMul) return mkBin(KAnd, a, b);
  }
  if (isC(b)) {
    uint64_t c = b->c;
    switch (k) {
      case KAdd: if (!c) return a; if (a->k == KAdd && isC(a->b)) return mkBin(KAdd, a->a, mkConst(a->b->c + c, w)); 
        if (a->k == KIte && isC(a->b) && isC(a->d)) return mkIte(a->a, mkConst(a->b->c + c, w), mkConst(a->d->c + c, w)); break;
      case KSub: if (!c) return a; return mkBin(KAdd, a, mkConst(0 - c, w));
      case KMul: if (!c) return b; if (c == 1) return a; if ((c & (c - 1)) == 0) return mkBin(KShl, a, mkConst(__builtin_ctzll(c), w)); break;
      case KUDiv: if (c == 1) return a; if (c && (c & (c - 1)) == 0) return mkBin(KLShr, a, mkConst(__builtin_ctzll(c), w)); if (c > a->umax) return mkConst(0, w); break;
      case KURem: if (c == 1) return mkConst(0, w); if (c && (c & (c - 1)) == 0) return mkBin(KAnd, a, mkConst(c - 1, w)); if (c > a->umax) return a; break;
      case KSDiv: if (c == 1) return a; if (c && c < (1ULL << (w - 1)) && a->umax < (1ULL << (w - 1))) return mkBin(KUDiv, a, b);
        if (c && c < (1ULL << (w - 1)) && (c & (c - 1)) == 0) { unsigned n = __builtin_ctzll(c); E* s = mkBin(KAShr, a, mkConst(w - 1, w)); return mkBin(KAShr, mkBin(KAdd, a, mkBin(KLShr, s, mkConst(w - n, w))), mkConst(n, w)); }
        { uint64_t nc = (0 - c) & M; if (c >= (1ULL << (w - 1)) && c != M && nc < (1ULL << (w - 1)) && (nc & (nc - 1)) == 0) return mkBin(KSub, mkConst(0, w), mkBin(KSDiv, a, mkConst(nc, w))); }
        break;
      case KSRem: if (c && c < (1ULL << (w - 1)) && a->umax < (1ULL << (w - 1))) return mkBin(KURem, a, b);
        if (c > 1 && c < (1ULL << (w - 1)) && (c & (c - 1)) == 0) { E* q = mkBin(KSDiv, a, b); return mkBin(KSub, a, mkBin(KShl, q, mkConst(__builtin_ctzll(c), w))); }
        break;
      case KAnd: {
        if (!c) return b; if (c == M) return a;
        if (a->k == KAnd && isC(a->b)) return mkBin(KAnd, a->a, mkConst(a->b->c & c, w));
        uint64_t um = a->umax; uint64_t cover = um ? wmask(64 - __builtin_clzll(um)) : 0;
        if ((c & cover) == cover) return a;
        if (a->tz && (c & ~wmask(a->tz)) == 0 ) return mkConst(0, w);
        if ((c & cover) != c) return mkBin(KAnd, a, mkConst(c & cover, w));
        if (((c + 1) & c) == 0 && c) { unsigned n = 64 - __builtin_clzll(c); if (n < w) return mkZExt(mkExtract(a, 0, n), w); }
        break; }
      case KOr: if (!c) return a; if (c == M) return b; break;
      case KXor: if (!c) return a; if (a->k == KXor && isC(a->b)) return mkBin(KXor, a->a, mkConst(a->b->c ^ c, w)); if (c == M) return mk(KXor, w, 0, 0, a, b); break;
      case KShl: if (!c) return a; if (c >= w) return mkConst(0, w);
        return mkConcat(mkExtract(a, 0, w - c), mkConst(0, c));
      case KLShr: if (!c) return a; if (c >= w) return mkConst(0, w); return mkZExt(mkExtract(a, c, w - c), w);
      case KAShr: if (!c) return a; if (c >= w) c = w - 1; return mkSExt(mkExtract(a, c, w - c), w);
      default: break;
    }
  }
  if (isC(a) && a->c == 0) { if (k == KShl || k == KLShr || k == KAShr) return a; if (k == KUDiv) { /* 0/x */ } }
  if (a == b) { if (k == KSub || k == KXor) return mkConst(0, w); if (k == KAnd || k == KOr) return a; }
  if ((k == KAdd || k == KSub) && w > 1) { E* r = linearCancel(k, a, b); if (r) return r; }
  if (k == KSub) { // (x + c) - x
    if (a->k == KAdd && a->a == b) return a->b;
    if (a->k == KAdd && a->b == b) return a->a;
    if (a->k == KAdd && isC(a->b) && b->k == KAdd && isC(b->b) && a->a == b->a) return mkConst(a->b->c - b->b->c, w);
    if (b->k == KAdd && isC(b->b)) return mkBin(KAdd, mkBin(KSub, a, b->a), mkConst(0 - b->b->c, w));
    if (a->k == KAdd && isC(a->b)) return mkBin(KAdd, mkBin(KSub, a->a, b), a->b);
  }
  if (k == KAdd) {
    if (a->k == KAdd && isC(a->b)) return mkBin(KAdd, mkBin(KAdd, a->a, b), a->b);
    if (b->k == KAdd && isC(b->b)) return mkBin(KAdd, mkBin(KAdd, a, b->a), b->b);
    if (a->k == KSub && a->b == b) return a->a;
    if (b->k == KSub && b->b == a) return b->a;
  }
  if (k == KOr || k == KAdd || k == KXor) {
    // disjoint concat pieces:  concat(x,0^n) | zext(y)  with y fitting n bits
    for (int s = 0; s < 2; s++) {
      E *p = s ? b : a, *q = s ? a : b;
      if (p->k == KConcat && isC(p->b) && p->b->c == 0 && q->umax <= wmask(p->b->w)) return mkConcat(p->a, mkExtract(q, 0, p->b->w));
      if (p->k == KConcat && p->b->k == KConcat && isC(p->b->b) && p->b->b->c == 0 && q->umax <= wmask(p->b->b->w)) return mkConcat(p->a, mkConcat(p->b->a, mkExtract(q, 0, p->b->b->w)));
      if (p->tz && p->tz < w && q->umax <= wmask(p->tz) && k != KAdd) return mkConcat(mkExtract(p, p->tz, w - p->tz), mkExtract(q, 0, p->tz));
    }
  }
  if ((k == KAnd || k == KOr || k == KXor) && a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return mkZExt(mkBin(k, a->a, b->a), w);
  if ((k == KAnd || k == KOr || k == KXor) && a->k == KZExt && isC(b) && (k == KAnd || b->c <= wmask(a->a->w))) return mkZExt(mkBin(k, a->a, mkConst(b->c, a->a->w)), w);
  if ((k == KAnd || k == KOr || k == KXor) && a->k == KConcat && isC(b)) return mkConcat(mkBin(k, a->a, mkConst(b->c >> a->b->w, a->a->w)), mkBin(k, a->b, mkConst(b->c, a->b->w)));
  return mk(k, w, 0, 0, a, b);
}
E* mkCmp(K k, E* a, E* b) {
  assert(a->w == b->w); unsigned w = a->w;
  if (isC(a) && isC(b)) { bool ok; return mkConst(foldBin(k, a->c, b->c, w, ok), 1); }
  if (a == b) return mkConst(k == KEq || k == KUle || k == KSle, 1);
  if (k == KEq) {
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
    if (w == 1) { if (isC(b)) return b->c ? a : mkNot(a); }
    if (isC(b)) {
      uint64_t c = b->c;
      if (c > a->umax) return mkConst(0, 1);
      switch (a->k) {
        case KZExt: return mkCmp(KEq, a->a, mkConst(c, a->a->w));
        case KSExt: { uint64_t t = c & wmask(a->a->w); if (((uint64_t)sext64(t, a->a->w) & wmask(w)) != c) return mkConst(0, 1); return mkCmp(KEq, a->a, mkConst(t, a->a->w)); }
        case KConcat: return mkBin(KAnd, mkCmp(KEq, a->a, mkConst(c >> a->b->w, a->a->w)), mkCmp(KEq, a->b, mkConst(c, a->b->w)));
        case KAdd: if (isC(a->b)) return mkCmp(KEq, a->a, mkConst(c - a->b->c, w)); break;
        case KXor: if (isC(a->b)) return mkCmp(KEq, a->a, mkConst(c ^ a->b->c, w)); break;
        case KSub: if (c == 0) return mkCmp(KEq, a->a, a->b); if (isC(a->a)) return mkCmp(KEq, a->b, mkConst(a->a->c - c, w)); break;
        case KIte: {
          bool bc = isC(a->b), dc = isC(a->d);
          if (bc && dc) { bool x = a->b->c == c, y = a->d->c == c; if (x && y) return mkConst(1, 1); if (x) return a->a; if (y) return mkNot(a->a); return mkConst(0, 1); }
          if (bc) { if (a->b->c == c) return mkBin(KOr, a->a, mkCmp(KEq, a->d, b)); return mkBin(KAnd, mkNot(a->a), mkCmp(KEq, a->d, b)); }
          if (dc) { if (a->d->c == c) return mkBin(KOr, mkNot(a->a), mkCmp(KEq, a->b, b)); return mkBin(KAnd, a->a, mkCmp(KEq, a->b, b)); }
          break; }
        default: break;
      }
    } else {
      if ((a->k == KZExt && b->k == KZExt) || (a->k == KSExt && b->k == KSExt)) if (a->a->w == b->a->w) return mkCmp(KEq, a->a, b->a);
      if (a->k == KZExt && b->k == KZExt) { if (a->a->w > b->a->w) std::swap(a, b); return mkCmp(KEq, mkZExt(a->a, b->a->w), b->a); }
      if (a->k == KConcat && b->k == KConcat && a->b->w == b->b->w) return mkBin(KAnd, mkCmp(KEq, a->a, b->a), mkCmp(KEq, a->b, b->b));
      if (a->k == KAdd && isC(a->b) && b->k == KAdd && isC(b->b)) return mkCmp(KEq, mkBin(KAdd, a->a, mkConst(a->b->c - b->b->c, w)), b->a);
      if (a->k == KAdd && isC(a->b) && a->a == b) return mkConst(a->b->c == 0, 1);
      if (b->k == KAdd && isC(b->b) && b->a == a) return mkConst(b->b->c == 0, 1);
    }
  } else {
    uint64_t M = wmask(w), H = 1ULL << (w - 1);
    if (k == KUlt) { if (isC(b)) { if (!b->c) return mkConst(0, 1); if (a->umax < b->c) return mkConst(1, 1); if (b->c == 1) return mkCmp(KEq, a, mkConst(0, w)); } if (isC(a)) { if (a->c >= b->umax) return mkConst(0, 1); if (a->c == 0) return mkNot(mkCmp(KEq, b, mkConst(0, w))); } }
    if (k == KUle) { if (isC(b) && a->umax <= b->c) return mkConst(1, 1); if (isC(a)) { if (a->c == 0) return mkConst(1, 1); if (a->c > b->umax) return mkConst(0, 1); if (a->c == M) return mkCmp(KEq, b, a); } if (isC(b) && b->c == 0) return mkCmp(KEq, a, b); }
    if ((k == KSlt || k == KSle) && w > 1) {
      if (a->umax < H && b->umax < H) return mkCmp(k == KSlt ? KUlt : KUle, a, b);
      if (isC(b) && b->c >= H && a->umax < H) return mkConst(0, 1);
      if (isC(a) && a->c >= H && b->umax < H) return mkConst(1, 1);
      if (a->k == KSExt && isC(b)) { unsigned n = a->a->w; int64_t c = sext64(b->c, w); int64_t lo = -(1LL << (n - 1)), hi = (1LL << (n - 1)) - 1; if (c > hi) return mkConst(1, 1); if (c < lo) return mkConst(0, 1); return mkCmp(k, a->a, mkConst((uint64_t)c, n)); }
      if (b->k == KSExt && isC(a)) { unsigned n = b->a->w; int64_t c = sext64(a->c, w); int64_t lo = -(1LL << (n - 1)), hi = (1LL << (n - 1)) - 1; if (c > hi) return mkConst(0, 1); if (c < lo) return mkConst(1, 1); return mkCmp(k, mkConst((uint64_t)c, n), b->a); }
      if (a->k == KSExt && b->k == KSExt && a->a->w == b->a->w) return mkCmp(k, a->a, b->a);
    }
    if (k == KUlt || k == KUle) {
      if (a->k == KZExt && isC(b)) { if (b->c <= wmask(a->a->w)) return mkCmp(k, a->a, mkConst(b->c, a->a->w)); }
      if (b->k == KZExt && isC(a)) { if (a->c <= wmask(b->a->w)) return mkCmp(k, mkConst(a->c, b->a->w), b->a); }
      if (a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return mkCmp(k, a->a, b->a);
      if (w == 1) return k == KUlt ? mkBin(KAnd, mkNot(a), b) : mkBin(KOr, mkNot(a), b);
    }
    // comparison of an ite of constants with a constant
    if (a->k == KIte && isC(b) && isC(a->b) && isC(a->d)) return mkIte(a->a, mkCmp(k, a->b, b), mkCmp(k, a->d, b));
    if (b->k == KIte && isC(a) && isC(b->b) && isC(b->d)) return mkIte(b->a, mkCmp(k, a, b->b), mkCmp(k, a, b->d));
  }
  return mk(k, 1, 0, 0, a, b);
}
E* mkIte(E* c, E* a, E* b) {
  assert(c->w == 1 && a->w == b->w);
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->k == KNot) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isC(a)) return a->c ? mkBin(KOr, c, b) : mkBin(KAnd, mkNot(c), b);
    if (isC(b)) return b->c ? mkBin(KOr, mkNot(c), a) : mkBin(KAnd, c, a);
    if (a == c) return mkBin(KOr, c, b);
    if (b == c) return mkBin(KAnd, c, a);
  }
  if (a->k == KIte && a->a == c) return mkIte(c, a->b, b);
  if (b->k == KIte && b->a == c) return mkIte(c, a, b->d);
  if (b->k == KIte && b->b == a) return mkIte(mkBin(KOr, c, b->a), a, b->d);
  if (a->k == KIte && a->d == b) return mkIte(mkBin(KAnd, c, a->a), a->b, b);
  if (a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return mkZExt(mkIte(c, a->a, b->a), a->w);
  if (a->k == KZExt && isC(b) && b->c <= wmask(a->a->w)) return mkZExt(mkIte(c, a->a, mkConst(b->c, a->a->w)), a->w);
  if (b->k == KZExt && isC(a) && a->c <= wmask(b->a->w)) return mkZExt(mkIte(c, mkConst(a->c, b->a->w), b->a), b->w);
  if (isC(a) && isC(b) && a->w > 1 && a->w <= 64) { if (a->c == 1 && b->c == 0) return mkZExt(c, a->w); if (a->c == 0 && b->c == 1) return mkZExt(mkNot(c), a->w); }
  return mk(KIte, a->w, 0, 0, c, a, b);
}
E* mkZExt(E* a, unsigned w) {
  if (a->w == w) return a; assert(a->w < w);
  if (isC(a)) return mkConst(a->c, w);
  if (a->k == KZExt) return mkZExt(a->a, w);
  if (a->k == KConcat && isC(a->a) && a->a->c == 0) return mkZExt(a->b, w);
  return mk(KZExt, w, 0, 0, a);
}
E* mkSExt(E* a, unsigned w) {
  if (a->w == w) return a; assert(a->w < w);
  if (isC(a)) return mkConst((uint64_t)sext64(a->c, a->w), w);
  if (a->k == KSExt) return mkSExt(a->a, w);
  if (a->k == KZExt && a->a->w < a->w) return mkZExt(a->a, w);
  if (a->w > 1 && a->umax < (1ULL << (a->w - 1))) return mkZExt(a, w);
  return mk(KSExt, w, 0, 0, a);
}
E* mkExtract(E* a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  assert(lo + w <= a->w);
  switch (a->k) {
    case KConst: return mkConst(a->c >> lo, w);
    case KExtract: return mkExtract(a->a, a->aux + lo, w);
    case KZExt: { unsigned n = a->a->w; if (lo >= n) return mkConst(0, w); if (lo + w <= n) return mkExtract(a->a, lo, w); return mkZExt(mkExtract(a->a, lo, n - lo), w); }
    case KSExt: { unsigned n = a->a->w; if (lo + w <= n) return mkExtract(a->a, lo, w); if (lo < n) return mkSExt(mkExtract(a->a, lo, n - lo), w); return mkSExt(mkExtract(a->a, n - 1, 1), w); }
    case KConcat: { unsigned n = a->b->w; if (lo >= n) return mkExtract(a->a, lo - n, w); if (lo + w <= n) return mkExtract(a->b, lo, w); return mkConcat(mkExtract(a->a, 0, lo + w - n), mkExtract(a->b, lo, n - lo)); }
    case KAnd: case KOr: case KXor: if (isC(a->b) || lo == 0) return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w)); break;
    case KMul: if (!((a->a->k == KZExt || a->a->k == KSExt || isC(a->a)) && (a->b->k == KZExt || a->b->k == KSExt || isC(a->b)))) break;   // Narrowing a product keeps the pieces of a hash from rejoining.
      [[fallthrough]];
    case KAdd: case KSub: if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
    case KIte: if (isC(a->b) || isC(a->d) ) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w)); break;
    default: break;
  }
  if (lo > 0 && a->umax <= wmask(lo)) return mkConst(0, w);
  return mk(KExtract, w, lo, 0, a);
}
// An extract that does not narrow the operation underneath, so that the pieces of a stored value rejoin when it is loaded.
E* mkExtractRaw(E* a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  switch (a->k) {
    case KAnd: case KOr: case KXor: case KAdd: case KSub: case KMul: case KIte: {
      E* e = mkExtract(a, lo, w);
      if (isC(e)) return e;
      if (lo > 0 && a->umax <= wmask(lo)) return mkConst(0, w);
      return mk(KExtract, w, lo, 0, a);
    }
    case KExtract: return mkExtractRaw(a->a, a->aux + lo, w);
    case KZExt: { unsigned n = a->a->w; if (lo + w <= n) return mkExtractRaw(a->a, lo, w); if (lo < n) return mkZExt(mkExtractRaw(a->a, lo, n - lo), w); return mkConst(0, w); }
    case KSExt: { unsigned n = a->a->w; if (lo + w <= n) return mkExtractRaw(a->a, lo, w); return mkExtract(a, lo, w); }
    case KConcat: { unsigned n = a->b->w; if (lo >= n) return mkExtractRaw(a->a, lo - n, w); if (lo + w <= n) return mkExtractRaw(a->b, lo, w); return mkConcat(mkExtractRaw(a->a, 0, lo + w - n), mkExtractRaw(a->b, lo, n - lo)); }
    default: return mkExtract(a, lo, w);
  }
}
E* mkTidy(E* e) {
  if (e->k == KExtract) return mkExtract(e->a, e->aux, e->w);
  if (e->k == KZExt) return mkZExt(mkTidy(e->a), e->w);
  if (e->k == KConcat) return mkConcat(mkTidy(e->a), mkTidy(e->b));
  return e;
}
E* mkConcat(E* hi, E* lo) {
  unsigned w = hi->w + lo->w; assert(w <= 64);
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && hi->c == 0) return mkZExt(lo, w);
  if (hi->k == KExtract && lo->k == KExtract && hi->a == lo->a && hi->aux == lo->aux + lo->w) return mkExtractRaw(hi->a, lo->aux, w);
  if (hi->k == KExtract && hi->a == lo && hi->aux == lo->w) return mkExtract(lo, 0, w);
  // right-associate so adjacent extracts meet
  if (hi->k == KConcat) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (lo->k == KConcat) {
    E* m = nullptr;
    if (hi->k == KExtract && lo->a->k == KExtract && hi->a == lo->a->a && hi->aux == lo->a->aux + lo->a->w) m = mkExtractRaw(hi->a, lo->a->aux, hi->w + lo->a->w);
    else if (isC(hi) && isC(lo->a)) m = mkConst((hi->c << lo->a->w) | lo->a->c, hi->w + lo->a->w);
    if (m) return mkConcat(m, lo->b);
  }
  if (hi->k == KZExt && hi->a->w < hi->w) return mkZExt(mkConcat(hi->a, lo), w);
  // sign-extension pieces: concat(extract(sext(x)),...) is already handled by extract of sext
  return mk(KConcat, w, 0, 0, hi, lo);
}
E* mkF(K k, unsigned w, E* a, E* b, E* d, uint32_t aux) {
  if (isC(a) && (!b || isC(b)) && (!d || isC(d))) return mkConst(foldF(k, w, a->c, b ? b->c : 0, d ? d->c : 0, a->w, aux), w);
  if (k == KFTrunc && a->k == KFExt) return mk(KFTrunc, w, aux, 0, a);
  return mk(k, w, aux, 0, a, b, d);
}
E* mkFAbs(E* a) { return mkBin(KAnd, a, mkConst(wmask(a->w) >> 1, a->w)); }
E* mkFNeg(E* a) { return mkBin(KXor, a, mkConst(1ULL << (a->w - 1), a->w)); }

static uint64_t evalRec(E* e, const Model& m) {
  if (e->k == KConst) return e->c;
  if (e->eve == epoch) return e->evv;
  uint64_t r = 0; bool ok;
  switch (e->k) {
    case KVar: r = e->aux < m.size() ? m[e->aux] : 0; break;
    case KZExt: r = evalRec(e->a, m); break;
    case KSExt: r = (uint64_t)sext64(evalRec(e->a, m), e->a->w) & wmask(e->w); break;
    case KExtract: r = (evalRec(e->a, m) >> e->aux) & wmask(e->w); break;
    case KConcat: r = (evalRec(e->a, m) << e->b->w) | evalRec(e->b, m); break;
    case KNot: r = !evalRec(e->a, m); break;
    case KIte: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->d, m); break;
    default:
      if (e->k >= KFAdd) r = foldF(e->k, e->w, evalRec(e->a, m), e->b ? evalRec(e->b, m) : 0, e->d ? evalRec(e->d, m) : 0, e->a->w, e->aux);
      else r = foldBin(e->k, evalRec(e->a, m), evalRec(e->b, m), e->a->w, ok);
  }
  e->evv = r; e->eve = epoch;
  return r;
}
uint64_t evalE(E* e, const Model& m) { return evalRec(e, m); }

const uint64_t* unaryMask(E* e) {
  if (e->mask) return e->mask;
  uint32_t v = e->vars->v[0];
  uint64_t* mk_ = new uint64_t[4]();
  Model m(v + 1, 0);
  for (int i = 0; i < 256; i++) { m[v] = i; epoch++; if (evalRec(e, m)) mk_[i >> 6] |= 1ULL << (i & 63); }
  epoch++;
  e->mask = mk_;
  return mk_;
}
std::string exprStr(E* e, int depth) {
  static const char* n[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","zext","sext","extract","concat","eq","ult","ule","slt","sle","not","ite","fadd","fsub","fmul","fdiv","frem","fsqrt","ffma","foeq","folt","fole","funo","fext","ftrunc","ftosi","ftoui","sitof","uitof","fround"};
  char buf[64];
  if (e->k == KConst) { snprintf(buf, 64, "%llu:%d", (unsigned long long)e->c, e->w); return buf; }
  if (e->k == KVar) { snprintf(buf, 64, "in%u", e->aux); return buf; }
  if (!depth) return "...";
  std::string s = std::string("(") + n[e->k];
  if (e->k == KExtract) { snprintf(buf, 64, "[%d+%d]", e->aux, e->w); s += buf; }
  for (E* x : {e->a, e->b, e->d}) if (x) s += " " + exprStr(x, depth - 1);
  return s + ")";
}
