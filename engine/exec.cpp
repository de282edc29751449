#include "exec.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cassert>
#include <cstdarg>
#include <algorithm>
#include <unordered_set>
#include <thread>
#include <pthread.h>

static ::Module* M;
static std::vector<std::vector<V>> fconst;   // per function constant operand table
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double gStart, gDeadline = 600;
static uint64_t gMaxInst = 20000000;
static uint32_t gMaxViol = 3, gSeed = 1;
static std::string gOut;
static int gProcs = 8;
struct Shared { std::atomic<int> violAt; std::atomic<int> freeSlots; std::atomic<int> crashed; std::atomic<int> violations; std::atomic<int> stop; };
static Shared* SH;
static double gGrace = 45;   // Once something is violated, this much longer.
static double deadline() { int v = SH->violAt.load(); return v && v + gGrace < gDeadline ? v + gGrace : gDeadline; }

struct Stats {
  uint64_t paths = 0, completed = 0, assumedAway = 0, errors = 0, forks = 0, blocks = 0, insts = 0, asserts = 0, assertsSym = 0, incomplete = 0, symReads = 0, symWrites = 0, concretize = 0, domDecisions = 0, maxForkDepth = 0, maxPathInst = 0, states = 0;
} ST;
static std::map<std::string, uint64_t> gReach, gAssertCount, gIncomplete;
static std::vector<uint64_t> gFuncHits;      // per function: number of calls
static std::vector<uint8_t> gFuncSym;        // function executed with symbolic operand
struct Viol { std::string kind, label, where, stack, tags; std::vector<uint8_t> input; };
static std::vector<Viol> gViol; static std::map<std::string, uint32_t> gViolCount;
struct Trace { std::vector<uint8_t> in; std::vector<uint32_t> notes; };
static std::vector<Trace> gTraces; static uint64_t gTraceSeen = 0;
static uint64_t rng = 88172645463325252ULL;
static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

// ------------------------------------------------------------------ memory
static void objFree(Obj* o) { if (--o->rc) return; free(o->data); free(o->sym); free(o->und); delete o; }
static Obj* objNew(uint32_t base, uint32_t size, int kind, bool undef) {
  Obj* o = new Obj{1, base, size, (uint8_t)kind, false, false, nullptr, nullptr, nullptr};
  o->data = (uint8_t*)calloc(size ? size : 1, 1);
  if (undef && size) { o->und = (uint8_t*)malloc(size); memset(o->und, 1, size); }
  return o;
}
static Obj* objClone(Obj* o) {
  Obj* n = new Obj(*o); n->rc = 1;
  uint32_t s = o->size ? o->size : 1;
  n->data = (uint8_t*)malloc(s); memcpy(n->data, o->data, s);
  if (o->sym) { n->sym = (E**)malloc(s * sizeof(E*)); memcpy(n->sym, o->sym, s * sizeof(E*)); }
  if (o->und) { n->und = (uint8_t*)malloc(s); memcpy(n->und, o->und, s); }
  return n;
}
static void chunkFree(Chunk* c) { if (--c->rc) return; for (Obj* o : c->o) if (o) objFree(o); delete c; }
static Chunk* chunkW(Space& s, uint32_t ci) {
  while (s.ch.size() <= ci) { Chunk* c = new Chunk(); c->rc = 1; memset(c->o, 0, sizeof(c->o)); s.ch.push_back(c); }
  Chunk* c = s.ch[ci];
  if (c->rc > 1) { Chunk* n = new Chunk(*c); n->rc = 1; for (Obj* o : n->o) if (o) o->rc++; c->rc--; s.ch[ci] = n; c = n; }
  return c;
}
static inline Obj* findIn(const Space& s, uint32_t a) {
  uint32_t i = (a - s.base) >> SLOT_SHIFT;
  uint32_t ci = i >> 6; if (ci >= s.ch.size()) return nullptr;
  return s.ch[ci]->o[i & 63];
}
static inline Obj* findObj(const State& st, uint32_t a) {
  if (a >= STACK_BASE) return a < FUNC_BASE ? findIn(st.stack, a) : nullptr;
  if (a < GLOBAL_BASE) return nullptr;
  return findIn(st.heap, a);
}
static uint32_t slotsFor(uint32_t size) { return (size + 64 + SLOT - 1) / SLOT; }
static void placeObj(Space& s, Obj* o) {   // takes over the reference
  uint32_t i = (o->base - s.base) >> SLOT_SHIFT, n = slotsFor(o->size);
  for (uint32_t k = 0; k < n; k++) { Chunk* c = chunkW(s, (i + k) >> 6); Obj*& p = c->o[(i + k) & 63]; if (p) objFree(p); p = o; if (k) o->rc++; }
}
static void clearSlot(Space& s, uint32_t a0, uint32_t a1) {
  for (uint32_t a = a0; a < a1; a += SLOT) { uint32_t i = (a - s.base) >> SLOT_SHIFT; if ((i >> 6) >= s.ch.size()) break; if (!s.ch[i >> 6]->o[i & 63]) continue; Chunk* c = chunkW(s, i >> 6); Obj*& p = c->o[i & 63]; if (p) { objFree(p); p = nullptr; } }
}
static Obj* writable(State& st, Obj* o) {
  Space& s = o->base >= STACK_BASE ? st.stack : st.heap;
  uint32_t i = (o->base - s.base) >> SLOT_SHIFT; uint32_t n = slotsFor(o->size);
  Chunk* c = chunkW(s, i >> 6);
  Obj* cur = c->o[i & 63];
  if (cur->rc == (n > 1 ? n : 1) ) {
    if (n > 1) { // make sure all chunks holding it are private
      for (uint32_t k = 1; k < n; k++) chunkW(s, (i + k) >> 6);
      if (cur->rc != n) goto clone;
    }
    return cur;
  }
clone:
  Obj* nw = objClone(cur);
  for (uint32_t k = 0; k < n; k++) { Chunk* cc = chunkW(s, (i + k) >> 6); Obj*& p = cc->o[(i + k) & 63]; objFree(p); p = nw; if (k) nw->rc++; }
  return nw;
}
State::~State() { for (Chunk* c : heap.ch) chunkFree(c); for (Chunk* c : stack.ch) chunkFree(c); }
static uint64_t gUid = 1;
State* State::clone() const {
  State* n = new State(*this);
  for (Chunk* c : n->heap.ch) c->rc++;
  for (Chunk* c : n->stack.ch) c->rc++;
  // only the top frame is mutated in place: give each copy its own
  if (!n->fr.empty()) n->fr.back() = std::make_shared<Frame>(*fr.back());
  n->uid = gUid++;
  return n;
}

// ------------------------------------------------------------------ constraints
struct MaskHash { size_t operator()(const Mask& m) const { return m.m[0] * 0x9E3779B97F4A7C15ULL ^ m.m[1] * 0xff51afd7ed558ccdULL ^ m.m[2] * 0xc4ceb9fe1a85ec53ULL ^ m.m[3]; } };
struct MaskEq { bool operator()(const Mask& a, const Mask& b) const { return !memcmp(&a, &b, sizeof a); } };
static std::unordered_set<Mask, MaskHash, MaskEq> masks;
static const Mask* internMask(const Mask& m) { return &*masks.insert(m).first; }
static const Mask* fullMask() { static const Mask* f = internMask(Mask{{~0ULL, ~0ULL, ~0ULL, ~0ULL}}); return f; }
static int popc(const Mask& m) { return __builtin_popcountll(m.m[0]) + __builtin_popcountll(m.m[1]) + __builtin_popcountll(m.m[2]) + __builtin_popcountll(m.m[3]); }
static inline const Mask* domOf(const State& st, uint32_t v) { return v < st.dom.size() && st.dom[v] ? st.dom[v] : fullMask(); }
static inline bool isFixed(const State& st, uint32_t v) { const Mask* m = v < st.dom.size() ? st.dom[v] : nullptr; return m && popc(*m) == 1; }

static const State* evState = nullptr; static uint64_t evVer = 0;
static uint64_t ev(State& st, E* e) { if (isC(e)) return e->c; if (evState != &st) { evState = &st; evalEpoch(); } return evalE(e, st.model); }
static void modelChanged() { evState = nullptr; }

static E* substFixed(State& st, E* e, std::unordered_map<E*, E*>& memo) {
  if (isC(e)) return e;
  bool any = false, all = true;
  for (uint32_t v : e->vars->v) { if (isFixed(st, v)) any = true; else all = false; }
  if (!any) return e;
  if (all) return mkConst(ev(st, e), e->w);
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  E *a = e->a ? substFixed(st, e->a, memo) : nullptr, *b = e->b ? substFixed(st, e->b, memo) : nullptr, *d = e->d ? substFixed(st, e->d, memo) : nullptr;
  E* r = e;
  if (a != e->a || b != e->b || d != e->d) switch (e->k) {
    case KZExt: r = mkZExt(a, e->w); break;
    case KSExt: r = mkSExt(a, e->w); break;
    case KExtract: r = mkExtract(a, e->aux, e->w); break;
    case KConcat: r = mkConcat(a, b); break;
    case KNot: r = mkNot(a); break;
    case KIte: r = mkIte(a, b, d); break;
    case KEq: case KUlt: case KUle: case KSlt: case KSle: r = mkCmp(e->k, a, b); break;
    default: if (e->k >= KFAdd) r = mkF(e->k, e->w, a, b, d, e->aux); else r = mkBin(e->k, a, b);
  }
  memo[e] = r;
  return r;
}
static E* simp(State& st, E* e) {
  if (isC(e)) return e;
  std::unordered_map<E*, E*> memo;
  return substFixed(st, e, memo);
}
struct CacheEnt { Res r; std::vector<uint8_t> vals; };
struct KeyHash { size_t operator()(const std::vector<uint64_t>& v) const { uint64_t h = v.size(); for (auto x : v) { h ^= x; h *= 0x9E3779B97F4A7C15ULL; h ^= h >> 31; } return h; } };
static std::unordered_map<std::vector<uint64_t>, CacheEnt, KeyHash> qcache;

// Is `cond` satisfiable together with the path condition? On success `out` is a model of both.
static Res feasible(State& st, E* cond, Model& out, bool forceZ3 = false) {
  if (isC(cond)) { if (cond->c) { out = st.model; return RSat; } return RUnsat; }
  if (!forceZ3 && ev(st, cond)) { out = st.model; return RSat; }
  const auto& cvv = cond->vars->v;
  bool unary = cvv.size() == 1;
  if (unary) {
    uint32_t v = cvv[0]; const uint64_t* t = unaryMask(cond); const Mask* d = domOf(st, v); evState = nullptr;
    Mask m; for (int i = 0; i < 4; i++) m.m[i] = t[i] & d->m[i];
    bool empty = maskEmpty(m);
    if (!forceZ3) {
      if (empty) { ST.domDecisions++; return RUnsat; }
      if (v >= st.linked.size() || !st.linked[v]) {
        ST.domDecisions++;
        out = st.model; if (out.size() <= v) out.resize(v + 1, 0);
        int val = 0; for (int i = 0; i < 256; i++) if (m.m[i >> 6] >> (i & 63) & 1) { val = i; break; }
        out[v] = val; modelChanged();
        return RSat;
      }
    }
  }
  // independent slice
  std::vector<uint8_t> inS(st.nvars, 0); std::vector<uint32_t> vars;
  for (uint32_t v : cvv) { inS[v] = 1; vars.push_back(v); }
  std::vector<E*> sl; std::vector<uint8_t> used(st.cons.size(), 0);
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < st.cons.size(); i++) if (!used[i]) {
      bool hit = false; for (uint32_t v : st.cons[i]->vars->v) if (inS[v] && !isFixed(st, v)) { hit = true; break; }
      if (!hit) continue;
      used[i] = 1; sl.push_back(st.cons[i]); 
      for (uint32_t v : st.cons[i]->vars->v) if (!inS[v]) { inS[v] = 1; vars.push_back(v); ch = true; }
    }
  }
  std::sort(sl.begin(), sl.end(), [](E* a, E* b) { return a->id < b->id; });
  std::sort(vars.begin(), vars.end());
  sl.push_back(cond);
  std::vector<std::pair<uint32_t, const Mask*>> doms;
  std::vector<uint64_t> key; key.reserve(sl.size() + vars.size() * 2);
  for (E* e : sl) key.push_back(e->id);
  key.push_back(~0ULL);
  for (uint32_t v : vars) { const Mask* d = domOf(st, v); if (d != fullMask()) { doms.push_back({v, d}); key.push_back(((uint64_t)v << 48) ^ (uint64_t)(uintptr_t)d); } }
  auto it = qcache.find(key);
  if (it == qcache.end()) {
    CacheEnt ce; ce.r = z3Check(sl, doms, vars, ce.vals);
    it = qcache.emplace(std::move(key), std::move(ce)).first;
  } else gSolver.cacheHits++;
  if (it->second.r == RSat) {
    out = st.model; if (out.size() < st.nvars) out.resize(st.nvars, 0);
    for (size_t i = 0; i < vars.size(); i++) out[vars[i]] = it->second.vals[i];
    modelChanged(); evalEpoch();
    bool okm = true; for (E* e : sl) if (!evalE(e, out)) { okm = false; if (getenv("SX_VERBOSE")) fprintf(stderr, "model mismatch on %s\n", exprStr(e, 8).c_str()); break; }
    modelChanged();
    if (!okm) return RUnknown;
    return RSat;
  }
  return it->second.r;
}
// adds a constraint the state's model already satisfies
static void addCons(State& st, E* c) {
  if (isC(c)) return;
  if (c->k == KAnd && c->w == 1) { addCons(st, c->a); addCons(st, c->b); return; }
  if (c->k == KNot && c->a->k == KOr) { addCons(st, mkNot(c->a->a)); addCons(st, mkNot(c->a->b)); return; }
  const auto& vs = c->vars->v;
  if (vs.size() == 1) {
    uint32_t v = vs[0]; const uint64_t* t = unaryMask(c); modelChanged(); const Mask* d = domOf(st, v);
    Mask m; for (int i = 0; i < 4; i++) m.m[i] = t[i] & d->m[i];
    if (st.dom.size() <= v) st.dom.resize(v + 1, nullptr);
    st.dom[v] = internMask(m);
    return;
  }
  E* s = simp(st, c);
  if (s != c) { addCons(st, s); return; }
  for (E* x : st.cons) if (x == c) return;
  st.cons.push_back(c);
  for (uint32_t v : vs) { if (st.linked.size() <= v) st.linked.resize(v + 1, 0); st.linked[v] = 1; }
}

// ------------------------------------------------------------------ executor
static std::deque<State*> pend;
static State* S;           // current state
static Frame* F;           // its top frame

static std::string where(const Frame* f, uint32_t pc) {
  const Inst& i = f->f->code[std::min<size_t>(pc, f->f->code.size() - 1)];
  const std::string& fn = M->files[i.file]; size_t p = fn.find("/src/"); 
  return f->f->name + " (" + (p == std::string::npos ? fn : fn.substr(p + 1)) + ":" + std::to_string(i.line) + ")";
}
static std::vector<uint8_t> inputBytes(State& st, const Model& m) {
  std::vector<uint8_t> r; for (auto& e : st.log) r.push_back(e.var == ~0u ? e.c : e.var < m.size() ? m[e.var] : 0); return r;
}
static void incomplete(const std::string& why);
static void report(State& st, const std::string& kind, const std::string& label, const Model& m) {
  Viol v; v.kind = kind; v.label = label;
  for (int i = (int)st.fr.size() - 1; i >= 0; i--) { std::string w = where(st.fr[i].get(), i == (int)st.fr.size() - 1 ? st.fr[i]->pc : st.fr[i]->callInst); if (v.where.empty()) v.where = w; v.stack += w + "\n"; }
  for (auto& t : st.tags) v.tags += (v.tags.empty() ? "" : ",") + t;
  v.input = inputBytes(st, m);
  if (kind.compare(0, 11, "unsupported") == 0 || kind == "undefined-function" || kind == "too-many-args" || kind == "exit") { incomplete(kind + " " + label + " at " + v.where); return; }
  ST.errors++;
  std::string key = kind + "|" + label + "|" + (kind == "assert" ? "" : v.where) + "|" + v.tags;
  if (gViolCount[key]++ < gMaxViol) gViol.push_back(v);
  if (v.tags.empty()) { SH->violations++; int z = 0; SH->violAt.compare_exchange_strong(z, 1 + (int) (nowS() - gStart)); }
}
static void incomplete(const std::string& why) { ST.incomplete++; gIncomplete[why]++; }

// control result of an instruction
enum Ctl { CNext, CJump, CEnd, CRetry };

// a forked sibling: same position, with extra constraint and model
static void spawn(E* cond, const Model& m) {
  State* n = S->clone(); n->model = m; addCons(*n, cond); n->forks++; modelChanged();
  ST.forks++; ST.states++; if (n->forks > ST.maxForkDepth) ST.maxForkDepth = n->forks;
  pend.push_back(n);
}
static bool unknownQ(E* c) { (void)c; incomplete("solver-unknown at " + where(F, F->pc)); return false; }

// Make `v` concrete by forking over all of its feasible values.
static uint64_t concretize(V& v) {
  if (!v.e) return v.c;
  E* e = simp(*S, v.e);
  if (isC(e)) { v = cv(e->c); return v.c; }
  uint64_t x = ev(*S, e);
  E* eq = mkCmp(KEq, e, mkConst(x, e->w)); Model m;
  Res r = feasible(*S, mkNot(eq), m);
  if (r == RSat) { ST.concretize++; spawn(mkNot(eq), m); }
  else if (r == RUnknown) unknownQ(eq);
  addCons(*S, eq); S->forks++;
  v = cv(x);
  return x;
}
// decide a boolean, forking when both outcomes are feasible; returns the outcome for the current state
static bool decide(E* c) {
  c = simp(*S, c);
  if (isC(c)) return c->c;
  bool d = ev(*S, c);
  E* other = d ? mkNot(c) : c; Model m;
  Res r = feasible(*S, other, m);
  if (r == RSat) spawn(other, m); else if (r == RUnknown) unknownQ(c);
  if (r != RUnsat) { addCons(*S, mkNot(other)); S->forks++; }
  return d;
}
static void killErr(const char* kind, const std::string& label) { report(*S, kind, label, S->model); }

static V fromE(E* e) { return isC(e) ? cv(e->c) : V{0, e}; }
static inline E* toE(const V& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

static V readBytes(State& st, Obj*& o, uint32_t off, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (o->und) for (unsigned i = 0; i < n; i++) if (o->und[off + i]) {
    o = writable(st, o);
    uint32_t id = st.nvars++; o->und[off + i] = 0;
    if (!o->sym) o->sym = (E**)calloc(o->size, sizeof(E*));
    o->sym[off + i] = mkVar(id);
    if (st.model.size() <= id) st.model.resize(id + 1, 0xbe);
    modelChanged();
  }
  bool sym = false;
  if (o->sym) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { sym = true; break; }
  if (!sym) { uint64_t r = 0; memcpy(&r, o->data + off, n); return cv(r & wmask(w)); }
  E* r = nullptr;
  for (unsigned i = 0; i < n; i++) { E* b = o->sym[off + i] ? o->sym[off + i] : mkConst(o->data[off + i], 8); r = r ? mkConcat(b, r) : b; }
  if (w < 8 * n) r = mkExtract(r, 0, w);
  return fromE(mkTidy(r));
}
static void writeBytes(Obj* o, uint32_t off, unsigned w, V v) {   // o writable
  unsigned n = (w + 7) / 8;
  if (o->und) memset(o->und + off, 0, n);
  if (!v.e) { memcpy(o->data + off, &v.c, n); if (o->sym) memset(o->sym + off, 0, n * sizeof(E*)); return; }
  if (!o->sym) o->sym = (E**)calloc(o->size, sizeof(E*));
  E* e = w < 8 * n ? mkZExt(v.e, 8 * n) : v.e;
  for (unsigned i = 0; i < n; i++) { E* b = mkExtractRaw(e, 8 * i, 8); if (isC(b)) { o->data[off + i] = b->c; o->sym[off + i] = nullptr; } else o->sym[off + i] = b; }
}
static std::string hex(uint32_t a) { char b[16]; snprintf(b, 16, "0x%x", a); return b; }
// Resolve an access of n bytes. Returns object and offset (maybe symbolic); null when the path ended.
static Obj* resolve(V addr, uint32_t n, bool wr, V& off, const char* what) {
  uint32_t a; E* ae = nullptr;
  if (addr.e) { ae = simp(*S, addr.e); if (isC(ae)) { a = ae->c; ae = nullptr; } else a = ev(*S, ae); } else a = addr.c;
  Obj* o = findObj(*S, a);
  if (ae && o && !o->freed && o->size >= n) {
    E* offE = mkBin(KSub, ae, mkConst(o->base, 32));
    E* in = mkCmp(KUle, offE, mkConst(o->size - n, 32));
    if (ev(*S, in)) {
      Model m; Res r = feasible(*S, mkNot(in), m);
      if (r == RSat) { spawn(mkNot(in), m); addCons(*S, in); S->forks++; }
      else if (r == RUnknown) unknownQ(in);
      off = fromE(offE);
      if (o->ro && wr) { killErr("write-to-const", what); return nullptr; }
      return o;
    }
  }
  if (!o || o->freed || a - o->base > o->size || o->size - (a - o->base) < n) {
    const char* k = !o ? (a < 4096 ? "null-deref" : "wild-access") : o->freed ? "use-after-free" : "out-of-bounds";
    killErr(k, std::string(what) + " of " + std::to_string(n) + " at " + hex(a) + (o && !o->freed ? " object size " + std::to_string(o->size) + " offset " + std::to_string((int)(a - o->base)) : ""));
    return nullptr;
  }
  if (o->ro && wr) { killErr("write-to-const", what); return nullptr; }
  off = cv(a - o->base);
  if (ae) { // should not happen: handled above
    off = fromE(mkBin(KSub, ae, mkConst(o->base, 32)));
  }
  return o;
}
// feasible concrete offsets of a symbolic offset expression; false if too many
static bool candidates(E* offE, uint32_t maxOff, std::vector<uint32_t>& out, size_t limit) {
  if (offE->vars->v.size() == 1) {
    uint32_t v = offE->vars->v[0]; const Mask* d = domOf(*S, v); std::set<uint32_t> s; Model m(v + 1, 0);
    for (int i = 0; i < 256; i++) if (d->m[i >> 6] >> (i & 63) & 1) { m[v] = i; evalEpoch(); uint32_t o = evalE(offE, m); if (o <= maxOff) s.insert(o); }
    modelChanged(); evalEpoch();
    out.assign(s.begin(), s.end());
    return true;
  }
  uint64_t step = 1ULL << std::min<int>(offE->tz, 12);
  uint64_t mx = std::min<uint64_t>(maxOff, offE->umax);
  if (mx / step + 1 > limit) return false;
  for (uint64_t o = 0; o <= mx; o += step) out.push_back(o);
  return true;
}
static E* selectTree(E* offE, std::vector<std::pair<uint32_t, E*>>& lv, size_t lo, size_t hi) {
  bool same = true; for (size_t i = lo + 1; i < hi; i++) if (lv[i].second != lv[lo].second) { same = false; break; }
  if (same) return lv[lo].second;
  size_t mid = (lo + hi) / 2;
  E* c = mkCmp(KUlt, offE, mkConst(lv[mid].first, offE->w));
  return mkIte(c, selectTree(offE, lv, lo, mid), selectTree(offE, lv, mid, hi));
}
static bool doLoad(V addr, unsigned w, V& out) {
  V off; uint32_t n = (w + 7) / 8; Obj* o = resolve(addr, n, false, off, "read");
  if (!o) return false;
  if (!off.e) { out = readBytes(*S, o, off.c, w); return true; }
  std::vector<uint32_t> cand; ST.symReads++;
  if (!candidates(off.e, o->size - n, cand, 4096)) { uint32_t x = concretize(off); out = readBytes(*S, o, x, w); return true; }
  std::vector<std::pair<uint32_t, E*>> lv;
  for (uint32_t c : cand) { V v = readBytes(*S, o, c, w); lv.push_back({c, toE(v, w)}); }
  out = fromE(selectTree(off.e, lv, 0, lv.size()));
  return true;
}
static bool doStore(V addr, unsigned w, V val) {
  V off; uint32_t n = (w + 7) / 8; Obj* o = resolve(addr, n, true, off, "write");
  if (!o) return false;
  o = writable(*S, o);
  if (!off.e) { writeBytes(o, off.c, w, val); return true; }
  std::vector<uint32_t> cand; ST.symWrites++;
  if (!candidates(off.e, o->size - n, cand, 512)) { uint32_t x = concretize(off); writeBytes(writable(*S, findObj(*S, o->base)), x, w, val); return true; }
  E* ve = toE(val, w);
  for (uint32_t c : cand) { V old = readBytes(*S, o, c, w); E* eq = mkCmp(KEq, off.e, mkConst(c, off.e->w)); writeBytes(o, c, w, fromE(mkIte(eq, ve, toE(old, w)))); }
  return true;
}
static uint32_t heapAlloc(uint32_t size, bool undef = true) {
  uint32_t a = S->heapTop; S->heapTop += slotsFor(size) * SLOT;
  if (S->heapTop >= STACK_BASE) { incomplete("address space exhausted"); return 0; }
  placeObj(S->heap, objNew(a, size, OHeap, undef)); S->liveBytes += size; S->liveBlocks++;
  return a;
}
static uint32_t stackAlloc(uint32_t size, bool undef) {
  uint32_t a = S->stackTop; S->stackTop += slotsFor(size) * SLOT;
  placeObj(S->stack, objNew(a, size, OStack, undef));
  return a;
}
static bool heapFree(uint32_t a) {
  if (!a) return true;
  Obj* o = findObj(*S, a);
  if (!o || o->kind != OHeap || o->base != a) { killErr(o && o->freed ? "double-free" : "bad-free", hex(a)); return false; }
  if (o->freed) { killErr("double-free", hex(a)); return false; }
  S->liveBytes -= o->size; S->liveBlocks--;
  Obj* t = objNew(o->base, 0, OHeap, false); t->freed = true;
  uint32_t n = slotsFor(o->size), i = (a - S->heap.base) >> SLOT_SHIFT;
  t->rc = n;
  for (uint32_t k = 0; k < n; k++) { Chunk* c = chunkW(S->heap, (i + k) >> 6); Obj*& p = c->o[(i + k) & 63]; objFree(p); p = t; }
  return true;
}
// raw byte view helpers (values with width 8)
static bool copyMem(V dst, V src, V nn, bool isMove) {
  uint32_t n = concretize(nn); if (!n) return true;
  uint32_t d = concretize(dst), s = concretize(src);
  V od, os; Obj* so = resolve(cv(s), n, false, os, "memcpy read"); if (!so) return false;
  Obj* dob = resolve(cv(d), n, true, od, "memcpy write"); if (!dob) return false;
  (void)isMove;
  if (d == s) return true;
  if (!isMove && so == dob && (d < s ? s - d : d - s) < n) { killErr("memcpy-overlap", std::to_string(n)); return false; }
  dob = writable(*S, dob); so = findObj(*S, s);
  uint32_t so_ = os.c, do_ = od.c;
  memmove(dob->data + do_, so->data + so_, n);
  if (so->sym || dob->sym) {
    if (!so->sym) memset(dob->sym + do_, 0, n * sizeof(E*));
    else { if (!dob->sym) dob->sym = (E**)calloc(dob->size, sizeof(E*)); memmove(dob->sym + do_, so->sym + so_, n * sizeof(E*)); }
  }
  if (so->und || dob->und) {
    if (!so->und) memset(dob->und + do_, 0, n);
    else { if (!dob->und) dob->und = (uint8_t*)calloc(dob->size, 1); memmove(dob->und + do_, so->und + so_, n); }
  }
  return true;
}
static bool setMem(V dst, V val, V nn) {
  uint32_t n = concretize(nn); if (!n) return true;
  uint32_t d = concretize(dst); V od; Obj* o = resolve(cv(d), n, true, od, "memset"); if (!o) return false;
  o = writable(*S, o);
  if (o->und) memset(o->und + od.c, 0, n);
  if (val.e) { E* b = mkExtract(val.e, 0, 8); if (!isC(b)) { if (!o->sym) o->sym = (E**)calloc(o->size, sizeof(E*)); for (uint32_t i = 0; i < n; i++) o->sym[od.c + i] = b; return true; } val = cv(b->c); }
  memset(o->data + od.c, val.c & 255, n);
  if (o->sym) memset(o->sym + od.c, 0, n * sizeof(E*));
  return true;
}
static std::string cstr(uint32_t a) {
  std::string s; Obj* o = findObj(*S, a); if (!o || o->freed) return "?";
  for (uint32_t i = a - o->base; i < o->size && o->data[i] && s.size() < 200; i++) s += (char)o->data[i];
  return s;
}

// ------------------------------------------------------------------ builtins
enum BI : uint32_t {
  B_None, B_malloc, B_calloc, B_realloc, B_free, B_memcpy, B_memmove, B_memset, B_memcmp, B_abort, B_exit, B_nop0, B_guardAcq, B_guardRel,
  B_u8, B_u16, B_u32, B_u64, B_bytes, B_range, B_choose, B_assume, B_assert, B_fail, B_reach, B_note, B_note64, B_concretize, B_heapBytes, B_heapBlocks, B_known, B_budget, B_isSym, B_print, B_pure, B_end, B_fmtDouble, B_fork0,
  B_math1, B_math2, B_math1f, B_math2f, B_round1, B_round1f, B_sqrt, B_sqrtf, B_fabs, B_fabsf, B_isnan, B_isinf, B_strtod, B_fmod, B_fmodf
};
static std::map<std::string, uint32_t> bi = {
  {"malloc", B_malloc}, {"_Znwj", B_malloc}, {"_Znaj", B_malloc}, {"_ZnwjRKSt9nothrow_t", B_malloc}, {"_ZnajRKSt9nothrow_t", B_malloc}, {"calloc", B_calloc}, {"realloc", B_realloc},
  {"free", B_free}, {"_ZdlPv", B_free}, {"_ZdlPvj", B_free}, {"_ZdaPv", B_free}, {"_ZdaPvj", B_free}, {"cfree", B_free},
  {"memcpy", B_memcpy}, {"memmove", B_memmove}, {"memset", B_memset}, {"memcmp", B_memcmp}, {"bcmp", B_memcmp}, {"__memcpy_chk", B_memcpy}, {"__memset_chk", B_memset},
  {"abort", B_abort}, {"__assert_fail", B_abort}, {"exit", B_exit}, {"_exit", B_exit}, {"__cxa_atexit", B_nop0}, {"atexit", B_nop0}, {"__cxa_guard_acquire", B_guardAcq}, {"__cxa_guard_release", B_guardRel}, {"__cxa_pure_virtual", B_pure}, {"__stack_chk_fail", B_abort},
  {"sx_u8", B_u8}, {"sx_u16", B_u16}, {"sx_u32", B_u32}, {"sx_u64", B_u64}, {"sx_bytes", B_bytes}, {"sx_range", B_range}, {"sx_choose", B_choose}, {"sx_assume_", B_assume}, {"sx_assert_", B_assert}, {"sx_fail", B_fail}, {"sx_reach", B_reach}, {"sx_note", B_note}, {"sx_note64", B_note64},
  {"sx_concretize", B_concretize}, {"sx_heap_bytes", B_heapBytes}, {"sx_heap_blocks", B_heapBlocks}, {"sx_known", B_known}, {"sx_budget", B_budget}, {"sx_is_symbolic", B_isSym}, {"sx_print", B_print}, {"sx_end", B_end}, {"sx_fmt_double", B_fmtDouble}, {"sx_branch", B_fork0}, {"sx_strtod", B_strtod},
  {"printf", B_nop0}, {"puts", B_nop0}, {"putchar", B_nop0}, {"fflush", B_nop0}, {"fprintf", B_nop0}, {"fwrite", B_nop0}, {"perror", B_nop0},
  {"sin", B_math1}, {"cos", B_math1}, {"tan", B_math1}, {"asin", B_math1}, {"acos", B_math1}, {"atan", B_math1}, {"exp", B_math1}, {"log", B_math1}, {"log2", B_math1}, {"log10", B_math1}, {"exp2", B_math1}, {"pow", B_math2}, {"atan2", B_math2}, {"fmod", B_fmod},
  {"sinf", B_math1f}, {"cosf", B_math1f}, {"tanf", B_math1f}, {"asinf", B_math1f}, {"acosf", B_math1f}, {"atanf", B_math1f}, {"expf", B_math1f}, {"logf", B_math1f}, {"log2f", B_math1f}, {"log10f", B_math1f}, {"exp2f", B_math1f}, {"powf", B_math2f}, {"atan2f", B_math2f}, {"fmodf", B_fmodf},
  {"floor", B_round1}, {"ceil", B_round1}, {"trunc", B_round1}, {"round", B_round1}, {"rint", B_round1}, {"nearbyint", B_round1}, {"floorf", B_round1f}, {"ceilf", B_round1f}, {"truncf", B_round1f}, {"roundf", B_round1f}, {"rintf", B_round1f},
  {"sqrt", B_sqrt}, {"sqrtf", B_sqrtf}, {"fabs", B_fabs}, {"fabsf", B_fabsf}, {"__isnan", B_isnan}, {"isnan", B_isnan}, {"__isinf", B_isinf}, {"isinf", B_isinf},
};
static V newInput(unsigned nbytes) {
  E* r = nullptr;
  for (unsigned i = 0; i < nbytes; i++) {
    uint32_t id = S->nvars++; if (S->model.size() <= id) S->model.resize(id + 1, 0); S->log.push_back({id, 0});
    E* b = mkVar(id); r = r ? mkConcat(b, r) : b;
  }
  modelChanged();
  return V{0, r};
}
static void logConst(uint64_t v, unsigned n) { for (unsigned i = 0; i < n; i++) S->log.push_back({~0u, (uint8_t)(v >> (8 * i))}); }
static double asD(uint64_t v) { double f; memcpy(&f, &v, 8); return f; }
static uint64_t frD(double f) { uint64_t x; memcpy(&x, &f, 8); return x; }
static float asFl(uint64_t v) { uint32_t x = v; float f; memcpy(&f, &x, 4); return f; }
static uint64_t frFl(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static double math1(const std::string& n, double x) {
  if (n == "sin") return sin(x); if (n == "cos") return cos(x); if (n == "tan") return tan(x); if (n == "asin") return asin(x); if (n == "acos") return acos(x); if (n == "atan") return atan(x);
  if (n == "exp") return exp(x); if (n == "log") return log(x); if (n == "log2") return log2(x); if (n == "log10") return log10(x); if (n == "exp2") return exp2(x); abort();
}
static float math1f(const std::string& n, float x) {
  if (n == "sinf") return sinf(x); if (n == "cosf") return cosf(x); if (n == "tanf") return tanf(x); if (n == "asinf") return asinf(x); if (n == "acosf") return acosf(x); if (n == "atanf") return atanf(x);
  if (n == "expf") return expf(x); if (n == "logf") return logf(x); if (n == "log2f") return log2f(x); if (n == "log10f") return log10f(x); if (n == "exp2f") return exp2f(x); abort();
}
static uint32_t roundAux(const std::string& n) { switch (n[0]) { case 'f': return 1; case 'c': return 2; case 't': return 3; case 'n': return 0; default: return n[1] == 'i' ? 0 : 4; } }
// assertion obligation: always decided by Z3 when symbolic
static bool checkAssert(V c, const std::string& label) {
  ST.asserts++; gAssertCount[label]++;
  E* e = c.e ? mkNot(mkCmp(KEq, c.e, mkConst(0, c.e->w))) : nullptr;
  if (e && isC(e)) { c = cv(e->c); e = nullptr; }
  if (!e) { if (!c.c) { report(*S, "assert", label, S->model); return false; } return true; }
  ST.assertsSym++;
  Model m; Res r = feasible(*S, mkNot(e), m, true);
  if (r == RUnknown) { incomplete("assert undecided: " + label); }
  else if (r == RSat) {
    report(*S, "assert", label, m);
    Model m2; Res r2 = feasible(*S, e, m2);
    if (r2 != RSat) return false;
    S->model = m2; modelChanged();
    addCons(*S, e);
  }
  return true;
}
// returns CNext (result in res), CEnd, or CRetry
static Ctl builtin(::Function* f, V* a, unsigned na, V& res) {
  res = cv(0);
  switch (f->builtin) {
    case B_malloc: { uint32_t n = concretize(a[0]); if (n > 0x8000000u) { if (f->name[0] == '_') { killErr("alloc-failure", "operator new of " + std::to_string(n)); return CEnd; } res = cv(0); return CNext; } res = cv(heapAlloc(n)); return res.c ? CNext : CEnd; }
    case B_calloc: { uint64_t n = (uint64_t)(uint32_t)concretize(a[0]) * (uint32_t)concretize(a[1]); if (n > 0x8000000u) return CNext; res = cv(heapAlloc(n, false)); return res.c ? CNext : CEnd; }
    case B_realloc: {
      uint32_t p = concretize(a[0]), n = concretize(a[1]);
      if (n > 0x8000000u) return CNext;
      if (p && !n) { if (!heapFree(p)) return CEnd; return CNext; }
      uint32_t q = heapAlloc(n); if (!q) return CEnd;
      if (p) { Obj* o = findObj(*S, p); if (!o || o->kind != OHeap || o->base != p || o->freed) { killErr("bad-free", "realloc " + hex(p)); return CEnd; }
        if (!copyMem(cv(q), cv(p), cv(std::min(n, o->size)), true)) return CEnd; if (!heapFree(p)) return CEnd; }
      res = cv(q); return CNext; }
    case B_free: { uint32_t p = concretize(a[0]); return heapFree(p) ? CNext : CEnd; }
    case B_memcpy: case B_memmove: res = a[0]; return copyMem(a[0], a[1], a[2], f->builtin == B_memmove) ? CNext : CEnd;
    case B_memset: res = a[0]; return setMem(a[0], a[1], a[2]) ? CNext : CEnd;
    case B_memcmp: {
      uint32_t n = concretize(a[2]); if (!n) return CNext;
      uint32_t p = concretize(a[0]), q = concretize(a[1]); V o1, o2; Obj* x = resolve(cv(p), n, false, o1, "memcmp read"); if (!x) return CEnd; Obj* y = resolve(cv(q), n, false, o2, "memcmp read"); if (!y) return CEnd;
      E* r = mkConst(0, 32); std::vector<std::pair<E*, E*>> ps; 
      for (uint32_t i = 0; i < n; i++) { V u = readBytes(*S, x, o1.c + i, 8); x = findObj(*S, p); y = findObj(*S, q); V v = readBytes(*S, y, o2.c + i, 8); x = findObj(*S, p); y = findObj(*S, q);
        if (!u.e && !v.e) { if (u.c != v.c) { ps.push_back({mkConst(u.c, 8), mkConst(v.c, 8)}); break; } continue; }
        E *eu = toE(u, 8), *ev_ = toE(v, 8); if (eu == ev_) continue; ps.push_back({eu, ev_}); }
      for (int i = (int)ps.size() - 1; i >= 0; i--) r = mkIte(mkCmp(KEq, ps[i].first, ps[i].second), r, mkIte(mkCmp(KUlt, ps[i].first, ps[i].second), mkConst(0xffffffffu, 32), mkConst(1, 32)));
      res = fromE(r); return CNext; }
    case B_abort: killErr("abort", f->name); return CEnd;
    case B_pure: killErr("pure-virtual-call", ""); return CEnd;
    case B_exit: killErr("exit", ""); return CEnd;
    case B_nop0: return CNext;
    case B_guardAcq: { V v; if (!doLoad(a[0], 8, v)) return CEnd; res = cv(v.c ? 0 : 1); return CNext; }
    case B_guardRel: return doStore(a[0], 8, cv(1)) ? CNext : CEnd;
    case B_u8: { V v = newInput(1); res = fromE(mkZExt(v.e, 8)); return CNext; }
    case B_u16: res = newInput(2); return CNext;
    case B_u32: res = newInput(4); return CNext;
    case B_u64: res = newInput(8); return CNext;
    case B_bytes: {
      uint32_t p = concretize(a[0]), n = concretize(a[1]); if (!n) return CNext; V off; Obj* o = resolve(cv(p), n, true, off, "sx_bytes"); if (!o) return CEnd; o = writable(*S, o);
      for (uint32_t i = 0; i < n; i++) { V v = newInput(1); writeBytes(o, off.c + i, 8, v); } return CNext; }
    case B_range: {
      uint32_t lo = concretize(a[0]), hi = concretize(a[1]); unsigned nb = hi < 256 ? 1 : hi < 65536 ? 2 : 4;
      V v = newInput(nb); E* e = mkZExt(v.e, 32); E* c = mkBin(KAnd, mkCmp(KUle, mkConst(lo, 32), e), mkCmp(KUle, e, mkConst(hi, 32)));
      for (unsigned i = 0; i < nb; i++) S->model[S->nvars - nb + i] = lo >> (8 * i);
      modelChanged(); addCons(*S, c); 
      res = lo == hi ? cv(lo) : fromE(e); return CNext; }
    case B_choose: {
      uint32_t n = concretize(a[0]); if (n == 0) { killErr("sx_choose(0)", ""); return CEnd; }
      V v = newInput(1); E* c = mkCmp(KUlt, v.e, mkConst(n, 8)); if (n < 256) addCons(*S, c);
      // fork over the values 1..n-1; the siblings resume after this instruction with the value bound
      uint32_t var = S->nvars - 1;
      for (uint32_t i = n; i-- > 1;) {
        State* t = S->clone(); t->model[var] = i; addCons(*t, mkCmp(KEq, v.e, mkConst(i, 8))); t->forks++; ST.forks++; ST.states++;
        Frame* tf = t->fr.back().get(); const Inst& in = tf->f->code[tf->pc]; if (in.dst >= 0) tf->r[in.dst] = cv(i); tf->pc++;
        pend.push_back(t);
      }
      S->model[var] = 0; modelChanged(); addCons(*S, mkCmp(KEq, v.e, mkConst(0, 8))); if (n > 1) S->forks++;
      res = cv(0); return CNext; }
    case B_assume: {
      V c = a[0]; if (!c.e) { if (!c.c) { ST.assumedAway++; return CEnd; } return CNext; }
      E* e = simp(*S, mkNot(mkCmp(KEq, c.e, mkConst(0, c.e->w)))); 
      if (isC(e)) { if (!e->c) { ST.assumedAway++; return CEnd; } return CNext; }
      Model m; Res r = feasible(*S, e, m); if (r == RUnsat) { ST.assumedAway++; return CEnd; } if (r == RUnknown) { incomplete("assume undecided"); return CEnd; }
      S->model = m; modelChanged(); addCons(*S, e); return CNext; }
    case B_assert: return checkAssert(a[0], cstr(a[1].c)) ? CNext : CEnd;
    case B_fail: checkAssert(cv(0), cstr(a[0].c)); return CEnd;
    case B_reach: gReach[cstr(a[0].c)]++; return CNext;
    case B_note: S->notes.push_back(a[0]); return CNext;
    case B_note64: { if (a[0].e) { S->notes.push_back(fromE(mkExtract(a[0].e, 0, 32))); S->notes.push_back(fromE(mkExtract(a[0].e, 32, 32))); } else { S->notes.push_back(cv(a[0].c & 0xffffffffu)); S->notes.push_back(cv(a[0].c >> 32)); } return CNext; }
    case B_concretize: res = cv(concretize(a[0])); return CNext;
    case B_fork0: res = cv(a[0].e ? decide(mkNot(mkCmp(KEq, a[0].e, mkConst(0, a[0].e->w)))) : a[0].c != 0); return CNext;
    case B_heapBytes: res = cv(S->liveBytes); return CNext;
    case B_heapBlocks: res = cv(S->liveBlocks); return CNext;
    case B_known: { std::string t = cstr(a[0].c); if (std::find(S->tags.begin(), S->tags.end(), t) == S->tags.end()) S->tags.push_back(t); return CNext; }
    case B_budget: S->budget = S->icount + (uint32_t)concretize(a[0]); return CNext;
    case B_isSym: { bool s = a[0].e && !isC(simp(*S, a[0].e)); res = cv(s); return CNext; }
    case B_print: { if (getenv("SX_PRINT")) fprintf(stderr, "sx_print %s %s\n", cstr(a[0].c).c_str(), a[1].e ? exprStr(a[1].e, 12).c_str() : std::to_string(a[1].c).c_str()); return CNext; }
    case B_end: return CEnd;   // replaced below: counts as a completed path
    case B_fmtDouble: { // (char* out, uint32 cap, const char* spec, double v): rendered concretely
      uint32_t p = concretize(a[0]), cap = concretize(a[1]); std::string sp = cstr(concretize(a[2])); 
      if (a[3].e) { E* x = simp(*S, a[3].e); if (!isC(x)) { incomplete("symbolic double formatted"); } a[3] = cv(ev(*S, x)); }
      char buf[512]; snprintf(buf, sizeof buf, sp.c_str(), asD(a[3].c)); uint32_t n = strlen(buf); if (n + 1 > cap) n = cap - 1; V off; Obj* o = resolve(cv(p), n + 1, true, off, "fmt"); if (!o) return CEnd; o = writable(*S, o); 
      for (uint32_t i = 0; i <= n; i++) writeBytes(o, off.c + i, 8, cv(i < n ? (uint8_t)buf[i] : 0)); res = cv(n); return CNext; }
    case B_strtod: { // (const char* s, uint32* consumed): the text must be concrete
      uint32_t p = concretize(a[0]); std::string s; Obj* o = findObj(*S, p); if (!o || o->freed) { killErr("wild-access", "strtod"); return CEnd; }
      for (uint32_t i = p - o->base; ; i++) { if (i >= o->size) { killErr("out-of-bounds", "strtod"); return CEnd; } V b = readBytes(*S, o, i, 8); o = findObj(*S, p); uint8_t ch = concretize(b); o = findObj(*S, p); if (!(ch == '+' || ch == '-' || ch == '.' || (ch >= '0' && ch <= '9') || (ch | 32) == 'e' || (ch | 32) == 'n' || (ch | 32) == 'a' || (ch | 32) == 'i' || (ch | 32) == 'f' || (ch | 32) == 'x' || (ch | 32) == 'p' || (ch|32) == 't' || (ch|32) == 'y' || ch == ' ' || (ch >= 9 && ch <= 13))) break; s += (char)ch; }
      char* e; double d = strtod(s.c_str(), &e); if (!doStore(a[1], 32, cv(e - s.c_str()))) return CEnd; res = cv(frD(d)); return CNext; }
    case B_sqrt: res = fromE(mkF(KFSqrt, 64, toE(a[0], 64), nullptr)); return CNext;
    case B_sqrtf: res = fromE(mkF(KFSqrt, 32, toE(a[0], 32), nullptr)); return CNext;
    case B_fmod: case B_fmodf: { unsigned w = f->builtin == B_fmod ? 64 : 32; for (int i = 0; i < 2; i++) if (a[i].e) { incomplete("fmod of symbolic value"); a[i] = cv(ev(*S, a[i].e)); } res = fromE(mkF(KFRem, w, toE(a[0], w), toE(a[1], w))); return CNext; }
    case B_fabs: res = fromE(mkFAbs(toE(a[0], 64))); return CNext;
    case B_fabsf: res = fromE(mkFAbs(toE(a[0], 32))); return CNext;
    case B_round1: res = fromE(mkF(KFRound, 64, toE(a[0], 64), nullptr, nullptr, roundAux(f->name))); return CNext;
    case B_round1f: res = fromE(mkF(KFRound, 32, toE(a[0], 32), nullptr, nullptr, roundAux(f->name))); return CNext;
    case B_isnan: res = fromE(mkZExt(mkF(KFUno, 1, toE(a[0], 64), toE(a[0], 64)), 32)); return CNext;
    case B_isinf: { E* ab = mkFAbs(toE(a[0], 64)); res = fromE(mkZExt(mkCmp(KEq, ab, mkConst(0x7ff0000000000000ULL, 64)), 32)); return CNext; }
    case B_math1: case B_math1f: case B_math2: case B_math2f: {
      for (unsigned i = 0; i < na; i++) if (a[i].e) { incomplete("libm " + f->name + " of symbolic value"); a[i] = cv(ev(*S, a[i].e)); }
      if (f->builtin == B_math1) res = cv(frD(math1(f->name, asD(a[0].c)))); else if (f->builtin == B_math1f) res = cv(frFl(math1f(f->name, asFl(a[0].c))));
      else if (f->builtin == B_math2) res = cv(frD(f->name == "pow" ? pow(asD(a[0].c), asD(a[1].c)) : atan2(asD(a[0].c), asD(a[1].c))));
      else res = cv(frFl(f->name == "powf" ? powf(asFl(a[0].c), asFl(a[1].c)) : atan2f(asFl(a[0].c), asFl(a[1].c))));
      return CNext; }
  }
  return CEnd;
}

// ------------------------------------------------------------------ interpretation
static inline const V& getV(Opd o) { return o >= 0 ? F->r[o] : fconst[F->f->idx][~o]; }
static void setTop() { F = S->fr.empty() ? nullptr : S->fr.back().get(); }
static void follow(uint32_t ei) {
  const Edge& e = F->f->edges[ei]; ST.blocks++;
  if (e.ncp) {
    const PhiCopy* c = &F->f->copies[e.cp];
    if (e.ncp == 1) F->r[c->dst] = getV(c->src);
    else { V tmp[64]; std::vector<V> big; V* t = tmp; if (e.ncp > 64) { big.resize(e.ncp); t = big.data(); } for (uint32_t i = 0; i < e.ncp; i++) t[i] = getV(c[i].src); for (uint32_t i = 0; i < e.ncp; i++) F->r[c[i].dst] = t[i]; }
  }
  F->pc = e.target;
}
static bool pushFrame(::Function* fn, const V* args, const Ext* es, unsigned n) {
  if (S->fr.size() > 3000) { killErr("stack-overflow", "recursion depth"); return false; }
  // the caller frame may be shared with a sibling state: it is only mutated when on top (popFrame unshares)
  auto nf = std::make_shared<Frame>(); nf->f = fn; nf->pc = 0; nf->callInst = 0; nf->stackTop = S->stackTop; nf->vaAddr = 0; nf->r.resize(fn->nslots);
  gFuncHits[fn->idx]++;
  unsigned ai = 0; // flattened argument values
  unsigned i = 0; bool sym = false;
  for (; i < n && i < fn->params.size(); i++) {
    auto& p = fn->params[i];
    if (p.byval) { uint32_t a = stackAlloc(p.byval, true); S->fr.push_back(nf); /* for reporting */ bool ok = copyMem(cv(a), args[ai], cv(p.byval), true); S->fr.pop_back(); if (!ok) return false; nf->r[p.slot] = cv(a); ai += es[i].slots; continue; }
    for (unsigned k = 0; k < p.slots && k < es[i].slots; k++) { nf->r[p.slot + k] = args[ai + k]; if (args[ai + k].e) sym = true; }
    ai += es[i].slots;
  }
  if (sym) gFuncSym[fn->idx] = 1;
  if (fn->vararg) {
    uint32_t sz = 0; for (unsigned k = i; k < n; k++) sz += es[k].slots == 1 ? (es[k].w > 32 ? 8 : 4) : 4 * es[k].slots;
    uint32_t a = stackAlloc(sz + 4, true); nf->vaAddr = a; Obj* o = writable(*S, findObj(*S, a)); uint32_t off = 0;
    for (unsigned k = i; k < n; k++) { unsigned w = es[k].w > 32 ? 64 : 32; V v = args[ai]; if (v.e && v.e->w < w) v.e = mkZExt(v.e, w); writeBytes(o, off, w, v); off += w / 8; ai += es[k].slots; }
  }
  S->fr.push_back(nf); setTop();
  return true;
}
static void ownTop() { // make the top frame private before mutating it
  if (!S->fr.empty() && S->fr.back().use_count() > 1) S->fr.back() = std::make_shared<Frame>(*S->fr.back());
  setTop();
}
static void finishPath(bool ok) {
  ST.paths++; if (S->icount > ST.maxPathInst) ST.maxPathInst = S->icount;
  if (!ok) return;
  ST.completed++;
  gTraceSeen++;
  size_t cap = 16; size_t at = gTraces.size();
  if (at >= cap) { at = rnd() % gTraceSeen; if (at >= cap) return; }
  Trace t; t.in = inputBytes(*S, S->model);
  bool un = false;
  for (V& v : S->notes) { t.notes.push_back((uint32_t)(v.e ? ev(*S, v.e) : v.c)); }
  if (un) return;
  if (at < gTraces.size()) gTraces[at] = t; else gTraces.push_back(t);
}
static void overflowPred(unsigned k, E* x, E* y, unsigned w, E*& r, E*& o) {
  switch (k) {
    case IUAddO: r = mkBin(KAdd, x, y); o = mkCmp(KUlt, r, x); break;
    case IUSubO: r = mkBin(KSub, x, y); o = mkCmp(KUlt, x, y); break;
    case ISAddO: { r = mkBin(KAdd, x, y); E* a = mkBin(KAnd, mkBin(KXor, x, r), mkBin(KXor, y, r)); o = mkCmp(KSlt, a, mkConst(0, w)); break; }
    case ISSubO: { r = mkBin(KSub, x, y); E* a = mkBin(KAnd, mkBin(KXor, x, y), mkBin(KXor, x, r)); o = mkCmp(KSlt, a, mkConst(0, w)); break; }
    case IUMulO: r = mkBin(KMul, x, y); if (w <= 32) { E* p = mkBin(KMul, mkZExt(x, 2 * w), mkZExt(y, 2 * w)); o = mkNot(mkCmp(KEq, mkExtract(p, w, w), mkConst(0, w))); }
      else o = mkBin(KAnd, mkNot(mkCmp(KEq, y, mkConst(0, w))), mkNot(mkCmp(KEq, mkBin(KUDiv, r, y), x))); break;
    default: r = mkBin(KMul, x, y); if (w <= 32) { E* p = mkBin(KMul, mkSExt(x, 2 * w), mkSExt(y, 2 * w)); o = mkNot(mkCmp(KEq, p, mkSExt(r, 2 * w))); }
      else o = mkBin(KAnd, mkNot(mkCmp(KEq, y, mkConst(0, w))), mkNot(mkCmp(KEq, mkBin(KSDiv, r, y), x)));
  }
}
static Ctl intrinsic(const Inst& I, V* R) {
  const Ext* es = &F->f->exts[I.ext];
  V a[4]; for (unsigned i = 0; i < I.next && i < 4; i++) a[i] = getV(es[i].op);
  unsigned w = I.w; V res = cv(0);
  #define X(i) toE(a[i], es[i].w)
  switch (I.imm) {
    case INop: return CNext;
    case IMemcpy: return copyMem(a[0], a[1], a[2], true) ? CNext : CEnd;
    case IMemset: return setMem(a[0], a[1], a[2]) ? CNext : CEnd;
    case IUMin: res = fromE(mkIte(mkCmp(KUlt, X(0), X(1)), X(0), X(1))); break;
    case IUMax: res = fromE(mkIte(mkCmp(KUlt, X(1), X(0)), X(0), X(1))); break;
    case ISMin: res = fromE(mkIte(mkCmp(KSlt, X(0), X(1)), X(0), X(1))); break;
    case ISMax: res = fromE(mkIte(mkCmp(KSlt, X(1), X(0)), X(0), X(1))); break;
    case IAbs: res = fromE(mkIte(mkCmp(KSlt, X(0), mkConst(0, w)), mkBin(KSub, mkConst(0, w), X(0)), X(0))); break;
    case IBswap: { E* x = X(0); E* r = nullptr; for (unsigned i = 0; i < w; i += 8) { E* b = mkExtract(x, i, 8); r = r ? mkConcat(r, b) : b; } res = fromE(r); break; }
    case IBitrev: { E* x = X(0); E* r = nullptr; for (unsigned i = 0; i < w; i++) { E* b = mkExtract(x, i, 1); r = r ? mkConcat(r, b) : b; } res = fromE(r); break; }
    case ICtpop: { E* x = X(0); E* r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(KAdd, r, mkZExt(mkExtract(x, i, 1), w)); res = fromE(r); break; }
    case ICtlz: { E* x = X(0); E* r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r); res = fromE(r); break; }
    case ICttz: { E* x = X(0); E* r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r); res = fromE(r); break; }
    case IFshl: case IFshr: { // funnel shifts with shift amount mod w
      E *h = X(0), *l = X(1);
      if (a[2].e) {
        E* m = mkBin(KURem, X(2), mkConst(w, w)); E* im = mkBin(KSub, mkConst(w - 1, w), m); E* one = mkConst(1, w);
        res = fromE(I.imm == IFshl ? mkBin(KOr, mkBin(KShl, h, m), mkBin(KLShr, mkBin(KLShr, l, one), im)) : mkBin(KOr, mkBin(KLShr, l, m), mkBin(KShl, mkBin(KShl, h, one), im)));
        break;
      }
      uint64_t n = a[2].c % w;
      if (I.imm == IFshl) res = fromE(n ? mkConcat(mkExtract(h, 0, w - n), mkExtract(l, w - n, n)) : h);
      else res = fromE(n ? mkConcat(mkExtract(h, 0, n), mkExtract(l, n, w - n)) : l);
      break; }
    case IUAddO: case ISAddO: case IUSubO: case ISSubO: case IUMulO: case ISMulO: {
      E *r, *o; unsigned ww = es[0].w; overflowPred(I.imm, X(0), X(1), ww, r, o); R[I.dst] = fromE(r); R[I.dst + 1] = fromE(o); return CNext; }
    case IUAddSat: { E* s = mkBin(KAdd, X(0), X(1)); res = fromE(mkIte(mkCmp(KUlt, s, X(0)), mkConst(wmask(w), w), s)); break; }
    case IUSubSat: res = fromE(mkIte(mkCmp(KUlt, X(0), X(1)), mkConst(0, w), mkBin(KSub, X(0), X(1)))); break;
    case ISAddSat: case ISSubSat: { E *r, *o; overflowPred(I.imm == ISAddSat ? ISAddO : ISSubO, X(0), X(1), w, r, o); E* lim = mkIte(mkCmp(KSlt, X(0), mkConst(0, w)), mkConst(1ULL << (w - 1), w), mkConst(wmask(w) >> 1, w)); res = fromE(mkIte(o, lim, r)); break; }
    case IVaStart: return doStore(a[0], 32, cv(F->vaAddr)) ? CNext : CEnd;
    case IVaCopy: { V v; if (!doLoad(a[1], 32, v)) return CEnd; return doStore(a[0], 32, v) ? CNext : CEnd; }
    case IStackSave: res = cv(S->stackTop); break;
    case IStackRestore: { uint32_t t = concretize(a[0]); clearSlot(S->stack, t, S->stackTop); S->stackTop = t; return CNext; }
    case ITrap: killErr("trap", ""); return CEnd;
    case IFabs: res = fromE(mkFAbs(X(0))); break;
    case IFloor: res = fromE(mkF(KFRound, w, X(0), nullptr, nullptr, 1)); break;
    case ICeil: res = fromE(mkF(KFRound, w, X(0), nullptr, nullptr, 2)); break;
    case ITruncF: res = fromE(mkF(KFRound, w, X(0), nullptr, nullptr, 3)); break;
    case IRound: res = fromE(mkF(KFRound, w, X(0), nullptr, nullptr, 4)); break;
    case IRint: res = fromE(mkF(KFRound, w, X(0), nullptr, nullptr, 0)); break;
    case ISqrt: res = fromE(mkF(KFSqrt, w, X(0), nullptr)); break;
    case IFma: res = fromE(mkF(KFAdd, w, mkF(KFMul, w, X(0), X(1)), X(2))); break;
    case ICopysign: { uint64_t sb = 1ULL << (w - 1); res = fromE(mkBin(KOr, mkBin(KAnd, X(0), mkConst(sb - 1, w)), mkBin(KAnd, X(1), mkConst(sb, w)))); break; }
    case IMinnum: case IMaxnum: { E *x = X(0), *y = X(1); E* lt = I.imm == IMinnum ? mkF(KFOlt, 1, x, y) : mkF(KFOlt, 1, y, x); res = fromE(mkIte(mkF(KFUno, 1, x, x), y, mkIte(mkF(KFUno, 1, y, y), x, mkIte(lt, x, y)))); break; }
    case IIsFpClass: { // bits: 0 snan 1 qnan 2 -inf 3 -norm 4 -sub 5 -zero 6 +zero 7 +sub 8 +norm 9 +inf
      unsigned ww = es[0].w; E* x = X(0); uint64_t m = a[1].c; uint64_t inf = ww == 32 ? 0x7f800000ULL : 0x7ff0000000000000ULL, qb = ww == 32 ? 0x400000ULL : 0x8000000000000ULL; E* ab = mkFAbs(x); E* neg = mkExtract(x, ww - 1, 1);
      E* nan = mkCmp(KUlt, mkConst(inf, ww), ab); E* q = mkNot(mkCmp(KEq, mkBin(KAnd, x, mkConst(qb, ww)), mkConst(0, ww))); E* isinf = mkCmp(KEq, ab, mkConst(inf, ww)); E* zero = mkCmp(KEq, ab, mkConst(0, ww)); E* sub = mkBin(KAnd, mkNot(zero), mkCmp(KUlt, ab, mkConst(ww == 32 ? 0x800000ULL : 0x10000000000000ULL, ww))); E* norm = mkBin(KAnd, mkCmp(KUle, mkConst(ww == 32 ? 0x800000ULL : 0x10000000000000ULL, ww), ab), mkCmp(KUlt, ab, mkConst(inf, ww)));
      E* cls[10] = {mkBin(KAnd, nan, mkNot(q)), mkBin(KAnd, nan, q), mkBin(KAnd, isinf, neg), mkBin(KAnd, norm, neg), mkBin(KAnd, sub, neg), mkBin(KAnd, zero, neg), mkBin(KAnd, zero, mkNot(neg)), mkBin(KAnd, sub, mkNot(neg)), mkBin(KAnd, norm, mkNot(neg)), mkBin(KAnd, isinf, mkNot(neg))};
      E* r = mkConst(0, 1); for (int i = 0; i < 10; i++) if (m >> i & 1) r = mkBin(KOr, r, cls[i]); res = fromE(r); break; }
    default: killErr("unsupported-intrinsic", std::to_string(I.imm)); return CEnd;
  }
  if (I.dst >= 0) R[I.dst] = res;
  return CNext;
}
static E* fcmpE(unsigned pred, E* x, E* y) { // llvm FCmp predicates: bit0 eq, bit1 gt, bit2 lt, bit3 uno
  if (pred == 0) return mkConst(0, 1); if (pred == 15) return mkConst(1, 1);
  E* r;
  switch (pred & 7) {
    case 1: r = mkF(KFOeq, 1, x, y); break; case 2: r = mkF(KFOlt, 1, y, x); break; case 3: r = mkF(KFOle, 1, y, x); break;
    case 4: r = mkF(KFOlt, 1, x, y); break; case 5: r = mkF(KFOle, 1, x, y); break;
    case 6: r = mkBin(KOr, mkF(KFOlt, 1, x, y), mkF(KFOlt, 1, y, x)); break;
    case 7: r = mkNot(mkF(KFUno, 1, x, y)); break;
    default: r = mkConst(0, 1);
  }
  if (pred & 8) r = mkBin(KOr, r, mkF(KFUno, 1, x, y));
  return r;
}
static const K binK[] = {KAdd, KSub, KMul, KUDiv, KSDiv, KURem, KSRem, KAnd, KOr, KXor, KShl, KLShr, KAShr};
static Ctl doCall(const Inst& I) {
  ::Function* fn;
  if (I.imm >= 0) fn = M->funcs[I.imm];
  else {
    V t = getV(I.a); uint32_t a = concretize(t);
    uint32_t i = (a - FUNC_BASE) / 16; if (a < FUNC_BASE || i >= M->funcs.size() || (a & 15)) { killErr(a < 4096 ? "null-call" : "wild-call", hex(a)); return CEnd; }
    fn = M->funcs[i];
  }
  const Ext* es = F->f->exts.data() + I.ext; V args[128]; unsigned k = 0;
  for (unsigned i = 0; i < I.next; i++) for (unsigned j = 0; j < es[i].slots; j++) { if (k >= 128) { killErr("too-many-args", ""); return CEnd; } Opd o = es[i].op; args[k++] = getV(o >= 0 ? o + (int)j : o - (int)j); if (es[i].scale && args[k - 1].e) concretize(args[k - 1]); }
  if (fn->builtin) {
    gFuncHits[fn->idx]++;
    V res; Ctl c;
    if (fn->builtin == B_end) { finishPath(true); return CEnd; }
    c = builtin(fn, args, I.next, res);
    if (c == CNext && I.dst >= 0) { setTop(); if (res.e && res.e->w != I.w && I.w) res = fromE(res.e->w > I.w ? mkExtract(res.e, 0, I.w) : mkZExt(res.e, I.w)); else if (!res.e) res.c &= wmask(I.w ? I.w : 64); F->r[I.dst] = res; }
    return c;
  }
  if (fn->isDecl) { killErr("undefined-function", fn->name); return CEnd; }
  F->callInst = F->pc; F->pc++;
  if (!pushFrame(fn, args, es, I.next)) return CEnd;
  return CJump;
}
static bool shiftAmount(V& b, unsigned w) { // x86 masking: 32-bit shifts mask 5 bits, 64-bit shifts mask 6
  unsigned m = w > 32 ? 63 : 31; if (!b.e) { b.c &= m; return true; } b = fromE(mkBin(KAnd, b.e, mkConst(m, w))); return true;
}
static Ctl step() {
  const Inst& I = F->f->code[F->pc];
  V* R = F->r.data();
  #define AV getV(I.a)
  #define BV getV(I.b)
  switch (I.op) {
    case OAdd: case OSub: case OMul: case OUDiv: case OSDiv: case OURem: case OSRem: case OAnd: case OOr: case OXor: case OShl: case OLShr: case OAShr: {
      const V& x = AV; V y = BV; unsigned w = I.w;
      if (I.op >= OShl) shiftAmount(y, w);
      if (!x.e && !y.e) {
        uint64_t r; uint64_t a = x.c, b = y.c, m = wmask(w);
        switch (I.op) {
          case OAdd: r = (a + b) & m; break; case OSub: r = (a - b) & m; break; case OMul: r = (a * b) & m; break; case OAnd: r = a & b; break; case OOr: r = a | b; break; case OXor: r = a ^ b; break;
          default: if (!b && I.op >= OUDiv && I.op <= OSRem) { killErr("div-by-zero", ""); return CEnd; } { bool ok; if ((I.op == OSDiv || I.op == OSRem) && w >= 32 && b == m && a == (1ULL << (w - 1))) { killErr("signed-div-overflow", ""); return CEnd; } r = foldBin(binK[I.op], a, b, w, ok); }
        }
        R[I.dst] = cv(r); F->pc++; return CNext;
      }
      E *a = toE(x, w), *b = toE(y, w);
      if (I.op >= OUDiv && I.op <= OSRem) {
        E* z = mkCmp(KEq, b, mkConst(0, w)); if (decide(z)) { killErr("div-by-zero", ""); return CEnd; }
        if ((I.op == OSDiv || I.op == OSRem) && w >= 32) { E* ov = mkBin(KAnd, mkCmp(KEq, b, mkConst(wmask(w), w)), mkCmp(KEq, a, mkConst(1ULL << (w - 1), w))); if (!isFalse(ov) && decide(ov)) { killErr("signed-div-overflow", ""); return CEnd; } }
      }
      F->r[I.dst] = fromE(mkBin(binK[I.op], a, b)); F->pc++; return CNext; }
    case OEq: case ONe: case OUlt: case OUle: case OUgt: case OUge: case OSlt: case OSle: case OSgt: case OSge: {
      const V &x = AV, &y = BV; unsigned w = I.w2;
      if (!x.e && !y.e) {
        bool r; int64_t a, b;
        switch (I.op) {
          case OEq: r = x.c == y.c; break; case ONe: r = x.c != y.c; break; case OUlt: r = x.c < y.c; break; case OUle: r = x.c <= y.c; break; case OUgt: r = x.c > y.c; break; case OUge: r = x.c >= y.c; break;
          default: a = sext64(x.c, w); b = sext64(y.c, w); r = I.op == OSlt ? a < b : I.op == OSle ? a <= b : I.op == OSgt ? a > b : a >= b;
        }
        R[I.dst] = cv(r); F->pc++; return CNext;
      }
      E *a = toE(x, w), *b = toE(y, w), *r;
      switch (I.op) {
        case OEq: r = mkCmp(KEq, a, b); break; case ONe: r = mkNot(mkCmp(KEq, a, b)); break; case OUlt: r = mkCmp(KUlt, a, b); break; case OUle: r = mkCmp(KUle, a, b); break; case OUgt: r = mkCmp(KUlt, b, a); break; case OUge: r = mkCmp(KUle, b, a); break;
        case OSlt: r = mkCmp(KSlt, a, b); break; case OSle: r = mkCmp(KSle, a, b); break; case OSgt: r = mkCmp(KSlt, b, a); break; default: r = mkCmp(KSle, b, a);
      }
      R[I.dst] = fromE(r); F->pc++; return CNext; }
    case OFAdd: case OFSub: case OFMul: case OFDiv: case OFRem: {
      static const K fk[] = {KFAdd, KFSub, KFMul, KFDiv, KFRem}; const V &x = AV, &y = BV; K k = fk[I.op - OFAdd];
      if (!x.e && !y.e) R[I.dst] = cv(foldF(k, I.w, x.c, y.c, 0, I.w, 0)); else R[I.dst] = fromE(mkF(k, I.w, toE(x, I.w), toE(y, I.w)));
      F->pc++; return CNext; }
    case OFNeg: { const V& x = AV; R[I.dst] = x.e ? fromE(mkFNeg(x.e)) : cv(x.c ^ (1ULL << (I.w - 1))); F->pc++; return CNext; }
    case OFCmp: { const V &x = AV, &y = BV; R[I.dst] = fromE(fcmpE(I.imm, toE(x, I.w2), toE(y, I.w2))); F->pc++; return CNext; }
    case OZExt: { const V& x = AV; R[I.dst] = x.e ? fromE(mkZExt(x.e, I.w)) : x; F->pc++; return CNext; }
    case OSExt: { const V& x = AV; R[I.dst] = x.e ? fromE(mkSExt(x.e, I.w)) : cv((uint64_t)sext64(x.c, I.w2) & wmask(I.w)); F->pc++; return CNext; }
    case OTrunc: { const V& x = AV; R[I.dst] = x.e ? fromE(mkExtract(x.e, 0, I.w)) : cv(x.c & wmask(I.w)); F->pc++; return CNext; }
    case OFPExt: R[I.dst] = fromE(mkF(KFExt, I.w, toE(AV, I.w2), nullptr)); F->pc++; return CNext;
    case OFPTrunc: R[I.dst] = fromE(mkF(KFTrunc, I.w, toE(AV, I.w2), nullptr)); F->pc++; return CNext;
    case OFPToSI: R[I.dst] = fromE(mkF(KFToSI, I.w, toE(AV, I.w2), nullptr)); F->pc++; return CNext;
    case OFPToUI: R[I.dst] = fromE(mkF(KFToUI, I.w, toE(AV, I.w2), nullptr)); F->pc++; return CNext;
    case OMove: for (int64_t i = 0; i < I.imm; i++) R[I.dst + i] = getV(I.a >= 0 ? I.a + i : I.a - i); F->pc++; return CNext;
    case OSelect: {
      const V& c = AV;
      if (!c.e) { Opd s = c.c ? I.b : I.c; for (int64_t i = 0; i < I.imm; i++) R[I.dst + i] = getV(s >= 0 ? s + i : s - i); }
      else for (int64_t i = 0; i < I.imm; i++) { V x = getV(I.b >= 0 ? I.b + i : I.b - i), y = getV(I.c >= 0 ? I.c + i : I.c - i); unsigned w = I.w ? I.w : (x.e ? x.e->w : y.e ? y.e->w : 64); R[I.dst + i] = fromE(mkIte(c.e, toE(x, w), toE(y, w))); }
      F->pc++; return CNext; }
    case OGep: {
      V r = AV; r = r.e ? fromE(mkBin(KAdd, r.e, mkConst((uint32_t)I.imm, 32))) : cv((uint32_t)(r.c + I.imm));
      const Ext* es = F->f->exts.data() + I.ext;
      for (unsigned i = 0; i < I.next; i++) {
        const V& x = getV(es[i].op); unsigned w = es[i].w;
        if (!x.e && !r.e) r.c = (uint32_t)(r.c + sext64(x.c, w) * es[i].scale);
        else { E* ix = x.e ? (w < 32 ? mkSExt(x.e, 32) : w > 32 ? mkExtract(x.e, 0, 32) : x.e) : mkConst((uint64_t)sext64(x.c, w), 32); r = fromE(mkBin(KAdd, toE(r, 32), mkBin(KMul, ix, mkConst((uint32_t)es[i].scale, 32)))); }
      }
      R[I.dst] = r; F->pc++; return CNext; }
    case OLoad: {
      V a = AV; if (I.imm) a = a.e ? fromE(mkBin(KAdd, a.e, mkConst((uint32_t)I.imm, 32))) : cv((uint32_t)(a.c + I.imm));
      if (!a.e) { // fast path
        uint32_t ad = a.c; Obj* o = findObj(*S, ad); unsigned n = (I.w + 7) / 8;
        if (o && !o->freed && ad - o->base + n <= o->size && !o->und && !o->sym) { uint64_t r = 0; memcpy(&r, o->data + (ad - o->base), n); R[I.dst] = cv(r & wmask(I.w)); F->pc++; return CNext; }
      }
      V out; if (!doLoad(a, I.w, out)) return CEnd; F->r[I.dst] = out; F->pc++; return CNext; }
    case OStore: {
      V a = BV; if (I.imm) a = a.e ? fromE(mkBin(KAdd, a.e, mkConst((uint32_t)I.imm, 32))) : cv((uint32_t)(a.c + I.imm));
      V v = AV; if (!doStore(a, I.w, v)) return CEnd; F->pc++; return CNext; }
    case OAlloca: { V n = AV; uint32_t c = concretize(n); uint64_t sz = (uint64_t)c * I.imm; if (sz > (1u << 26)) { killErr("huge-alloca", ""); return CEnd; } F->r[I.dst] = cv(stackAlloc(sz, true)); F->pc++; return CNext; }
    case OBr: follow(I.t0); return CJump;
    case OCondBr: { const V& c = AV; bool t = c.e ? decide(c.e) : c.c; follow(t ? I.t0 : I.t1); return CJump; }
    case OSwitch: {
      V x = AV; const Ext* es = F->f->exts.data() + I.ext; unsigned w = I.w2;
      if (x.e) { E* s = simp(*S, x.e); if (isC(s)) x = cv(s->c); else x = V{0, s}; }
      if (!x.e) { uint32_t e = I.t0; for (unsigned i = 0; i < I.next; i++) if (((uint64_t)es[i].scale & wmask(w)) == x.c) { e = es[i].w; break; } follow(e); return CJump; }
      uint64_t cur = ev(*S, x.e); uint32_t tgt = F->f->edges[I.t0].target, te = I.t0; bool def = true;
      for (unsigned i = 0; i < I.next; i++) if (((uint64_t)es[i].scale & wmask(w)) == cur) { te = es[i].w; tgt = F->f->edges[te].target; def = false; break; }
      E* c;
      if (def) { c = mkConst(1, 1); for (unsigned i = 0; i < I.next; i++) c = mkBin(KAnd, c, mkNot(mkCmp(KEq, x.e, mkConst(es[i].scale, w)))); }
      else { c = mkConst(0, 1); for (unsigned i = 0; i < I.next; i++) if (F->f->edges[es[i].w].target == tgt && F->f->edges[es[i].w].ncp == 0) c = mkBin(KOr, c, mkCmp(KEq, x.e, mkConst(es[i].scale, w))); if (isFalse(c)) c = mkCmp(KEq, x.e, mkConst(cur, w)); }
      Model m; Res r = feasible(*S, mkNot(c), m);
      if (r == RSat) spawn(mkNot(c), m); else if (r == RUnknown) unknownQ(c);
      if (r != RUnsat) { addCons(*S, c); S->forks++; }
      follow(te); return CJump; }
    case ORet: {
      V rv[16]; for (int64_t i = 0; i < I.imm && i < 16; i++) rv[i] = getV(I.a >= 0 ? I.a + i : I.a - i);
      uint32_t st = F->stackTop; clearSlot(S->stack, st, S->stackTop); S->stackTop = st; int64_t n = I.imm;
      S->fr.pop_back();
      if (S->fr.empty()) { F = nullptr; return CEnd; }
      ownTop();
      const Inst& C = F->f->code[F->callInst];
      if (C.dst >= 0) for (int64_t i = 0; i < n && i < 16; i++) F->r[C.dst + i] = rv[i];
      return CJump; }
    case OUnreachable: killErr("unreachable", ""); return CEnd;
    case OCall: { Ctl c = doCall(I); if (c == CNext) F->pc++; return c; }
    case OIntrin: { Ctl c = intrinsic(I, R); if (c == CNext) F->pc++; return c; }
    case OAtomicRMW: { V old; if (!doLoad(AV, I.w, old)) return CEnd; V y = BV; E *a = toE(old, I.w), *b = toE(y, I.w), *n; switch (I.imm) { case 0: n = b; break; case 1: n = mkBin(KAdd, a, b); break; case 2: n = mkBin(KSub, a, b); break; case 3: n = mkBin(KAnd, a, b); break; case 4: n = mkBin(KOr, a, b); break; default: n = mkBin(KXor, a, b); } if (!doStore(AV, I.w, fromE(n))) return CEnd; F->r[I.dst] = old; F->pc++; return CNext; }
    case OCmpXchg: { V old; if (!doLoad(AV, I.w, old)) return CEnd; V cmp = BV; E* eq = mkCmp(KEq, toE(old, I.w), toE(cmp, I.w)); E* n = mkIte(eq, toE(getV(I.c), I.w), toE(old, I.w)); if (!doStore(AV, I.w, fromE(n))) return CEnd; F->r[I.dst] = old; F->r[I.dst + 1] = fromE(eq); F->pc++; return CNext; }
    case OSIToFP: R[I.dst] = fromE(mkF(KSIToF, I.w, toE(AV, I.w2), nullptr)); F->pc++; return CNext;
    case OUIToFP: R[I.dst] = fromE(mkF(KUIToF, I.w, toE(AV, I.w2), nullptr)); F->pc++; return CNext;
    default: killErr("unsupported-instruction", I.op == OUnsupported ? M->mathNames[I.imm] : std::to_string(I.op)); return CEnd;
  }
}

// ------------------------------------------------------------------ driver
static std::string esc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static std::string hexs(const std::vector<uint8_t>& v) { std::string r; char b[4]; for (uint8_t x : v) { snprintf(b, 4, "%02x", x); r += b; } return r; }
static void writeOut() {
  std::string p = gOut + "/" + std::to_string(getpid()) + ".json"; FILE* f = fopen(p.c_str(), "w"); if (!f) _exit(9);
  fprintf(f, "{\"paths\":%llu,\"completed\":%llu,\"assumed_away\":%llu,\"errors\":%llu,\"forks\":%llu,\"states\":%llu,\"blocks\":%llu,\"insts\":%llu,\"asserts\":%llu,\"asserts_symbolic\":%llu,\"incomplete\":%llu,\"sym_reads\":%llu,\"sym_writes\":%llu,\"concretize\":%llu,\"dom_decisions\":%llu,\"max_fork_depth\":%llu,\"max_path_inst\":%llu,",
    #define U(x) (unsigned long long)ST.x
    U(paths), U(completed), U(assumedAway), U(errors), U(forks), U(states), U(blocks), U(insts), U(asserts), U(assertsSym), U(incomplete), U(symReads), U(symWrites), U(concretize), U(domDecisions), U(maxForkDepth), U(maxPathInst));
  fprintf(f, "\"queries\":%llu,\"q_sat\":%llu,\"q_unsat\":%llu,\"q_unknown\":%llu,\"q_cache\":%llu,\"q_sec\":%.4f,\"q_max\":%.4f,\"exprs\":%zu,\n", (unsigned long long)gSolver.queries, (unsigned long long)gSolver.sat, (unsigned long long)gSolver.unsat, (unsigned long long)gSolver.unknown, (unsigned long long)gSolver.cacheHits, gSolver.sec, gSolver.maxSec, exprCount());
  auto mp = [&](const char* n, std::map<std::string, uint64_t>& m) { fprintf(f, "\"%s\":{", n); bool first = true; for (auto& x : m) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(x.first).c_str(), (unsigned long long)x.second); first = false; } fprintf(f, "},\n"); };
  mp("reach", gReach); mp("assert_counts", gAssertCount); mp("incomplete_why", gIncomplete);
  fprintf(f, "\"functions\":{"); bool first = true;
  for (auto* fn : M->funcs) if (gFuncHits[fn->idx] && !fn->isDecl) { fprintf(f, "%s\"%s\":[%llu,%d,\"%s\"]", first ? "" : ",", esc(fn->name).c_str(), (unsigned long long)gFuncHits[fn->idx], gFuncSym[fn->idx], esc(fn->file).c_str()); first = false; }
  fprintf(f, "},\n\"violations\":["); first = true;
  for (auto& v : gViol) { fprintf(f, "%s{\"kind\":\"%s\",\"label\":\"%s\",\"where\":\"%s\",\"stack\":\"%s\",\"tags\":\"%s\",\"input\":\"%s\"}", first ? "" : ",\n", esc(v.kind).c_str(), esc(v.label).c_str(), esc(v.where).c_str(), esc(v.stack).c_str(), esc(v.tags).c_str(), hexs(v.input).c_str()); first = false; }
  fprintf(f, "],\n\"traces\":["); first = true;
  for (auto& t : gTraces) { fprintf(f, "%s{\"in\":\"%s\",\"notes\":[", first ? "" : ",\n", hexs(t.in).c_str()); bool f2 = true; for (auto n : t.notes) { fprintf(f, "%s%u", f2 ? "" : ",", n); f2 = false; } fprintf(f, "]}"); first = false; }
  fprintf(f, "]}\n"); fclose(f);
}
static std::vector<pid_t> kids;
static void resetStats() { uint64_t d = ST.maxForkDepth; ST = Stats(); ST.maxForkDepth = d; gReach.clear(); gAssertCount.clear(); gIncomplete.clear(); std::fill(gFuncHits.begin(), gFuncHits.end(), 0); std::fill(gFuncSym.begin(), gFuncSym.end(), 0); gViol.clear(); gTraces.clear(); gTraceSeen = 0; gSolver = SolverStats(); kids.clear(); }
static bool isChild = false;
static void offload() {
  while (pend.size() >= 1) {
    int f = SH->freeSlots.load();
    if (f <= 0) return;
    if (!SH->freeSlots.compare_exchange_strong(f, f - 1)) continue;
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) { SH->freeSlots++; return; }
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      isChild = true; resetStats(); rng ^= (uint64_t)getpid() * 0x9E3779B97F4A7C15ULL; rng = (rng ^ gSeed) | 1;
      State* mine = pend.front(); pend.clear();   // the rest belongs to the parent
      pend.push_back(mine); S = nullptr; F = nullptr;
      throw 1;
    }
    State* d = pend.front(); pend.pop_front(); delete d; kids.push_back(p);
    if (pend.size() < 2) return;
  }
}
static bool explore() { // returns when no states remain
  for (;;) {
    if (pend.empty()) return true;
    if (SH->stop.load()) { incomplete("stopped"); return false; }
    S = pend.back(); pend.pop_back(); modelChanged(); ownTop();
    uint64_t n = 0;
    for (;;) {
      if (((++n) & 0x3ff) == 0) {
        if (S->icount + n > gMaxInst || (S->budget && S->icount + n > S->budget)) { S->icount += n; killErr("nontermination", "instruction budget exhausted"); finishPath(false); break; }
        if ((n & 0xffff) == 0 && nowS() - gStart > deadline()) { SH->stop = 1; incomplete("deadline"); break; }
        if (!pend.empty() && SH->freeSlots.load() > 0) { S->icount += n; ST.insts += n; n = 0; offload(); }
      }
      Ctl c = step();
      if (c == CEnd) { bool ok = S->fr.empty(); S->icount += n; if (ok) finishPath(true); else ST.paths++; break; }
    }
    ST.insts += n;
    delete S; S = nullptr; F = nullptr;
    if (nowS() - gStart > deadline()) { if (!pend.empty()) { SH->stop = 1; incomplete("deadline"); } }
    if (!pend.empty() && SH->freeSlots.load() > 0) offload();
  }
}
static void* mainThread(void* argp);
static int gArgc; static char** gArgv; static int gRc = 0;
int main(int argc, char** argv) {
  gArgc = argc; gArgv = argv;
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1024u << 20);
  pthread_t t; pthread_create(&t, &at, mainThread, nullptr); pthread_join(t, nullptr);
  return gRc;
}
static bool runFn(uint32_t fi) {
  S->fr.clear(); V none[1];
  return pushFrame(M->funcs[fi], none, nullptr, 0);
}
static void* mainThread(void*) {
  int argc = gArgc; char** argv = gArgv;
  std::string bc, entry = "main"; 
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-out") gOut = argv[++i]; else if (a == "-time") gDeadline = atof(argv[++i]); else if (a == "-grace") gGrace = atof(argv[++i]); else if (a == "-procs") gProcs = atoi(argv[++i]); else if (a == "-maxinst") gMaxInst = strtoull(argv[++i], 0, 10); else if (a == "-seed") gSeed = atoi(argv[++i]); else if (a == "-qtimeout") gQueryTimeout = atof(argv[++i]); else if (a == "-entry") entry = argv[++i]; else bc = a;
  }
  gStart = nowS(); 
  rng ^= gSeed * 0x9E3779B97F4A7C15ULL; rng |= 1;
  std::string err; M = loadModule(bc.c_str(), err);
  if (!M) { fprintf(stderr, "sx: %s\n", err.c_str()); gRc = 3; return nullptr; }
  for (auto* f : M->funcs) { std::vector<V> c; for (auto& x : f->consts) c.push_back(cv(x.c)); fconst.push_back(c); if (f->isDecl) { auto it = bi.find(f->name); if (it != bi.end()) f->builtin = it->second; else if (getenv("SX_VERBOSE")) fprintf(stderr, "undefined: %s\n", f->name.c_str()); } else if (f->name.compare(0, 3, "sx_") == 0) { auto it = bi.find(f->name); if (it != bi.end()) f->builtin = it->second; } }
  // memcpy & co. are always built in
  for (auto* f : M->funcs) { auto it = bi.find(f->name); if (it != bi.end() && !f->isDecl && (it->second <= B_memcmp)) f->builtin = it->second; }
  gFuncHits.assign(M->funcs.size(), 0); gFuncSym.assign(M->funcs.size(), 0);
  SH = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (SH) Shared(); SH->freeSlots = gProcs - 1;
  S = new State(); S->heap.base = GLOBAL_BASE; S->stack.base = STACK_BASE; S->stackTop = STACK_BASE + SLOT; S->heapTop = M->globalSlotsEnd + SLOT; S->uid = gUid++;
  for (auto& g : M->globals) { Obj* o = objNew(g.addr, g.size, OGlobal, false); if (g.size) memcpy(o->data, g.data.data(), g.size); o->ro = g.ro; placeObj(S->heap, o); }
  State* init = S;
  auto runToEnd = [&](uint32_t fi) -> bool { // concrete run used for constructors
    S = init; if (!runFn(fi)) return false;
    uint64_t n = 0; for (;;) { if (++n > 50000000) return false; Ctl c = step(); if (c == CEnd) return S->fr.empty(); }
  };
  if (!M->fidx.count(entry)) { fprintf(stderr, "sx: no entry %s\n", entry.c_str()); gRc = 3; return nullptr; }
  for (uint32_t c : M->ctors) if (!runToEnd(c)) { for (auto& kv : gIncomplete) fprintf(stderr, "sx: %s\n", kv.first.c_str()); fprintf(stderr, "sx: static constructor %s failed (%zu violations%s)\n", M->funcs[c]->name.c_str(), gViol.size(), gViol.empty() ? "" : (" " + gViol[0].kind + " " + gViol[0].label + "\n" + gViol[0].stack).c_str()); gRc = 3; return nullptr; }
  ST = Stats(); gFuncHits.assign(M->funcs.size(), 0); gFuncSym.assign(M->funcs.size(), 0);
  S = init; runFn(M->fidx[entry]); pend.push_back(init); ST.states++;
  for (;;) { try { explore(); break; } catch (int) { } }
  // give the slot back while waiting for the children
  SH->freeSlots++;
  for (pid_t p : kids) { int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) { SH->crashed++; incomplete("worker crashed"); } }
  writeOut();
  if (isChild) _exit(0);
  gRc = 0;
  fflush(stdout); _exit(gRc);
}
