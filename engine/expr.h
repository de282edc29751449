// Hash-consed bit-vector / IEEE-754 expression DAG over symbolic input bytes.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <memory>

enum K : uint8_t {
  KConst, KVar,
  KAdd, KSub, KMul, KUDiv, KSDiv, KURem, KSRem,
  KAnd, KOr, KXor, KShl, KLShr, KAShr,
  KZExt, KSExt, KExtract, KConcat,
  KEq, KUlt, KUle, KSlt, KSle, KNot, KIte,
  // floating point: operands are bit patterns (w = 32 or 64)
  KFAdd, KFSub, KFMul, KFDiv, KFRem, KFSqrt, KFFma,
  KFOeq, KFOlt, KFOle, KFUno,
  KFExt, KFTrunc, KFToSI, KFToUI, KSIToF, KUIToF,
  KFRound  // aux: 0 rne(rint) 1 floor 2 ceil 3 trunc 4 round(away)
};

struct VarSet { std::vector<uint32_t> v; };

struct E {
  K k; uint8_t w; uint16_t nk; uint32_t aux;   // aux: var id / extract lo
  uint32_t id; uint32_t h;
  uint64_t c;            // constant value
  E* a; E* b; E* d;
  const VarSet* vars;
  void* z;               // cached Z3 AST
  uint64_t evv; uint32_t eve;   // evaluation memo
  uint64_t umax;
  uint8_t tz;            // known trailing zero bits
  const uint64_t* mask;  // for w==1 single-variable expressions: 256-bit truth table
};

// A model: values of input bytes; index beyond size -> 0
typedef std::vector<uint8_t> Model;

static inline uint64_t wmask(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sext64(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ULL << (w - 1); v &= wmask(w); return (int64_t)((v ^ m) - m); }

E* mkConst(uint64_t c, unsigned w);
E* mkVar(uint32_t id);
E* mkBin(K k, E* a, E* b);          // arithmetic, result width = a->w
E* mkCmp(K k, E* a, E* b);          // result width 1
E* mkNot(E* a);
E* mkIte(E* c, E* a, E* b);
E* mkZExt(E* a, unsigned w);
E* mkSExt(E* a, unsigned w);
E* mkExtract(E* a, unsigned lo, unsigned w);
E* mkExtractRaw(E* a, unsigned lo, unsigned w); E* mkTidy(E* e);
E* mkConcat(E* hi, E* lo);
E* mkF(K k, unsigned w, E* a, E* b, E* d = nullptr, uint32_t aux = 0);
static inline E* mkAndB(E* a, E* b) { return mkBin(KAnd, a, b); }
static inline E* mkOrB(E* a, E* b) { return mkBin(KOr, a, b); }
static inline bool isC(const E* e) { return e->k == KConst; }
static inline bool isTrue(const E* e) { return isC(e) && e->c == 1; }
static inline bool isFalse(const E* e) { return isC(e) && e->c == 0; }

uint64_t foldBin(K k, uint64_t a, uint64_t b, unsigned w, bool& ok);
uint64_t foldF(K k, unsigned w, uint64_t a, uint64_t b, uint64_t d, unsigned aw, uint32_t aux);
uint64_t evalE(E* e, const Model& m);   // memoised evaluation
void evalEpoch();                        // invalidate memo (call when the model changes)
const uint64_t* unaryMask(E* e);         // truth table of a single-variable w==1 expr
std::string exprStr(E* e, int depth = 6);
size_t exprCount();
E* exprById(uint32_t id);
E* mkFAbs(E* a);
E* mkFNeg(E* a);
bool varsSubset(const VarSet* a, const std::vector<bool>& b);
bool varsIntersect(const VarSet* a, const std::vector<bool>& b);
