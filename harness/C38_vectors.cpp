//@ reach: taken refused callback nocallback fresh stale reset forked both one none filtered filling relayed lost nonext moved same flags null
//@ bounds: sequences of 3 pushes (thorough 4) of vectors of any bits, with or without errors of any bits, of any sense; sinks with and without callback, any result of the callback, any clock; forks with any hands that report any result; filters of the raw strategy with windows of 0 to 2 and with or without a next stage that reports any result; conventions of each kind over constant vectors; any set of relayed senses
//@ outside: the arithmetic of other filter strategies (C25), of the compass and of the orientation stage; which axis a convention calls which; printPipe()
#include "plat.h"
#include "rt_common.h"
#include "Pipes/TripleAxisPipe/TripleAxisPipe.h"
static int order; static bool same(const Vector3f* a, const Vector3f* b) { return memcmp(a, b, sizeof(Vector3f)) == 0; }
static void vec(Vector3f* v, const char* n) { sx_bytes(v, sizeof(Vector3f), n); }
struct Probe : public TripleAxisPipe {
  int n = 0, at = 0; SpatialSense s = SpatialSense::UNITLESS; Vector3f d, e, *dp = nullptr, *ep = nullptr; int8_t rc = 0;
  int8_t pushVector(const SpatialSense S, Vector3f* D, Vector3f* E = nullptr) { n++; at = ++order; s = S; dp = D; ep = E; d.set(D); if (E) e.set(E); return rc; }
  void printPipe(StringBuilder*, uint8_t, uint8_t) {}
};
struct Flags : public TripleAxisPipeWithFlags { Flags() : TripleAxisPipeWithFlags(0) {} int8_t pushVector(const SpatialSense, Vector3f*, Vector3f*) { return 0; } void printPipe(StringBuilder*, uint8_t, uint8_t) {} };
static int cbs; static int8_t cbrc; static SpatialSense cbsense; static Vector3f cbd, cbe; static bool cbhe; static uint32_t cbseq;
static int8_t cb(SpatialSense s, Vector3f* d, Vector3f* e, uint32_t q) { cbs++; cbsense = s; cbd.set(d); cbhe = e != nullptr; if (e) cbe.set(e); cbseq = q; return cbrc; }
static void terminus() {
  SpatialSense mine = (SpatialSense) sx_u8("mine"); bool withcb = sx_choose(2, "cb"); TripleAxisTerminus t(mine, withcb ? cb : nullptr); cbs = 0; uint32_t n = 0, when = 0; bool he = false, fresh = false; Vector3f D, E; plat_ms_direct = 1;
  for (int p = 0; p < (THOROUGH ? 4 : 3); p++) {
    Vector3f d, e; vec(&d, "d"); vec(&e, "e"); bool give = sx_choose(2, "err"); SpatialSense s = (SpatialSense) sx_u8("sense"); plat_ms = sx_u32("ms"); cbrc = (int8_t) sx_u8("rc"); Vector3f d0, e0; d0.set(&d); e0.set(&e);
    int8_t r = t.pushVector(s, &d, give ? &e : nullptr); sx_assert(same(&d, &d0) && same(&e, &e0), "a vector that was pushed is not altered");
    if (sx_branch(s == mine)) {
      n++; when = plat_ms; D.set(&d); he = give; if (give) E.set(&e); fresh = withcb ? sx_branch(cbrc != 0) : true;
      sx_assert(r == 0, "a sink takes the vectors of its sense"); sx_assert(cbs == (withcb ? (int) n : 0), "the callback is called once for each vector taken"); sx_reach("taken"); sx_reach(withcb ? "callback" : "nocallback");
      if (withcb) sx_assert(cbsense == mine && same(&cbd, &d) && cbhe == give && (!give || same(&cbe, &e)) && cbseq == n, "the callback is given the vector, its error and its number");
    }
    else { sx_assert(r == -1, "a sink refuses vectors of any other sense"); sx_reach("refused"); }
    sx_assert(t.sense() == mine && t.updateCount() == n && t.lastUpdate() == when && t.haveError() == he && t.dataFresh() == fresh, "a sink tells how many it took, when, and whether the last had an error");
    sx_assert(same(t.getData(), &D) && (!he || same(t.getError(), &E)), "a sink holds the last vector it took, and its error");
    if (sx_choose(2, "read")) { Vector3f a, b; uint32_t q = 0; bool we = sx_choose(2, "we"); int8_t g = t.getDataWithErr(&a, we ? &b : nullptr, we ? &q : nullptr); sx_assert(g == (fresh ? 1 : 0), "reading tells whether the vector is fresh"); sx_assert(same(&a, &D) && (!we || q == n) && (!we || !he || same(&b, &E)), "reading gives the last vector, its error and its number"); sx_reach(fresh ? "fresh" : "stale"); fresh = false; sx_assert(!t.dataFresh(), "what was read is no longer fresh"); }
  }
  t.reset(); Vector3f z; sx_assert(!t.haveError() && !t.dataFresh() && t.updateCount() == 0 && t.lastUpdate() == 0 && same(t.getData(), &z) && same(t.getError(), &z), "a reset sink is as new"); sx_reach("reset");
}
static void forks() {
  Probe l, r; int k = sx_choose(4, "hands"); TripleAxisFork f(k & 1 ? &l : nullptr, nullptr); if (k & 2) f.setRight(&r); if (sx_choose(3, "swap") == 0) { f.setLeft(k & 2 ? &r : nullptr); f.setRight(k & 1 ? &l : nullptr); Probe* a = &l; (void) a; if (k == 3) { order = 10; Vector3f d; f.pushVector(SpatialSense::ACC, &d); sx_assert(r.at == 11 && l.at == 12, "a fork pushes left first"); } return; }
  for (int p = 0; p < 2; p++) {
    Vector3f d, e; vec(&d, "d"); vec(&e, "e"); bool give = sx_choose(2, "err"); SpatialSense s = (SpatialSense) sx_u8("sense"); l.rc = (int8_t) sx_u8("l"); r.rc = (int8_t) sx_u8("r"); order = 0; int ok = -2;
    int8_t rc = f.pushVector(s, &d, give ? &e : nullptr); if ((k & 1) && sx_branch(l.rc >= 0)) ok++; if ((k & 2) && sx_branch(r.rc >= 0)) ok++;
    sx_assert(rc == ok, "a fork reports on how many sides the vector was taken"); sx_assert(l.n == (k & 1 ? p + 1 : 0) && r.n == (k & 2 ? p + 1 : 0), "each side gets each vector once, whatever the other does with it");
    if (k & 1) sx_assert(l.s == s && l.dp == &d && l.ep == (give ? &e : nullptr) && l.at == 1, "each side gets the vector as it was pushed"); if (k & 2) sx_assert(r.s == s && r.dp == &d && r.ep == (give ? &e : nullptr) && r.at == (k & 1 ? 2 : 1), "each side gets the vector as it was pushed");
    sx_reach("forked"); sx_reach(ok == 0 ? "both" : ok == -1 ? "one" : "none");
  }
}
static void filters() {
  Probe nx; int ws = sx_choose(3, "ws"); bool have = sx_choose(2, "next"); SpatialSense mine = (SpatialSense) sx_u8("mine"); TripleAxisSingleFilter f(mine, have ? &nx : nullptr, FilteringStrategy::RAW, ws); int fed = 0, got = 0; Vector3f D, E; bool he = false; bool dirty = false;
  for (int p = 0; p < (THOROUGH ? 4 : 3); p++) {
    Vector3f d, e; vec(&d, "d"); vec(&e, "e"); bool give = sx_choose(2, "err"); SpatialSense s = (SpatialSense) sx_u8("sense"); nx.rc = (int8_t) sx_u8("rc"); Vector3f d0; d0.set(&d);
    int8_t r = f.pushVector(s, &d, give ? &e : nullptr); sx_assert(same(&d, &d0), "a vector that was pushed is not altered");
    if (sx_branch(s == mine)) {
      fed++; D.set(&d); bool full = fed >= (ws ? ws : 1); sx_assert(r == 0, "a filter takes the vectors of its sense");
      if (full) {
        he = give; if (he) E.set(&e);
        if (have) { got++; sx_assert(nx.n == got, "each result is sent on once"); sx_assert(nx.s == mine && same(&nx.d, &d) && (nx.ep != nullptr) == give && (!give || same(&nx.e, &e)), "the result is sent on as what it is, with its error if there is one"); dirty = sx_branch(nx.rc < 0); } else dirty = true; sx_reach("filtered");
      } else { sx_assert(nx.n == got, "nothing is sent on before the window is full"); sx_reach("filling"); }
      sx_assert(f.dataFresh() == dirty, "a result that was not sent on is kept as fresh");
    } else if (have) { got++; sx_assert(nx.n == got && nx.s == s && same(&nx.d, &d) && (nx.ep != nullptr) == give && (!give || same(&nx.e, &e)), "other senses are relayed unchanged"); sx_assert(r == nx.rc, "a relay reports what the next stage said"); sx_reach("relayed"); }
    else { sx_assert(r == -1, "what cannot be relayed is refused"); sx_reach("lost"); }
    sx_assert(f.haveError() == he, "a filter tells whether its last result had an error"); if (!have) sx_reach("nonext");
    if (fed && sx_choose(2, "read")) { Vector3f a, b; int8_t g = f.getDataWithErr(&a, &b); sx_assert(g == (dirty ? 1 : 0), "reading tells whether the vector is fresh"); sx_assert(same(&a, &D) && (!he || same(&b, &E)), "reading gives the last result and its error"); dirty = false; sx_assert(!f.dataFresh(), "what was read is no longer fresh"); }
  }
}
static void conventions() {
  static const GnomonType G[] = {GnomonType::RH_POS_X, GnomonType::RH_NEG_X, GnomonType::RH_POS_Y, GnomonType::RH_NEG_Y, GnomonType::RH_POS_Z, GnomonType::RH_NEG_Z, GnomonType::LH_POS_X, GnomonType::LH_NEG_X, GnomonType::LH_POS_Y, GnomonType::LH_NEG_Y, GnomonType::LH_POS_Z, GnomonType::LH_NEG_Z, GnomonType::UNDEFINED};
  Probe nx; GnomonType g = G[sx_choose(13, "gnomon")]; TripleAxisConvention c(nullptr, g, GnomonType::RH_POS_Z); Vector3f d(1.5, -2.25, 4), e(0.5, 0.25, 0.125); bool give = sx_choose(2, "err"); SpatialSense s = (SpatialSense) sx_u8("sense"); nx.rc = (int8_t) sx_u8("rc");
  sx_assert(c.pushVector(s, &d, give ? &e : nullptr) == -2, "a convention with nothing after it refuses"); sx_reach("null"); c.setNext(&nx); sx_assert(c.afferentGnomon() == g && c.efferentGnomon() == GnomonType::RH_POS_Z, "a convention keeps its kinds");
  int8_t r = c.pushVector(s, &d, give ? &e : nullptr); sx_assert(r == nx.rc && nx.n == 1 && nx.s == s && (nx.ep != nullptr) == give, "a convention sends each vector on once, and reports what the next stage said");
  sx_assert(d.x == 1.5f && d.y == -2.25f && d.z == 4 && e.x == 0.5f && e.y == 0.25f && e.z == 0.125f, "a vector that was pushed is not altered"); float* q = &nx.d.x; float v[3] = {nx.d.x, nx.d.y, nx.d.z}, w[3] = {nx.e.x, nx.e.y, nx.e.z}; (void) q; int perm = 0;
  for (int i = 0; i < 3; i++) { float a = v[i] < 0 ? -v[i] : v[i], b = w[i] < 0 ? -w[i] : w[i]; int k = a == 1.5f ? 0 : a == 2.25f ? 1 : a == 4 ? 2 : 9; sx_assert(k < 3, "a convention only exchanges and inverts axes"); perm |= 1 << k; if (give) sx_assert(b == (k == 0 ? 0.5f : k == 1 ? 0.25f : 0.125f), "an error follows its axis"); }
  sx_assert(perm == 7, "a convention only exchanges and inverts axes"); sx_reach("moved"); if (g == GnomonType::UNDEFINED) { sx_assert(same(&nx.d, &d), "an undefined convention changes nothing"); sx_reach("same"); }
}
static void flags() {
  Flags f; uint16_t m = 0; for (int i = 0; i < 4; i++) { uint8_t s = (uint8_t) sx_range(0, 11, "sense"); bool on = sx_branch(sx_u8("on") & 1); f.relaySense((SpatialSense) s, on); m = on ? m | (1 << s) : m & ~(1 << s); for (int k = 0; k < 12; k++) sx_assert(f.relaySense((SpatialSense) k) == ((m >> k) & 1), "each sense is relayed as it was last set"); } sx_reach("flags");
}
int sx_main() {
  uint32_t heap0 = sx_heap_bytes();
  switch (sx_choose(5, "part")) { case 0: terminus(); break; case 1: forks(); break; case 2: filters(); break; case 3: conventions(); break; default: flags(); break; }
  sx_assert(sx_heap_bytes() == heap0, "every byte taken from the heap is returned");
  return 0;
}
