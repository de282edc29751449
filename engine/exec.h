#pragma once
#include "expr.h"
#include "solver.h"
#include "ir.h"
#include <deque>
#include <map>
#include <set>
#include <memory>
struct V { uint64_t c; E* e; };
static inline V cv(uint64_t c) { return V{c, nullptr}; }

struct Obj {
  uint32_t rc, base, size; uint8_t kind; bool ro, freed;
  uint8_t* data; E** sym; uint8_t* und;
};
enum { OHeap, OGlobal, OStack };
struct Chunk { uint32_t rc; Obj* o[64]; };
struct Space { uint32_t base; std::vector<Chunk*> ch; };

struct Frame {
  ::Function* f; uint32_t pc; uint32_t callInst; uint32_t stackTop; uint32_t vaAddr; std::vector<V> r; uint32_t rc; V* fixedPtr;
};
struct InputEnt { uint32_t var; uint8_t c; };   // var==~0 -> constant c
struct State {
  std::vector<std::shared_ptr<Frame>> fr;
  Space heap, stack; uint32_t heapTop = 0, stackTop = 0;
  std::vector<E*> cons; std::vector<const Mask*> dom; std::vector<uint8_t> linked;
  Model model; uint32_t nvars = 0;
  std::vector<InputEnt> log; std::vector<V> notes; std::vector<std::string> tags;
  uint64_t icount = 0, budget = 0, forks = 0; 
  uint32_t liveBytes = 0, liveBlocks = 0;
  uint64_t uid = 0;
  std::vector<std::pair<uint64_t, const char*>> dummy;
  ~State();
  State() {}
  State* clone() const;
};
