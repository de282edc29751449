// Pre-lowered internal IR of an LLVM module (see loader.cpp), interpreted by exec.cpp.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>

enum Op : uint16_t {
  OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLShr, OAShr,
  OEq, ONe, OUlt, OUle, OUgt, OUge, OSlt, OSle, OSgt, OSge,
  OFAdd, OFSub, OFMul, OFDiv, OFRem, OFNeg,
  OFCmp,          // imm = predicate
  OZExt, OSExt, OTrunc, OFPExt, OFPTrunc, OFPToSI, OFPToUI, OSIToFP, OUIToFP,
  OMove,          // dst <- a (n slots in imm)
  OSelect,        // a ? b : c, imm slots
  OGep,           // dst = a + imm + sum(ext[i].op * scale)
  OLoad, OStore,  // load: dst <- [a], w bits; store: [b] <- a
  OAlloca,        // imm = size each, a = count
  OBr, OCondBr, OSwitch, ORet, OUnreachable,
  OCall,          // callee: imm = function index or -1 (indirect via a)
  OIntrin,        // imm = Intr
  OAtomicRMW, OCmpXchg,
  OUnsupported
};
enum Intr : uint16_t {
  IMemcpy, IMemset, INop, IUMin, IUMax, ISMin, ISMax, IAbs, IBswap, IBitrev, ICtpop, ICtlz, ICttz, IFshl, IFshr,
  IUAddO, ISAddO, IUSubO, ISSubO, IUMulO, ISMulO, IUAddSat, IUSubSat, ISAddSat, ISSubSat,
  IVaStart, IVaCopy, IStackSave, IStackRestore, ITrap,
  IFabs, IFloor, ICeil, ITruncF, IRound, IRint, ISqrt, IFma, ICopysign, IMinnum, IMaxnum, IMathC /* concrete libm by name */, IIsFpClass
};
// Operand: >=0 register slot; <0 -> constant table index ~x
typedef int32_t Opd;
struct Ext { Opd op; int64_t scale; uint32_t w; uint32_t slots; };  // gep index / call arg / phi copy / switch case
struct Inst {
  Op op; uint8_t w; uint8_t w2;
  int32_t dst; Opd a, b, c;
  int64_t imm;
  uint32_t t0, t1;         // successor edge indexes
  uint32_t ext, next;      // range in Function::exts
  uint32_t line; uint32_t file;
};
struct Edge { uint32_t target; uint32_t block; uint32_t cp, ncp; };  // target pc; phi copies [cp, cp+ncp) in Function::copies
struct PhiCopy { Opd src; int32_t dst; };
struct CVal { uint64_t c; uint8_t w; };
struct Function {
  std::string name; uint32_t idx;
  bool isDecl = true, vararg = false;
  uint32_t nslots = 0;
  std::vector<Inst> code;
  std::vector<Ext> exts;
  std::vector<Edge> edges;
  std::vector<PhiCopy> copies;
  std::vector<CVal> consts;
  struct Param { int32_t slot; uint32_t slots; uint32_t byval; uint8_t w[4]; };
  std::vector<Param> params;
  uint32_t builtin = 0;   // executor-assigned
  uint32_t nblocks = 0;
  std::string file;
};
struct GlobalInit { uint32_t addr; uint32_t size; bool ro; std::vector<uint8_t> data; std::string name; uint32_t align; };
struct Module {
  std::vector<Function*> funcs;
  std::unordered_map<std::string, uint32_t> fidx;
  std::vector<GlobalInit> globals;
  std::vector<uint32_t> ctors;
  std::vector<std::string> files;
  std::vector<std::string> mathNames;
  uint32_t globalSlotsEnd = 0;
};
static const uint32_t SLOT = 4096, SLOT_SHIFT = 12;
static const uint32_t GLOBAL_BASE = 0x01000000u;   // globals, then heap
static const uint32_t STACK_BASE  = 0x90000000u;
static const uint32_t FUNC_BASE   = 0xE0000000u;
Module* loadModule(const char* path, std::string& err);
