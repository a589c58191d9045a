// Symbolic executor over LLVM IR.
#pragma once
#include "mem.h"
#include "solver.h"
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

struct Val {
  u64 c;
  E   e; // null: concrete c. AGGTAG: c is Agg*
};
#define AGGTAG ((E)2)
struct Agg {
  u32 n;
  Val v[];
};
static inline bool isAgg(const Val& v) { return v.e == AGGTAG; }
static inline Agg* agg(const Val& v) { return (Agg*)v.c; }

enum Op : u8 {
  OP_BR, OP_CBR, OP_SWITCH, OP_RET, OP_UNREACHABLE, OP_CALL, OP_INVOKE, OP_RESUME, OP_LANDINGPAD, OP_BIN, OP_ICMP, OP_SELECT,
  OP_ZEXT, OP_SEXT, OP_TRUNC, OP_NOP, OP_LOAD, OP_STORE, OP_GEP, OP_ALLOCA, OP_EXTRACTVALUE, OP_INSERTVALUE, OP_GENERIC,
  OP_ATOMICRMW, OP_CMPXCHG, OP_FENCE
};

struct Inst {
  Op  op;
  u8  sub;  // Kind / predicate / flags
  u16 w;    // width
  int dst;
  int a, b, c;
  u32 x;
  u64 imm;
  const void* p;
  const llvm::Instruction* I;
};

struct Edge {
  u32 pc;
  std::vector<std::pair<int, int>> moves;
};
struct GepStep { int op; u64 scale; u16 w; };

struct FuncInfo;
struct Builtin;
struct CallInfo {
  std::vector<int> args;
  int              calleeOp = 0; // indirect
  FuncInfo*        callee = nullptr;
  int              normal = -1, unwind = -1; // edges
};

struct FuncInfo {
  llvm::Function*           F = nullptr;
  u32                       objId = 0;
  bool                      decoded = false;
  bool                      repo = false; // defined in /repo
  bool                      pure = false;
  u8                        layer = 2; // 0: code under test or harness, 1: runtime model, 2: library headers and unknown
  u32                       nslots = 0, nargs = 0;
  std::vector<Inst>         code;
  std::vector<Edge>         edges;
  std::vector<Val>          consts;
  std::vector<CallInfo>     calls;
  std::vector<std::vector<GepStep>> geps;
  std::vector<std::vector<int>>     opnds;
  std::vector<std::pair<std::vector<std::pair<u64, u32>>, u32>> switches;
  int                       builtin = -1;
  u64                       hits = 0, insts = 0;
  std::vector<u8>           cov; // executed instruction flags
  std::string               name;
};

struct Frame {
  FuncInfo*        f;
  u32              pc;
  std::vector<Val> regs;
  std::vector<u32> allocas;
  std::vector<Val> varargs;
};

enum ThStatus : u8 { TH_RUN, TH_MUTEX, TH_CV, TH_JOIN, TH_DONE };
struct Thread {
  std::vector<Frame> st;
  ThStatus           status = TH_RUN;
  u64                waitOn = 0, waitMutex = 0; // address
  bool               schedDone = false;         // the pending visible op has been scheduled
  bool cvDone = false, timed = false, timedOut = false, signalled = false;
  bool               detached = false, started = false;
  std::unordered_map<u32, u32> tls; // global obj id -> instance
  std::vector<u32> vc; // vector clock
  // in-flight exception while unwinding
  u64 excObj = 0, excTi = 0;
};

struct ObsItem { // observed bytes
  std::string    tag;
  std::vector<E> bytes;
};
struct InputItem {
  std::string      name;
  std::vector<u32> vars;   // per byte var ids (or a single wider var)
  bool             choice; // a 32-bit choice
};

// shadow memory of the data race detector (only while there are several threads)
struct RaceCell { u32 w = 0, wl = 0, rl = 0; u32 r[6] = {0, 0, 0, 0, 0, 0}; }; // w: clock << 4 | thread; r: clock of each thread's last read; wl, rl: sites
struct RacePage { RaceCell c[32]; };
struct RaceObj { std::vector<std::shared_ptr<RacePage>> p; };

struct State {
  Memory                 mem;
  std::vector<Thread>    th;
  u32                    cur = 0;
  std::vector<E>         pc;
  std::unordered_map<E, u64> known; // expr == constant on this path
  std::shared_ptr<Model> model;
  std::unordered_map<u64, u32> mutexOwner; // address -> thread+1
  std::unordered_map<u64, std::vector<u32>> sync; // clocks of mutexes and atomics
  std::unordered_map<u32, std::shared_ptr<RaceObj>> shadow;
  std::set<u64> rdHeld; // rwlocks held by a reader
  std::vector<InputItem> inputs;
  std::vector<ObsItem>   obs;
  std::vector<std::string> trace; // schedule trace
  std::vector<u8>        sched; // thread of every visible operation, in order
  std::unordered_map<std::string, u32> counters;
  u64  steps = 0;
  int  preempt = 0;
  u32  appDepthFrame = 0; // frame index of hsx_call_app in main thread (0: none)
  u32  depth = 0;
  bool inApp = false;
  std::vector<u8> pinned;
  u32 pinnedCount = 0;
  std::string fault;      // description of an injected fault
  State() {}
  State(const State&) = default;
};
