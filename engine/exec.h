#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <functional>
#include <string>
#include <vector>
#include <deque>

#define UNINIT ((E)1)

struct Shadow { std::vector<uint32_t> w; std::vector<uint32_t> r; std::vector<const char*> dummy; };
static const int MAXT = 10, MAXTH = 24;   // threads with race detection; threads

struct Obj {
  uint64_t base; uint32_t size; uint8_t kind; bool alive; bool ro; bool norace = false;   // kind: 0 global 1 heap 2 stack 3 exception
  std::vector<uint8_t> c;
  std::unique_ptr<std::vector<E>> s;
  std::unique_ptr<Shadow> sh;
  uint64_t h = 0; bool hv = false;
  const llvm::Value* site = nullptr;
  Obj() {}
  Obj(const Obj& o) : base(o.base), size(o.size), kind(o.kind), alive(o.alive), ro(o.ro), norace(o.norace), c(o.c), s(o.s ? new std::vector<E>(*o.s) : nullptr),
    sh(o.sh ? new Shadow(*o.sh) : nullptr), h(o.h), hv(o.hv), site(o.site) {}
};
typedef std::shared_ptr<Obj> ObjP;
struct Chunk { ObjP o[32]; };
struct Space { std::vector<std::shared_ptr<Chunk>> ch; uint32_t next = 0; };

struct Opnd { int slot = -1; std::vector<V> cst; int n = 1; };
struct Inst {
  unsigned op; const llvm::Instruction* I; int dst = -1; int nd = 0; unsigned w = 0;
  std::vector<Opnd> ops;
  // gep
  int64_t gepConst = 0; std::vector<std::pair<int, int64_t>> gepScale;   // operand index, scale
  int bb0 = -1, bb1 = -1;        // successors
  std::vector<std::pair<V, int>> cases;
  std::vector<std::pair<int, Opnd>> phi; // pred bb idx -> value
  const llvm::Function* callee = nullptr; int builtin = -1;
  llvm::Type* ty = nullptr; uint64_t tysz = 0;
  std::vector<unsigned> leafW; std::vector<uint64_t> leafOff;
  unsigned off0 = 0;
  int iid = 0; bool quiet = false;   // an atomic load that is no scheduling point
};
struct FnInfo {
  const llvm::Function* F; std::vector<std::vector<Inst>> bbs; int nregs = 0; std::vector<int> argSlot; std::vector<int> argN;
  std::vector<char> cov; std::string name; bool touched = false;
  std::vector<int> ownerSlots;
};

struct Frame {
  FnInfo* fn; int bb = 0, ip = 0, prev = -1;
  std::vector<V> regs; std::vector<uint64_t> allocas; std::vector<V> va; std::vector<unsigned> vaW; uint64_t vaObj = 0;
};
typedef std::shared_ptr<Frame> FrameP;
enum TStat { T_Run, T_Mutex, T_Cond, T_Join, T_Futex, T_Once, T_Guard, T_RwR, T_RwW, T_Done };
struct Thread {
  int id; std::vector<FrameP> st; TStat status = T_Run; uint64_t waitA = 0, waitB = 0; int phase = 0; bool granted = false; bool signaled = false; bool timed = false;
  bool sleeping = false; uint64_t onlyLock = 0;   // the mutex it took with its last visible operation
  std::vector<uint64_t> caught; int uncaught = 0; uint64_t curExc = 0; int curSel = 0;
  std::map<uint64_t, uint64_t> tls; std::vector<uint32_t> vc; uint64_t lastSleepHash = 0;
  int spurious = 0; int raceoff = 0;
};
struct ExcInfo { uint64_t tinfo = 0, dtor = 0; int ref = 0, handlers = 0; uint64_t adj = 0; };
struct MutexS { int owner = -1; int count = 0; std::vector<uint32_t> vc; };
struct RwS { int writer = -1; std::map<int,int> readers; std::vector<uint32_t> vc; };
struct InputRec { std::string name; E e; };
struct State {
  uint64_t id = 0;
  std::vector<Space> sp;            // index 1 = globals, 2+tid = thread spaces
  std::vector<Thread> th; int cur = 0;
  std::vector<E> pc, pcs;           // insertion order; sorted by id
  Model model;
  std::map<uint64_t, ExcInfo> exc; std::map<uint64_t, MutexS> mtx; std::map<uint64_t, RwS> rw; std::map<uint64_t, int> once; std::map<uint64_t, std::vector<uint32_t>> avc;
  std::map<uint64_t, int> guardOwner;
  std::map<std::string, int> symCnt;
  std::vector<InputRec> inputs;
  std::vector<std::pair<int,int>> sched;     // (chosen thread, #enabled)
  std::vector<std::string> notes;
  std::map<std::string, V> kv;
  std::set<uint64_t> slept;   // one fixed schedule: states in which a thread slept
  uint64_t steps = 0; int preempt = 0; int forks = 0; int spuriousLeft = 0; bool everThreaded = false;
  bool dead = false; int noSched = 0;
};
typedef std::unique_ptr<State> StateP;
