#pragma once
#include "expr.h"
#include "solver.h"
#include <atomic>
#include <functional>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>

struct Val {
    u64 c;
    Expr* e; // null: concrete
};

inline Val cv(u64 c) { return Val { c, nullptr }; }
inline u64 mask64(u32 w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline Val ev(Expr* e)
{
    if (isC(e) && e->w <= 64)
        return Val { (u64)e->val, nullptr };
    return Val { 0, e };
}
inline Expr* toE(const Val& v, u32 w) { return v.e ? v.e : mkConst(v.c, w); }

enum ObjKind : u8 { OK_HEAP,
    OK_STACK,
    OK_GLOBAL,
    OK_FUNC,
    OK_EXC };

struct Obj {
    u64 size = 0;
    u8* data = nullptr;
    Expr** sym = nullptr; // per byte
    u8* mask = nullptr; // per byte initialised flags, if partially initialised
    u8 init = 0; // 0 nothing initialised, 1 all, 2 see mask
    bool alive = false;
    bool ro = false;
    ObjKind kind = OK_HEAP;
    u8 how = 0; // 0 malloc, 1 new, 2 new[]
    const void* ref = nullptr; // llvm::Function for OK_FUNC, allocation site otherwise
};

enum Opc : u16 {
    O_BIN,
    O_CMP,
    O_ZEXT,
    O_SEXT,
    O_TRUNC,
    O_MOV,
    O_SELECT,
    O_LOAD,
    O_STORE,
    O_GEP,
    O_ALLOCA,
    O_BR,
    O_CONDBR,
    O_SWITCH,
    O_CALL,
    O_RET,
    O_RESUME,
    O_LANDINGPAD,
    O_UNREACHABLE,
    O_RMW,
    O_CMPXCHG,
    O_FBIN,
    O_FCMP,
    O_FCAST,
    O_FNEG,
    O_NOP,
    O_UNSUPPORTED,
};

struct Edge {
    u32 target = 0;
    std::vector<std::pair<i64, i64>> copies; // dst reg, src operand
    bool overlap = false;
};

struct FnInfo;
struct Engine;
struct CallCtx;
typedef int (*Handler)(CallCtx&);
enum { H_DONE = 0, // result set, continue after the call
    H_CTRL = 1, // control transferred (frame pushed, exception, thread switch): do not touch pc
};

struct CallInfo {
    const llvm::CallBase* cb = nullptr;
    const llvm::Function* direct = nullptr;
    FnInfo* fi = nullptr;
    Handler h = nullptr;
    int calleeOp = 0;
    std::vector<int> args; // operand slots, flattened
    std::vector<u32> argW;
    std::vector<int> argFirst; // first slot of each IR argument
    std::vector<u64> byval; // size per IR argument, 0 if not byval
    bool invoke = false;
    Edge normal, unwind;
    u32 nret = 0;
    u32 retW = 0;
};

struct LPClause {
    u64 ti;
    bool filter;
};

struct Op {
    u16 opc;
    u16 w; // operand width
    u16 w2; // second width (casts: source)
    u16 sub; // predicate / kind
    int dst;
    int a, b, c;
    i64 imm;
    std::vector<std::pair<int, i64>>* terms = nullptr; // GEP terms; SELECT/RET/LOAD slot lists
    std::vector<u32>* widths = nullptr;
    CallInfo* call = nullptr;
    Edge *e1 = nullptr, *e2 = nullptr;
    std::vector<std::pair<u64, Edge*>>* cases = nullptr;
    std::vector<LPClause>* clauses = nullptr;
    const llvm::Instruction* I = nullptr;
};

struct FnInfo {
    const llvm::Function* F = nullptr;
    std::string name;
    u32 id = 0;
    bool lowered = false;
    u32 nregs = 0;
    std::vector<Op> code;
    std::vector<Val> consts;
    std::vector<u32> argWidths; // flattened
    bool repo = false;
};

struct Frame {
    FnInfo* f;
    u32 pc;
    Val* regs;
    size_t arenaMark;
    std::vector<u64> allocas;
    u64 varargs = 0;
    std::vector<Val> excSave;
    bool isBase = false;
};

struct Exc {
    u64 obj, ti, dtor;
    int handlers = 0;
    u64 adjusted = 0;
    std::vector<u64> trace;
};

enum TStatus : u8 { T_RUN,
    T_MUTEX,
    T_JOIN,
    T_COND,
    T_DONE };

struct Thread {
    int id;
    std::vector<Frame> frames;
    TStatus st = T_RUN;
    u64 waitOn = 0;
    bool pastSched = false;
    u64 spinAddr = 0; // atomic accessed last, and how often in a row
    u32 spin = 0;
    bool timed = false, timedOut = false, signaled = false;
    u64 condMutex = 0;
    u64 pendExc = 0;
    u32 pendSel = 0;
    std::vector<u64> caught;
    int uncaught = 0;
    u64 retval = 0;
    std::vector<Val*> chunks;
    std::map<u64, u64> tls;
    std::map<u64, u64> locals; // thread_local variables: the main thread's copy -> this thread's
    std::vector<u32> vc; // vector clock
    std::vector<u64> held;
};

struct CallCtx {
    Engine* E;
    Op* op;
    CallInfo* ci;
    Val arg(unsigned i); // i-th flattened slot
    u64 conc(unsigned i); // concretised
    void ret(Val v);
    void ret(u64 v) { ret(cv(v)); }
};
