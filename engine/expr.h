// Hash-consed bit-vector expressions with eager simplification.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;
typedef unsigned __int128 u128;

enum Kind : u8 {
    K_CONST,
    K_VAR,
    K_ADD,
    K_SUB,
    K_MUL,
    K_UDIV,
    K_SDIV,
    K_UREM,
    K_SREM,
    K_AND,
    K_OR,
    K_XOR,
    K_SHL,
    K_LSHR,
    K_ASHR,
    K_EQ,
    K_ULT,
    K_ULE,
    K_SLT,
    K_SLE,
    K_ITE,
    K_CONCAT,
    K_EXTRACT,
    K_SEXT,
    // IEEE arithmetic on the bits of floats and doubles, NaN as x86 has them
    K_FADD,
    K_FSUB,
    K_FMUL,
    K_FDIV,
    K_FEQ,
    K_FLT,
    K_FLE,
};

struct Expr {
    Kind k;
    bool undef; // depends on an uninitialised-memory variable
    u16 w;
    u32 id;
    u32 lo; // EXTRACT low bit / VAR index
    u32 hash;
    Expr *a, *b, *c;
    u128 val;
    // caches
    void* z3;
    void* z3b; // as a Boolean, width 1 only
    std::vector<u32>* vars; // sorted variable indices
    u64 evalStamp;
    u128 evalVal;
    Expr* next; // hash chain
};

struct VarInfo {
    std::string name;
    u32 w;
    int kind; // 0 input, 1 uninitialised memory, 2 internal
    Expr* e;
};
extern std::vector<VarInfo> g_vars;
u32& varCounter(); // per path

Expr* mkConst(u128 v, u32 w);
Expr* mkVar(const std::string& name, u32 w, int kind);
Expr* mkBin(Kind k, Expr* a, Expr* b);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkExtract(Expr* e, u32 lo, u32 w);
Expr* mkZExt(Expr* e, u32 w);
Expr* mkSExt(Expr* e, u32 w);
Expr* mkNot(Expr* e); // width 1
inline Expr* mkAnd(Expr* a, Expr* b) { return mkBin(K_AND, a, b); }
inline Expr* mkOr(Expr* a, Expr* b) { return mkBin(K_OR, a, b); }
inline Expr* mkEq(Expr* a, Expr* b) { return mkBin(K_EQ, a, b); }
inline bool isC(const Expr* e) { return e->k == K_CONST; }
inline bool isTrue(const Expr* e) { return e->k == K_CONST && e->val == 1 && e->w == 1; }
inline bool isFalse(const Expr* e) { return e->k == K_CONST && e->val == 0 && e->w == 1; }
inline u128 maskw(u32 w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }

const std::vector<u32>& varsOf(Expr* e);

struct Model {
    std::vector<u64> v; // by variable index
    u64 get(u32 i) const { return i < v.size() ? v[i] : 0; }
    void set(u32 i, u64 x)
    {
        if (i >= v.size())
            v.resize(i + 1, 0);
        v[i] = x;
    }
};
u128 evalExpr(Expr* e, const Model& m);
// starts a new evaluation epoch (call when the model changed)
void evalNewEpoch();
u128 foldBin(Kind k, u128 a, u128 b, u32 w);
std::string exprStr(Expr* e, int depth = 6);
Expr* substUndef(Expr* e, std::vector<Expr*>& map); // replaces undef vars by fresh copies
