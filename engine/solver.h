#pragma once
#include "expr.h"
#include <bitset>
#include <set>
#include <unordered_set>

enum SatRes { SAT,
    UNSAT,
    UNKNOWN };

struct SolverStats {
    u64 queries = 0, sat = 0, unsat = 0, unknown = 0, domain = 0, modelHits = 0, cached = 0, us = 0, maxUs = 0;
};
extern SolverStats g_sstats;
extern void (*g_profile)(u64 us, const std::vector<Expr*>& cs); // told of every query

struct PathCond {
    std::vector<Expr*> cs; // conjuncts
    std::unordered_set<Expr*> set;
    std::vector<std::vector<u32>> byVar; // var -> indices of constraints
    // 8-bit variables that only have single-variable constraints
    std::vector<std::bitset<256>*> dom;
    std::vector<bool> multi; // var occurs in a constraint with other vars
    Model model; // satisfies all of cs
    u32 nvars = 0;
};
extern PathCond* g_pcp;
#define g_pc (*g_pcp)
void pcInit();
extern u64 g_rlimit;

// adds e (conjunctions are split). The model must already satisfy it, or setModel must be called after.
void pcAdd(Expr* e);
// is pc & e satisfiable; m receives a full model of the pc & e
SatRes pcCheck(Expr* e, Model& m, bool forceSolver = false);
// check a set of conjuncts alone
SatRes checkSet(const std::vector<Expr*>& cs, Model& m);
bool pcImpliesSyntactically(Expr* e);
void solverWarmup();
std::string toSmt2(const std::vector<Expr*>& cs);
std::vector<Expr*> pcSlice(Expr* e);
