// Symbolic interpreter for LLVM bitcode. One OS process per path prefix; branches on symbolic conditions fork.
#pragma once
#include "expr.hpp"
#include "solver.hpp"
#include <string>
#include <vector>
#include <unordered_set>
#include <llvm/IR/Module.h>

typedef uint8_t u8;
typedef uint32_t u32;
struct Slot { u64 c; E e; };            // e == nullptr: concrete value c
struct SymByte { E e; u8 idx; };        // byte idx (little endian) of e; e == nullptr: concrete

enum ObjKind : u8 { OK_FREE = 0, OK_HEAP_NEW, OK_HEAP_NEWARR, OK_HEAP_MALLOC, OK_STACK, OK_GLOBAL, OK_FUNC, OK_EXC };
struct Obj {
    u8 *data = nullptr; SymByte *sym = nullptr; u64 size = 0; ObjKind kind = OK_FREE; bool alive = false, ro = false;
    const char *name = nullptr; void *fn = nullptr;
};
static const u64 ADDR_SHIFT = 24, ADDR_BIAS = 1 << 20, MAX_OBJ = (1 << 24) - (2 << 20);

struct Shared {
    volatile int tokens;
    volatile int stop;           // budget exhausted
    volatile u64 paths, pathsOk, pathsKilled, pathsBound, pathsUnsup, forks, truncated, steps, checks, checkQueries, checksUnknown, violations, knowns, crashes, unknownBranches, engineErrors, started, finished, pathRecords, concretized;
    volatile u64 queries, sat, unsat, unknown, cacheHits, modelHits; volatile u64 solverUs;
    volatile u64 reach[64]; char reachName[64][48]; volatile int nReach;
    volatile u64 funcHit[1 << 16]; // per decoded function id
    double deadline;
};
extern Shared *g_sh;
struct Config { u64 stepLimit = 40000000; u64 rlimit = 30000000; u64 checkRlimit = 80000000; int tier = 0; std::string outFile; int maxPathRecords = 300; int verbose = 0; };
extern Config g_cfg;

void loadModule(const std::string &bc);
void runCtors();
bool hasFunction(const std::string &fn);
void runHarness(const std::string &fn); // runs to the end in this process (and forked descendants); never returns
extern std::vector<std::string> g_funcNames; // id -> name for funcHit
