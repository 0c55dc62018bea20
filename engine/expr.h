// Hash-consed bit-vector expressions (width 1..64) and the Z3 back end.
#pragma once
#include <bitset>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef int64_t i64;

static const int MAXSYM = 512;
typedef std::bitset<MAXSYM> SymSet;

enum EOp : u8 {
	E_CONST, E_SYM, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
	E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT,
	E_SLE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT, E_ITE
};

struct Expr {
	EOp op;
	u8 w;
	u32 id;
	u64 val; // const value, sym index, extract offset
	const Expr *k[3];
	SymSet syms;
	mutable u32 epoch = 0;
	mutable u64 ev = 0;
	mutable Z3_ast z3 = nullptr;
};

static inline u64 maskw(u64 v, unsigned w) { return w >= 64 ? v : v & ((1ULL << w) - 1); }
static inline i64 sx(u64 v, unsigned w)
{
	if (w >= 64)
		return (i64)v;
	u64 m = 1ULL << (w - 1);
	return (i64)((maskw(v, w) ^ m) - m);
}

struct Value {
	u64 c;
	const Expr *e; // nullptr: concrete
	Value() : c(0), e(nullptr) {}
	Value(u64 v) : c(v), e(nullptr) {}
	Value(const Expr *x) : c(0), e(x) {}
	bool conc() const { return !e; }
};

struct ExprKey {
	EOp op;
	u8 w;
	u64 val;
	const Expr *k[3];
	bool operator==(const ExprKey &o) const
	{
		return op == o.op && w == o.w && val == o.val && k[0] == o.k[0] &&
		       k[1] == o.k[1] && k[2] == o.k[2];
	}
};
struct ExprKeyHash {
	size_t operator()(const ExprKey &x) const
	{
		u64 h = x.op * 0x9E3779B97F4A7C15ULL ^ (u64)x.w << 40;
		auto mix = [&](u64 v) { h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); };
		mix(x.val);
		for (auto p : x.k)
			mix((u64)(uintptr_t)p >> 4);
		return h;
	}
};

extern std::vector<u8> g_symw; // width of each symbol
const Expr *mkE(EOp op, unsigned w, const Expr *a, const Expr *b = nullptr,
		const Expr *c = nullptr, u64 val = 0);
const Expr *mkConst(u64 v, unsigned w);
const Expr *mkSym(unsigned idx, unsigned w);
static inline const Expr *toE(const Value &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

// builders: operands of width w; return canonical Value
Value vBin(EOp op, Value a, Value b, unsigned w);
Value vCmp(EOp op, Value a, Value b, unsigned w); // result width 1
Value vNot1(Value a);
Value vZext(Value a, unsigned from, unsigned to);
Value vSext(Value a, unsigned from, unsigned to);
Value vExtract(Value a, unsigned from, unsigned off, unsigned w);
Value vConcat(Value hi, unsigned hw, Value lo, unsigned lw);
Value vIte(Value c, Value a, Value b, unsigned w);
u64 evalE(const Expr *e, const std::vector<u64> &m, u32 epoch);
std::string strE(const Expr *e, int depth = 0);

struct SolverStats {
	u64 queries = 0, z3calls = 0, cachehits = 0, sat = 0, unsat = 0, unknown = 0;
	double secs = 0;
};
struct Solver {
	Z3_context ctx;
	Z3_solver slv;
	SolverStats st;
	std::unordered_map<std::string, std::pair<int, std::vector<std::pair<u32, u64>>>> cache;
	Solver(unsigned timeout_ms);
	// constraints must be 1-bit exprs. Returns 1 sat, 0 unsat, -1 unknown. On sat, model
	// receives values for symbols in the slice (others untouched).
	int check(const std::vector<const Expr *> &pc, const Expr *extra, std::vector<u64> *model);
	Z3_ast tr(const Expr *e);
};
