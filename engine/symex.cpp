// A path-forking symbolic executor for LLVM bitcode with Z3 as decision procedure.
#include "expr.h"
#include <algorithm>
#include <csignal>
#include <fstream>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <functional>
#include <sys/resource.h>
#include <unistd.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>

using namespace llvm;
typedef ::Value Val; // our Value
#define LV llvm::Value

// ------------------------------------------------------------------ options
static std::string opt_out;
static u64 opt_max_instr = 20000000;
static unsigned opt_max_depth = 1500;
static double opt_max_time = 600;
static double opt_after_error = 1e9;
static volatile bool g_stop = false;
static double g_first_err = -1;
static bool g_hung = false;
static u64 opt_max_paths = ~0ULL;
static unsigned opt_shard = 0, opt_nshards = 1;
static unsigned opt_samples = 20;
static unsigned opt_seed = 1;
static unsigned opt_max_err = 3;      // counterexamples kept per error site
static unsigned opt_max_err_sites = 12; // stop after that many distinct error sites
static unsigned opt_solver_timeout = 20000;
static u64 opt_max_mem = 3500; // MB

// ------------------------------------------------------------------ memory
static const u64 HEAP_BASE = 0x100000000000ULL;
static const u64 STK_BASE = 0x300000000000ULL;
static const u64 FN_BASE = 0x500000000000ULL;
static const unsigned WSHIFT = 20;
static const u64 WOFF = 0x1000;

enum { K_GLOBAL, K_HEAP, K_STACK, K_FREED, K_CONST, K_CONT };

struct Obj {
	int rc = 0;
	u8 kind = K_HEAP;
	u64 size = 0;
	u8 *data = nullptr;
	const Expr **sym = nullptr;
	const char *site = nullptr;
	~Obj()
	{
		delete[] data;
		delete[] sym;
	}
};
struct OP {
	Obj *o = nullptr;
	OP() {}
	OP(Obj *x) : o(x) { if (o) o->rc++; }
	OP(const OP &x) : o(x.o) { if (o) o->rc++; }
	OP(OP &&x) noexcept : o(x.o) { x.o = nullptr; }
	~OP() { if (o && !--o->rc) delete o; }
	OP &operator=(const OP &x)
	{
		if (x.o) x.o->rc++;
		if (o && !--o->rc) delete o;
		o = x.o;
		return *this;
	}
	OP &operator=(OP &&x) noexcept
	{
		std::swap(o, x.o);
		return *this;
	}
};
static Obj *newObj(u8 kind, u64 size, u8 fill)
{
	Obj *o = new Obj;
	o->kind = kind;
	o->size = size;
	o->data = new u8[size ? size : 1];
	memset(o->data, fill, size);
	return o;
}
static Obj *cloneObj(const Obj *s)
{
	Obj *o = new Obj;
	o->kind = s->kind;
	o->size = s->size;
	o->site = s->site;
	o->data = new u8[s->size ? s->size : 1];
	memcpy(o->data, s->data, s->size);
	if (s->sym) {
		o->sym = new const Expr *[s->size];
		memcpy(o->sym, s->sym, s->size * sizeof(Expr *));
	}
	return o;
}
static const unsigned CH = 64;
struct Chunk {
	OP o[CH];
};
struct ObjTab {
	std::vector<std::shared_ptr<Chunk>> ch;
	size_t n = 0;
	Obj *get(size_t i) const { return i < n ? ch[i / CH]->o[i % CH].o : nullptr; }
	OP &wr(size_t i)
	{
		auto &c = ch[i / CH];
		if (c.use_count() > 1)
			c = std::make_shared<Chunk>(*c);
		return c->o[i % CH];
	}
	size_t push(Obj *o)
	{
		if (n % CH == 0)
			ch.push_back(std::make_shared<Chunk>());
		n++;
		wr(n - 1) = OP(o);
		return n - 1;
	}
	void pop()
	{
		wr(n - 1) = OP();
		n--;
		if (n % CH == 0)
			ch.pop_back();
	}
	Obj *wobj(size_t i)
	{
		OP &p = wr(i);
		if (p.o->rc > 1)
			p = OP(cloneObj(p.o));
		return p.o;
	}
};

// ------------------------------------------------------------------ program
enum IK : u8 {
	I_BIN, I_CMP, I_NE, I_ZEXT, I_SEXT, I_TRUNC, I_COPY, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_CALL,
	I_RET, I_BR, I_CBR, I_SWITCH, I_SELECT, I_UNREACH, I_FREEZE, I_OVF, I_UNSUP
};
struct Fn;
struct Edge {
	int bb;
	std::vector<std::pair<int, int>> copies; // dst reg, src operand
};
struct GepTerm {
	int op;
	unsigned w;
	u64 scale;
};
struct Op {
	IK k;
	EOp eop = E_CONST;
	u8 w = 0, w2 = 0;
	int dst = -1;
	int a = 0, b = 0, c = 0;
	u64 imm = 0;
	Fn *callee = nullptr;
	std::vector<int> args;
	std::vector<u8> argw;
	std::vector<GepTerm> gep;
	std::vector<Edge> edges;
	std::vector<u64> cases;
	const Instruction *ins = nullptr;
};
struct BB {
	std::vector<Op> ops;
	bool covered = false;
};
enum Builtin : int;
struct State;
typedef int (*BuiltinFn)(State &, const Op &, std::vector<Val> &args, Val &ret);
struct Fn {
	Function *f = nullptr;
	std::string name;
	int nregs = 0, nargs = 0;
	bool built = false;
	bool isrepo = false;
	std::vector<BB> bbs;
	BuiltinFn bi = nullptr;
	u64 calls = 0;
};

static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::vector<Fn *> fns;
static std::unordered_map<const Function *, Fn *> fnmap;
static std::unordered_map<const GlobalVariable *, u64> gaddr;
static std::vector<Val> consts; // operand index -1-i
static std::unordered_map<u64, int> constmap;

struct Frame {
	Fn *fn;
	int bb, ip;
	size_t regbase;
	size_t stkbase; // stack objs at entry
	const Op *callop; // call in the caller
	Obj *va = nullptr;
	std::vector<Val> vargs;
};
struct SymInfo {
	std::string name;
	u32 id;
	u8 w;
};
struct Obs {
	std::string label;
	Val v;
	u8 w;
};
struct State {
	std::vector<Frame> fr;
	std::vector<Val> regs;
	ObjTab heap, stk;
	std::vector<const Expr *> pc;
	std::unordered_map<const Expr *, u64> known; // exprs equal to a constant on this path
	u64 kver = 0; // identifies the content of known
	SymSet ksyms; // symbols of the exprs in known
	std::vector<u64> model;
	std::vector<SymInfo> syms;
	std::vector<Obs> obs;
	u64 ninstr = 0;
	u64 limit = 0;
	size_t depth = 0; // forks
	u64 quiet = 0;
	u64 chash = 1469598103934665603ull; // hash of the choices made
	bool parted = false;
};
typedef std::unique_ptr<State> SP;
static std::vector<SP> work;
static Solver *S;
static u32 g_epoch = 1;
static u64 st_paths = 0, st_forks = 0, st_instr = 0, st_asserts = 0, st_assert_q = 0, st_infeasible = 0,
	   st_maxinstr = 0;
static std::map<std::string, u64> covers;
static bool st_incomplete = false;
static std::string st_incomplete_why;
static std::mt19937 rng;
static std::chrono::steady_clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

[[noreturn]] static void die(const std::string &m)
{
	fprintf(stderr, "ENGINE-ERROR %s\n", m.c_str());
	exit(3);
}

struct ErrSite {
	std::string kind, msg, where;
	unsigned n = 0;
	std::vector<std::string> files;
};
static std::map<std::string, ErrSite> g_errs;
static unsigned nfile = 0;

static std::string jesc(const std::string &s)
{
	std::string r;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') {
			r += '\\';
			r += c;
		} else if (c < 32 || c > 126) {
			char b[8];
			snprintf(b, sizeof b, "\\u%04x", c);
			r += b;
		} else
			r += c;
	}
	return r;
}
static std::string locOf(const Instruction *i)
{
	if (!i)
		return "?";
	std::string f = i->getFunction() ? i->getFunction()->getName().str() : "?";
	if (auto &d = i->getDebugLoc()) {
		std::string fn = d->getScope()->getFilename().str();
		size_t p = fn.rfind('/');
		if (p != std::string::npos)
			fn = fn.substr(p + 1);
		return fn + ":" + std::to_string(d.getLine()) + ":" + f;
	}
	return f;
}
static const Instruction *curIns(State &s)
{
	if (s.fr.empty())
		return nullptr;
	Frame &f = s.fr.back();
	if (f.ip > 0 && f.bb < (int)f.fn->bbs.size())
		return f.fn->bbs[f.bb].ops[f.ip - 1].ins;
	return nullptr;
}
static std::string backtrace(State &s)
{
	std::string r;
	int n = 0;
	for (size_t i = s.fr.size(); i-- > 0 && n < 12; n++) {
		Frame &f = s.fr[i];
		const Instruction *in = f.ip > 0 ? f.fn->bbs[f.bb].ops[f.ip - 1].ins : nullptr;
		r += (n ? " < " : "") + locOf(in);
	}
	return r;
}
static std::string writeCase(State &s, const std::vector<u64> &m, const std::string &pfx,
			     const std::string &hdr, bool withobs)
{
	std::string fn = opt_out + "." + pfx + std::to_string(nfile++) + ".case";
	std::ofstream o(fn);
	o << "# " << hdr << "\n";
	o << "shard " << opt_shard << "\n";
	for (auto &x : s.syms)
		o << "sym " << x.name << " " << (int)x.w << " " << (x.id < m.size() ? maskw(m[x.id], x.w) : 0)
		  << "\n";
	if (withobs) {
		u32 ep = ++g_epoch;
		for (auto &x : s.obs)
			o << "obs " << x.label << " " << (x.v.e ? evalE(x.v.e, m, ep) : x.v.c) << "\n";
		o << "end\n";
	}
	return fn;
}
static void report(State &s, const std::vector<u64> &m, const std::string &kind, const std::string &msg)
{
	// site: innermost frame for memory errors; message for asserts
	std::string where = locOf(curIns(s));
	std::string key = kind + "|" + msg + "|" + where;
	ErrSite &e = g_errs[key];
	e.n++;
	if (e.n == 1) {
		e.kind = kind;
		e.msg = msg;
		e.where = backtrace(s);
	}
	if (e.files.size() < opt_max_err)
		e.files.push_back(writeCase(s, m, "err", kind + ": " + msg + " @ " + backtrace(s), false));
}

// --------------------------------------------------------- constraints
static u64 evalM(State &s, const Expr *e) { return evalE(e, s.model, ++g_epoch); }

static u64 g_kver = 0;
static inline void setKnown(State &s, const Expr *e, u64 v)
{
	if (e->op == E_CONST)
		return;
	s.known[e] = v;
	s.kver = ++g_kver;
	s.ksyms |= e->syms;
}
static void addC(State &s, const Expr *c)
{
	if (c->op == E_CONST)
		return;
	if (c->op == E_AND && c->w == 1) {
		addC(s, c->k[0]);
		addC(s, c->k[1]);
		return;
	}
	s.pc.push_back(c);
	setKnown(s, c, 1);
	Val n = vNot1(Val(c));
	if (n.e)
		setKnown(s, n.e, 0);
	if (c->op == E_EQ && c->k[1]->op == E_CONST)
		setKnown(s, c->k[0], c->k[1]->val);
}
// can c hold on s? fills model
static bool feasible(State &s, const Expr *c, std::vector<u64> *m)
{
	*m = s.model;
	int r = S->check(s.pc, c, m);
	if (r < 0) {
		st_incomplete = true;
		st_incomplete_why = "solver returned unknown";
		return false;
	}
	return r == 1;
}
// rewrite v with the exprs whose value is known on this path
struct NormKey {
	u64 ver;
	const Expr *e;
	bool operator==(const NormKey &o) const { return ver == o.ver && e == o.e; }
};
struct NormHash {
	size_t operator()(const NormKey &k) const { return k.ver * 0x9E3779B97F4A7C15ULL ^ (u64)k.e->id * 0xC2B2AE3D27D4EB4FULL; }
};
static std::unordered_map<NormKey, Val, NormHash> g_norm;
static Val normE(State &s, const Expr *e)
{
	if (e->op == E_CONST)
		return Val(e->val);
	if ((e->syms & s.ksyms).none())
		return Val(e);
	auto it = s.known.find(e);
	if (it != s.known.end())
		return Val(it->second);
	if (e->op == E_SYM)
		return Val(e);
	NormKey nk{s.kver, e};
	auto m = g_norm.find(nk);
	if (m != g_norm.end())
		return m->second;
	Val r;
	Val a = normE(s, e->k[0]);
	if (e->op == E_ITE) {
		if (a.conc())
			r = normE(s, a.c & 1 ? e->k[1] : e->k[2]);
		else {
			Val b = normE(s, e->k[1]), c = normE(s, e->k[2]);
			r = a.e == e->k[0] && b.e == e->k[1] && c.e == e->k[2] ? Val(e) : vIte(a, b, c, e->w);
		}
	} else if (!e->k[1]) {
		if (a.e == e->k[0])
			r = Val(e);
		else if (e->op == E_ZEXT)
			r = vZext(a, e->k[0]->w, e->w);
		else if (e->op == E_SEXT)
			r = vSext(a, e->k[0]->w, e->w);
		else
			r = vExtract(a, e->k[0]->w, e->val, e->w);
	} else {
		Val b = normE(s, e->k[1]);
		bool same = a.e == e->k[0] && (b.e == e->k[1] || (b.conc() && e->k[1]->op == E_CONST));
		if (same)
			r = Val(e);
		else if (e->op == E_CONCAT)
			r = vConcat(a, e->k[0]->w, b, e->k[1]->w);
		else if (e->op >= E_EQ && e->op <= E_SLE)
			r = vCmp(e->op, a, b, e->k[0]->w);
		else
			r = vBin(e->op, a, b, e->w);
	}
	if (r.e && r.e != e) {
		auto j = s.known.find(r.e);
		if (j != s.known.end())
			r = Val(j->second);
	}
	if (g_norm.size() > 400000)
		g_norm.clear();
	g_norm[nk] = r;
	return r;
}
static inline Val norm(State &s, Val v) { return v.e ? normE(s, v.e) : v; }
static SP fork(State &s)
{
	st_forks++;
	SP n(new State(s));
	n->depth++;
	s.depth++;
	return n;
}
// Decide condition c: returns true/false for the current state; pushes the other side to work.
// setup is run on the forked state.
static bool branch(State &s, Val c, const std::function<void(State &)> &onFalse)
{
	c = norm(s, c);
	if (c.conc())
		return c.c & 1;
	bool cur = evalM(s, c.e) & 1;
	const Expr *pos = c.e;
	Val neg = vNot1(c);
	const Expr *ce = cur ? pos : toE(neg, 1);
	const Expr *oe = cur ? toE(neg, 1) : pos;
	std::vector<u64> m;
	if (feasible(s, oe, &m)) {
		SP o = fork(s);
		o->model = m;
		addC(*o, oe);
		addC(s, ce);
		if (cur) {
			onFalse(*o);
			work.push_back(std::move(o));
			return true;
		} else {
			// s takes false; o takes true. swap so that caller continues true
			std::swap(s, *o);
			onFalse(*o);
			work.push_back(std::move(o));
			return true;
		}
	}
	setKnown(s, pos, cur);
	return cur;
}

// Enumerate: make v concrete, forking for the alternatives (re-executing the current instruction)
static bool hasMul(const Expr *e)
{
	static std::unordered_map<const Expr *, bool> memo;
	auto it = memo.find(e);
	if (it != memo.end())
		return it->second;
	bool r = e->op == E_MUL;
	for (auto k : e->k)
		if (k && !r)
			r = hasMul(k);
	return memo[e] = r;
}
static u64 concretize(State &s, Val v, unsigned w)
{
	v = norm(s, v);
	if (v.conc())
		return v.c;
	if (v.e->op != E_SYM && v.e->syms.count() <= 2 && hasMul(v.e)) {
		// hash-like function of a few bytes: split on the bytes, the rest folds
		bool small = true;
		for (int i = 0; i < MAXSYM; i++)
			if (v.e->syms[i] && g_symw[i] > 8)
				small = false;
		if (small) {
			for (int i = 0; i < MAXSYM; i++)
				if (v.e->syms[i])
					concretize(s, Val(mkSym(i, g_symw[i])), g_symw[i]);
			u64 x = evalM(s, v.e);
			setKnown(s, v.e, x);
			return x;
		}
	}
	u64 x = evalM(s, v.e);
	Val eq = vCmp(E_EQ, v, Val(x), w);
	if (!eq.conc()) {
		const Expr *ne = toE(vNot1(eq), 1);
		std::vector<u64> m;
		if (feasible(s, ne, &m)) {
			SP o = fork(s);
			o->model = m;
			addC(*o, ne);
			o->fr.back().ip--; // re-execute
			work.push_back(std::move(o));
		}
		addC(s, eq.e);
	}
	return x;
}

struct PathEnd {
	bool ok;
};
// terminate the current path because of an error with the current model
[[noreturn]] static void fail(State &s, const std::string &kind, const std::string &msg)
{
	report(s, s.model, kind, msg);
	throw PathEnd{false};
}

// --------------------------------------------------------- memory access
struct Loc {
	bool stack;
	size_t idx;
	u64 off;
	Obj *o;
};
static bool find(State &s, u64 addr, Loc &l)
{
	if (addr >= HEAP_BASE && addr < STK_BASE) {
		u64 r = addr - HEAP_BASE;
		l.stack = false;
		l.idx = r >> WSHIFT;
		l.off = (r & ((1ULL << WSHIFT) - 1)) - WOFF;
		l.o = s.heap.get(l.idx);
		while (l.o && l.o->kind == K_CONT) { // continuation of a big object
			l.idx--;
			l.off += 1ULL << WSHIFT;
			l.o = s.heap.get(l.idx);
		}
		return l.o != nullptr;
	}
	if (addr >= STK_BASE && addr < FN_BASE) {
		u64 r = addr - STK_BASE;
		l.stack = true;
		l.idx = r >> WSHIFT;
		l.off = (r & ((1ULL << WSHIFT) - 1)) - WOFF;
		l.o = s.stk.get(l.idx);
		return l.o != nullptr;
	}
	return false;
}
static u64 allocObj(State &s, u8 kind, u64 size, u8 fill, const char *site = nullptr)
{
	if (size > (64u << 20)) {
		fail(s, "alloc", "allocation larger than 64 MB");
	}
	Obj *o = newObj(kind, size, fill);
	o->site = site;
	size_t i = s.heap.push(o);
	u64 a = HEAP_BASE + ((u64)i << WSHIFT) + WOFF;
	u64 need = size + 2 * WOFF;
	while (need > (1ULL << WSHIFT)) {
		Obj *c = new Obj;
		c->kind = K_CONT;
		c->data = new u8[1];
		s.heap.push(c);
		need -= 1ULL << WSHIFT;
	}
	return a;
}
static u64 allocStk(State &s, u64 size)
{
	if (size + 2 * WOFF > (1ULL << WSHIFT))
		die("stack object too big");
	size_t i = s.stk.push(newObj(K_STACK, size, 0xCD));
	return STK_BASE + ((u64)i << WSHIFT) + WOFF;
}
// check concrete access; fails the path when invalid
static void access(State &s, u64 addr, u64 n, bool write, Loc &l)
{
	if (!find(s, addr, l)) {
		if (addr < 65536)
			fail(s, "null-deref", write ? "write through null pointer" : "read through null pointer");
		if (addr >= 0xCDCDCDCDCDC00000ULL && addr <= 0xCDCDCDCDCDFFFFFFULL)
			fail(s, "bad-pointer", "use of uninitialised pointer");
		if (addr >= STK_BASE && addr < FN_BASE)
			fail(s, "use-after-return", "access to dead stack object");
		fail(s, "bad-pointer", std::string("access to unmapped memory"));
	}
	if (l.o->kind == K_FREED)
		fail(s, "use-after-free", write ? "write to freed memory" : "read of freed memory");
	if (l.off > l.o->size || l.o->size - l.off < n) {
		fail(s, "out-of-bounds", write ? "write past object" : "read past object");
	}
	if (write && l.o->kind == K_CONST)
		fail(s, "write-const", "write to constant object");
}
static Val rdByte(const Obj *o, u64 off)
{
	if (o->sym && o->sym[off])
		return Val(o->sym[off]);
	return Val((u64)o->data[off]);
}
static Val rdObj(const Obj *o, u64 off, unsigned n)
{
	if (!o->sym) {
		u64 v = 0;
		memcpy(&v, o->data + off, n);
		return Val(v);
	}
	Val r = rdByte(o, off);
	for (unsigned i = 1; i < n; i++)
		r = vConcat(rdByte(o, off + i), 8, r, i * 8);
	return r;
}
static void wrByte(Obj *o, u64 off, Val v)
{
	if (v.e) {
		if (!o->sym) {
			o->sym = new const Expr *[o->size];
			memset(o->sym, 0, o->size * sizeof(Expr *));
		}
		o->sym[off] = v.e;
	} else {
		o->data[off] = (u8)v.c;
		if (o->sym)
			o->sym[off] = nullptr;
	}
}
static void wrObj(Obj *o, u64 off, Val v, unsigned n)
{
	if (v.conc()) {
		memcpy(o->data + off, &v.c, n);
		if (o->sym)
			memset(o->sym + off, 0, n * sizeof(Expr *));
		return;
	}
	for (unsigned i = 0; i < n; i++)
		wrByte(o, off + i, vExtract(v, n * 8, i * 8, 8));
}
static Obj *wobj(State &s, Loc &l) { return l.stack ? s.stk.wobj(l.idx) : s.heap.wobj(l.idx); }

static Val load(State &s, Val addr, unsigned w)
{
	unsigned n = (w + 7) / 8;
	addr = norm(s, addr);
	if (addr.e) {
		// symbolic address: try to keep it symbolic inside one small object
		u64 x = evalM(s, addr.e);
		Loc l;
		if (find(s, x, l) && l.o->kind != K_FREED && l.o->size <= 1024 && l.o->size >= n) {
			u64 base = x - l.off;
			Val inb = vBin(E_AND, vCmp(E_ULE, Val(base), addr, 64),
				       vCmp(E_ULE, addr, Val(base + l.o->size - n), 64), 1);
			std::vector<u64> m;
			if (inb.conc() || !feasible(s, toE(vNot1(inb), 1), &m)) {
				// collect feasible offsets lazily: full ite chain
				Val r;
				bool first = true;
				unsigned cnt = 0;
				for (u64 o = 0; o + n <= l.o->size; o++) {
					Val c = vCmp(E_EQ, addr, Val(base + o), 64);
					if (c.conc() && !c.c)
						continue;
					Val v = rdObj(l.o, o, n);
					r = first ? v : vIte(c, v, r, n * 8);
					first = false;
					cnt++;
				}
				if (!first) {
					if (w < n * 8)
						r = vExtract(r, n * 8, 0, w);
					return norm(s, r);
				}
			}
		}
	}
	u64 a = concretize(s, addr, 64);
	Loc l;
	access(s, a, n, false, l);
	Val r = rdObj(l.o, l.off, n);
	if (w < n * 8)
		r = vExtract(r, n * 8, 0, w);
	return norm(s, r);
}
static void store(State &s, Val addr, Val v, unsigned w)
{
	unsigned n = (w + 7) / 8;
	u64 a = concretize(s, addr, 64);
	Loc l;
	access(s, a, n, true, l);
	if (w < n * 8)
		v = vZext(v, w, n * 8);
	wrObj(wobj(s, l), l.off, v, n);
}
static void copyMem(State &s, u64 d, u64 src, u64 n)
{
	if (!n)
		return;
	Loc ls, ld;
	access(s, src, n, false, ls);
	access(s, d, n, true, ld);
	std::vector<u8> tmp(ls.o->data + ls.off, ls.o->data + ls.off + n);
	std::vector<const Expr *> ts;
	if (ls.o->sym)
		ts.assign(ls.o->sym + ls.off, ls.o->sym + ls.off + n);
	Obj *o = wobj(s, ld);
	memcpy(o->data + ld.off, tmp.data(), n);
	if (ts.size()) {
		for (u64 i = 0; i < n; i++) {
			if (ts[i])
				wrByte(o, ld.off + i, Val(ts[i]));
			else if (o->sym)
				o->sym[ld.off + i] = nullptr;
		}
	} else if (o->sym)
		memset(o->sym + ld.off, 0, n * sizeof(Expr *));
}
static std::string rdStr(State &s, u64 a)
{
	std::string r;
	for (;;) {
		Loc l;
		access(s, a, 1, false, l);
		Val v = norm(s, rdByte(l.o, l.off));
		if (v.e)
			die("symbolic byte in a string the engine needs concrete");
		if (!v.c)
			return r;
		r += (char)v.c;
		a++;
	}
}

// --------------------------------------------------------- builtins
static Val newSym(State &s, const std::string &name, unsigned w)
{
	static std::map<std::pair<unsigned, unsigned>, u32> ids;
	unsigned pos = s.syms.size();
	auto k = std::make_pair(pos, w);
	auto it = ids.find(k);
	if (it == ids.end())
		it = ids.emplace(k, (u32)ids.size()).first;
	u32 id = it->second;
	const Expr *e = mkSym(id, w);
	s.syms.push_back({name, id, (u8)w});
	if (s.model.size() <= id)
		s.model.resize(id + 1, 0);
	s.model[id] = 0;
	return Val(e);
}
#define BI(n) static int n(State &s, const Op &op, std::vector<Val> &a, Val &ret)
static std::string aname(State &s, Val v) { return rdStr(s, concretize(s, v, 64)); }
BI(b_sym_u8) { ret = newSym(s, aname(s, a[0]), 8); return 0; }
BI(b_sym_u32) { ret = newSym(s, aname(s, a[0]), 32); return 0; }
BI(b_sym_u64) { ret = newSym(s, aname(s, a[0]), 64); return 0; }
BI(b_sym_bytes)
{
	u64 p = concretize(s, a[0], 64), n = concretize(s, a[1], 64);
	std::string nm = aname(s, a[2]);
	if (!n)
		return 0;
	Loc l;
	access(s, p, n, true, l);
	Obj *o = wobj(s, l);
	for (u64 i = 0; i < n; i++)
		wrByte(o, l.off + i, newSym(s, nm + "[" + std::to_string(i) + "]", 8));
	return 0;
}
// forks n ways
BI(b_sym_choice)
{
	u64 n = concretize(s, a[0], 32);
	std::string nm = aname(s, a[1]);
	if (n == 0)
		die("sym_choice(0)");
	Val v = newSym(s, nm, 32);
	if (n == 1) {
		addC(s, toE(vCmp(E_EQ, v, Val((u64)0), 32), 1));
		ret = Val((u64)0);
		return 0;
	}
	u32 id = s.syms.back().id;
	for (u64 i = n - 1; i >= 1; i--) {
		SP o = fork(s);
		o->model[id] = i;
		o->chash = (s.chash ^ (i + 1)) * 1099511628211ull;
		addC(*o, toE(vCmp(E_EQ, v, Val(i), 32), 1));
		Frame &f = o->fr.back();
		if (op.dst >= 0)
			o->regs[f.regbase + op.dst] = Val(i);
		work.push_back(std::move(o));
	}
	addC(s, toE(vCmp(E_EQ, v, Val((u64)0), 32), 1));
	s.chash = (s.chash ^ 1) * 1099511628211ull;
	ret = Val((u64)0);
	return 0;
}
// this process only explores the choices made so far that fall in its share
BI(b_sym_part)
{
	(void)op; (void)ret; (void)a;
	if (s.parted)
		return 0;
	s.parted = true;
	u64 h = s.chash;
	h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
	if (opt_nshards > 1 && (h >> 8) % opt_nshards != opt_shard) {
		st_paths--; // explored by another process
		throw PathEnd{true};
	}
	return 0;
}
BI(b_sym_shard) { (void)s; (void)a; (void)op; ret = Val((u64)opt_shard); return 0; }
BI(b_sym_is_symbolic) { (void)s; (void)op; ret = Val((u64)!a[0].conc()); return 0; }
BI(b_sym_concrete)
{
	u64 x = concretize(s, a[0], 64);
	// part of what sym_part distributes (whether or not the value was determined already)
	s.chash = (s.chash ^ (x + 3)) * 1099511628211ull;
	ret = Val(x);
	return 0;
}
BI(b_sym_assume)
{
	Val c = vNot1(vCmp(E_EQ, norm(s, a[0]), Val((u64)0), 32));
	c = norm(s, c);
	if (c.conc()) {
		if (!c.c) {
			st_infeasible++;
			throw PathEnd{true};
		}
		return 0;
	}
	if (evalM(s, c.e) & 1) {
		addC(s, c.e);
		return 0;
	}
	std::vector<u64> m;
	if (!feasible(s, c.e, &m)) {
		st_infeasible++;
		throw PathEnd{true};
	}
	s.model = m;
	addC(s, c.e);
	return 0;
}
BI(b_sym_assert)
{
	st_asserts++;
	Val c = vNot1(vCmp(E_EQ, norm(s, a[0]), Val((u64)0), 32));
	c = norm(s, c);
	if (c.conc()) {
		if (c.c)
			return 0;
		fail(s, "assert", aname(s, a[1]));
	}
	std::vector<u64> m;
	const Expr *n = toE(vNot1(c), 1);
	st_assert_q++;
	bool bad = false;
	if (!(evalM(s, c.e) & 1)) {
		bad = true;
		m = s.model;
	} else
		bad = feasible(s, n, &m);
	if (bad) {
		report(s, m, "assert", aname(s, a[1]));
		// continue on the good side
		if (!feasible(s, c.e, &m))
			throw PathEnd{false};
		s.model = m;
	}
	addC(s, c.e);
	return 0;
}
BI(b_sym_observe)
{
	s.obs.push_back({aname(s, a[0]), a[1], 64});
	(void)ret; (void)op;
	return 0;
}
BI(b_sym_cover)
{
	covers[aname(s, a[0])]++;
	return 0;
}
BI(b_sym_limit)
{
	// relative instruction budget: exceeding it is reported as "hang"
	u64 n = concretize(s, a[0], 64);
	s.limit = n ? s.ninstr + n : 0;
	return 0;
}
BI(b_sym_stop) { (void)s; (void)op; (void)a; throw PathEnd{true}; }
BI(b_abort) { fail(s, "abort", "abort() called"); }
BI(b_assert_fail) { fail(s, "abort", "assert() failed: " + aname(s, a[0])); }
static const char *siteOf(State &s) { (void)s; return nullptr; }
#define MAXALLOC (1ull << 28)
BI(b_malloc)
{
	u64 n = concretize(s, a[0], 64);
	if (n > MAXALLOC) {
		ret = Val((u64)0);
		return 0;
	}
	ret = Val(allocObj(s, K_HEAP, n, 0xCD, siteOf(s)));
	return 0;
}
BI(b_calloc)
{
	u64 n = concretize(s, a[0], 64), m = concretize(s, a[1], 64);
	if (n && m && (n > MAXALLOC || m > MAXALLOC || n * m > MAXALLOC)) {
		ret = Val((u64)0);
		return 0;
	}
	ret = Val(allocObj(s, K_HEAP, n * m, 0, siteOf(s)));
	return 0;
}
static void doFree(State &s, u64 p)
{
	if (!p)
		return;
	Loc l;
	if (!find(s, p, l))
		fail(s, "bad-free", "free of invalid pointer");
	if (l.o->kind == K_FREED)
		fail(s, "double-free", "memory freed twice");
	if (l.o->kind != K_HEAP || l.off != 0 || l.stack)
		fail(s, "bad-free", "free of non-heap pointer");
	static Obj *tomb = nullptr;
	if (!tomb) {
		tomb = newObj(K_FREED, 0, 0);
		tomb->rc = 1;
	}
	s.heap.wr(l.idx) = OP(tomb);
}
BI(b_free) { doFree(s, concretize(s, a[0], 64)); return 0; }
BI(b_realloc)
{
	u64 p = concretize(s, a[0], 64), n = concretize(s, a[1], 64);
	if (n > MAXALLOC) {
		ret = Val((u64)0);
		return 0;
	}
	if (!p) {
		ret = Val(allocObj(s, K_HEAP, n, 0xCD));
		return 0;
	}
	Loc l;
	if (!find(s, p, l))
		fail(s, "bad-free", "realloc of invalid pointer");
	if (l.o->kind == K_FREED)
		fail(s, "use-after-free", "realloc of freed memory");
	if (l.o->kind != K_HEAP || l.off != 0 || l.stack)
		fail(s, "bad-free", "realloc of non-heap pointer");
	u64 old = l.o->size;
	u64 q = allocObj(s, K_HEAP, n, 0xCD);
	copyMem(s, q, p, old < n ? old : n);
	doFree(s, p);
	ret = Val(q);
	return 0;
}
BI(b_memcpy)
{
	u64 n = concretize(s, a[2], 64);
	if (n) {
		u64 d = concretize(s, a[0], 64), p = concretize(s, a[1], 64);
		copyMem(s, d, p, n);
	}
	ret = a[0];
	return 0;
}
BI(b_memset)
{
	u64 n = concretize(s, a[2], 64);
	ret = a[0];
	if (!n)
		return 0;
	u64 d = concretize(s, a[0], 64);
	Loc l;
	access(s, d, n, true, l);
	Obj *o = wobj(s, l);
	Val b = a[1];
	if (b.e)
		b = vExtract(b, b.e->w, 0, 8);
	for (u64 i = 0; i < n; i++)
		wrByte(o, l.off + i, b);
	return 0;
}
// difference of two bytes as int
static Val bdiff(Val x, Val y) { return vBin(E_SUB, vZext(x, 8, 32), vZext(y, 8, 32), 32); }
static Val lower8(Val x)
{
	Val up = vBin(E_AND, vCmp(E_ULE, Val((u64)'A'), x, 8), vCmp(E_ULE, x, Val((u64)'Z'), 8), 1);
	return vIte(up, vBin(E_ADD, x, Val((u64)32), 8), x, 8);
}
// strcmp family as a branch-free expression
static Val cmpSeq(State &s, u64 p, u64 q, u64 max, bool str, bool nocase)
{
	struct T { Val ne, diff, z; };
	std::vector<T> t;
	Val end = Val((u64)0);
	for (u64 i = 0; i < max; i++) {
		Loc l1, l2;
		bool o1 = find(s, p + i, l1) && l1.o->kind != K_FREED && l1.off < l1.o->size;
		bool o2 = find(s, q + i, l2) && l2.o->kind != K_FREED && l2.off < l2.o->size;
		if (!o1 || !o2) {
			// reachable? all previous equal and non-zero
			Val r = Val((u64)1);
			for (auto &x : t) {
				r = vBin(E_AND, r, vNot1(x.ne), 1);
				if (str)
					r = vBin(E_AND, r, vNot1(x.z), 1);
			}
			r = norm(s, r);
			std::vector<u64> m = s.model;
			bool bad = r.conc() ? r.c : feasible(s, r.e, &m);
			if (bad) {
				s.model = m;
				Loc l;
				access(s, o1 ? q + i : p + i, 1, false, l);
			}
			break;
		}
		Val x = norm(s, rdByte(l1.o, l1.off)), y = norm(s, rdByte(l2.o, l2.off));
		if (nocase) {
			x = lower8(x);
			y = lower8(y);
		}
		Val ne = norm(s, vNot1(vCmp(E_EQ, x, y, 8)));
		Val z = norm(s, vCmp(E_EQ, x, Val((u64)0), 8));
		t.push_back({ne, bdiff(x, y), z});
		if (ne.conc() && ne.c)
			break;
		if (str && z.conc() && z.c)
			break;
		if (str && y.conc() && !y.c)
			break;
	}
	Val r = end;
	for (size_t i = t.size(); i-- > 0;) {
		Val rest = str ? vIte(t[i].z, Val((u64)0), r, 32) : r;
		r = vIte(t[i].ne, t[i].diff, rest, 32);
	}
	return r;
}
BI(b_strcmp) { ret = cmpSeq(s, concretize(s, a[0], 64), concretize(s, a[1], 64), 1 << 20, true, false); return 0; }
BI(b_strcasecmp) { ret = cmpSeq(s, concretize(s, a[0], 64), concretize(s, a[1], 64), 1 << 20, true, true); return 0; }
BI(b_strncmp) { ret = cmpSeq(s, concretize(s, a[0], 64), concretize(s, a[1], 64), concretize(s, a[2], 64), true, false); return 0; }
BI(b_memcmp) { ret = cmpSeq(s, concretize(s, a[0], 64), concretize(s, a[1], 64), concretize(s, a[2], 64), false, false); return 0; }
static Val strlenN(State &s, u64 p, u64 max)
{
	for (u64 i = 0;; i++) {
		if (i == max)
			return Val(i);
		Loc l;
		access(s, p + i, 1, false, l);
		// concrete bytes of the same object need no further look
		for (u64 o = l.off; o + 1 < l.o->size && i < max && l.o->data && !(l.o->sym && l.o->sym[o]) && l.o->data[o]; o++)
			i++, l.off = o + 1;
		if (i == max)
			return Val(i);
		Val v = norm(s, rdByte(l.o, l.off));
		Val z = norm(s, vCmp(E_EQ, v, Val((u64)0), 8));
		if (z.conc()) {
			if (z.c)
				return Val(i);
			continue;
		}
		bool fork_zero = false;
		std::vector<u64> m;
		if (evalM(s, z.e) & 1) {
			// model says zero here; can it be non-zero?
			if (feasible(s, toE(vNot1(z), 1), &m)) {
				SP o = fork(s);
				o->model = m;
				addC(*o, toE(vNot1(z), 1));
				o->fr.back().ip--;
				work.push_back(std::move(o));
				addC(s, z.e);
			}
			return Val(i);
		}
		fork_zero = feasible(s, z.e, &m);
		if (fork_zero) {
			SP o = fork(s);
			o->model = m;
			addC(*o, z.e);
			o->fr.back().ip--;
			work.push_back(std::move(o));
			addC(s, toE(vNot1(z), 1));
		} else {
			setKnown(s, z.e, 0);
		}
	}
}
BI(b_strlen) { ret = strlenN(s, concretize(s, a[0], 64), ~0ULL); return 0; }
BI(b_errno)
{
	static u64 addr = 0;
	if (!addr)
		for (auto &g : gaddr)
			if (g.first->getName() == "__sym_errno")
				addr = g.second;
	if (!addr)
		die("no __sym_errno");
	ret = Val(addr);
	return 0;
}
BI(b_nop) { (void)s; (void)op; (void)a; (void)ret; return 0; }
// object size, for model code that needs it
BI(b_sym_valid)
{
	// sym_valid(p, n): 1 when [p, p+n) lies in a live object
	u64 p = concretize(s, a[0], 64), n = concretize(s, a[1], 64);
	Loc l;
	ret = Val((u64)(find(s, p, l) && l.o->kind != K_FREED && l.off <= l.o->size && l.o->size - l.off >= n));
	return 0;
}
BI(b_va_start)
{
	Frame &f = s.fr.back();
	u64 n = f.vargs.size();
	std::vector<Val> va = f.vargs;
	u64 area = allocStk(s, n * 8 + 8);
	for (u64 i = 0; i < n; i++)
		store(s, Val(area + i * 8), va[i], 64);
	u64 l = concretize(s, a[0], 64);
	store(s, Val(l), Val((u64)48), 32);
	store(s, Val(l + 4), Val((u64)304), 32);
	store(s, Val(l + 8), Val(area), 64);
	store(s, Val(l + 16), Val((u64)0), 64);
	return 0;
}
BI(b_va_copy)
{
	copyMem(s, concretize(s, a[0], 64), concretize(s, a[1], 64), 24);
	return 0;
}
static Val minmax(State &s, EOp cmp, Val x, Val y, unsigned w)
{
	(void)s;
	return vIte(vCmp(cmp, x, y, w), x, y, w);
}
BI(b_umin) { ret = minmax(s, E_ULE, a[0], a[1], op.argw[0]); return 0; }
BI(b_smin) { ret = minmax(s, E_SLE, a[0], a[1], op.argw[0]); return 0; }
BI(b_umax) { ret = vIte(vCmp(E_ULE, a[0], a[1], op.argw[0]), a[1], a[0], op.argw[0]); return 0; }
BI(b_smax) { ret = vIte(vCmp(E_SLE, a[0], a[1], op.argw[0]), a[1], a[0], op.argw[0]); return 0; }
BI(b_first) { ret = a[0]; return 0; }
BI(b_fshl)
{
	unsigned w = op.argw[0];
	u64 sh = concretize(s, a[2], w) % w;
	ret = sh == 0 ? a[0]
		      : vBin(E_OR, vBin(E_SHL, a[0], Val(sh), w), vBin(E_LSHR, a[1], Val((u64)(w - sh)), w), w);
	return 0;
}

BI(b_fshr)
{
	unsigned w = op.argw[0];
	u64 sh = concretize(s, a[2], w) % w;
	ret = sh == 0 ? a[1]
		      : vBin(E_OR, vBin(E_LSHR, a[1], Val(sh), w), vBin(E_SHL, a[0], Val((u64)(w - sh)), w), w);
	return 0;
}
BI(b_abs)
{
	unsigned w = op.argw[0];
	ret = vIte(vCmp(E_SLT, a[0], Val((u64)0), w), vBin(E_SUB, Val((u64)0), a[0], w), a[0], w);
	return 0;
}
BI(b_usubsat)
{
	unsigned w = op.argw[0];
	ret = vIte(vCmp(E_ULT, a[0], a[1], w), Val((u64)0), vBin(E_SUB, a[0], a[1], w), w);
	return 0;
}
BI(b_uaddsat)
{
	unsigned w = op.argw[0];
	Val r = vBin(E_ADD, a[0], a[1], w);
	ret = vIte(vCmp(E_ULT, r, a[0], w), Val(maskw(~0ULL, w)), r, w);
	return 0;
}
BI(b_ctpop)
{
	unsigned w = op.argw[0];
	ret = Val((u64)0);
	for (unsigned i = 0; i < w; i++)
		ret = vBin(E_ADD, ret, vZext(vExtract(a[0], w, i, 1), 1, w), w);
	return 0;
}
BI(b_cttz)
{
	unsigned w = op.argw[0];
	ret = Val((u64)w);
	for (unsigned i = w; i-- > 0;)
		ret = vIte(vExtract(a[0], w, i, 1), Val((u64)i), ret, w);
	return 0;
}
BI(b_ctlz)
{
	unsigned w = op.argw[0];
	ret = Val((u64)w);
	for (unsigned i = 0; i < w; i++)
		ret = vIte(vExtract(a[0], w, i, 1), Val((u64)(w - 1 - i)), ret, w);
	return 0;
}
BI(b_bswap)
{
	unsigned w = op.argw[0];
	Val r = vExtract(a[0], w, 0, 8);
	for (unsigned i = 8; i < w; i += 8)
		r = vConcat(r, i, vExtract(a[0], w, i, 8), 8);
	ret = r;
	return 0;
}
BI(b_ones) { ret = Val(maskw(~0ULL, op.w)); return 0; }

static BuiltinFn builtinFor(const std::string &n)
{
	static const std::map<std::string, BuiltinFn> t = {
		{"sym_u8", b_sym_u8}, {"sym_u32", b_sym_u32}, {"sym_u64", b_sym_u64},
		{"sym_bytes", b_sym_bytes}, {"sym_choice", b_sym_choice}, {"sym_shard", b_sym_shard}, {"sym_part", b_sym_part},
		{"sym_assume", b_sym_assume}, {"__sym_assert", b_sym_assert},
		{"sym_observe", b_sym_observe}, {"sym_cover", b_sym_cover}, {"sym_stop", b_sym_stop},
		{"sym_limit", b_sym_limit}, {"sym_valid", b_sym_valid},
		{"sym_is_symbolic", b_sym_is_symbolic}, {"sym_concrete", b_sym_concrete},
		{"abort", b_abort}, {"__assert_fail", b_assert_fail}, {"exit", b_abort},
		{"malloc", b_malloc}, {"calloc", b_calloc}, {"free", b_free}, {"realloc", b_realloc},
		{"memcpy", b_memcpy}, {"memmove", b_memcpy}, {"memset", b_memset}, {"memcmp", b_memcmp},
		{"bcmp", b_memcmp}, {"strcmp", b_strcmp}, {"strncmp", b_strncmp}, {"strcasecmp", b_strcasecmp},
		{"strlen", b_strlen}, {"__errno_location", b_errno},
	};
	auto it = t.find(n);
	if (it != t.end())
		return it->second;
	auto pre = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
	if (pre("llvm.lifetime") || pre("llvm.dbg") || pre("llvm.va_end") || pre("llvm.assume") ||
	    pre("llvm.experimental.noalias") || pre("llvm.prefetch") || pre("llvm.stack"))
		return b_nop;
	if (pre("llvm.memcpy") || pre("llvm.memmove"))
		return b_memcpy;
	if (pre("llvm.memset"))
		return b_memset;
	if (pre("llvm.va_start"))
		return b_va_start;
	if (pre("llvm.va_copy"))
		return b_va_copy;
	if (pre("llvm.umin")) return b_umin;
	if (pre("llvm.umax")) return b_umax;
	if (pre("llvm.smin")) return b_smin;
	if (pre("llvm.smax")) return b_smax;
	if (pre("llvm.fshl")) return b_fshl;
	if (pre("llvm.fshr")) return b_fshr;
	if (pre("llvm.abs")) return b_abs;
	if (pre("llvm.usub.sat")) return b_usubsat;
	if (pre("llvm.uadd.sat")) return b_uaddsat;
	if (pre("llvm.ctpop")) return b_ctpop;
	if (pre("llvm.cttz")) return b_cttz;
	if (pre("llvm.ctlz")) return b_ctlz;
	if (pre("llvm.bswap")) return b_bswap;
	if (pre("llvm.is.constant")) return b_nop;
	if (pre("llvm.objectsize")) return b_ones;
	if (pre("llvm.annotation") || pre("llvm.launder") || pre("llvm.strip.invariant") || pre("llvm.ptr.annotation")) return b_first;
	if (pre("llvm.invariant") || pre("llvm.var.annotation") || pre("llvm.donothing")) return b_nop;
	if (pre("llvm.expect")) return b_first;
	if (pre("llvm.trap")) return b_abort;
	return nullptr;
}

// --------------------------------------------------------- translation
static int constOp(u64 v)
{
	auto it = constmap.find(v);
	if (it != constmap.end())
		return it->second;
	consts.push_back(Val(v));
	int i = -(int)consts.size();
	constmap[v] = i;
	return i;
}
static u64 constVal(const Constant *c);
static u64 fnAddr(const Function *f)
{
	Fn *x = fnmap[f];
	for (size_t i = 0; i < fns.size(); i++)
		if (fns[i] == x)
			return FN_BASE + i * 16;
	die("unknown function " + f->getName().str());
}
static u64 constVal(const Constant *c)
{
	if (auto ci = dyn_cast<ConstantInt>(c)) {
		if (ci->getBitWidth() > 64)
			return 0; // only used by instructions that are refused when executed
		return ci->getZExtValue();
	}
	if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c))
		return 0;
	if (auto f = dyn_cast<Function>(c))
		return fnAddr(f);
	if (auto g = dyn_cast<GlobalVariable>(c)) {
		auto it = gaddr.find(g);
		if (it == gaddr.end())
			die("global without address " + g->getName().str());
		return it->second;
	}
	if (auto a = dyn_cast<GlobalAlias>(c))
		return constVal(a->getAliasee());
	if (auto ce = dyn_cast<ConstantExpr>(c)) {
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: {
			auto gep = cast<GEPOperator>(ce);
			APInt off(64, 0);
			if (!gep->accumulateConstantOffset(*DL, off))
				die("constant gep");
			return constVal(cast<Constant>(gep->getPointerOperand())) + off.getSExtValue();
		}
		case Instruction::PtrToInt:
		case Instruction::IntToPtr:
		case Instruction::BitCast:
			return constVal(ce->getOperand(0));
		case Instruction::Add:
			return constVal(ce->getOperand(0)) + constVal(ce->getOperand(1));
		case Instruction::Sub:
			return maskw(constVal(ce->getOperand(0)) - constVal(ce->getOperand(1)), 64);
		case Instruction::Trunc:
			return maskw(constVal(ce->getOperand(0)), ce->getType()->getIntegerBitWidth());
		default: break;
		}
	}
	std::string s;
	raw_string_ostream os(s);
	c->print(os);
	die("unsupported constant " + s);
}
static unsigned width(Type *t)
{
	if (t->isIntegerTy())
		return t->getIntegerBitWidth();
	if (t->isPointerTy())
		return 64;
	return 0;
}
// scalars of a first-class aggregate, with their byte offsets
static void flat(Type *t, u64 off, std::vector<std::pair<Type *, u64>> &out)
{
	if (auto st = dyn_cast<StructType>(t)) {
		for (unsigned i = 0; i < st->getNumElements(); i++)
			flat(st->getElementType(i), off + DL->getStructLayout(st)->getElementOffset(i), out);
	} else if (auto at = dyn_cast<ArrayType>(t)) {
		for (u64 i = 0; i < at->getNumElements(); i++)
			flat(at->getElementType(), off + i * DL->getTypeAllocSize(at->getElementType()), out);
	} else
		out.push_back({t, off});
}
static bool isAgg(Type *t) { return t->isStructTy() || t->isArrayTy(); }
static unsigned leaves(Type *t)
{
	std::vector<std::pair<Type *, u64>> l;
	flat(t, 0, l);
	return l.size();
}
// first scalar addressed by the indices of an insertvalue/extractvalue
static unsigned leafIndex(Type *t, ArrayRef<unsigned> idx, Type **sub)
{
	unsigned n = 0;
	for (unsigned i : idx) {
		if (auto st = dyn_cast<StructType>(t)) {
			for (unsigned k = 0; k < i; k++)
				n += leaves(st->getElementType(k));
			t = st->getElementType(i);
		} else {
			n += i * leaves(t->getArrayElementType());
			t = t->getArrayElementType();
		}
	}
	*sub = t;
	return n;
}
static const Constant *constLeaf(const Constant *c, unsigned k)
{
	if (!isAgg(c->getType()))
		return c;
	for (unsigned i = 0;; i++) {
		const Constant *e = c->getAggregateElement(i);
		if (!e)
			return nullptr;
		unsigned n = leaves(e->getType());
		if (k < n)
			return constLeaf(e, k);
		k -= n;
	}
}
static void buildFn(Fn *F)
{
	F->built = true;
	Function *f = F->f;
	std::unordered_map<const LV *, int> reg;
	int nr = 0;
	for (auto &a : f->args())
		reg[&a] = nr++;
	F->nargs = nr;
	std::unordered_map<const BasicBlock *, int> bbi;
	int nb = 0;
	for (auto &b : *f) {
		bbi[&b] = nb++;
		for (auto &i : b)
			if (!i.getType()->isVoidTy()) {
				reg[&i] = nr;
				nr += isAgg(i.getType()) ? std::max(1u, leaves(i.getType())) : 1;
			}
	}

	F->bbs.resize(nb);
	auto opnd = [&](const LV *v) -> int {
		if (auto c = dyn_cast<Constant>(v))
			return constOp(constVal(c));
		auto it = reg.find(v);
		if (it == reg.end())
			return constOp(0); // metadata etc.
		return it->second;
	};
	// k-th scalar of an aggregate operand
	auto leaf = [&](const LV *v, unsigned k) -> int {
		if (auto c = dyn_cast<Constant>(v)) {
			const Constant *e = constLeaf(c, k);
			return constOp(e ? constVal(e) : 0);
		}
		return reg[v] + (int)k;
	};
	auto edge = [&](const BasicBlock *from, const BasicBlock *to) {
		Edge e;
		e.bb = bbi[to];
		for (auto &p : to->phis()) {
			const LV *v = p.getIncomingValueForBlock(from);
			if (isAgg(p.getType())) {
				for (unsigned k = 0; k < leaves(p.getType()); k++)
					e.copies.push_back({reg[&p] + (int)k, leaf(v, k)});
			} else
				e.copies.push_back({reg[&p], opnd(v)});
		}
		return e;
	};
	for (auto &b : *f) {
		BB &bb = F->bbs[bbi[&b]];
		for (auto &i : b) {
			if (isa<PHINode>(i) || isa<DbgInfoIntrinsic>(i))
				continue;
			Op o;
			o.ins = &i;
			o.k = I_UNSUP;
			if (!i.getType()->isVoidTy())
				o.dst = reg[&i];
			unsigned w = width(i.getType());
			auto copy = [&](int dst, int src) {
				Op c;
				c.ins = &i;
				c.k = I_COPY;
				c.dst = dst;
				c.a = src;
				bb.ops.push_back(std::move(c));
			};
			if (auto iv = dyn_cast<InsertValueInst>(&i)) {
				Type *sub;
				unsigned at = leafIndex(i.getType(), iv->getIndices(), &sub), n = leaves(sub), tot = leaves(i.getType());
				for (unsigned k = 0; k < tot; k++)
					copy(o.dst + k, k >= at && k < at + n ? leaf(iv->getInsertedValueOperand(), k - at)
									      : leaf(iv->getAggregateOperand(), k));
				continue;
			}
			if (auto xv = dyn_cast<ExtractValueInst>(&i)) {
				Type *sub;
				unsigned at = leafIndex(xv->getAggregateOperand()->getType(), xv->getIndices(), &sub), n = leaves(sub);
				for (unsigned k = 0; k < n; k++)
					copy(o.dst + k, leaf(xv->getAggregateOperand(), at + k));
				continue;
			}
			if (isa<LoadInst>(i) && isAgg(i.getType())) {
				std::vector<std::pair<Type *, u64>> l;
				flat(i.getType(), 0, l);
				for (unsigned k = 0; k < l.size(); k++) {
					Op g, d;
					g.ins = d.ins = &i;
					g.k = I_GEP;
					g.a = opnd(i.getOperand(0));
					g.imm = l[k].second;
					g.dst = nr;
					d.k = I_LOAD;
					d.w = width(l[k].first);
					d.a = nr++;
					d.dst = o.dst + k;
					bb.ops.push_back(std::move(g));
					bb.ops.push_back(std::move(d));
				}
				continue;
			}
			if (isa<StoreInst>(i) && isAgg(i.getOperand(0)->getType())) {
				std::vector<std::pair<Type *, u64>> l;
				flat(i.getOperand(0)->getType(), 0, l);
				for (unsigned k = 0; k < l.size(); k++) {
					Op g, d;
					g.ins = d.ins = &i;
					g.k = I_GEP;
					g.a = opnd(i.getOperand(1));
					g.imm = l[k].second;
					g.dst = nr;
					d.k = I_STORE;
					d.w = width(l[k].first);
					d.a = nr++;
					d.b = leaf(i.getOperand(0), k);
					bb.ops.push_back(std::move(g));
					bb.ops.push_back(std::move(d));
				}
				continue;
			}
			if (isa<SelectInst>(i) && isAgg(i.getType())) {
				std::vector<std::pair<Type *, u64>> l;
				flat(i.getType(), 0, l);
				for (unsigned k = 0; k < l.size(); k++) {
					Op c;
					c.ins = &i;
					c.k = I_SELECT;
					c.w = width(l[k].first);
					c.c = opnd(i.getOperand(0));
					c.a = leaf(i.getOperand(1), k);
					c.b = leaf(i.getOperand(2), k);
					c.dst = o.dst + k;
					bb.ops.push_back(std::move(c));
				}
				continue;
			}
			if (isa<FreezeInst>(i) && isAgg(i.getType())) {
				for (unsigned k = 0; k < leaves(i.getType()); k++)
					copy(o.dst + k, leaf(i.getOperand(0), k));
				continue;
			}
			switch (i.getOpcode()) {
			case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv:
			case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And:
			case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr:
			case Instruction::AShr: {
				if (w == 0 || w > 64)
					break;
				static const std::map<unsigned, EOp> m = {
					{Instruction::Add, E_ADD}, {Instruction::Sub, E_SUB}, {Instruction::Mul, E_MUL},
					{Instruction::UDiv, E_UDIV}, {Instruction::SDiv, E_SDIV}, {Instruction::URem, E_UREM},
					{Instruction::SRem, E_SREM}, {Instruction::And, E_AND}, {Instruction::Or, E_OR},
					{Instruction::Xor, E_XOR}, {Instruction::Shl, E_SHL}, {Instruction::LShr, E_LSHR},
					{Instruction::AShr, E_ASHR}};
				o.k = I_BIN;
				o.eop = m.at(i.getOpcode());
				o.w = w;
				o.a = opnd(i.getOperand(0));
				o.b = opnd(i.getOperand(1));
				break;
			}
			case Instruction::ICmp: {
				auto &c = cast<ICmpInst>(i);
				unsigned ow = width(c.getOperand(0)->getType());
				if (!ow || ow > 64)
					break;
				o.w = ow;
				o.k = I_CMP;
				o.a = opnd(c.getOperand(0));
				o.b = opnd(c.getOperand(1));
				switch (c.getPredicate()) {
				case CmpInst::ICMP_EQ: o.eop = E_EQ; break;
				case CmpInst::ICMP_NE: o.k = I_NE; break;
				case CmpInst::ICMP_ULT: o.eop = E_ULT; break;
				case CmpInst::ICMP_ULE: o.eop = E_ULE; break;
				case CmpInst::ICMP_SLT: o.eop = E_SLT; break;
				case CmpInst::ICMP_SLE: o.eop = E_SLE; break;
				case CmpInst::ICMP_UGT: o.eop = E_ULT; std::swap(o.a, o.b); break;
				case CmpInst::ICMP_UGE: o.eop = E_ULE; std::swap(o.a, o.b); break;
				case CmpInst::ICMP_SGT: o.eop = E_SLT; std::swap(o.a, o.b); break;
				case CmpInst::ICMP_SGE: o.eop = E_SLE; std::swap(o.a, o.b); break;
				default: o.k = I_UNSUP;
				}
				break;
			}
			case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
				unsigned fw = width(i.getOperand(0)->getType());
				if (!fw || fw > 64 || w > 64)
					break;
				o.k = i.getOpcode() == Instruction::ZExt ? I_ZEXT
				      : i.getOpcode() == Instruction::SExt ? I_SEXT : I_TRUNC;
				o.w = w;
				o.w2 = fw;
				o.a = opnd(i.getOperand(0));
				break;
			}
			case Instruction::PtrToInt: case Instruction::IntToPtr: {
				unsigned fw = width(i.getOperand(0)->getType());
				o.k = fw > w ? I_TRUNC : fw < w ? I_ZEXT : I_COPY;
				o.w = w;
				o.w2 = fw;
				o.a = opnd(i.getOperand(0));
				break;
			}
			case Instruction::BitCast: case Instruction::Freeze:
				if (!w || w > 64)
					break;
				o.k = I_COPY;
				o.a = opnd(i.getOperand(0));
				break;
			case Instruction::Load:
				if (!w || w > 64)
					break;
				o.k = I_LOAD;
				o.w = w;
				o.a = opnd(i.getOperand(0));
				break;
			case Instruction::Store: {
				unsigned vw = width(i.getOperand(0)->getType());
				if (!vw || vw > 64)
					break;
				o.k = I_STORE;
				o.w = vw;
				o.b = opnd(i.getOperand(0));
				o.a = opnd(i.getOperand(1));
				break;
			}
			case Instruction::GetElementPtr: {
				auto &g = cast<GetElementPtrInst>(i);
				o.k = I_GEP;
				o.a = opnd(g.getPointerOperand());
				u64 off = 0;
				for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
					LV *idx = gi.getOperand();
					if (StructType *st = gi.getStructTypeOrNull()) {
						unsigned n = cast<ConstantInt>(idx)->getZExtValue();
						off += DL->getStructLayout(st)->getElementOffset(n);
					} else {
						u64 sz = DL->getTypeAllocSize(gi.getIndexedType());
						if (auto ci = dyn_cast<ConstantInt>(idx))
							off += sz * (u64)ci->getSExtValue();
						else
							o.gep.push_back({opnd(idx), width(idx->getType()), sz});
					}
				}
				o.imm = off;
				break;
			}
			case Instruction::Alloca: {
				auto &al = cast<AllocaInst>(i);
				o.k = I_ALLOCA;
				o.imm = DL->getTypeAllocSize(al.getAllocatedType());
				o.a = opnd(al.getArraySize());
				break;
			}
			case Instruction::Call: {
				auto &ci = cast<CallInst>(i);
				if (ci.isInlineAsm()) {
					if (ci.arg_size() == 0) { // compiler barrier
						o.k = I_COPY;
						o.dst = -1;
						o.a = constOp(0);
					}
					break;
				}
				if (auto wo = dyn_cast<WithOverflowInst>(&i)) {
					unsigned ow = width(wo->getLHS()->getType());
					if (!ow || ow > 64)
						break;
					o.k = I_OVF;
					o.w = ow;
					o.imm = wo->isSigned();
					o.eop = wo->getBinaryOp() == Instruction::Add ? E_ADD
						: wo->getBinaryOp() == Instruction::Sub ? E_SUB : E_MUL;
					o.a = opnd(wo->getLHS());
					o.b = opnd(wo->getRHS());
					break;
				}
				o.k = I_CALL;
				o.w = w;
				if (auto fc = dyn_cast<Function>(ci.getCalledOperand()->stripPointerCasts()))
					o.callee = fnmap[fc];
				else
					o.a = opnd(ci.getCalledOperand());
				for (auto &a : ci.args()) {
					if (a->getType()->isMetadataTy()) {
						o.args.push_back(constOp(0));
						o.argw.push_back(64);
						continue;
					}
					o.args.push_back(opnd(a.get()));
					o.argw.push_back(width(a->getType()));
				}
				for (unsigned k = 0; k < ci.arg_size(); k++) {
					if (isAgg(ci.getArgOperand(k)->getType()))
						o.k = I_UNSUP;
					if (ci.isByValArgument(k)) {
						o.cases.resize(ci.arg_size(), 0);
						o.cases[k] = DL->getTypeAllocSize(ci.getParamByValType(k));
					}
				}
				break;
			}
			case Instruction::Ret:
				o.k = I_RET;
				o.imm = i.getNumOperands();
				if (o.imm) {
					o.a = opnd(i.getOperand(0));
					if (isAgg(i.getOperand(0)->getType()))
						for (unsigned k = 0; k < leaves(i.getOperand(0)->getType()); k++)
							o.args.push_back(leaf(i.getOperand(0), k));
				}
				break;
			case Instruction::Br: {
				auto &br = cast<BranchInst>(i);
				if (br.isConditional()) {
					o.k = I_CBR;
					o.a = opnd(br.getCondition());
					o.edges.push_back(edge(&b, br.getSuccessor(0)));
					o.edges.push_back(edge(&b, br.getSuccessor(1)));
				} else {
					o.k = I_BR;
					o.edges.push_back(edge(&b, br.getSuccessor(0)));
				}
				break;
			}
			case Instruction::Switch: {
				auto &sw = cast<SwitchInst>(i);
				o.k = I_SWITCH;
				o.w = width(sw.getCondition()->getType());
				o.a = opnd(sw.getCondition());
				o.edges.push_back(edge(&b, sw.getDefaultDest()));
				for (auto &c : sw.cases()) {
					o.cases.push_back(c.getCaseValue()->getZExtValue());
					o.edges.push_back(edge(&b, c.getCaseSuccessor()));
				}
				break;
			}
			case Instruction::Select:
				if (!w || w > 64)
					break;
				o.k = I_SELECT;
				o.w = w;
				o.c = opnd(i.getOperand(0));
				o.a = opnd(i.getOperand(1));
				o.b = opnd(i.getOperand(2));
				break;
			case Instruction::Unreachable: o.k = I_UNREACH; break;
			default: break;
			}
			bb.ops.push_back(std::move(o));
		}
	}
	F->nregs = nr;
}

// --------------------------------------------------------- interpreter
static inline Val rd(State &s, const Frame &f, int o)
{
	return o < 0 ? consts[-o - 1] : s.regs[f.regbase + o];
}
static void takeEdge(State &s, const Edge &e)
{
	Frame &f = s.fr.back();
	if (!e.copies.empty()) {
		Val tmp[16];
		std::vector<Val> big;
		Val *t = tmp;
		if (e.copies.size() > 16) {
			big.resize(e.copies.size());
			t = big.data();
		}
		for (size_t i = 0; i < e.copies.size(); i++)
			t[i] = rd(s, f, e.copies[i].second);
		for (size_t i = 0; i < e.copies.size(); i++)
			s.regs[f.regbase + e.copies[i].first] = t[i];
	}
	f.bb = e.bb;
	f.ip = 0;
	f.fn->bbs[e.bb].covered = true;
}
static void enter(State &s, Fn *fn, const Op *callop, const std::vector<Val> &args)
{
	if (!fn->built)
		buildFn(fn);
	if (s.fr.size() > opt_max_depth)
		fail(s, "stack-overflow", "recursion deeper than " + std::to_string(opt_max_depth));
	Frame f;
	f.fn = fn;
	f.bb = 0;
	f.ip = 0;
	f.regbase = s.regs.size();
	f.stkbase = s.stk.n;
	f.callop = callop;
	s.regs.resize(f.regbase + fn->nregs);
	for (int i = 0; i < fn->nargs && i < (int)args.size(); i++)
		s.regs[f.regbase + i] = args[i];
	if (fn->f->isVarArg())
		for (size_t i = fn->nargs; i < args.size(); i++) {
			Val v = args[i];
			if (callop && callop->argw[i] < 64)
				v = vZext(v, callop->argw[i], 64);
			f.vargs.push_back(v);
		}
	fn->calls++;
	fn->bbs[0].covered = true;
	s.fr.push_back(std::move(f));
}
static Fn *resolveCallee(State &s, u64 a)
{
	if (a >= FN_BASE && (a - FN_BASE) % 16 == 0 && (a - FN_BASE) / 16 < fns.size())
		return fns[(a - FN_BASE) / 16];
	fail(s, a < 65536 ? "null-call" : "bad-call", "call through invalid function pointer");
}

// Runs the state until it ends. Other states are pushed to work.
static void run(SP sp)
{
	State &s = *sp;
	u64 startInstr = s.ninstr;
	try {
		for (;;) {
			Frame &f = s.fr.back();
			const Op &o = f.fn->bbs[f.bb].ops[f.ip++];
			s.ninstr++;
			switch (o.k) {
			case I_BIN: {
				Val a = rd(s, f, o.a), b = rd(s, f, o.b);
				if (o.eop >= E_UDIV && o.eop <= E_SREM) {
					b = norm(s, b);
					if (b.conc()) {
						if (!b.c)
							fail(s, "div-zero", "division by zero");
					} else {
						Val z = vCmp(E_EQ, b, Val((u64)0), o.w);
						std::vector<u64> m;
						if (!z.conc() && feasible(s, z.e, &m)) {
							report(s, m, "div-zero", "division by zero");
							if (!feasible(s, toE(vNot1(z), 1), &m))
								throw PathEnd{false};
							s.model = m;
							addC(s, toE(vNot1(z), 1));
						}
					}
				}
				s.regs[f.regbase + o.dst] = vBin(o.eop, a, b, o.w);
				break;
			}
			case I_CMP:
				s.regs[f.regbase + o.dst] = vCmp(o.eop, rd(s, f, o.a), rd(s, f, o.b), o.w);
				break;
			case I_NE:
				s.regs[f.regbase + o.dst] = vNot1(vCmp(E_EQ, rd(s, f, o.a), rd(s, f, o.b), o.w));
				break;
			case I_ZEXT: s.regs[f.regbase + o.dst] = vZext(rd(s, f, o.a), o.w2, o.w); break;
			case I_SEXT: s.regs[f.regbase + o.dst] = vSext(rd(s, f, o.a), o.w2, o.w); break;
			case I_TRUNC: s.regs[f.regbase + o.dst] = vExtract(rd(s, f, o.a), o.w2, 0, o.w); break;
			case I_COPY: case I_FREEZE:
				if (o.dst >= 0)
					s.regs[f.regbase + o.dst] = rd(s, f, o.a);
				break;
			case I_LOAD: {
				Val v = load(s, rd(s, f, o.a), o.w);
				Frame &g = s.fr.back();
				s.regs[g.regbase + o.dst] = v;
				break;
			}
			case I_STORE: store(s, rd(s, f, o.a), rd(s, f, o.b), o.w); break;
			case I_GEP: {
				Val r = vBin(E_ADD, rd(s, f, o.a), Val(o.imm), 64);
				for (auto &t : o.gep) {
					Val x = vSext(rd(s, f, t.op), t.w, 64);
					r = vBin(E_ADD, r, vBin(E_MUL, x, Val(t.scale), 64), 64);
				}
				s.regs[f.regbase + o.dst] = r;
				break;
			}
			case I_ALLOCA: {
				u64 n = concretize(s, rd(s, f, o.a), 64);
				u64 a = allocStk(s, n * o.imm);
				s.regs[s.fr.back().regbase + o.dst] = Val(a);
				break;
			}
			case I_CALL: {
				Fn *c = o.callee;
				if (!c)
					c = resolveCallee(s, concretize(s, rd(s, f, o.a), 64));
				std::vector<Val> args;
				args.reserve(o.args.size());
				for (int x : o.args)
					args.push_back(norm(s, rd(s, s.fr.back(), x)));
				for (size_t k = 0; k < o.cases.size(); k++)
					if (o.cases[k]) { // structure passed by value
						u64 from = concretize(s, args[k], 64), to = allocStk(s, o.cases[k]);
						copyMem(s, to, from, o.cases[k]);
						args[k] = Val(to);
					}
				if (c->bi) {
					Val ret((u64)0);
					c->calls++;
					c->bi(s, o, args, ret);
					if (o.dst >= 0)
						s.regs[s.fr.back().regbase + o.dst] = ret;
					break;
				}
				if (c->f->isDeclaration())
					die("call to undefined function " + c->name + " at " + backtrace(s));
				enter(s, c, &o, args);
				break;
			}
			case I_RET: {
				Val r;
				std::vector<Val> agg;
				if (o.imm)
					r = norm(s, rd(s, f, o.a));
				for (int x : o.args)
					agg.push_back(norm(s, rd(s, f, x)));
				while (s.stk.n > f.stkbase)
					s.stk.pop();
				const Op *co = f.callop;
				s.regs.resize(f.regbase);
				s.fr.pop_back();
				if (s.fr.empty())
					throw PathEnd{true};
				if (co && co->dst >= 0 && o.imm) {
					s.regs[s.fr.back().regbase + co->dst] = r;
					for (size_t k = 0; k < agg.size(); k++)
						s.regs[s.fr.back().regbase + co->dst + k] = agg[k];
				}
				break;
			}
			case I_BR: takeEdge(s, o.edges[0]); break;
			case I_CBR: {
				Val c = rd(s, f, o.a);
				if (c.conc()) {
					takeEdge(s, o.edges[c.c & 1 ? 0 : 1]);
				} else {
					bool t = branch(s, c, [&](State &x) { takeEdge(x, o.edges[1]); });
					takeEdge(s, o.edges[t ? 0 : 1]);
				}
				if (s.limit && s.ninstr > s.limit)
					fail(s, "hang", "instruction budget exceeded");
				if (g_stop)
					throw PathEnd{false};
				if (g_hung && s.ninstr - startInstr > opt_max_instr / 40) {
					// one endless path is already reported: give up on the others early
					st_incomplete = true;
					st_incomplete_why = "paths cut after an endless one was reported";
					throw PathEnd{false};
				}
				if (s.ninstr - startInstr > opt_max_instr || s.ninstr > 20 * opt_max_instr) {
					g_hung = true;
					fail(s, "hang", "path longer than " + std::to_string(opt_max_instr) + " instructions");
				}
				break;
			}
			case I_SWITCH: {
				Val c = norm(s, rd(s, f, o.a));
				if (c.conc()) {
					size_t e = 0;
					for (size_t i = 0; i < o.cases.size(); i++)
						if (o.cases[i] == c.c)
							e = i + 1;
					takeEdge(s, o.edges[e]);
					break;
				}
				// peel the cases one by one; group by destination block
				std::vector<bool> done(o.cases.size(), false);
				bool taken = false;
				for (size_t i = 0; i < o.cases.size() && !taken; i++) {
					if (done[i])
						continue;
					Val cond = vCmp(E_EQ, c, Val(o.cases[i]), o.w);
					for (size_t j = i + 1; j < o.cases.size(); j++)
						if (o.edges[j + 1].bb == o.edges[i + 1].bb &&
						    o.edges[j + 1].copies == o.edges[i + 1].copies) {
							done[j] = true;
							cond = vBin(E_OR, cond, vCmp(E_EQ, c, Val(o.cases[j]), o.w), 1);
						}
					cond = norm(s, cond);
					if (cond.conc()) {
						if (cond.c) {
							takeEdge(s, o.edges[i + 1]);
							taken = true;
						}
						continue;
					}
					std::vector<u64> m;
					const Expr *ne = toE(vNot1(cond), 1);
					bool cur = evalM(s, cond.e) & 1;
					bool canT = cur, canF = !cur;
					std::vector<u64> mt = s.model, mf = s.model;
					if (cur)
						canF = feasible(s, ne, &mf);
					else
						canT = feasible(s, cond.e, &mt);
					if (canT && canF) {
						SP x = fork(s);
						x->model = mt;
						addC(*x, cond.e);
						takeEdge(*x, o.edges[i + 1]);
						work.push_back(std::move(x));
						s.model = mf;
						addC(s, ne);
					} else if (canT) {
						takeEdge(s, o.edges[i + 1]);
						taken = true;
					}
				}
				if (!taken)
					takeEdge(s, o.edges[0]);
				break;
			}
			case I_SELECT: {
				Val c = norm(s, rd(s, f, o.c));
				s.regs[f.regbase + o.dst] = vIte(c, rd(s, f, o.a), rd(s, f, o.b), o.w);
				break;
			}
			case I_OVF: {
				Val a = rd(s, f, o.a), b = rd(s, f, o.b), r = vBin(o.eop, a, b, o.w), v;
				if (o.eop == E_MUL) {
					if (a.conc() && b.conc()) {
						__int128 x = o.imm ? (__int128)sx(a.c, o.w) * sx(b.c, o.w) : 0;
						unsigned __int128 y = (unsigned __int128)a.c * b.c;
						v = o.imm ? Val((u64)(x != (__int128)sx(r.c, o.w))) : Val((u64)(y != (unsigned __int128)r.c));
					} else if (o.w <= 32) {
						Val x = o.imm ? vSext(a, o.w, 64) : vZext(a, o.w, 64), y = o.imm ? vSext(b, o.w, 64) : vZext(b, o.w, 64);
						v = vNot1(vCmp(E_EQ, vBin(E_MUL, x, y, 64), o.imm ? vSext(r, o.w, 64) : vZext(r, o.w, 64), 64));
					} else {
						Val z = vCmp(E_EQ, a, Val((u64)0), o.w);
						Val d = vIte(z, Val((u64)1), a, o.w);
						v = vNot1(vCmp(E_EQ, vBin(o.imm ? E_SDIV : E_UDIV, r, d, o.w), b, o.w));
						if (o.imm)
							v = vBin(E_OR, v, vBin(E_AND, vCmp(E_EQ, a, Val(maskw(~0ULL, o.w)), o.w),
								vCmp(E_EQ, b, Val(1ULL << (o.w - 1)), o.w), 1), 1);
						v = vBin(E_AND, vNot1(z), v, 1);
					}
				} else if (o.imm) {
					Val x = o.eop == E_ADD ? vBin(E_AND, vBin(E_XOR, a, r, o.w), vBin(E_XOR, b, r, o.w), o.w)
							       : vBin(E_AND, vBin(E_XOR, a, b, o.w), vBin(E_XOR, a, r, o.w), o.w);
					v = vExtract(x, o.w, o.w - 1, 1);
				} else
					v = o.eop == E_ADD ? vCmp(E_ULT, r, a, o.w) : vCmp(E_ULT, a, b, o.w);
				s.regs[f.regbase + o.dst] = r;
				s.regs[f.regbase + o.dst + 1] = v;
				break;
			}
			case I_UNREACH: fail(s, "unreachable", "unreachable code executed");
			case I_UNSUP: {
				std::string t;
				raw_string_ostream os(t);
				o.ins->print(os);
				die("unsupported instruction " + t + " at " + backtrace(s));
			}
			}
		}
	} catch (PathEnd &e) {
		st_paths++;
		st_instr += s.ninstr - startInstr;
		st_maxinstr = std::max(st_maxinstr, s.ninstr);
		// reservoir of completed paths for native validation
		if (e.ok && s.fr.empty()) {
			static u64 seen = 0;
			static std::vector<std::pair<SP, u64>> dummy;
			seen++;
			extern std::vector<SP> g_samples;
			if (g_samples.size() < opt_samples)
				g_samples.push_back(std::move(sp));
			else {
				u64 j = rng() % seen;
				if (j < opt_samples)
					g_samples[j] = std::move(sp);
			}
		}
	}
}
std::vector<SP> g_samples;

static void initGlobal(State &s, u64 addr, const Constant *c)
{
	Type *t = c->getType();
	if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c))
		return;
	Loc l;
	if (!find(s, addr, l))
		die("global init");
	if (auto cd = dyn_cast<ConstantDataSequential>(c)) {
		StringRef r = cd->getRawDataValues();
		memcpy(l.o->data + l.off, r.data(), r.size());
		return;
	}
	if (auto ca = dyn_cast<ConstantArray>(c)) {
		u64 sz = DL->getTypeAllocSize(ca->getType()->getElementType());
		for (unsigned i = 0; i < ca->getNumOperands(); i++)
			initGlobal(s, addr + i * sz, ca->getOperand(i));
		return;
	}
	if (auto cs = dyn_cast<ConstantStruct>(c)) {
		auto sl = DL->getStructLayout(cs->getType());
		for (unsigned i = 0; i < cs->getNumOperands(); i++)
			initGlobal(s, addr + sl->getElementOffset(i), cs->getOperand(i));
		return;
	}
	unsigned w = width(t);
	if (!w)
		die("unsupported global initialiser");
	u64 v = constVal(c);
	memcpy(l.o->data + l.off, &v, (w + 7) / 8);
}

int main(int argc, char **argv)
{
	std::string bc, entry = "harness";
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&]() { return std::string(argv[++i]); };
		if (a == "--entry") entry = nx();
		else if (a == "--out") opt_out = nx();
		else if (a == "--max-instr") opt_max_instr = std::stoull(nx());
		else if (a == "--max-depth") opt_max_depth = std::stoul(nx());
		else if (a == "--after-error") opt_after_error = std::stod(nx());
		else if (a == "--max-time") opt_max_time = std::stod(nx());
		else if (a == "--max-paths") opt_max_paths = std::stoull(nx());
		else if (a == "--nshards") opt_nshards = std::stoi(nx());
		else if (a == "--shard") opt_shard = std::stoi(nx());
		else if (a == "--samples") opt_samples = std::stoul(nx());
		else if (a == "--seed") opt_seed = std::stoul(nx());
		else if (a == "--max-err") opt_max_err = std::stoul(nx());
		else bc = a;
	}
	struct rlimit rl = {512u << 20, 512u << 20};
	setrlimit(RLIMIT_STACK, &rl);
	rng.seed(opt_seed);
	T0 = std::chrono::steady_clock::now();
	LLVMContext ctx;
	SMDiagnostic err;
	M = parseIRFile(bc, err, ctx);
	if (!M)
		die("cannot read " + bc);
	DL = &M->getDataLayout();
	for (auto &f : *M) {
		Fn *x = new Fn;
		x->f = &f;
		x->name = f.getName().str();
		x->bi = f.isIntrinsic() || f.isDeclaration() ? builtinFor(x->name) : nullptr;
		if (auto sp = f.getSubprogram())
			x->isrepo = sp->getFilename().contains("/src/ecoli_") ||
				    sp->getFilename().contains("include/ecoli");
		if (x->bi == nullptr && !f.isDeclaration())
			;
		fns.push_back(x);
		fnmap[&f] = x;
	}
	Solver solver(opt_solver_timeout);
	S = &solver;
	SP st(new State);
	for (auto &g : M->globals()) {
		if (g.getName().starts_with("llvm."))
			continue;
		u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 0;
		if (g.isDeclaration())
			sz = sz ? sz : 8;
		gaddr[&g] = allocObj(*st, K_GLOBAL, sz, 0);
	}
	for (auto &g : M->globals())
		if (gaddr.count(&g) && g.hasInitializer())
			initGlobal(*st, gaddr[&g], g.getInitializer());
	for (auto &g : M->globals())
		if (gaddr.count(&g) && g.isConstant()) {
			Loc l;
			find(*st, gaddr[&g], l);
			l.o->kind = K_CONST;
		}
	// constructors
	std::vector<std::pair<u64, Function *>> ctors;
	if (auto g = M->getGlobalVariable("llvm.global_ctors"))
		if (auto a = dyn_cast<ConstantArray>(g->getInitializer()))
			for (auto &o : a->operands()) {
				auto cs = cast<ConstantStruct>(o);
				ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(),
						 cast<Function>(cs->getOperand(1)->stripPointerCasts())});
			}
	std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
	Function *ef = M->getFunction(entry);
	if (!ef)
		die("no entry " + entry);
	// run constructors: build frames in reverse order (entry at the bottom)
	enter(*st, fnmap[ef], nullptr, {});
	if (Function *bf = M->getFunction("h_boot"))
		enter(*st, fnmap[bf], nullptr, {});
	for (size_t i = ctors.size(); i-- > 0;)
		enter(*st, fnmap[ctors[i].second], nullptr, {});
	work.push_back(std::move(st));
	u64 it = 0;
	signal(SIGTERM, [](int) { g_stop = true; });
	while (!work.empty()) {
		SP s = std::move(work.back());
		work.pop_back();
		run(std::move(s));
		if (elapsed() > opt_max_time) {
			st_incomplete = true;
			st_incomplete_why = "time limit";
			break;
		}
		if (g_stop || (!g_errs.empty() && g_first_err < 0)) {
			if (g_stop) {
				st_incomplete = true;
				st_incomplete_why = "stopped";
				break;
			}
			g_first_err = elapsed();
		}
		if (g_first_err >= 0 && elapsed() > g_first_err + opt_after_error) {
			st_incomplete = true;
			st_incomplete_why = "stopped some time after an error";
			break;
		}
		if (st_paths >= opt_max_paths) {
			st_incomplete = true;
			st_incomplete_why = "path limit";
			break;
		}
		if (g_errs.size() >= opt_max_err_sites) {
			st_incomplete = true;
			st_incomplete_why = "too many error sites";
			break;
		}
		if ((++it & 255) == 0) {
			std::ifstream f("/proc/self/statm");
			u64 a, b;
			f >> a >> b;
			if (b * 4 / 1024 > opt_max_mem) {
				st_incomplete = true;
				st_incomplete_why = "memory limit";
				break;
			}
		}
	}
	// outputs
	std::vector<std::string> samples;
	for (auto &s : g_samples)
		samples.push_back(writeCase(*s, s->model, "ok", "completed path", true));
	std::ofstream o(opt_out);
	o << "{\n\"entry\":\"" << jesc(entry) << "\",\"shard\":" << opt_shard << ",\n";
	o << "\"complete\":" << (st_incomplete ? "false" : "true") << ",\"why\":\"" << jesc(st_incomplete_why)
	  << "\",\n";
	o << "\"paths\":" << st_paths << ",\"forks\":" << st_forks << ",\"instructions\":" << st_instr
	  << ",\"infeasible_assumes\":" << st_infeasible << ",\"asserts\":" << st_asserts
	  << ",\"assert_queries\":" << st_assert_q << ",\"max_path_instr\":" << st_maxinstr << ",\n";
	o << "\"solver\":{\"queries\":" << S->st.queries << ",\"z3_calls\":" << S->st.z3calls
	  << ",\"cache_hits\":" << S->st.cachehits << ",\"sat\":" << S->st.sat << ",\"unsat\":" << S->st.unsat
	  << ",\"unknown\":" << S->st.unknown << ",\"secs\":" << S->st.secs << "},\n";
	o << "\"wall\":" << elapsed() << ",\n\"covers\":{";
	bool first = true;
	for (auto &c : covers) {
		o << (first ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second;
		first = false;
	}
	o << "},\n\"functions\":[";
	first = true;
	for (auto f : fns) {
		if (!f->isrepo || !f->calls)
			continue;
		size_t cov = 0;
		for (auto &b : f->bbs)
			cov += b.covered;
		o << (first ? "" : ",") << "[\"" << jesc(f->name) << "\"," << cov << "," << f->bbs.size() << "]";
		first = false;
	}
	o << "],\n\"samples\":[";
	for (size_t i = 0; i < samples.size(); i++)
		o << (i ? "," : "") << "\"" << jesc(samples[i]) << "\"";
	o << "],\n\"errors\":[";
	first = true;
	for (auto &e : g_errs) {
		o << (first ? "" : ",") << "\n{\"kind\":\"" << jesc(e.second.kind) << "\",\"msg\":\"" << jesc(e.second.msg)
		  << "\",\"where\":\"" << jesc(e.second.where) << "\",\"count\":" << e.second.n << ",\"files\":[";
		for (size_t i = 0; i < e.second.files.size(); i++)
			o << (i ? "," : "") << "\"" << jesc(e.second.files[i]) << "\"";
		o << "]}";
		first = false;
	}
	o << "]}\n";
	o.close();
	fflush(stdout);
	_exit(0);
}
