#include "expr.h"
#include <algorithm>

std::vector<u8> g_symw;
static std::unordered_map<ExprKey, const Expr *, ExprKeyHash> g_tab;
static u32 g_nextid = 1;

const Expr *mkE(EOp op, unsigned w, const Expr *a, const Expr *b, const Expr *c, u64 val)
{
	ExprKey k{op, (u8)w, val, {a, b, c}};
	auto it = g_tab.find(k);
	if (it != g_tab.end())
		return it->second;
	Expr *e = new Expr;
	e->op = op;
	e->w = w;
	e->id = g_nextid++;
	e->val = val;
	e->k[0] = a;
	e->k[1] = b;
	e->k[2] = c;
	if (op == E_SYM)
		e->syms.set(val);
	for (auto p : e->k)
		if (p)
			e->syms |= p->syms;
	g_tab.emplace(k, e);
	return e;
}
const Expr *mkConst(u64 v, unsigned w) { return mkE(E_CONST, w, nullptr, nullptr, nullptr, maskw(v, w)); }
const Expr *mkSym(unsigned idx, unsigned w)
{
	if (idx >= (unsigned)MAXSYM) {
		fprintf(stderr, "ENGINE-ERROR too many symbols\n");
		exit(3);
	}
	if (g_symw.size() <= idx)
		g_symw.resize(idx + 1, 0);
	g_symw[idx] = w;
	return mkE(E_SYM, w, nullptr, nullptr, nullptr, idx);
}

static u64 foldBin(EOp op, u64 a, u64 b, unsigned w)
{
	switch (op) {
	case E_ADD: return maskw(a + b, w);
	case E_SUB: return maskw(a - b, w);
	case E_MUL: return maskw(a * b, w);
	case E_UDIV: return b ? a / b : maskw(~0ULL, w);
	case E_SDIV: {
		i64 x = sx(a, w), y = sx(b, w);
		if (y == 0)
			return x < 0 ? 1 : maskw(~0ULL, w);
		if (y == -1)
			return maskw(0 - (u64)x, w);
		return maskw((u64)(x / y), w);
	}
	case E_UREM: return b ? a % b : a;
	case E_SREM: {
		i64 x = sx(a, w), y = sx(b, w);
		if (y == 0)
			return a;
		if (y == -1)
			return 0;
		return maskw((u64)(x % y), w);
	}
	case E_AND: return a & b;
	case E_OR: return a | b;
	case E_XOR: return a ^ b;
	case E_SHL: return b >= w ? 0 : maskw(a << b, w);
	case E_LSHR: return b >= w ? 0 : a >> b;
	case E_ASHR: {
		i64 x = sx(a, w);
		return maskw((u64)(x >> (b >= w ? (w >= 64 ? 63 : w - 1) : b)), w);
	}
	default: abort();
	}
}
static u64 foldCmp(EOp op, u64 a, u64 b, unsigned w)
{
	switch (op) {
	case E_EQ: return a == b;
	case E_ULT: return a < b;
	case E_ULE: return a <= b;
	case E_SLT: return sx(a, w) < sx(b, w);
	case E_SLE: return sx(a, w) <= sx(b, w);
	default: abort();
	}
}

static inline bool isC(const Expr *e) { return e->op == E_CONST; }
static inline Value fin(const Expr *e) { return e->op == E_CONST ? Value(e->val) : Value(e); }

Value vBin(EOp op, Value a, Value b, unsigned w)
{
	if (a.conc() && b.conc())
		return foldBin(op, a.c, b.c, w);
	bool comm = op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR;
	if (comm && a.conc())
		std::swap(a, b);
	u64 ones = maskw(~0ULL, w);
	if (b.conc()) {
		u64 c = b.c;
		switch (op) {
		case E_ADD:
			if (c == 0) return a;
			if (a.e->op == E_ADD && isC(a.e->k[1]))
				return vBin(E_ADD, fin(a.e->k[0]), Value(maskw(a.e->k[1]->val + c, w)), w);
			break;
		case E_SUB:
			if (c == 0) return a;
			return vBin(E_ADD, a, Value(maskw(0 - c, w)), w);
		case E_MUL:
			if (c == 0) return Value((u64)0);
			if (c == 1) return a;
			if ((c & (c - 1)) == 0)
				return vBin(E_SHL, a, Value((u64)__builtin_ctzll(c)), w);
			break;
		case E_UDIV:
			if (c == 1) return a;
			break;
		case E_AND:
			if (c == 0) return Value((u64)0);
			if (c == ones) return a;
			if (a.e->op == E_ZEXT) {
				unsigned kw = a.e->k[0]->w;
				if ((c & maskw(~0ULL, kw)) == maskw(~0ULL, kw))
					return a;
				return vZext(vBin(E_AND, fin(a.e->k[0]), Value(maskw(c, kw)), kw), kw, w);
			}
			if (a.e->op == E_ITE && isC(a.e->k[1]) && isC(a.e->k[2]))
				return vIte(fin(a.e->k[0]), Value(a.e->k[1]->val & c),
					    Value(a.e->k[2]->val & c), w);
			break;
		case E_OR:
			if (c == 0) return a;
			if (c == ones) return Value(ones);
			break;
		case E_XOR:
			if (c == 0) return a;
			if (w == 1) return vNot1(a);
			break;
		case E_SHL: case E_LSHR:
			if (c == 0) return a;
			if (c >= w) return Value((u64)0);
			break;
		case E_ASHR:
			if (c == 0) return a;
			break;
		default: break;
		}
	} else if (a.conc()) {
		u64 c = a.c;
		if (c == 0 && (op == E_SHL || op == E_LSHR || op == E_ASHR))
			return Value((u64)0);
		(void)ones;
	} else {
		if (a.e == b.e) {
			switch (op) {
			case E_SUB: case E_XOR: return Value((u64)0);
			case E_AND: case E_OR: return a;
			default: break;
			}
		}
	}
	const Expr *x = toE(a, w), *y = toE(b, w);
	if (comm && !isC(y) && x->id > y->id)
		std::swap(x, y);
	return fin(mkE(op, w, x, y));
}

Value vNot1(Value a)
{
	if (a.conc())
		return Value((u64)!(a.c & 1));
	const Expr *e = a.e;
	// Not is represented as EQ(x:1, 0)
	if (e->op == E_EQ && e->k[0]->w == 1 && isC(e->k[1]) && e->k[1]->val == 0)
		return fin(e->k[0]);
	switch (e->op) {
	case E_ULT: return fin(mkE(E_ULE, 1, e->k[1], e->k[0]));
	case E_ULE: return fin(mkE(E_ULT, 1, e->k[1], e->k[0]));
	case E_SLT: return fin(mkE(E_SLE, 1, e->k[1], e->k[0]));
	case E_SLE: return fin(mkE(E_SLT, 1, e->k[1], e->k[0]));
	default: break;
	}
	return fin(mkE(E_EQ, 1, e, mkConst(0, 1)));
}

Value vCmp(EOp op, Value a, Value b, unsigned w)
{
	if (a.conc() && b.conc())
		return Value(foldCmp(op, a.c, b.c, w));
	if (a.e && a.e == b.e)
		return Value((u64)(op == E_EQ || op == E_ULE || op == E_SLE));
	if (op == E_EQ && a.conc())
		std::swap(a, b);
	u64 ones = maskw(~0ULL, w);
	if (op == E_EQ && b.conc()) {
		const Expr *e = a.e;
		u64 c = b.c;
		if (w == 1)
			return c ? a : vNot1(a);
		if (e->op == E_ZEXT) {
			unsigned kw = e->k[0]->w;
			if (c > maskw(~0ULL, kw)) return Value((u64)0);
			return vCmp(E_EQ, fin(e->k[0]), Value(c), kw);
		}
		if (e->op == E_SEXT) {
			unsigned kw = e->k[0]->w;
			if (maskw((u64)sx(maskw(c, kw), kw), w) != c) return Value((u64)0);
			return vCmp(E_EQ, fin(e->k[0]), Value(maskw(c, kw)), kw);
		}
		if (e->op == E_ITE && (isC(e->k[1]) || isC(e->k[2]))) {
			Value t = vCmp(E_EQ, fin(e->k[1]), Value(c), w);
			Value f = vCmp(E_EQ, fin(e->k[2]), Value(c), w);
			return vIte(fin(e->k[0]), t, f, 1);
		}
		if (e->op == E_ADD && isC(e->k[1]))
			return vCmp(E_EQ, fin(e->k[0]), Value(maskw(c - e->k[1]->val, w)), w);
		if (e->op == E_CONCAT) {
			unsigned lw = e->k[1]->w, hw = e->k[0]->w;
			Value l = vCmp(E_EQ, fin(e->k[1]), Value(maskw(c, lw)), lw);
			Value h = vCmp(E_EQ, fin(e->k[0]), Value(maskw(c >> lw, hw)), hw);
			return vBin(E_AND, h, l, 1);
		}
	}
	if (op == E_ULT) {
		if (b.conc() && b.c == 0) return Value((u64)0);
		if (b.conc() && b.c == 1) return vCmp(E_EQ, a, Value((u64)0), w);
		if (a.conc() && a.c == ones) return Value((u64)0);
		if (a.conc() && a.c == 0) return vNot1(vCmp(E_EQ, b, Value((u64)0), w));
	}
	if (op == E_ULE) {
		if (a.conc() && a.c == 0) return Value((u64)1);
		if (b.conc() && b.c == ones) return Value((u64)1);
		if (b.conc() && b.c == 0) return vCmp(E_EQ, a, Value((u64)0), w);
	}
	// comparisons of extended values against constants
	if (b.conc() && a.e->op == E_ZEXT) {
		unsigned kw = a.e->k[0]->w;
		u64 mx = maskw(~0ULL, kw);
		if (op == E_ULT || op == E_ULE) {
			if (b.c > mx) return Value((u64)1);
			return vCmp(op, fin(a.e->k[0]), Value(b.c), kw);
		}
		if (op == E_SLT || op == E_SLE) {
			i64 sc = sx(b.c, w);
			if (sc < 0) return Value((u64)0);
			if ((u64)sc > mx) return Value((u64)1);
			return vCmp(op == E_SLT ? E_ULT : E_ULE, fin(a.e->k[0]), Value((u64)sc), kw);
		}
	}
	if (a.conc() && b.e && b.e->op == E_ZEXT) {
		unsigned kw = b.e->k[0]->w;
		u64 mx = maskw(~0ULL, kw);
		if (op == E_ULT || op == E_ULE) {
			if (a.c > mx) return Value((u64)0);
			return vCmp(op, Value(a.c), fin(b.e->k[0]), kw);
		}
		if (op == E_SLT || op == E_SLE) {
			i64 sc = sx(a.c, w);
			if (sc < 0) return Value((u64)1);
			if ((u64)sc > mx) return Value((u64)0);
			return vCmp(op == E_SLT ? E_ULT : E_ULE, Value((u64)sc), fin(b.e->k[0]), kw);
		}
	}
	// ite(c, K1, K2) op K
	if (b.conc() && a.e->op == E_ITE && isC(a.e->k[1]) && isC(a.e->k[2]))
		return vIte(fin(a.e->k[0]), Value(foldCmp(op, a.e->k[1]->val, b.c, w)),
			    Value(foldCmp(op, a.e->k[2]->val, b.c, w)), 1);
	if (a.conc() && b.e->op == E_ITE && isC(b.e->k[1]) && isC(b.e->k[2]))
		return vIte(fin(b.e->k[0]), Value(foldCmp(op, a.c, b.e->k[1]->val, w)),
			    Value(foldCmp(op, a.c, b.e->k[2]->val, w)), 1);
	const Expr *x = toE(a, w), *y = toE(b, w);
	if (op == E_EQ && !isC(y) && x->id > y->id)
		std::swap(x, y);
	return fin(mkE(op, 1, x, y));
}

Value vZext(Value a, unsigned from, unsigned to)
{
	if (a.conc() || from == to)
		return a;
	if (a.e->op == E_ZEXT)
		return fin(mkE(E_ZEXT, to, a.e->k[0]));
	return fin(mkE(E_ZEXT, to, a.e));
}
Value vSext(Value a, unsigned from, unsigned to)
{
	if (from == to)
		return a;
	if (a.conc())
		return Value(maskw((u64)sx(a.c, from), to));
	if (a.e->op == E_ZEXT && a.e->k[0]->w < from)
		return fin(mkE(E_ZEXT, to, a.e->k[0]));
	if (a.e->op == E_SEXT)
		return fin(mkE(E_SEXT, to, a.e->k[0]));
	return fin(mkE(E_SEXT, to, a.e));
}
Value vExtract(Value a, unsigned from, unsigned off, unsigned w)
{
	if (a.conc())
		return Value(maskw(a.c >> off, w));
	if (off == 0 && w == from)
		return a;
	const Expr *e = a.e;
	if (e->op == E_ZEXT || e->op == E_SEXT) {
		unsigned kw = e->k[0]->w;
		if (off + w <= kw)
			return vExtract(fin(e->k[0]), kw, off, w);
		if (e->op == E_ZEXT && off >= kw)
			return Value((u64)0);
		if (off == 0)
			return e->op == E_ZEXT ? vZext(fin(e->k[0]), kw, w) : vSext(fin(e->k[0]), kw, w);
	}
	if (e->op == E_CONCAT) {
		unsigned lw = e->k[1]->w;
		if (off + w <= lw)
			return vExtract(fin(e->k[1]), lw, off, w);
		if (off >= lw)
			return vExtract(fin(e->k[0]), e->k[0]->w, off - lw, w);
	}
	if (e->op == E_EXTRACT)
		return vExtract(fin(e->k[0]), e->k[0]->w, e->val + off, w);
	if (e->op == E_ITE && (isC(e->k[1]) || isC(e->k[2])))
		return vIte(fin(e->k[0]), vExtract(fin(e->k[1]), from, off, w),
			    vExtract(fin(e->k[2]), from, off, w), w);
	if (off == 0 && (e->op == E_AND || e->op == E_OR || e->op == E_XOR || e->op == E_ADD ||
			 e->op == E_SUB))
		return vBin(e->op, vExtract(fin(e->k[0]), from, 0, w),
			    vExtract(fin(e->k[1]), from, 0, w), w);
	return fin(mkE(E_EXTRACT, w, e, nullptr, nullptr, off));
}
Value vConcat(Value hi, unsigned hw, Value lo, unsigned lw)
{
	if (hi.conc() && lo.conc())
		return Value(maskw(hi.c << lw | lo.c, hw + lw));
	if (hi.conc() && hi.c == 0)
		return vZext(lo, lw, hw + lw);
	if (hi.e && lo.e && hi.e->op == E_EXTRACT && lo.e->op == E_EXTRACT &&
	    hi.e->k[0] == lo.e->k[0] && hi.e->val == lo.e->val + lw)
		return vExtract(fin(hi.e->k[0]), hi.e->k[0]->w, lo.e->val, hw + lw);
	// extract of an extended value collapses to the narrow value: recombine concat(extract(x,lw),x')
	return fin(mkE(E_CONCAT, hw + lw, toE(hi, hw), toE(lo, lw)));
}
Value vIte(Value c, Value a, Value b, unsigned w)
{
	if (c.conc())
		return c.c ? a : b;
	if (a.conc() && b.conc() && a.c == b.c)
		return a;
	if (a.e && a.e == b.e)
		return a;
	if (w == 1) {
		if (a.conc() && b.conc())
			return a.c ? c : vNot1(c);
		if (a.conc())
			return a.c ? vBin(E_OR, c, b, 1) : vBin(E_AND, vNot1(c), b, 1);
		if (b.conc())
			return b.c ? vBin(E_OR, vNot1(c), a, 1) : vBin(E_AND, c, a, 1);
	}
	return fin(mkE(E_ITE, w, c.e, toE(a, w), toE(b, w)));
}

u64 evalE(const Expr *e, const std::vector<u64> &m, u32 ep)
{
	if (e->op == E_CONST)
		return e->val;
	if (e->epoch == ep)
		return e->ev;
	u64 r;
	switch (e->op) {
	case E_SYM: r = e->val < m.size() ? maskw(m[e->val], e->w) : 0; break;
	case E_ZEXT: r = evalE(e->k[0], m, ep); break;
	case E_SEXT: r = maskw((u64)sx(evalE(e->k[0], m, ep), e->k[0]->w), e->w); break;
	case E_EXTRACT: r = maskw(evalE(e->k[0], m, ep) >> e->val, e->w); break;
	case E_CONCAT: r = evalE(e->k[0], m, ep) << e->k[1]->w | evalE(e->k[1], m, ep); break;
	case E_ITE: r = evalE(e->k[0], m, ep) ? evalE(e->k[1], m, ep) : evalE(e->k[2], m, ep); break;
	case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE:
		r = foldCmp(e->op, evalE(e->k[0], m, ep), evalE(e->k[1], m, ep), e->k[0]->w);
		break;
	default: r = foldBin(e->op, evalE(e->k[0], m, ep), evalE(e->k[1], m, ep), e->w); break;
	}
	e->epoch = ep;
	e->ev = r;
	return r;
}

std::string strE(const Expr *e, int d)
{
	static const char *n[] = {"c", "s", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^",
		"shl", "lshr", "ashr", "=", "ult", "ule", "slt", "sle", "zext", "sext", "ext", "cat", "ite"};
	if (e->op == E_CONST)
		return std::to_string(e->val);
	if (e->op == E_SYM)
		return "s" + std::to_string(e->val);
	if (d > 6)
		return "...";
	std::string s = "(";
	s += n[e->op];
	for (auto k : e->k)
		if (k)
			s += " " + strE(k, d + 1);
	return s + ")";
}

// ---------------------------------------------------------------- Z3
static void z3err(Z3_context c, Z3_error_code e)
{
	fprintf(stderr, "ENGINE-ERROR z3: %s\n", Z3_get_error_msg(c, e));
	exit(3);
}
Solver::Solver(unsigned timeout_ms)
{
	Z3_config cfg = Z3_mk_config();
	ctx = Z3_mk_context(cfg);
	Z3_set_error_handler(ctx, z3err);
	if (!getenv("SYMEX_SIMPLE"))
		slv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
	else
		slv = Z3_mk_simple_solver(ctx);
	Z3_solver_inc_ref(ctx, slv);
	Z3_params p = Z3_mk_params(ctx);
	Z3_params_inc_ref(ctx, p);
	Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeout_ms);
	Z3_solver_set_params(ctx, slv, p);
}
Z3_ast Solver::tr(const Expr *e)
{
	if (e->z3)
		return e->z3;
	Z3_ast r = nullptr;
	auto bv = [&](unsigned w) { return Z3_mk_bv_sort(ctx, w); };
	auto b2v = [&](Z3_ast b) {
		return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, bv(1)), Z3_mk_unsigned_int64(ctx, 0, bv(1)));
	};
	Z3_ast a = e->k[0] ? tr(e->k[0]) : nullptr, b = e->k[1] ? tr(e->k[1]) : nullptr,
	       c = e->k[2] ? tr(e->k[2]) : nullptr;
	switch (e->op) {
	case E_CONST: r = Z3_mk_unsigned_int64(ctx, e->val, bv(e->w)); break;
	case E_SYM: {
		char nm[32];
		snprintf(nm, sizeof nm, "s%u_%u", (unsigned)e->val, e->w);
		r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), bv(e->w));
		break;
	}
	case E_ADD: r = Z3_mk_bvadd(ctx, a, b); break;
	case E_SUB: r = Z3_mk_bvsub(ctx, a, b); break;
	case E_MUL: r = Z3_mk_bvmul(ctx, a, b); break;
	case E_UDIV: r = Z3_mk_bvudiv(ctx, a, b); break;
	case E_SDIV: r = Z3_mk_bvsdiv(ctx, a, b); break;
	case E_UREM: r = Z3_mk_bvurem(ctx, a, b); break;
	case E_SREM: r = Z3_mk_bvsrem(ctx, a, b); break;
	case E_AND: r = Z3_mk_bvand(ctx, a, b); break;
	case E_OR: r = Z3_mk_bvor(ctx, a, b); break;
	case E_XOR: r = Z3_mk_bvxor(ctx, a, b); break;
	case E_SHL: r = Z3_mk_bvshl(ctx, a, b); break;
	case E_LSHR: r = Z3_mk_bvlshr(ctx, a, b); break;
	case E_ASHR: r = Z3_mk_bvashr(ctx, a, b); break;
	case E_EQ: r = b2v(Z3_mk_eq(ctx, a, b)); break;
	case E_ULT: r = b2v(Z3_mk_bvult(ctx, a, b)); break;
	case E_ULE: r = b2v(Z3_mk_bvule(ctx, a, b)); break;
	case E_SLT: r = b2v(Z3_mk_bvslt(ctx, a, b)); break;
	case E_SLE: r = b2v(Z3_mk_bvsle(ctx, a, b)); break;
	case E_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->k[0]->w, a); break;
	case E_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, a); break;
	case E_EXTRACT: r = Z3_mk_extract(ctx, e->val + e->w - 1, e->val, a); break;
	case E_CONCAT: r = Z3_mk_concat(ctx, a, b); break;
	case E_ITE: r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, a, Z3_mk_unsigned_int64(ctx, 1, bv(1))), b, c); break;
	}
	Z3_inc_ref(ctx, r);
	e->z3 = r;
	return r;
}

int Solver::check(const std::vector<const Expr *> &pc, const Expr *extra, std::vector<u64> *model)
{
	st.queries++;
	if (extra->op == E_CONST && !extra->val)
		return 0;
	// slice: constraints transitively sharing symbols with extra
	SymSet s = extra->syms;
	std::vector<const Expr *> sl;
	std::vector<char> used(pc.size(), 0);
	bool ch = true;
	while (ch) {
		ch = false;
		for (size_t i = 0; i < pc.size(); i++) {
			if (used[i] || (pc[i]->syms & s).none())
				continue;
			used[i] = 1;
			sl.push_back(pc[i]);
			if ((pc[i]->syms & ~s).any()) {
				s |= pc[i]->syms;
				ch = true;
			}
		}
	}
	sl.push_back(extra);
	std::sort(sl.begin(), sl.end(), [](const Expr *a, const Expr *b) { return a->id < b->id; });
	sl.erase(std::unique(sl.begin(), sl.end()), sl.end());
	std::string key;
	key.reserve(sl.size() * 4);
	for (auto e : sl)
		key.append((const char *)&e->id, 4);
	auto it = cache.find(key);
	if (it == cache.end()) {
		auto t0 = std::chrono::steady_clock::now();
		st.z3calls++;
		static const bool dumpq = getenv("SYMEX_DUMPQ");
		if (dumpq && st.z3calls % 500 == 0) {
			fprintf(stderr, "QUERY %llu\n", (unsigned long long)st.z3calls);
			for (auto e : sl)
				fprintf(stderr, "  %s\n", strE(e).c_str());
		}
		Z3_solver_push(ctx, slv);
		Z3_ast one = Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1));
		for (auto e : sl)
			Z3_solver_assert(ctx, slv, Z3_mk_eq(ctx, tr(e), one));
		Z3_lbool r = Z3_solver_check(ctx, slv);
		std::pair<int, std::vector<std::pair<u32, u64>>> res;
		if (r == Z3_L_TRUE) {
			st.sat++;
			res.first = 1;
			Z3_model m = Z3_solver_get_model(ctx, slv);
			Z3_model_inc_ref(ctx, m);
			for (int i = 0; i < MAXSYM; i++) {
				if (!s[i])
					continue;
				Z3_ast v = nullptr;
				u64 val = 0;
				if (Z3_model_eval(ctx, m, tr(mkSym(i, g_symw[i])), true, &v)) {
					Z3_inc_ref(ctx, v);
					Z3_get_numeral_uint64(ctx, v, (uint64_t *)&val);
					Z3_dec_ref(ctx, v);
				}
				res.second.push_back({(u32)i, val});
			}
			Z3_model_dec_ref(ctx, m);
		} else if (r == Z3_L_FALSE) {
			st.unsat++;
			res.first = 0;
		} else {
			st.unknown++;
			res.first = -1;
		}
		Z3_solver_pop(ctx, slv, 1);
		st.secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
		it = cache.emplace(std::move(key), std::move(res)).first;
	} else
		st.cachehits++;
	if (it->second.first == 1 && model) {
		for (auto &p : it->second.second) {
			if (model->size() <= p.first)
				model->resize(p.first + 1, 0);
			(*model)[p.first] = p.second;
		}
	}
	return it->second.first;
}
