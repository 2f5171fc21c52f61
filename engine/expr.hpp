// Bit-vector expression DAG: hash-consed, locally simplified, translated to Z3 on demand.
#pragma once
#include <algorithm>
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/StringRef.h>
#include <z3.h>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace sx {
using llvm::APInt;

enum Op : uint8_t {
	Const, Var,
	Add, Sub, Mul, UDiv, SDiv, URem, SRem,
	And, Or, Xor, Shl, LShr, AShr,
	Eq, Ult, Ule, Slt, Sle,
	Ite, Concat, Extract, ZExt, SExt,
	// floating point: operands and results are bit patterns (w = 32 or 64)
	FAdd, FSub, FMul, FDiv, FSqrt, FFma, FRint, // FRint: aux = rounding mode (0 RNE,1 RNA,2 RTP,3 RTN,4 RTZ)
	FEq, FLt, FLe, FUno,
	FToS, FToU, SToF, UToF, FExt, FTrunc,
};

struct Node {
	Op op;
	uint16_t w;
	uint8_t nk;
	uint32_t aux; // Extract: low bit; FRint: mode; Var: index
	uint32_t id;
	const Node* k[3];
	APInt c; // Const
	bool hasFP = false;
	uint16_t bits = 0; // > 0: this is a sum (mod 2^w) of that many zero-extended 1-bit terms
	mutable Z3_ast zbv = nullptr;
	mutable Z3_ast zbool = nullptr;
	bool isConst() const { return op == Const; }
	uint64_t u() const { return c.getZExtValue(); }
	bool isZero() const { return op == Const && c.isZero(); }
	bool isOnes() const { return op == Const && c.isAllOnes(); }
	bool isTrue() const { return op == Const && c.isOne() && w == 1; }
	bool isFalse() const { return op == Const && c.isZero() && w == 1; }
};
using N = const Node*;

struct VarInfo { std::string name; unsigned w; };

struct Ctx {
	std::vector<VarInfo> vars;
	std::vector<N> varNodes;
	uint32_t nextId = 1;
	bool usesFP = false;

	struct Key { Op op; uint16_t w; uint32_t aux; N k[3]; };
	struct KeyHash { size_t operator()(const Key& a) const {
		size_t h = a.op * 1000003u + a.w * 7919u + a.aux * 2654435761u;
		for (int i = 0; i < 3; ++i) h = h * 1099511628211ull + (a.k[i] ? a.k[i]->id : 0);
		return h; } };
	struct KeyEq { bool operator()(const Key& a, const Key& b) const {
		return a.op == b.op && a.w == b.w && a.aux == b.aux && a.k[0] == b.k[0] && a.k[1] == b.k[1] && a.k[2] == b.k[2]; } };
	std::unordered_map<Key, N, KeyHash, KeyEq> tab;
	struct CKey { unsigned w; uint64_t v; bool operator==(const CKey& o) const { return w == o.w && v == o.v; } };
	struct CHash { size_t operator()(const CKey& a) const { return a.v * 0x9E3779B97F4A7C15ull + a.w; } };
	std::unordered_map<CKey, N, CHash> ctab;
	std::unordered_map<std::string, N> bigctab;

	N C(unsigned w, uint64_t v) {
		if (w < 64) v &= (uint64_t(1) << w) - 1;
		if (w > 64) return C(APInt(w, v));
		auto& slot = ctab[CKey{w, v}];
		if (!slot) { auto* n = new Node(); n->op = Const; n->w = (uint16_t)w; n->nk = 0; n->aux = 0; n->id = nextId++; n->k[0] = n->k[1] = n->k[2] = nullptr; n->c = APInt(w, v); slot = n; }
		return slot;
	}
	N C(const APInt& v) {
		if (v.getBitWidth() <= 64) return C(v.getBitWidth(), v.getZExtValue());
		llvm::SmallString<64> s; v.toString(s, 16, false);
		std::string key = std::to_string(v.getBitWidth()) + ":" + std::string(s.str());
		auto& slot = bigctab[key];
		if (!slot) { auto* n = new Node(); n->op = Const; n->w = (uint16_t)v.getBitWidth(); n->nk = 0; n->aux = 0; n->id = nextId++; n->k[0] = n->k[1] = n->k[2] = nullptr; n->c = v; slot = n; }
		return slot;
	}
	N B(bool b) { return C(1, b); }
	N newVar(const std::string& name, unsigned w) {
		auto* n = new Node(); n->op = Var; n->w = (uint16_t)w; n->nk = 0; n->aux = (uint32_t)vars.size(); n->id = nextId++; n->k[0] = n->k[1] = n->k[2] = nullptr;
		vars.push_back({name, w}); varNodes.push_back(n);
		return n;
	}
	static bool fits(uint64_t v, unsigned w) { return w >= 32 || v < (1ull << w); }
	N raw(Op op, unsigned w, uint32_t aux, N a, N b = nullptr, N c = nullptr) {
		Key key{op, (uint16_t)w, aux, {a, b, c}};
		auto& slot = tab[key];
		if (!slot) {
			auto* n = new Node(); n->op = op; n->w = (uint16_t)w; n->aux = aux; n->id = nextId++;
			n->k[0] = a; n->k[1] = b; n->k[2] = c; n->nk = a ? (b ? (c ? 3 : 2) : 1) : 0;
			n->hasFP = op >= FAdd || (a && a->hasFP) || (b && b->hasFP) || (c && c->hasFP);
			if (op == ZExt && !a->isConst()) n->bits = a->w == 1 ? 1 : (a->bits && fits(a->bits, a->w) ? a->bits : 0);
			else if (op == Add && a->bits && b->bits && a->bits + b->bits < 1024) n->bits = a->bits + b->bits;
			slot = n;
		}
		return slot;
	}

	// ---------- constant folding ----------
	static float asF(const APInt& v) { uint32_t b = (uint32_t)v.getZExtValue(); float f; memcpy(&f, &b, 4); return f; }
	static double asD(const APInt& v) { uint64_t b = v.getZExtValue(); double f; memcpy(&f, &b, 8); return f; }
	static APInt ofF(float f) { uint32_t b; memcpy(&b, &f, 4); return APInt(32, b); }
	static APInt ofD(double f) { uint64_t b; memcpy(&b, &f, 8); return APInt(64, b); }
	static bool foldable(Op op, const APInt* b) {
		if ((op == UDiv || op == SDiv || op == URem || op == SRem) && b->isZero()) return false;
		return true;
	}
	// total semantics (SMT-LIB for division by zero)
	static APInt fold(Op op, unsigned w, uint32_t aux, const APInt* a, const APInt* b, const APInt* c) {
		auto bl = [](bool x) { return APInt(1, x); };
		switch (op) {
			case Add: return *a + *b; case Sub: return *a - *b; case Mul: return *a * *b;
			case UDiv: return b->isZero() ? APInt::getAllOnes(w) : a->udiv(*b);
			case URem: return b->isZero() ? *a : a->urem(*b);
			case SDiv: return b->isZero() ? (a->isNegative() ? APInt(w, 1) : APInt::getAllOnes(w)) : a->sdiv(*b);
			case SRem: return b->isZero() ? *a : a->srem(*b);
			case And: return *a & *b; case Or: return *a | *b; case Xor: return *a ^ *b;
			case Shl: return b->uge(w) ? APInt(w, 0) : a->shl(*b);
			case LShr: return b->uge(w) ? APInt(w, 0) : a->lshr(*b);
			case AShr: return b->uge(w) ? (a->isNegative() ? APInt::getAllOnes(w) : APInt(w, 0)) : a->ashr(*b);
			case Eq: return bl(*a == *b); case Ult: return bl(a->ult(*b)); case Ule: return bl(a->ule(*b));
			case Slt: return bl(a->slt(*b)); case Sle: return bl(a->sle(*b));
			case Ite: return a->isZero() ? *c : *b;
			case Concat: return a->concat(*b);
			case Extract: return a->extractBits(w, aux);
			case ZExt: return a->zext(w); case SExt: return a->sext(w);
			case FAdd: return w == 32 ? ofF(asF(*a) + asF(*b)) : ofD(asD(*a) + asD(*b));
			case FSub: return w == 32 ? ofF(asF(*a) - asF(*b)) : ofD(asD(*a) - asD(*b));
			case FMul: return w == 32 ? ofF(asF(*a) * asF(*b)) : ofD(asD(*a) * asD(*b));
			case FDiv: return w == 32 ? ofF(asF(*a) / asF(*b)) : ofD(asD(*a) / asD(*b));
			case FSqrt: return w == 32 ? ofF(std::sqrt(asF(*a))) : ofD(std::sqrt(asD(*a)));
			case FFma: return w == 32 ? ofF(std::fma(asF(*a), asF(*b), asF(*c))) : ofD(std::fma(asD(*a), asD(*b), asD(*c)));
			case FRint: {
				auto r = [&](auto x) { switch (aux) { case 0: return std::nearbyint(x); case 1: return std::round(x); case 2: return std::ceil(x); case 3: return std::floor(x); default: return std::trunc(x); } };
				return w == 32 ? ofF((float)r(asF(*a))) : ofD((double)r(asD(*a))); }
			case FEq: return bl(a->getBitWidth() == 32 ? asF(*a) == asF(*b) : asD(*a) == asD(*b));
			case FLt: return bl(a->getBitWidth() == 32 ? asF(*a) < asF(*b) : asD(*a) < asD(*b));
			case FLe: return bl(a->getBitWidth() == 32 ? asF(*a) <= asF(*b) : asD(*a) <= asD(*b));
			case FUno: return bl(a->getBitWidth() == 32 ? (std::isnan(asF(*a)) || std::isnan(asF(*b))) : (std::isnan(asD(*a)) || std::isnan(asD(*b))));
			case FToS: case FToU: {
				double d = a->getBitWidth() == 32 ? (double)asF(*a) : asD(*a);
				if (std::isnan(d) || std::isinf(d)) return APInt(w, 0);
				d = std::trunc(d);
				bool neg = d < 0; if (neg) d = -d;
				// exact for |d| < 2^128
				int e; double m = std::frexp(d, &e);
				APInt v(192, (uint64_t)std::ldexp(m, 53)); // d = m * 2^e
				if (e >= 53) v = (e - 53 < 190) ? v.shl(e - 53) : APInt(192, 0); else v = v.lshr(53 - e);
				if (neg) v = -v;
				return v.trunc(w); }
			case SToF: case UToF: {
				// correctly rounded through long double is not enough for 128 bits; 64 bits are exact in x87 long double
				long double ld = op == SToF ? (long double)a->getSExtValue() : (long double)a->getZExtValue();
				return w == 32 ? ofF((float)ld) : ofD((double)ld); }
			case FExt: return ofD((double)asF(*a));
			case FTrunc: return ofF((float)asD(*a));
			default: abort();
		}
	}

	// ---------- smart constructors ----------
	N mk(Op op, unsigned w, uint32_t aux, N a, N b = nullptr, N c = nullptr) {
		if (op >= FAdd) usesFP = true;
		if (a->isConst() && (!b || b->isConst()) && (!c || c->isConst()))
			return C(fold(op, w, aux, &a->c, b ? &b->c : nullptr, c ? &c->c : nullptr));
		return raw(op, w, aux, a, b, c);
	}

	N extract(N a, unsigned lo, unsigned w) {
		if (w == a->w) return a;
		switch (a->op) {
			case Const: return C(a->c.extractBits(w, lo));
			case Extract: return extract(a->k[0], a->aux + lo, w);
			case Concat: {
				unsigned lw = a->k[1]->w;
				if (lo + w <= lw) return extract(a->k[1], lo, w);
				if (lo >= lw) return extract(a->k[0], lo - lw, w);
				return concat(extract(a->k[0], 0, lo + w - lw), extract(a->k[1], lo, lw - lo));
			}
			case ZExt: {
				unsigned sw = a->k[0]->w;
				if (lo + w <= sw) return extract(a->k[0], lo, w);
				if (lo >= sw) return C(w, 0);
				return zext(extract(a->k[0], lo, sw - lo), w);
			}
			case SExt: {
				unsigned sw = a->k[0]->w;
				if (lo + w <= sw) return extract(a->k[0], lo, w);
				if (lo < sw && lo + w > sw) return sext(extract(a->k[0], lo, sw - lo), w);
				return sext(extract(a->k[0], sw - 1, 1), w);
			}
			case And: case Or: case Xor:
				return bitop(a->op, extract(a->k[0], lo, w), extract(a->k[1], lo, w));
			case Ite:
				if (a->k[1]->isConst() || a->k[2]->isConst())
					return ite(a->k[0], extract(a->k[1], lo, w), extract(a->k[2], lo, w));
				break;
			case Add: case Sub: case Mul:
				if (lo == 0 && a->bits) { std::vector<N> t; bitTerms(a, t); if (w > 1) return bitSum(t, w); }
				if (lo == 0 && (a->op != Mul || (narrows(a->k[0], w) && narrows(a->k[1], w)))) { N x = extract(a->k[0], 0, w), y = extract(a->k[1], 0, w); return a->op == Add ? add(x, y) : a->op == Sub ? sub(x, y) : mul(x, y); }
				break;
			default: break;
		}
		return raw(Extract, w, lo, a);
	}
	// a multiplication is only cut where that removes work: otherwise one product would appear at several widths
	bool narrows(N a, unsigned w) { return a->isConst() || ((a->op == ZExt || a->op == SExt) && a->k[0]->w <= w); }
	N concat(N hi, N lo) {
		unsigned w = hi->w + lo->w;
		if (hi->isConst() && lo->isConst()) return C(hi->c.concat(lo->c));
		if (hi->isZero()) return zext(lo, w);
		if (hi->op == Extract && lo->op == Extract && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w) return extract(hi->k[0], lo->aux, w);
		// merge into a right-nested form: concat(a, concat(b, c)) where a,b mergeable
		if (lo->op == Concat) {
			N b = lo->k[0];
			if ((hi->isConst() && b->isConst()) || (hi->op == Extract && b->op == Extract && hi->k[0] == b->k[0] && hi->aux == b->aux + b->w))
				return concat(concat(hi, b), lo->k[1]);
		}
		if (lo->op == ZExt && hi->isConst()) // const ++ 0 ++ x
			return concat(concat(hi, C(lo->w - lo->k[0]->w, 0)), lo->k[0]);
		if (hi->op == Concat) // right-nest
			return concat(hi->k[0], concat(hi->k[1], lo));
		if (hi->op == ZExt) {
			return zext(concat(hi->k[0], lo), w);
		}
		return raw(Concat, w, 0, hi, lo);
	}
	N zext(N a, unsigned w) {
		if (a->w == w) return a;
		if (a->isConst()) return C(a->c.zext(w));
		if (a->op == ZExt) return zext(a->k[0], w);
		if (a->op == Add && a->bits && fits(a->bits, a->w)) { std::vector<N> t; bitTerms(a, t); return bitSum(t, w); }
		if (a->op == Add && a->k[1]->isConst() && a->k[0]->bits && a->k[1]->c.ult(2048) && fits(a->k[0]->bits + a->k[1]->u(), a->w)) return add(zext(a->k[0], w), zext(a->k[1], w));
		return raw(ZExt, w, 0, a);
	}
	N sext(N a, unsigned w) {
		if (a->w == w) return a;
		if (a->isConst()) return C(a->c.sext(w));
		if (a->op == SExt) return sext(a->k[0], w);
		if (a->op == ZExt) return zext(a->k[0], w);
		if (a->op == Add && a->bits && fits(a->bits, a->w - 1)) { std::vector<N> t; bitTerms(a, t); return bitSum(t, w); }
		if (a->op == Add && a->k[1]->isConst() && a->k[0]->bits && a->k[1]->c.ult(2048) && fits(a->k[0]->bits + a->k[1]->u(), a->w - 1)) return add(zext(a->k[0], w), zext(a->k[1], w));
		return raw(SExt, w, 0, a);
	}
	N notN(N a) { return bitop(Xor, a, C(APInt::getAllOnes(a->w))); }

	bool piecewise(N a) { return a->op == Concat || a->op == ZExt || a->op == Const; }
	// boundaries of the top-level pieces, from low to high
	void pieces(N a, std::vector<unsigned>& cut, unsigned base) {
		if (a->op == Concat) { pieces(a->k[1], cut, base); cut.push_back(base + a->k[1]->w); pieces(a->k[0], cut, base + a->k[1]->w); }
		else if (a->op == ZExt) { pieces(a->k[0], cut, base); cut.push_back(base + a->k[0]->w); }
		else if (a->op == Const) {
			unsigned runs = 0; std::vector<unsigned> cc;
			for (unsigned i = 1; i < a->w; ++i) if (a->c[i] != a->c[i - 1]) { cc.push_back(base + i); ++runs; }
			if (runs <= 6) for (auto x : cc) cut.push_back(x);
		}
	}
	N bitop(Op op, N a, N b) {
		unsigned w = a->w;
		if (a->isConst() && b->isConst()) return C(fold(op, w, 0, &a->c, &b->c, nullptr));
		if (a->isConst()) std::swap(a, b);
		else if (!b->isConst() && a->id > b->id) std::swap(a, b);
		if (b->isConst()) {
			if (b->isZero()) return op == And ? b : a;
			if (b->isOnes()) { if (op == And) return a; if (op == Or) return b;
				// not
				if (w == 1) {
					if (a->op == Ult) return ule(a->k[1], a->k[0]);
					if (a->op == Ule) return ult(a->k[1], a->k[0]);
					if (a->op == Slt) return sle(a->k[1], a->k[0]);
					if (a->op == Sle) return slt(a->k[1], a->k[0]);
				}
				if (a->op == Xor && a->k[1]->isOnes()) return a->k[0];
			}
			if (a->op == op && a->k[1]->isConst()) return bitop(op, a->k[0], C(fold(op, w, 0, &a->k[1]->c, &b->c, nullptr)));
			if (a->op == Ite && (a->k[1]->isConst() && a->k[2]->isConst())) return ite(a->k[0], bitop(op, a->k[1], b), bitop(op, a->k[2], b));
		}
		if (a == b) return op == Xor ? C(w, 0) : a;
		if (w == 1 && op != Xor) {
			if (notN1(a, b)) return op == And ? B(false) : B(true);
		}
		if (op == And || op == Or) { // absorption
			if (b->op == op && (b->k[0] == a || b->k[1] == a)) return b;
			if (a->op == op && (a->k[0] == b || a->k[1] == b)) return a;
		}
		if (w > 1 && (piecewise(a) || piecewise(b)) && !(op == Xor && b->isOnes() && !piecewise(a))) {
			std::vector<unsigned> cut;
			pieces(a, cut, 0); pieces(b, cut, 0);
			std::sort(cut.begin(), cut.end()); cut.erase(std::unique(cut.begin(), cut.end()), cut.end());
			if (!cut.empty()) {
				cut.push_back(w);
				N res = nullptr; unsigned lo = 0; bool worth = op == Xor && w >= 32 && cut.size() <= 4 && !a->isConst() && !b->isConst();
				std::vector<std::pair<N, N>> segs;
				for (unsigned hi : cut) {
					N x = extract(a, lo, hi - lo), y = extract(b, lo, hi - lo);
					if ((x->isConst() && (x->isZero() || x->isOnes())) || (y->isConst() && (y->isZero() || y->isOnes()))) worth = true;
					segs.push_back({x, y}); lo = hi;
				}
				if (worth) {
					for (auto& s : segs) { N r = bitop(op, s.first, s.second); res = res ? concat(r, res) : r; }
					return res;
				}
			}
		}
		// exclusive-or chains of words have one canonical form (sorted leaves, pairs cancelled)
		if (op == Xor && w >= 32 && (a->op == Xor || b->op == Xor)) {
			std::vector<N> t; xorTerms(a, t); xorTerms(b, t);
			if (t.size() <= 8) {
				APInt k(w, 0); std::vector<N> v;
				for (N x : t) if (x->isConst()) k ^= x->c; else v.push_back(x);
				std::sort(v.begin(), v.end(), [](N x, N y) { return x->id < y->id; });
				std::vector<N> u; for (N x : v) if (!u.empty() && u.back() == x) u.pop_back(); else u.push_back(x);
				N r = nullptr; for (N x : u) r = r ? raw(Xor, w, 0, r, x) : x;
				if (!r) return C(k);
				return k.isZero() ? r : raw(Xor, w, 0, r, C(k));
			}
		}
		return raw(op, w, 0, a, b);
	}
	void xorTerms(N a, std::vector<N>& out) { if (a->op == Xor && out.size() <= 8) { xorTerms(a->k[0], out); xorTerms(a->k[1], out); } else out.push_back(a); }
	bool notN1(N a, N b) { return (a->op == Xor && a->k[1]->isOnes() && a->k[0] == b) || (b->op == Xor && b->k[1]->isOnes() && b->k[0] == a); }

	// sums of single bits are kept in one canonical form (sorted terms, balanced, narrow)
	void bitTerms(N a, std::vector<N>& out) {
		if (a->op == ZExt) { if (a->k[0]->w == 1) out.push_back(a->k[0]); else bitTerms(a->k[0], out); }
		else { bitTerms(a->k[0], out); bitTerms(a->k[1], out); }
	}
	N bitSum(std::vector<N>& t, unsigned w) {
		std::sort(t.begin(), t.end(), [](N x, N y) { return x->id < y->id; });
		unsigned rw = 1; while ((1u << rw) <= t.size()) ++rw;
		if (rw > w) rw = w;
		std::vector<N> v; for (N x : t) v.push_back(raw(ZExt, rw, 0, x));
		while (v.size() > 1) { std::vector<N> y; for (size_t i = 0; i + 1 < v.size(); i += 2) y.push_back(raw(Add, rw, 0, v[i], v[i + 1])); if (v.size() & 1) y.push_back(v.back()); v.swap(y); }
		return rw < w ? raw(ZExt, w, 0, v[0]) : v[0];
	}
	N add(N a, N b) {
		if (a->bits && b->bits && a->w > 1 && a->bits + b->bits < 1024) { std::vector<N> t; bitTerms(a, t); bitTerms(b, t); return bitSum(t, a->w); }
		if (a->isConst() && b->isConst()) return C(a->c + b->c);
		if (a->isConst()) std::swap(a, b); else if (!b->isConst() && a->id > b->id) std::swap(a, b);
		if (b->isZero()) return a;
		if (b->isConst() && a->op == Add && a->k[1]->isConst()) return add(a->k[0], C(a->k[1]->c + b->c));
		if (b->isConst() && a->op == Ite && a->k[1]->isConst() && a->k[2]->isConst()) return ite(a->k[0], add(a->k[1], b), add(a->k[2], b));
		if (a->w == 1) return bitop(Xor, a, b);
		if (a->op == Add && a->k[1]->isConst()) return add(add(a->k[0], b), a->k[1]);
		if (b->op == Add && b->k[1]->isConst()) return add(add(a, b->k[0]), b->k[1]);
		return raw(Add, a->w, 0, a, b);
	}
	N sub(N a, N b) {
		if (a->isConst() && b->isConst()) return C(a->c - b->c);
		if (b->isConst()) return add(a, C(-b->c));
		if (a == b) return C(a->w, 0);
		if (a->w == 1) return bitop(Xor, a, b);
		if (a->op == Add) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; }
		if (a->op == Add && b->op == Add && a->k[1]->isConst() && b->k[1]->isConst()) return add(sub(a->k[0], b->k[0]), C(a->k[1]->c - b->k[1]->c));
		if (a->isConst() && b->op == Ite && b->k[1]->isConst() && b->k[2]->isConst()) return ite(b->k[0], sub(a, b->k[1]), sub(a, b->k[2]));
		return raw(Sub, a->w, 0, a, b);
	}
	N mul(N a, N b) {
		if (a->isConst() && b->isConst()) return C(a->c * b->c);
		if (a->isConst()) std::swap(a, b); else if (!b->isConst() && a->id > b->id) std::swap(a, b);
		if (b->isZero()) return b;
		if (b->isConst() && b->c.isOne()) return a;
		if (a->w == 1) return bitop(And, a, b);
		if (b->isConst() && b->c.isPowerOf2()) return shl(a, C(a->w, b->c.logBase2()));
		return raw(Mul, a->w, 0, a, b);
	}
	N udiv(N a, N b) {
		if (b->isConst() && b->c.isPowerOf2()) return lshr(a, C(a->w, b->c.logBase2()));
		return mk(UDiv, a->w, 0, a, b);
	}
	N urem(N a, N b) {
		if (b->isConst() && b->c.isPowerOf2()) return bitop(And, a, C(b->c - 1));
		return mk(URem, a->w, 0, a, b);
	}
	N shl(N a, N b) {
		unsigned w = a->w;
		if (b->isConst()) {
			if (b->c.uge(w)) return C(w, 0);
			unsigned s = (unsigned)b->u();
			if (s == 0) return a;
			return concat(extract(a, 0, w - s), C(s, 0));
		}
		return mk(Shl, w, 0, a, b);
	}
	N lshr(N a, N b) {
		unsigned w = a->w;
		if (b->isConst()) {
			if (b->c.uge(w)) return C(w, 0);
			unsigned s = (unsigned)b->u();
			if (s == 0) return a;
			return zext(extract(a, s, w - s), w);
		}
		return mk(LShr, w, 0, a, b);
	}
	N ashr(N a, N b) {
		unsigned w = a->w;
		if (b->isConst()) {
			unsigned s = b->c.uge(w) ? w - 1 : (unsigned)b->u();
			if (s == 0) return a;
			return sext(extract(a, s, w - s), w);
		}
		return mk(AShr, w, 0, a, b);
	}
	N eq(N a, N b) {
		if (a == b) return B(true);
		if (a->isConst() && b->isConst()) return B(a->c == b->c);
		if (a->isConst()) std::swap(a, b); else if (!b->isConst() && a->id > b->id) std::swap(a, b);
		if (a->w == 1) return notN(bitop(Xor, a, b));
		if (b->isConst()) {
			if (a->op == ZExt) {
				unsigned sw = a->k[0]->w;
				if (b->c.getActiveBits() > sw) return B(false);
				return eq(a->k[0], C(b->c.trunc(sw)));
			}
			if (a->op == SExt) {
				unsigned sw = a->k[0]->w;
				if (b->c.trunc(sw).sext(a->w) != b->c) return B(false);
				return eq(a->k[0], C(b->c.trunc(sw)));
			}
			if (a->op == Concat) {
				unsigned lw = a->k[1]->w;
				N h = eq(a->k[0], C(b->c.extractBits(a->w - lw, lw)));
				if (h->isFalse()) return h;
				N l = eq(a->k[1], C(b->c.extractBits(lw, 0)));
				return bitop(And, h, l);
			}
			if (a->op == Ite) {
				bool c1 = a->k[1]->isConst(), c2 = a->k[2]->isConst();
				if (c1 || c2) return ite(a->k[0], eq(a->k[1], b), eq(a->k[2], b));
			}
			if (a->op == Add && a->k[1]->isConst()) return eq(a->k[0], C(b->c - a->k[1]->c));
			if (a->op == Xor && a->k[1]->isConst()) return eq(a->k[0], C(b->c ^ a->k[1]->c));
		} else {
			if (a->op == ZExt && b->op == ZExt && a->k[0]->w == b->k[0]->w) return eq(a->k[0], b->k[0]);
			if (a->op == Concat && b->op == Concat && a->k[1]->w == b->k[1]->w)
				return bitop(And, eq(a->k[0], b->k[0]), eq(a->k[1], b->k[1]));
			if (a->op == Add && (a->k[0] == b || a->k[1] == b)) return eq(a->k[0] == b ? a->k[1] : a->k[0], C(a->w, 0));
			if (b->op == Add && (b->k[0] == a || b->k[1] == a)) return eq(b->k[0] == a ? b->k[1] : b->k[0], C(a->w, 0));
		}
		return raw(Eq, 1, 0, a, b);
	}
	N ult(N a, N b) {
		if (a == b) return B(false);
		if (a->isConst() && b->isConst()) return B(a->c.ult(b->c));
		if (b->isZero()) return B(false);
		if (a->isOnes()) return B(false);
		if (b->isConst() && b->c.isOne()) return eq(a, C(a->w, 0));
		if (a->isZero()) return notN(eq(b, a));
		if (a->op == ZExt && b->isConst()) {
			unsigned sw = a->k[0]->w;
			if (b->c.getActiveBits() > sw) return B(true);
			return ult(a->k[0], C(b->c.trunc(sw)));
		}
		if (b->op == ZExt && a->isConst()) {
			unsigned sw = b->k[0]->w;
			if (a->c.getActiveBits() > sw) return B(false);
			return ult(C(a->c.trunc(sw)), b->k[0]);
		}
		if (a->op == ZExt && b->op == ZExt && a->k[0]->w == b->k[0]->w) return ult(a->k[0], b->k[0]);
		return raw(Ult, 1, 0, a, b);
	}
	N ule(N a, N b) {
		if (a == b) return B(true);
		if (a->isConst() && b->isConst()) return B(a->c.ule(b->c));
		if (a->isZero() || b->isOnes()) return B(true);
		if (b->isZero()) return eq(a, b);
		if (b->isConst()) return ult(a, C(b->c + 1));
		if (a->isConst()) return ult(C(a->c - 1), b);
		if (a->op == ZExt && b->op == ZExt && a->k[0]->w == b->k[0]->w) return ule(a->k[0], b->k[0]);
		return raw(Ule, 1, 0, a, b);
	}
	N slt(N a, N b) {
		if (a == b) return B(false);
		if (a->isConst() && b->isConst()) return B(a->c.slt(b->c));
		if (a->op == ZExt && b->op == ZExt) return ult(a, b);
		if (a->op == ZExt && b->isConst()) return b->c.isNegative() ? B(false) : ult(a, b);
		if (b->op == ZExt && a->isConst()) return a->c.isNegative() ? B(true) : ult(a, b);
		if (a->op == SExt && b->op == SExt && a->k[0]->w == b->k[0]->w) return slt(a->k[0], b->k[0]);
		return raw(Slt, 1, 0, a, b);
	}
	N sle(N a, N b) {
		if (a == b) return B(true);
		if (a->isConst() && b->isConst()) return B(a->c.sle(b->c));
		if (a->op == ZExt && b->op == ZExt) return ule(a, b);
		if (a->op == ZExt && b->isConst()) return b->c.isNegative() ? B(false) : ule(a, b);
		if (b->op == ZExt && a->isConst()) return a->c.isNegative() ? B(true) : ule(a, b);
		if (a->op == SExt && b->op == SExt && a->k[0]->w == b->k[0]->w) return sle(a->k[0], b->k[0]);
		return raw(Sle, 1, 0, a, b);
	}
	N ite(N c, N a, N b) {
		if (c->isConst()) return c->c.isZero() ? b : a;
		if (a == b) return a;
		if (a->w == 1) {
			if (a->isTrue() && b->isFalse()) return c;
			if (a->isFalse() && b->isTrue()) return notN(c);
			if (a->isTrue()) return bitop(Or, c, b);
			if (b->isFalse()) return bitop(And, c, a);
			if (a->isFalse()) return bitop(And, notN(c), b);
			if (b->isTrue()) return bitop(Or, notN(c), a);
		}
		if (c->op == Xor && c->k[1]->isOnes()) return ite(c->k[0], b, a);
		if (a->op == Ite && a->k[0] == c) a = a->k[1];
		if (b->op == Ite && b->k[0] == c) b = b->k[2];
		if (a == b) return a;
		if (a->isConst() && b->isConst() && a->c.isOne() && b->isZero()) return zext(c, a->w);
		// a counter that is, or is not, advanced
		if (a->op == Add && a->k[1]->isConst() && a->k[1]->c.isOne() && a->k[0] == b) return add(b, zext(c, a->w));
		if (b->op == Add && b->k[1]->isConst() && b->k[1]->c.isOne() && b->k[0] == a) return add(a, zext(notN(c), a->w));
		if (a->op == Add && b->op == Add && a->k[0] == b->k[0] && a->k[1]->isConst() && b->k[1]->isConst()) {
			if ((a->k[1]->c - b->k[1]->c).isOne()) return add(b, zext(c, a->w));
			if ((b->k[1]->c - a->k[1]->c).isOne()) return add(a, zext(notN(c), a->w));
		}
		return raw(Ite, a->w, 0, c, a, b);
	}
	N bin(Op op, N a, N b) {
		switch (op) {
			case Add: return add(a, b); case Sub: return sub(a, b); case Mul: return mul(a, b);
			case And: case Or: case Xor: return bitop(op, a, b);
			case Shl: return shl(a, b); case LShr: return lshr(a, b); case AShr: return ashr(a, b);
			case UDiv: return udiv(a, b); case URem: return urem(a, b);
			default: return mk(op, a->w, 0, a, b);
		}
	}
	// minimum number of trailing zero bits
	unsigned tz(N a, int depth = 0) {
		if (depth > 12) return 0;
		switch (a->op) {
			case Const: return a->c.isZero() ? a->w : a->c.countr_zero();
			case Concat: { unsigned l = tz(a->k[1], depth + 1); return l < a->k[1]->w ? l : l + tz(a->k[0], depth + 1); }
			case ZExt: case SExt: { unsigned l = tz(a->k[0], depth + 1); return l < a->k[0]->w ? l : a->w; }
			case Add: case Sub: case Or: case Xor: return std::min(tz(a->k[0], depth + 1), tz(a->k[1], depth + 1));
			case And: return std::max(tz(a->k[0], depth + 1), tz(a->k[1], depth + 1));
			case Mul: return std::min<unsigned>(a->w, tz(a->k[0], depth + 1) + tz(a->k[1], depth + 1));
			case Ite: return std::min(tz(a->k[1], depth + 1), tz(a->k[2], depth + 1));
			case Shl: return tz(a->k[0], depth + 1);
			default: return 0;
		}
	}
};

struct Model {
	std::unordered_map<uint32_t, APInt> vals; // var index -> value (absent = 0)
	mutable std::unordered_map<N, APInt> memo;
	const APInt& eval(N n) const {
		auto it = memo.find(n);
		if (it != memo.end()) return it->second;
		if (n->op == Const) return n->c;
		// iterative post-order
		std::vector<N> st{n};
		while (!st.empty()) {
			N x = st.back();
			if (x->op == Const || memo.count(x)) { st.pop_back(); continue; }
			if (x->op == Var) { auto v = vals.find(x->aux); memo.emplace(x, v == vals.end() ? APInt(x->w, 0) : v->second); st.pop_back(); continue; }
			bool ready = true;
			for (int i = 0; i < x->nk; ++i) if (x->k[i]->op != Const && !memo.count(x->k[i])) { st.push_back(x->k[i]); ready = false; }
			if (!ready) continue;
			auto get = [&](int i) -> const APInt* { if (i >= x->nk) return nullptr; return x->k[i]->op == Const ? &x->k[i]->c : &memo.find(x->k[i])->second; };
			APInt r = Ctx::fold(x->op, x->w, x->aux, get(0), get(1), get(2));
			memo.emplace(x, r); st.pop_back();
		}
		return memo.find(n)->second;
	}
	bool isTrue(N n) const { return !eval(n).isZero(); }
};
} // namespace sx
