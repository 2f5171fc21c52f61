// Z3 back end (in-process, incremental) with an external portfolio fallback.
#pragma once
#include "expr.hpp"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <unistd.h>

namespace sx {
struct PC { N cond; std::shared_ptr<const PC> parent; unsigned depth; };
using PCP = std::shared_ptr<const PC>;
enum class Res { Sat, Unsat, Unknown };

struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, external = 0; double time = 0, maxTime = 0; };

class Solver {
public:
	Ctx& cx;
	Z3_context z;
	Z3_solver inc = nullptr;
	std::vector<PCP> stack;
	SolverStats st;
	unsigned quickMs = 4000, fullMs = 60000;
	std::string dumpDir; unsigned dumpEvery = 0, dumped = 0, dumpMax = 40; uint64_t sinceDump = 0;
	std::vector<std::pair<std::string, std::string>> dumps; // file, verdict
	std::vector<Z3_ast> keep;

	explicit Solver(Ctx& c) : cx(c) {
		Z3_config cfg = Z3_mk_config();
		z = Z3_mk_context_rc(cfg);
		Z3_del_config(cfg);
		Z3_set_error_handler(z, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); });
		inc = mkInc("QF_BV", quickMs);
	}
	void setTimeout(Z3_solver s, unsigned ms) {
		Z3_params p = Z3_mk_params(z); Z3_params_inc_ref(z, p);
		Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), ms);
		Z3_solver_set_params(z, s, p); Z3_params_dec_ref(z, p);
	}
	Z3_solver mkInc(const char* logic, unsigned ms) {
		Z3_solver s = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, logic));
		Z3_solver_inc_ref(z, s); setTimeout(s, ms);
		return s;
	}
	Z3_ast hold(Z3_ast a) { Z3_inc_ref(z, a); return a; }
	// every term is kept alive: with reference counting, a term nobody holds dies at the next API call
	std::map<unsigned, Z3_sort> bvSorts, fpSorts; std::map<unsigned, Z3_ast> rms; Z3_ast one1 = nullptr, zero1 = nullptr;
	Z3_sort holdSort(Z3_sort x) { Z3_inc_ref(z, Z3_sort_to_ast(z, x)); return x; }
	Z3_sort bvSort(unsigned w) { auto& x = bvSorts[w]; if (!x) x = holdSort(Z3_mk_bv_sort(z, w)); return x; }
	Z3_sort fpSort(unsigned w) { auto& x = fpSorts[w]; if (!x) x = holdSort(w == 32 ? Z3_mk_fpa_sort_32(z) : Z3_mk_fpa_sort_64(z)); return x; }
	Z3_ast bit1() { if (!one1) one1 = hold(Z3_mk_unsigned_int64(z, 1, bvSort(1))); return one1; }
	Z3_ast bit0() { if (!zero1) zero1 = hold(Z3_mk_unsigned_int64(z, 0, bvSort(1))); return zero1; }
	Z3_ast toFp(N n) { Z3_ast b = bv(n); return hold(Z3_mk_fpa_to_fp_bv(z, b, fpSort(n->w))); }
	Z3_ast ieee(Z3_ast f) { hold(f); return Z3_mk_fpa_to_ieee_bv(z, f); }
	Z3_ast rm(unsigned m) {
		auto& x = rms[m]; if (x) return x;
		switch (m) { case 0: x = Z3_mk_fpa_rne(z); break; case 1: x = Z3_mk_fpa_rna(z); break; case 2: x = Z3_mk_fpa_rtp(z); break; case 3: x = Z3_mk_fpa_rtn(z); break; default: x = Z3_mk_fpa_rtz(z); }
		return hold(x);
	}
	static bool boolish(N n) { return n->w == 1 && (n->op == Eq || n->op == Ult || n->op == Ule || n->op == Slt || n->op == Sle || n->op == FEq || n->op == FLt || n->op == FLe || n->op == FUno); }
	Z3_ast boolean(N n) {
		if (n->zbool) return n->zbool;
		Z3_ast r;
		switch (n->op) {
			case Const: r = n->c.isZero() ? Z3_mk_false(z) : Z3_mk_true(z); break;
			case Eq: r = n->k[0]->w == 1 ? Z3_mk_eq(z, boolean(n->k[0]), boolean(n->k[1])) : Z3_mk_eq(z, bv(n->k[0]), bv(n->k[1])); break;
			case Ult: r = Z3_mk_bvult(z, bv(n->k[0]), bv(n->k[1])); break;
			case Ule: r = Z3_mk_bvule(z, bv(n->k[0]), bv(n->k[1])); break;
			case Slt: r = Z3_mk_bvslt(z, bv(n->k[0]), bv(n->k[1])); break;
			case Sle: r = Z3_mk_bvsle(z, bv(n->k[0]), bv(n->k[1])); break;
			case FEq: r = Z3_mk_fpa_eq(z, toFp(n->k[0]), toFp(n->k[1])); break;
			case FLt: r = Z3_mk_fpa_lt(z, toFp(n->k[0]), toFp(n->k[1])); break;
			case FLe: r = Z3_mk_fpa_leq(z, toFp(n->k[0]), toFp(n->k[1])); break;
			case FUno: { Z3_ast f0 = toFp(n->k[0]), f1 = toFp(n->k[1]); Z3_ast a[2] = {hold(Z3_mk_fpa_is_nan(z, f0)), hold(Z3_mk_fpa_is_nan(z, f1))}; r = Z3_mk_or(z, 2, a); break; }
			case And: { Z3_ast a[2] = {boolean(n->k[0]), boolean(n->k[1])}; r = Z3_mk_and(z, 2, a); break; }
			case Or: { Z3_ast a[2] = {boolean(n->k[0]), boolean(n->k[1])}; r = Z3_mk_or(z, 2, a); break; }
			case Xor: r = n->k[1]->isOnes() ? Z3_mk_not(z, boolean(n->k[0])) : Z3_mk_xor(z, boolean(n->k[0]), boolean(n->k[1])); break;
			case Ite: r = Z3_mk_ite(z, boolean(n->k[0]), boolean(n->k[1]), boolean(n->k[2])); break;
			default: r = Z3_mk_eq(z, bv(n), bit1());
		}
		return n->zbool = hold(r);
	}
	Z3_ast bv(N n) {
		if (n->zbv) return n->zbv;
		Z3_ast r;
		if (boolish(n) || (n->w == 1 && (n->op == And || n->op == Or || n->op == Xor || n->op == Ite))) {
			r = Z3_mk_ite(z, boolean(n), bit1(), bit0());
			return n->zbv = hold(r);
		}
		auto K = [&](int i) { return bv(n->k[i]); };
		switch (n->op) {
			case Const: {
				if (n->w <= 64) r = Z3_mk_unsigned_int64(z, n->u(), bvSort(n->w));
				else { llvm::SmallString<64> s; n->c.toString(s, 10, false); r = Z3_mk_numeral(z, std::string(s.str()).c_str(), bvSort(n->w)); }
				break; }
			case Var: r = Z3_mk_const(z, Z3_mk_string_symbol(z, ("v" + std::to_string(n->aux)).c_str()), bvSort(n->w)); break;
			case Add: r = Z3_mk_bvadd(z, K(0), K(1)); break;
			case Sub: r = Z3_mk_bvsub(z, K(0), K(1)); break;
			case Mul: r = Z3_mk_bvmul(z, K(0), K(1)); break;
			case UDiv: r = Z3_mk_bvudiv(z, K(0), K(1)); break;
			case SDiv: r = Z3_mk_bvsdiv(z, K(0), K(1)); break;
			case URem: r = Z3_mk_bvurem(z, K(0), K(1)); break;
			case SRem: r = Z3_mk_bvsrem(z, K(0), K(1)); break;
			case And: r = Z3_mk_bvand(z, K(0), K(1)); break;
			case Or: r = Z3_mk_bvor(z, K(0), K(1)); break;
			case Xor: r = n->k[1]->isOnes() ? Z3_mk_bvnot(z, K(0)) : Z3_mk_bvxor(z, K(0), K(1)); break;
			case Shl: r = Z3_mk_bvshl(z, K(0), K(1)); break;
			case LShr: r = Z3_mk_bvlshr(z, K(0), K(1)); break;
			case AShr: r = Z3_mk_bvashr(z, K(0), K(1)); break;
			case Ite: r = Z3_mk_ite(z, boolean(n->k[0]), K(1), K(2)); break;
			case Concat: r = Z3_mk_concat(z, K(0), K(1)); break;
			case Extract: r = Z3_mk_extract(z, n->aux + n->w - 1, n->aux, K(0)); break;
			case ZExt: r = Z3_mk_zero_ext(z, n->w - n->k[0]->w, K(0)); break;
			case SExt: r = Z3_mk_sign_ext(z, n->w - n->k[0]->w, K(0)); break;
			case FAdd: r = ieee(Z3_mk_fpa_add(z, rm(0), toFp(n->k[0]), toFp(n->k[1]))); break;
			case FSub: r = ieee(Z3_mk_fpa_sub(z, rm(0), toFp(n->k[0]), toFp(n->k[1]))); break;
			case FMul: r = ieee(Z3_mk_fpa_mul(z, rm(0), toFp(n->k[0]), toFp(n->k[1]))); break;
			case FDiv: r = ieee(Z3_mk_fpa_div(z, rm(0), toFp(n->k[0]), toFp(n->k[1]))); break;
			case FSqrt: r = ieee(Z3_mk_fpa_sqrt(z, rm(0), toFp(n->k[0]))); break;
			case FFma: r = ieee(Z3_mk_fpa_fma(z, rm(0), toFp(n->k[0]), toFp(n->k[1]), toFp(n->k[2]))); break;
			case FRint: r = ieee(Z3_mk_fpa_round_to_integral(z, rm(n->aux), toFp(n->k[0]))); break;
			case FToS: r = Z3_mk_fpa_to_sbv(z, rm(4), toFp(n->k[0]), n->w); break;
			case FToU: r = Z3_mk_fpa_to_ubv(z, rm(4), toFp(n->k[0]), n->w); break;
			case SToF: r = ieee(Z3_mk_fpa_to_fp_signed(z, rm(0), K(0), fpSort(n->w))); break;
			case UToF: r = ieee(Z3_mk_fpa_to_fp_unsigned(z, rm(0), K(0), fpSort(n->w))); break;
			case FExt: case FTrunc: r = ieee(Z3_mk_fpa_to_fp_float(z, rm(0), toFp(n->k[0]), fpSort(n->w))); break;
			default: fprintf(stderr, "bv: bad op %d\n", n->op); abort();
		}
		return n->zbv = hold(r);
	}

	void sync(const PCP& pc) {
		std::vector<PCP> want;
		for (PCP p = pc; p; p = p->parent) want.push_back(p);
		std::reverse(want.begin(), want.end());
		size_t common = 0;
		while (common < want.size() && common < stack.size() && want[common] == stack[common]) ++common;
		if (stack.size() > common) { Z3_solver_pop(z, inc, (unsigned)(stack.size() - common)); stack.resize(common); }
		for (size_t i = common; i < want.size(); ++i) {
			Z3_solver_push(z, inc); Z3_solver_assert(z, inc, boolean(want[i]->cond)); stack.push_back(want[i]);
		}
	}
	void readModel(Z3_solver s, Model& out) {
		Z3_model m = Z3_solver_get_model(z, s); Z3_model_inc_ref(z, m);
		unsigned nd = Z3_model_get_num_consts(z, m);
		for (unsigned i = 0; i < nd; ++i) {
			Z3_func_decl d = Z3_model_get_const_decl(z, m, i);
			std::string nm = Z3_get_symbol_string(z, Z3_get_decl_name(z, d));
			if (nm[0] != 'v') continue;
			char* end; unsigned long idx = strtoul(nm.c_str() + 1, &end, 10); if (*end || idx >= cx.vars.size()) continue;
			Z3_ast v = Z3_model_get_const_interp(z, m, d); if (!v) continue;
			std::string s = Z3_get_numeral_string(z, v);
			out.vals[(uint32_t)idx] = APInt(cx.vars[idx].w, llvm::StringRef(s), 10);
		}
		Z3_model_dec_ref(z, m);
	}
	std::string smt2(const PCP& pc, N extra) {
		Z3_solver s = Z3_mk_simple_solver(z); Z3_solver_inc_ref(z, s);
		for (PCP p = pc; p; p = p->parent) Z3_solver_assert(z, s, boolean(p->cond));
		if (extra) Z3_solver_assert(z, s, boolean(extra));
		std::string r = Z3_solver_to_string(z, s);
		Z3_solver_dec_ref(z, s);
		return r;
	}
	static std::string run(const std::string& cmd) {
		std::string out; FILE* f = popen(cmd.c_str(), "r"); if (!f) return out;
		char buf[4096]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) out.append(buf, n);
		pclose(f); return out;
	}
	// external portfolio: newer z3, then cvc5
	Res external(const PCP& pc, N extra, Model* out) {
		++st.external;
		std::string body = smt2(pc, extra);
		char path[] = "/tmp/nzsymqXXXXXX"; int fd = mkstemp(path); if (fd < 0) return Res::Unknown;
		std::string vars;
		for (size_t i = 0; i < cx.vars.size(); ++i) if (body.find("(declare-fun v" + std::to_string(i) + " ") != std::string::npos) vars += " v" + std::to_string(i);
		std::string full = "(set-option :produce-models true)\n(set-logic ALL)\n" + body + "\n(check-sat)\n" + (vars.empty() ? "" : "(get-value (" + vars + "))\n");
		if (write(fd, full.data(), full.size()) != (ssize_t)full.size()) {}
		close(fd);
		unsigned sec = fullMs / 1000;
		std::string cmds[2] = {
			"timeout " + std::to_string(sec) + " z3-new -T:" + std::to_string(sec) + " " + path + " 2>/dev/null",
			"timeout " + std::to_string(sec) + " cvc5 --tlimit=" + std::to_string(sec * 1000) + " " + path + " 2>/dev/null"};
		Res r = Res::Unknown;
		for (auto& c : cmds) {
			std::string o = run(c);
			if (o.compare(0, 5, "unsat") == 0) { r = Res::Unsat; break; }
			if (o.compare(0, 3, "sat") == 0) {
				r = Res::Sat;
				if (out) {
					size_t p = 3;
					while ((p = o.find("(v", p)) != std::string::npos) {
						char* end; unsigned long idx = strtoul(o.c_str() + p + 2, &end, 10);
						while (*end == ' ') ++end;
						if (idx < cx.vars.size() && end[0] == '#') {
							std::string digits; char base = end[1]; end += 2;
							while (isxdigit(*end)) digits += *end++;
							out->vals[(uint32_t)idx] = APInt(std::max<unsigned>(cx.vars[idx].w, digits.size() * (base == 'x' ? 4 : 1)), digits, base == 'x' ? 16 : 2).trunc(cx.vars[idx].w);
						}
						p += 2;
					}
				}
				break;
			}
		}
		unlink(path);
		return r;
	}
	static bool pcHasFP(const PCP& pc) { for (auto p = pc.get(); p; p = p->parent.get()) if (p->cond->hasFP) return true; return false; }

	Res check(const PCP& pc, N extra, Model* out) {
		if (extra && extra->isConst()) { if (extra->isZero()) return Res::Unsat; }
		auto t0 = std::chrono::steady_clock::now();
		Res r = Res::Unknown;
		if ((extra && extra->hasFP) || pcHasFP(pc)) {
			Z3_tactic t = Z3_mk_tactic(z, "qffp"); Z3_tactic_inc_ref(z, t);
			Z3_solver s = Z3_mk_solver_from_tactic(z, t); Z3_solver_inc_ref(z, s); setTimeout(s, std::min(fullMs, 20000u));
			for (PCP p = pc; p; p = p->parent) Z3_solver_assert(z, s, boolean(p->cond));
			if (extra) Z3_solver_assert(z, s, boolean(extra));
			Z3_lbool b = Z3_solver_check(z, s);
			r = b == Z3_L_TRUE ? Res::Sat : b == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
			if (r == Res::Sat && out) readModel(s, *out);
			Z3_solver_dec_ref(z, s); Z3_tactic_dec_ref(z, t);
		} else {
			sync(pc);
			Z3_lbool b;
			if (extra) { Z3_solver_push(z, inc); Z3_solver_assert(z, inc, boolean(extra)); }
			b = Z3_solver_check(z, inc);
			r = b == Z3_L_TRUE ? Res::Sat : b == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
			if (r == Res::Sat && out) readModel(inc, *out);
			if (extra) Z3_solver_pop(z, inc, 1);
		}
		if (r == Res::Unknown) r = external(pc, extra, out);
		double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
		++st.queries; st.time += dt; st.maxTime = std::max(st.maxTime, dt);
		if (r == Res::Sat) ++st.sat; else if (r == Res::Unsat) ++st.unsat; else ++st.unknown;
		if (getenv("NZ_SLOW") && dt > 1) { static int k; std::ofstream(std::string(getenv("NZ_SLOW")) + "/slow" + std::to_string(k++) + ".smt2") << smt2(pc, extra) << "\n(check-sat)\n"; }
		if (dumpEvery && ++sinceDump >= dumpEvery && dumped < dumpMax && r != Res::Unknown) {
			sinceDump = 0;
			std::string f = dumpDir + "/q" + std::to_string(dumped++) + ".smt2";
			std::ofstream(f) << "(set-logic ALL)\n" << smt2(pc, extra) << "\n(check-sat)\n";
			dumps.push_back({f, r == Res::Sat ? "sat" : "unsat"});
		}
		return r;
	}
};
} // namespace sx
