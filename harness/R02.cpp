// BOUNDS: every value, error and state; Map on const, lvalue and rvalue results with value, void and member functions; chains of 3 mapped calls; NAZARA_TRY and NAZARA_TRY_VALUE chains of 3 with a failure at any place
// ASSUMES: allocation succeeds; mapped functions do not throw
#include "sym.hpp"
#include "track.hpp"
#include <NazaraUtils/Result.hpp>
#include <utility>

struct Err : tr::E { using tr::E::E; Err(const Err&) = default; Err(Err&&) = default; Err& operator=(const Err&) = default; Err& operator=(Err&&) = default; };
struct Out : tr::E { using tr::E::E; Out(const Out&) = default; Out(Out&&) = default; Out& operator=(const Out&) = default; Out& operator=(Out&&) = default; uint8_t plus(uint8_t) const; };
using R = Nz::Result<tr::E, Err>; using V = Nz::Result<void, Err>;

ENTRY(map_value)
{
	{
		const uint8_t x = sym_u8("x"); const bool ok = sym::pick("ok", 0, 1); const size_t how = sym::pick("how", 0, 2); R r = ok ? R(R::ValueTag{}, x) : R(R::ErrorTag{}, x); int calls = 0;
		auto f = [&](const tr::E& e) { ++calls; CHECK(e.get() == x, "the function receives the value"); return Out(uint8_t(e.get() ^ 0x5A)); };
		auto g = [&](tr::E&& e) { ++calls; tr::E t(std::move(e)); CHECK(t.get() == x, "the function receives the value"); return Out(uint8_t(t.get() ^ 0x5A)); };
		Nz::Result<Out, Err> m = how == 0 ? r.Map(f) : how == 1 ? std::as_const(r).Map(f) : std::move(r).Map(g);
		CHECK(calls == int(ok), "the function is called exactly once on a value, never on an error"); CHECK(m.IsOk() == ok, "a mapped result keeps the state"); if (ok) CHECK(m->get() == uint8_t(x ^ 0x5A), "the outcome of the function"); else CHECK(m.GetError().get() == x, "the original error");
		CHECK(r.IsOk() == ok, "the source keeps its state"); if (how < 2) { if (ok) CHECK(r->get() == x, "mapping an lvalue leaves it unchanged"); else CHECK(r.GetError().get() == x, "mapping an lvalue leaves it unchanged"); }
		sym_note(x);
	}
	CHECK(tr::alive == 0, "no element outlives its result");
}
ENTRY(map_to_void)
{
	{
		const uint8_t x = sym_u8("x"); const bool ok = sym::pick("ok", 0, 1); const size_t how = sym::pick("how", 0, 2); R r = ok ? R(R::ValueTag{}, x) : R(R::ErrorTag{}, x); int calls = 0;
		auto f = [&](const tr::E& e) { ++calls; CHECK(e.get() == x, "the function receives the value"); }; auto g = [&](tr::E e) { ++calls; CHECK(e.get() == x, "the function receives the value"); };
		V m = how == 0 ? r.Map(f) : how == 1 ? std::as_const(r).Map(f) : std::move(r).Map(g);
		CHECK(calls == int(ok), "the function is called exactly once on a value, never on an error"); CHECK(m.IsOk() == ok, "a mapped result keeps the state"); if (!ok) CHECK(m.GetError().get() == x, "the original error"); if (how < 2) { if (ok) CHECK(r->get() == x, "mapping an lvalue leaves it unchanged"); else CHECK(r.GetError().get() == x, "mapping an lvalue leaves it unchanged"); }
		sym_note(x);
	}
	CHECK(tr::alive == 0, "no element outlives its result");
}
ENTRY(map_from_void)
{
	{
		const uint8_t x = sym_u8("x"); const bool ok = sym::pick("ok", 0, 1); const size_t how = sym::pick("how", 0, 5); V v = ok ? V(V::ValueTag{}) : V(V::ErrorTag{}, x); int calls = 0;
		if (how < 3) { auto f = [&] { ++calls; return Out(uint8_t(x ^ 0x5A)); }; Nz::Result<Out, Err> m = how == 0 ? v.Map(f) : how == 1 ? std::as_const(v).Map(f) : std::move(v).Map(f); CHECK(m.IsOk() == ok, "a mapped result keeps the state"); if (ok) CHECK(m->get() == uint8_t(x ^ 0x5A), "the outcome of the function"); else CHECK(m.GetError().get() == x, "the original error"); }
		else { auto f = [&] { ++calls; }; V m = how == 3 ? v.Map(f) : how == 4 ? std::as_const(v).Map(f) : std::move(v).Map(f); CHECK(m.IsOk() == ok, "a mapped result keeps the state"); if (!ok) CHECK(m.GetError().get() == x, "the original error"); }
		CHECK(calls == int(ok), "the function is called exactly once on a success, never on an error"); CHECK(v.IsOk() == ok, "the source keeps its state"); if (!ok && how != 2 && how != 5) CHECK(v.GetError().get() == x, "mapping an lvalue leaves it unchanged"); sym_note(x);
	}
	CHECK(tr::alive == 0, "no element outlives its result");
}
struct Member { uint32_t v; uint32_t twice() const { return v * 2; } };
ENTRY(map_members_and_chains)
{
	const uint32_t x = sym_u32("x"); const bool ok = sym::pick("ok", 0, 1); using M = Nz::Result<Member, uint16_t>; const uint16_t e = sym_u16("e"); M m = ok ? M(Nz::Ok(Member{ x })) : M(Nz::Err(e));
	const auto a = m.Map(&Member::twice); CHECK(a.IsOk() == ok, "state"); if (ok) CHECK(a.GetValue() == x * 2, "a member function"); else CHECK(a.GetError() == e, "the original error");
	int order = 0; const auto b = std::as_const(m).Map([&](const Member& k) { order = order * 4 + 1; return k.v + 1; }).Map([&](uint32_t k) { order = order * 4 + 2; return uint64_t(k) << 8; }).Map([&](uint64_t k) { order = order * 4 + 3; return k == uint64_t(x + 1) << 8; });
	CHECK(b.IsOk() == ok, "state"); CHECK(order == (ok ? 27 : 0), "a chain runs in order, or not at all"); if (ok) CHECK(b.GetValue(), "a chain composes the functions"); else CHECK(b.GetError() == e, "the original error goes through"); sym_note(ok);
}
// TRY chains: step k gives a value or fails
static uint32_t steps; static size_t failing; static Err* raised;
static R step(size_t k, uint8_t x) { ++steps; if (k == failing) return Nz::Err(Err(x)); return Nz::Ok(tr::E(uint8_t(x + 1))); }
static V stepVoid(size_t k, uint8_t x) { ++steps; if (k == failing) return Nz::Err(Err(x)); return Nz::Ok(); }
static Nz::Result<Out, Err> chain(uint8_t x)
{
	NAZARA_TRY(stepVoid(0, x));
	NAZARA_TRY_VALUE(auto a, step(1, x));
	tr::E b(0); NAZARA_TRY_VALUE(b, step(2, a.get()));
	NAZARA_TRY(step(3, b.get()));
	if (x == 0) NAZARA_TRY(stepVoid(4, 44)); else NAZARA_TRY(stepVoid(4, 55));
	return Nz::Ok(Out(b.get()));
}
static V voidChain(uint8_t x) { NAZARA_TRY(chain(x)); NAZARA_TRY_VALUE(tr::E c, step(5, x)); CHECK(c.get() == uint8_t(x + 1), "the value goes through"); return Nz::Ok(); }
ENTRY(try_chains)
{
	{
		const uint8_t x = sym_u8("x"); failing = sym::pick("failing step", 0, 6); steps = 0; const bool nested = sym::pick("nested", 0, 1);
		const uint8_t errors[] = { x, x, uint8_t(x + 1), uint8_t(x + 2), uint8_t(x == 0 ? 44 : 55), x };
		if (nested) { V r = voidChain(x); CHECK(r.IsOk() == (failing > 5), "a failure is propagated"); CHECK(steps == (failing > 5 ? 6 : failing + 1), "nothing runs after a failure"); if (failing <= 5) CHECK(r.GetError().get() == errors[failing], "the very error is propagated"); }
		else { auto r = chain(x); CHECK(r.IsOk() == (failing > 4), "a failure is propagated"); CHECK(steps == (failing > 4 ? 5 : failing + 1), "nothing runs after a failure"); if (failing <= 4) CHECK(r.GetError().get() == errors[failing], "the very error is propagated"); else CHECK(r->get() == uint8_t(x + 2), "the values go through"); }
		sym_note(failing);
	}
	CHECK(tr::alive == 0, "no element outlives the calls");
}
// the expression is evaluated once, also when it designates an lvalue, which is left alone
static V tryLvalue(R& r, int& n) { NAZARA_TRY((++n, r)); return Nz::Ok(); }
static R tryValueLvalue(R& r, int& n) { NAZARA_TRY_VALUE(tr::E e, (++n, r)); return Nz::Ok(std::move(e)); }
ENTRY(try_lvalue)
{
	{
		const uint8_t x = sym_u8("x"); const bool ok = sym::pick("ok", 0, 1); R r = ok ? R(R::ValueTag{}, x) : R(R::ErrorTag{}, x); int n = 0; V v = tryLvalue(r, n); CHECK(n == 1, "the expression is evaluated once"); CHECK(v.IsOk() == ok, "state"); if (!ok) CHECK(v.GetError().get() == x, "the very error"); R w = tryValueLvalue(r, n); CHECK(n == 2, "the expression is evaluated once"); CHECK(w.IsOk() == ok, "state"); if (ok) CHECK(w->get() == x, "the value"); else CHECK(w.GetError().get() == x, "the very error");
		if (ok) CHECK(r->get() == x, "an lvalue result is left unchanged"); else CHECK(r.GetError().get() == x, "an lvalue result is left unchanged"); sym_note(x);
	}
	CHECK(tr::alive == 0, "no element outlives the calls");
}
