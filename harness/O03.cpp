// BOUNDS: histories of 4 (thorough 5) operations over two scope-exit objects (trigger, reset, move, destruction by scope end or by an exception), callbacks which throw or use the object themselves
// ASSUMES: moving a functor does not throw; an object holding a pending callback is not the target of a move assignment
// VARIANT: run
// VARIANT: run20 std=c++20
#include "sym.hpp"
#include "track.hpp"
#include <NazaraUtils/CallOnExit.hpp>
#include <optional>

static uint32_t runs[4];
static uint32_t order[8]; static size_t nOrder;
// a functor with a tracked state: it must be alive when run
struct Fn { tr::E id; void operator()() { const uint8_t i = id.get(); ++runs[i & 3]; if (nOrder < 8) order[nOrder++] = i; } };
using C = Nz::CallOnExit<Fn>;
static void begin() { for (uint32_t& r : runs) r = 0; nOrder = 0; }

struct Failure {};
ENTRY(scope)
{
	{
		begin(); const size_t how = sym::pick("how", 0, 8); const uint8_t id = uint8_t(sym_u8("id") & 3); uint32_t expect = 1, inside = 0;
		try
		{
			C c(Fn{tr::E(id)}); CHECK(runs[id] == 0, "nothing runs before the end");
			switch (how)
			{
				case 0: break;
				case 1: c.CallAndReset(); inside = 1; break;
				case 2: c.Reset(); expect = 0; break;
				case 3: throw Failure{};
				case 4: c.CallAndReset(); inside = 1; CHECK(runs[id] == 1, "a trigger runs immediately"); throw Failure{};
				case 5: c.Reset(); expect = 0; throw Failure{};
				case 6: c.CallAndReset(); c.CallAndReset(); c.Reset(); inside = 1; break;
				case 7: c.Reset(); c.CallAndReset(); expect = 0; break;
				case 8: { C d; d.Reset(); d.CallAndReset(); d = std::move(c); CHECK(runs[id] == 0, "a move runs nothing"); } inside = 1; break;
			}
			CHECK(runs[id] == inside, "a trigger runs immediately");
		}
		catch (const Failure&) { CHECK((how >= 3) & (how <= 5), "no other exception"); }
		CHECK(runs[id] == expect, "the callback runs exactly once, unless disabled"); for (uint32_t i = 0; i < 4; ++i) CHECK((i == id) | (runs[i] == 0), "no other callback runs"); sym_note(runs[id]);
	}
	CHECK(tr::alive == 0, "the functor is destroyed");
}
template<int Steps> static void history()
{
	{
		begin(); uint32_t m[4] = {}; int pend[2] = {0, -1};
		{
			C second; std::optional<C> first; first.emplace(Fn{tr::E(0)}); C* c[2] = {&*first, &second}; uint8_t next = 1;
			for (int s = 0; s < Steps; ++s)
			{
				const size_t t = sym::pick("target", 0, 1);
				switch (sym::pick("op", 0, 4))
				{
					case 0: c[t]->CallAndReset(); if (pend[t] >= 0) ++m[pend[t]]; pend[t] = -1; break;
					case 1: c[t]->Reset(); pend[t] = -1; break;
					case 2: if (pend[t] < 0) { C& r = (*c[t] = std::move(*c[1 - t])); CHECK(&r == c[t], "assignment returns its target"); pend[t] = pend[1 - t]; pend[1 - t] = -1; } break;
					case 3: { C& r = *c[t]; *c[t] = std::move(r); } break; // self-assignment
					case 4: if ((pend[t] < 0) & (next < 4)) { *c[t] = C(Fn{tr::E(next)}); pend[t] = next++; } break;
				}
				for (int i = 0; i < 4; ++i) CHECK(runs[i] == m[i], "a callback runs when triggered or at the end, and only then");
			}
			if (sym::pick("destroy first", 0, 1)) { first.reset(); if (pend[0] >= 0) ++m[pend[0]]; pend[0] = -1; for (int i = 0; i < 4; ++i) CHECK(runs[i] == m[i], "destruction runs the pending callback once"); }
			for (int k = 0; k < 2; ++k) if (pend[k] >= 0) ++m[pend[k]];
		}
		for (int i = 0; i < 4; ++i) { CHECK(runs[i] == m[i], "every pending callback runs exactly once"); sym_note(runs[i]); }
	}
	CHECK(tr::alive == 0, "the functors are destroyed");
}
ENTRY(history) { history<4>(); }
ENTRY(T_history) { history<5>(); }
// callbacks with captured references and the deferral macro, in reverse order of declaration
static uint32_t macroBody(bool leave, bool fail, uint32_t& x)
{
	NAZARA_DEFER(x = x * 2;);
	NAZARA_DEFER({ x = x + 3; });
	x ^= 5;
	if (leave) return x;
	NAZARA_DEFER(x = x ^ 0x55;);
	if (fail) throw Failure{};
	x += 7;
	return x;
}
ENTRY(macro)
{
	uint32_t x = sym_u32("x"); const uint32_t x0 = x; const size_t how = sym::pick("how", 0, 2); uint32_t r = 0; bool threw = false;
	try { r = macroBody(how == 1, how == 2, x); } catch (const Failure&) { threw = true; }
	CHECK(threw == (how == 2), "the exception is passed on");
	uint32_t e = x0 ^ 5; uint32_t ret = e; if (how == 0) { e += 7; ret = e; } if (how != 1) e ^= 0x55; e = (e + 3) * 2;
	CHECK(x == e, "deferred statements run once, last first"); if (!threw) CHECK(r == ret, "after the returned value is computed"); sym_note(x);
}
ENTRY(lambda_state)
{
	uint32_t n = 0; const uint32_t by = sym_u32("by"); const size_t how = sym::pick("how", 0, 2);
	{
		Nz::CallOnExit c([&n, by, own = by + 1]() mutable { n += by; own += by; n ^= own; });
		if (how == 1) { c.CallAndReset(); CHECK(n == (by ^ (2 * by + 1)), "the callback runs"); } if (how == 2) c.Reset();
	}
	CHECK(n == (how == 2 ? 0 : (by ^ (2 * by + 1))), "the callback runs once");
}
// a callback which throws or uses the object it is called by
struct Wild;
static Nz::CallOnExit<Wild>* self; static uint32_t wildRuns; static size_t wildHow;
struct Wild { tr::E state; void operator()() { state.get(); ++wildRuns; CHECK(wildRuns == 1, "the callback runs once"); if (wildHow == 1) throw Failure{}; if (wildHow == 2) self->CallAndReset(); if (wildHow == 3) self->Reset(); if (wildHow == 4) { self->Reset(); throw Failure{}; } if (wildHow == 5) *self = Nz::CallOnExit<Wild>(); state.get(); } };
ENTRY(wild)
{
	{
		wildRuns = 0; wildHow = sym::pick("how", 0, 5); bool threw = false;
		try { Nz::CallOnExit<Wild> c(Wild{tr::E(1)}); self = &c; c.CallAndReset(); CHECK(wildRuns == 1, "a trigger runs the callback"); c.CallAndReset(); }
		catch (const Failure&) { threw = true; }
		CHECK(threw == ((wildHow == 1) | (wildHow == 4)), "the exception is passed on"); CHECK(wildRuns == 1, "the callback runs once");
	}
	CHECK(tr::alive == 0, "the functor is destroyed");
}
