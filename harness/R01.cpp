// BOUNDS: every value and error (tracked objects, integers), every pair of states, every accessor, conversion, copy, move and assignment; histories of 4 (thorough 6) operations on two results
// ASSUMES: allocation succeeds; element operations do not throw
#include "sym.hpp"
#include "track.hpp"
#include <NazaraUtils/Result.hpp>
#include <utility>

// another element type, so that values and errors differ
struct Err : tr::E { using tr::E::E; Err(const Err&) = default; Err(Err&&) = default; Err& operator=(const Err&) = default; Err& operator=(Err&&) = default; };
using R = Nz::Result<tr::E, Err>;
using V = Nz::Result<void, Err>;

template<typename F> bool reported(F&& f) { try { f(); return false; } catch (...) { return true; } }

// the result holds exactly this
static void checkValue(R& r, uint8_t x)
{
	CHECK(r.IsOk() & !r.IsErr() & bool(r), "a value is reported as a value"); const R& c = r;
	CHECK(r.GetValue().get() == x, "GetValue"); CHECK(c.GetValue().get() == x, "const GetValue"); CHECK((*r).get() == x, "operator*"); CHECK((*c).get() == x, "const operator*"); CHECK(r->get() == x, "operator->"); CHECK(c->get() == x, "const operator->");
	CHECK(&r.GetValue() == &*c, "accessors designate the value"); CHECK(c.GetValueOr(tr::E(77)).get() == x, "GetValueOr gives the value"); { tr::E d(78); CHECK(c.GetValueOr(d).get() == x, "GetValueOr gives the value"); CHECK(d.get() == 78, "an lvalue default is unchanged"); CHECK(c.GetValue().get() == x, "GetValueOr leaves the value"); }
	CHECK(!reported([&] { c.Expect("msg"); }), "Expect accepts a value"); { const std::string m("msg"); CHECK(!reported([&] { c.Expect(m); }), "Expect accepts a value"); } CHECK(reported([&] { (void)c.GetError(); }), "asking a value for its error is reported"); CHECK(reported([&] { (void)r.GetError(); }), "asking a value for its error is reported");
}
static void checkError(R& r, uint8_t x)
{
	CHECK(!r.IsOk() & r.IsErr() & !bool(r), "an error is reported as an error"); const R& c = r;
	CHECK(r.GetError().get() == x, "GetError"); CHECK(c.GetError().get() == x, "const GetError"); CHECK(c.GetValueOr(tr::E(77)).get() == 77, "GetValueOr gives the default"); { tr::E d(78); CHECK(c.GetValueOr(d).get() == 78, "GetValueOr gives the default"); CHECK(d.get() == 78, "an lvalue default is unchanged"); const tr::E k(79); CHECK(c.GetValueOr(k).get() == 79, "GetValueOr gives the default"); CHECK(k.get() == 79, "an lvalue default is unchanged"); }
	CHECK(reported([&] { c.Expect("msg"); }), "Expect reports an error"); { const std::string m("msg"); CHECK(reported([&] { c.Expect(m); }), "Expect reports an error"); } CHECK(reported([&] { (void)c.GetValue(); }), "asking an error for its value is reported"); CHECK(reported([&] { (void)r.GetValue(); }), "asking an error for its value is reported");
	CHECK(reported([&] { (void)*r; }), "dereferencing an error is reported"); CHECK(reported([&] { (void)*c; }), "dereferencing an error is reported"); CHECK(reported([&] { (void)r.operator->(); }), "dereferencing an error is reported"); CHECK(reported([&] { (void)c.operator->(); }), "dereferencing an error is reported");
}
static void check(R& r, bool ok, uint8_t x) { if (ok) checkValue(r, x); else checkError(r, x); }
static void checkVoid(V& r, bool ok, uint8_t x)
{
	const V& c = r; CHECK(r.IsOk() == ok, "state"); CHECK(r.IsErr() != ok, "state"); CHECK(bool(r) == ok, "state"); CHECK(reported([&] { c.Expect("msg"); }) != ok, "Expect reports errors only"); { const std::string m("msg"); CHECK(reported([&] { c.Expect(m); }) != ok, "Expect reports errors only"); }
	if (ok) { CHECK(reported([&] { (void)c.GetError(); }), "asking a success for its error is reported"); CHECK(reported([&] { (void)r.GetError(); }), "asking a success for its error is reported"); }
	else { CHECK(r.GetError().get() == x, "GetError"); CHECK(c.GetError().get() == x, "const GetError"); }
}

ENTRY(construct)
{
	{
		const uint8_t x = sym_u8("x"); tr::E v(x); Err e(x); const tr::E cv(x); const Err ce(x);
		switch (sym::pick("how", 0, 13))
		{
			case 0: { R r = v; check(r, true, x); } break;
			case 1: { R r = cv; check(r, true, x); } break;
			case 2: { R r = tr::E(x); check(r, true, x); } break;
			case 3: { R r = Nz::Ok(v); check(r, true, x); } break;
			case 4: { R r = Nz::Ok(cv); check(r, true, x); } break;
			case 5: { R r = Nz::Ok(tr::E(x)); check(r, true, x); } break;
			case 6: { R r = Nz::Err(e); check(r, false, x); } break;
			case 7: { R r = Nz::Err(ce); check(r, false, x); } break;
			case 8: { R r = Nz::Err(Err(x)); check(r, false, x); } break;
			case 9: { R r(R::ValueTag{}, x); check(r, true, x); } break;
			case 10: { R r(R::ErrorTag{}, x); check(r, false, x); } break;
			case 11: { R r; check(r, true, 0); } break;
			case 12: { R r = v; check(r, true, x); R s = std::move(v); check(s, true, x); CHECK(v.moved, "a moved value is moved"); } return;
			case 13: { R r = Nz::Err(e); check(r, false, x); R s = Nz::Err(std::move(e)); check(s, false, x); CHECK(e.moved, "a moved error is moved"); } return;
		}
		CHECK(v.get() == x, "building a result from an lvalue leaves it unchanged"); CHECK(e.get() == x, "building a result from an lvalue leaves it unchanged"); CHECK(cv.get() == x, "building a result from an lvalue leaves it unchanged"); CHECK(ce.get() == x, "building a result from an lvalue leaves it unchanged"); sym_note(x);
	}
	CHECK(tr::alive == 0, "no element outlives its result");
}
ENTRY(construct_void)
{
	{
		const uint8_t x = sym_u8("x"); Err e(x); const Err ce(x);
		switch (sym::pick("how", 0, 6))
		{
			case 0: { V r = Nz::Ok(); checkVoid(r, true, 0); } break;
			case 1: { V r(V::ValueTag{}); checkVoid(r, true, 0); } break;
			case 2: { V r = Nz::Err(e); checkVoid(r, false, x); } break;
			case 3: { V r = Nz::Err(ce); checkVoid(r, false, x); } break;
			case 4: { V r = Nz::Err(Err(x)); checkVoid(r, false, x); } break;
			case 5: { V r(V::ErrorTag{}, x); checkVoid(r, false, x); } break;
			case 6: { V r(V::ErrorTag{}); checkVoid(r, false, 0); } break;
		}
		CHECK(e.get() == x, "building a result from an lvalue leaves it unchanged"); CHECK(ce.get() == x, "building a result from an lvalue leaves it unchanged"); sym_note(x);
	}
	CHECK(tr::alive == 0, "no element outlives its result");
}
// rvalue accessors give the content away, without losing the state
ENTRY(rvalue_access)
{
	{
		const uint8_t x = sym_u8("x"); R r = Nz::Ok(tr::E(x)), s = Nz::Err(Err(x)); V v = Nz::Err(Err(x));
		switch (sym::pick("how", 0, 6))
		{
			case 0: { tr::E t = std::move(r).GetValue(); CHECK(t.get() == x, "GetValue of an rvalue"); CHECK(r.IsOk(), "still a value"); } break;
			case 1: { tr::E t = *std::move(r); CHECK(t.get() == x, "operator* of an rvalue"); } break;
			case 2: { Err t = std::move(s).GetError(); CHECK(t.get() == x, "GetError of an rvalue"); CHECK(s.IsErr(), "still an error"); } break;
			case 3: { tr::E t = std::move(r).GetValueOr(tr::E(9)); CHECK(t.get() == x, "GetValueOr of an rvalue value"); } break;
			case 4: { tr::E d(9); tr::E t = std::move(s).GetValueOr(d); CHECK(t.get() == 9, "GetValueOr of an rvalue error"); CHECK(d.get() == 9, "an lvalue default is unchanged"); CHECK(s.GetError().get() == x, "the error stays"); } break;
			case 5: { Err t = std::move(v).GetError(); CHECK(t.get() == x, "GetError of an rvalue void result"); CHECK(v.IsErr(), "still an error"); } break;
			case 6: { CHECK(reported([&] { (void)std::move(r).GetError(); }), "asking for the absent alternative is reported"); CHECK(reported([&] { (void)std::move(s).GetValue(); }), "asking for the absent alternative is reported"); V ok = Nz::Ok(); CHECK(reported([&] { (void)std::move(ok).GetError(); }), "asking for the absent alternative is reported"); checkValue(r, x); checkError(s, x); } break;
		}
		sym_note(x);
	}
	CHECK(tr::alive == 0, "no element outlives its result");
}
// copies, moves and assignments in every pair of states
ENTRY(histories)
{
	{
		bool ok[2]; uint8_t x[2]; x[0] = sym_u8("x"); x[1] = sym_u8("y"); ok[0] = sym::pick("first ok", 0, 1); ok[1] = sym::pick("second ok", 0, 1);
		R a = ok[0] ? R(R::ValueTag{}, x[0]) : R(R::ErrorTag{}, x[0]), b = ok[1] ? R(R::ValueTag{}, x[1]) : R(R::ErrorTag{}, x[1]); R* r[2] = { &a, &b };
		for (size_t k = 0; k < BOUND(4, 6); ++k)
		{
			const size_t op = sym::pick("op", 0, 7), i = op & 1, j = 1 - i;
			switch (op >> 1)
			{
				case 0: *r[i] = *r[j]; ok[i] = ok[j]; x[i] = x[j]; break;
				case 1: *r[i] = std::move(*r[j]); ok[i] = ok[j]; x[i] = x[j]; CHECK(r[j]->IsOk() == ok[j], "a moved result keeps its state"); x[j] = uint8_t(x[j] + 1); if ((ok[j] = !ok[j])) *r[j] = Nz::Ok(tr::E(x[j])); else *r[j] = Nz::Err(Err(x[j])); break;
				case 2: { R t(*r[i]); check(t, ok[i], x[i]); R u(std::move(t)); check(u, ok[i], x[i]); std::swap(*r[j], u); check(u, ok[j], x[j]); ok[j] = ok[i]; x[j] = x[i]; } break;
				case 3: { R& self = *r[i]; *r[i] = self; *r[i] = R(self); } break;
			}
			check(a, ok[0], x[0]); check(b, ok[1], x[1]); CHECK(tr::alive == 2, "each result owns one element");
		}
	}
	CHECK(tr::alive == 0, "no element outlives its result");
}
ENTRY(void_histories)
{
	{
		bool ok[2]; uint8_t x[2]; x[0] = sym_u8("x"); x[1] = sym_u8("y"); ok[0] = sym::pick("first ok", 0, 1); ok[1] = sym::pick("second ok", 0, 1);
		V a = ok[0] ? V(V::ValueTag{}) : V(V::ErrorTag{}, x[0]), b = ok[1] ? V(V::ValueTag{}) : V(V::ErrorTag{}, x[1]); V* r[2] = { &a, &b };
		for (size_t k = 0; k < BOUND(4, 6); ++k)
		{
			const size_t op = sym::pick("op", 0, 7), i = op & 1, j = 1 - i;
			switch (op >> 1)
			{
				case 0: *r[i] = *r[j]; ok[i] = ok[j]; x[i] = x[j]; break;
				case 1: *r[i] = std::move(*r[j]); ok[i] = ok[j]; x[i] = x[j]; CHECK(r[j]->IsOk() == ok[j], "a moved result keeps its state"); x[j] = uint8_t(x[j] + 1); if ((ok[j] = !ok[j])) *r[j] = Nz::Ok(); else *r[j] = Nz::Err(Err(x[j])); break;
				case 2: { V t(*r[i]); checkVoid(t, ok[i], x[i]); V u(std::move(t)); checkVoid(u, ok[i], x[i]); std::swap(*r[j], u); checkVoid(u, ok[j], x[j]); ok[j] = ok[i]; x[j] = x[i]; } break;
				case 3: { V& self = *r[i]; *r[i] = self; *r[i] = V(self); } break;
			}
			checkVoid(a, ok[0], x[0]); checkVoid(b, ok[1], x[1]);
		}
	}
	CHECK(tr::alive == 0, "no element outlives its result");
}
// conversions between results
struct Wide { tr::E e; uint8_t tag; Wide() : e(1), tag(0) {} Wide(const tr::E& o) : e(o), tag(1) {} Wide(tr::E&& o) : e(std::move(o)), tag(2) {} };
struct WideErr { Err e; uint8_t tag; WideErr(const Err& o) : e(o), tag(1) {} WideErr(Err&& o) : e(std::move(o)), tag(2) {} };
ENTRY(conversions)
{
	{
		using W = Nz::Result<Wide, WideErr>; using WV = Nz::Result<void, WideErr>;
		const uint8_t x = sym_u8("x"); const bool ok = sym::pick("ok", 0, 1), moved = sym::pick("moved", 0, 1); R r = ok ? R(R::ValueTag{}, x) : R(R::ErrorTag{}, x); V v = ok ? V(V::ValueTag{}) : V(V::ErrorTag{}, x); const uint8_t tag = moved ? 2 : 1;
		W w = moved ? W(std::move(r)) : W(std::as_const(r)); WV wv = moved ? WV(std::move(v)) : WV(std::as_const(v));
		CHECK(w.IsOk() == ok, "a conversion keeps the state"); CHECK(wv.IsOk() == ok, "a conversion keeps the state"); CHECK(r.IsOk() == ok, "the source keeps its state"); CHECK(v.IsOk() == ok, "the source keeps its state");
		if (ok) { CHECK(w->e.get() == x, "a conversion keeps the value"); CHECK(w->tag == tag, "copied or moved as asked"); } else { CHECK(w.GetError().e.get() == x, "a conversion keeps the error"); CHECK(w.GetError().tag == tag, "copied or moved as asked"); CHECK(wv.GetError().e.get() == x, "a conversion keeps the error"); CHECK(wv.GetError().tag == tag, "copied or moved as asked"); }
		if (!moved) { check(r, ok, x); checkVoid(v, ok, x); W w2(r); CHECK(w2.IsOk() == ok, "a conversion keeps the state"); check(r, ok, x); WV v2(v); CHECK(v2.IsOk() == ok, "a conversion keeps the state"); checkVoid(v, ok, x); }
		sym_note(x);
	}
	CHECK(tr::alive == 0, "no element outlives its result");
}
// integers as values and errors, of the same or of different types
ENTRY(integers)
{
	const uint32_t x = sym_u32("x"); const int16_t e = int16_t(sym_u16("e"));
	{ Nz::Result<uint32_t, int16_t> r = x; CHECK(r.GetValue() == x, "value"); r = Nz::Err(e); CHECK(r.IsErr(), "error"); CHECK(r.GetError() == e, "error"); CHECK(r.GetValueOr(5u) == 5, "default"); Nz::Result<uint64_t, int32_t> w = r; CHECK(w.IsErr(), "error"); CHECK(w.GetError() == e, "error"); r = Nz::Ok(x + 1); w = r; CHECK(w.GetValue() == uint64_t(x + 1), "value"); }
	{ Nz::Result<uint32_t, uint32_t> r = Nz::Ok(x); CHECK(r.IsOk(), "same types: a value"); CHECK(r.GetValue() == x, "value"); r = Nz::Err(x); CHECK(r.IsErr(), "same types: an error"); CHECK(r.GetError() == x, "error"); Nz::Result<uint32_t, uint32_t> z; CHECK(z.IsOk(), "a default result is a value"); CHECK(z.GetValue() == 0, "value-initialised"); }
	{ Nz::Result<bool, bool> r = Nz::Ok(false); CHECK(r.IsOk(), "false is a value"); CHECK(bool(r), "conversion is about the state"); CHECK(!r.GetValue(), "value"); CHECK(!r.GetValueOr(true), "value"); r = Nz::Err(false); CHECK(r.IsErr(), "error"); CHECK(!bool(r), "conversion is about the state"); }
	{ Nz::Result<void, uint32_t> r = Nz::Err(x); CHECK(r.IsErr(), "any error value is an error"); CHECK(r.GetError() == x, "error"); Nz::Result<void, uint64_t> w = r; CHECK(w.IsErr(), "error"); CHECK(w.GetError() == x, "error"); }
}
