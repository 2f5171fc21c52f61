// BOUNDS: every value; histories of 2 (thorough 3) operations over two objects (construct, copy, move, assign, self-assignment, accessors), for pointers, 8/32/64-bit literals with several defaults and a tracked value type
// ASSUMES: element operations do not throw
// VARIANT: run
// VARIANT: lvalue LVALUE
#include "sym.hpp"
#include "track.hpp"
#include <NazaraUtils/MovablePtr.hpp>
#include <NazaraUtils/MovableValue.hpp>
#include <optional>

// ---- pointers
struct Obj { uint32_t a, b; };
using P = Nz::MovablePtr<Obj>;
static void is(P& p, Obj* v)
{
	const P& c = p; Obj* conv = p; Obj* cconv = c;
	CHECK(p.Get() == v, "Get"); CHECK(c.Get() == v, "const Get"); CHECK(conv == v, "conversion"); CHECK(cconv == v, "const conversion"); CHECK(p.operator->() == v, "operator->"); CHECK(bool(p) == (v != nullptr), "comparison with null");
}
ENTRY(ptr_construct)
{
	Obj objs[4] = {{1, 2}, {3, 4}, {5, 6}, {7, 8}}; const size_t i = sym::pick("index", 0, 4);
	Obj* v = i < 4 ? &objs[i] : nullptr; Obj* const w = v;
	P d; is(d, nullptr);
	P a(v); is(a, w); CHECK(v == w, "the pointer given is unchanged");
	P b(a); is(b, w); is(a, w);
	const P c(a); P e(c); is(e, w); CHECK(c.Get() == w, "a copy keeps its source");
	P f(std::move(a)); is(f, w); is(a, nullptr);
	P g(std::move(a)); is(g, nullptr); is(a, nullptr);
	if (v) { CHECK(f->a == objs[i].a, "member access"); (*f).b = 99; CHECK(objs[i].b == 99, "member access"); CHECK(&(*f) == v, "dereference"); }
	for (int k = 0; k < 4; ++k) CHECK(objs[k].a == uint32_t(2 * k + 1), "the objects are left alone");
}
template<int Steps> static void ptrHistory()
{
	Obj objs[3] = {}; auto sel = [&](size_t i) -> Obj* { return i < 3 ? &objs[i] : nullptr; };
	const size_t i0 = sym::pick("first", 0, 3); const size_t i1 = sym::pick("second", 0, 3);
	P p[2] = {P(sel(i0)), P(sel(i1))}; Obj* m[2] = {sel(i0), sel(i1)};
	for (int s = 0; s < Steps; ++s)
	{
		const size_t t = sym::pick("target", 0, 1); const size_t o = sym::pick("other", 0, 1);
		switch (sym::pick("op", 0, 4))
		{
			case 0: { P& r = (p[t] = p[o]); CHECK(&r == &p[t], "assignment returns its target"); m[t] = m[o]; } break;
			case 1: { P& r = (p[t] = std::move(p[o])); CHECK(&r == &p[t], "assignment returns its target"); std::swap(m[t], m[o]); } break; // the source takes the target's pointer
			case 2: { Obj* v = sel(2); P& r = (p[t] = v); CHECK(&r == &p[t], "assignment returns its target"); CHECK(v == sel(2), "the pointer given is unchanged"); m[t] = v; } break;
			case 3: p[t] = nullptr; m[t] = nullptr; break;
			case 4: { P q(std::move(p[t])); Obj* v = m[t]; is(q, v); m[t] = nullptr; is(p[t], nullptr); p[o] = std::move(q); is(q, m[o]); m[o] = v; } break;
		}
		is(p[0], m[0]); is(p[1], m[1]);
	}
}
ENTRY(ptr_history2) { ptrHistory<2>(); }
ENTRY(T_ptr_history) { ptrHistory<3>(); }

// ---- literals
template<typename T, T Def> using L = Nz::MovableLiteral<T, Def>;
template<typename T, T Def> static void isl(L<T, Def>& p, T v)
{
	const L<T, Def>& c = p; T& conv = p; const T& cconv = c;
	CHECK(p.Get() == v, "Get"); CHECK(c.Get() == v, "const Get"); CHECK(conv == v, "conversion"); CHECK(cconv == v, "const conversion"); CHECK(&p.Get() == &conv, "one value"); CHECK(&c.Get() == &conv, "one value"); CHECK(&cconv == &conv, "one value");
}
template<typename T, T Def> static void litConstruct()
{
	T x = sym::any<T>("x"); const T x0 = x; L<T, Def> d; isl(d, Def);
	L<T, Def> a(x); isl(a, x0); CHECK(x == x0, "the value given is unchanged");
	L<T, Def> b(a); isl(b, x0); isl(a, x0); const L<T, Def> c(a); L<T, Def> e(c); isl(e, x0); CHECK(c.Get() == x0, "a copy keeps its source");
	L<T, Def> f(std::move(a)); isl(f, x0); isl(a, Def);
	L<T, Def> g(std::move(a)); isl(g, Def); isl(a, Def);
	T y = std::move(f); CHECK(y == x0, "rvalue conversion"); T z = std::move(b).Get(); CHECK(z == x0, "rvalue Get");
	e.Get() = T(x0 ^ 2); isl(e, T(x0 ^ 2)); static_cast<T&>(e) = T(x0 ^ 1); isl(e, T(x0 ^ 1)); CHECK(c.Get() == x0, "copies are independent"); sym_note(x);
}
ENTRY(lit_construct_u8) { litConstruct<uint8_t, 0xFF>(); }
ENTRY(lit_construct_i32) { litConstruct<int32_t, -1>(); }
ENTRY(lit_construct_u64) { litConstruct<uint64_t, 0>(); }
template<typename T, T Def, int Steps> static void litHistory()
{
	const T x = sym::any<T>("x"); const T y = sym::any<T>("y"); using M = L<T, Def>;
	M p[2] = {M(x), M(y)}; T m[2] = {x, y};
	for (int s = 0; s < Steps; ++s)
	{
		const size_t t = sym::pick("target", 0, 1); const size_t o = sym::pick("other", 0, 1);
		switch (sym::pick("op", 0, 5))
		{
			case 0: { M& r = (p[t] = p[o]); CHECK(&r == &p[t], "assignment returns its target"); m[t] = m[o]; } break;
			case 1: { const M& src = p[o]; M& r = (p[t] = src); CHECK(&r == &p[t], "assignment returns its target"); m[t] = m[o]; } break;
			case 2: { M& r = (p[t] = std::move(p[o])); CHECK(&r == &p[t], "assignment returns its target"); std::swap(m[t], m[o]); } break;
			case 3: { T v = sym::any<T>("v"); const T v0 = v; M& r = (p[t] = v); CHECK(&r == &p[t], "assignment returns its target"); CHECK(v == v0, "the value given is unchanged"); m[t] = v0; } break;
			case 4: { M q(std::move(p[t])); isl(q, m[t]); m[t] = Def; } break;
			case 5: { T v = sym::any<T>("v"); p[t] = T(v); m[t] = v; } break;
		}
		isl(p[0], m[0]); isl(p[1], m[1]);
	}
	sym_note(p[0].Get());
}
ENTRY(lit_history_u8) { litHistory<uint8_t, 0xFF, 2>(); }
ENTRY(lit_history_i32) { litHistory<int32_t, -1, 2>(); }
ENTRY(T_lit_history_i32) { litHistory<int32_t, -1, 3>(); }

// ---- values
using V = Nz::MovableValue<tr::E>;
static void isv(V& p, uint8_t v)
{
	const V& c = p; tr::E& conv = p; const tr::E& cconv = c;
	CHECK(p.Get().get() == v, "Get"); CHECK(c.Get().get() == v, "const Get"); CHECK(&conv == &p.Get(), "conversion"); CHECK(&cconv == &conv, "const conversion"); CHECK(&c.Get() == &conv, "one value");
}
ENTRY(value_construct)
{
	{
		const uint8_t x = sym_u8("x"); tr::E v(x); const tr::E cv(x);
		V d; isv(d, 0);
		V a(v); isv(a, x); CHECK(v.get() == x, "building from an lvalue leaves it unchanged");
		V b(cv); isv(b, x); CHECK(cv.get() == x, "building from an lvalue leaves it unchanged");
		V c(std::move(v)); isv(c, x); CHECK(v.moved, "an rvalue is moved");
		#ifdef LVALUE
		V e(a);
#else
		V e(std::as_const(a));
#endif
		isv(e, x); isv(a, x); const V k(a); V f(k); isv(f, x); CHECK(k.Get().get() == x, "a copy keeps its source");
		V g(std::move(a)); isv(g, x); CHECK(a.Get().moved, "an rvalue is moved");
		tr::E h = std::move(g); CHECK(h.get() == x, "rvalue conversion"); CHECK(g.Get().moved, "rvalue conversion moves");
		tr::E i = std::move(f).Get(); CHECK(i.get() == x, "rvalue Get"); CHECK(f.Get().moved, "rvalue Get moves"); isv(e, x); V w(x); isv(w, x);
	}
	CHECK(tr::alive == 0, "no value outlives its wrapper");
}
template<int Steps> static void valueHistory()
{
	{
		const uint8_t x = sym_u8("x"); const uint8_t y = sym_u8("y"); V p[2] = {V(x), V(y)}; uint8_t m[2] = {x, y}; bool gone[2] = {};
		for (int s = 0; s < Steps; ++s)
		{
			const size_t t = sym::pick("target", 0, 1); const size_t o = sym::pick("other", 0, 1);
			switch (sym::pick("op", 0, 5))
			{
				#ifdef LVALUE
				case 0: if (!gone[o]) { V& r = (p[t] = p[o]); CHECK(&r == &p[t], "assignment returns its target"); m[t] = m[o]; gone[t] = false; } break;
#else
				case 0: break;
#endif
				case 1: if (!gone[o]) { const V& src = p[o]; V& r = (p[t] = src); CHECK(&r == &p[t], "assignment returns its target"); m[t] = m[o]; gone[t] = false; } break;
				case 2: if (!gone[o]) { V& r = (p[t] = std::move(p[o])); CHECK(&r == &p[t], "assignment returns its target"); if (t != o) { m[t] = m[o]; gone[t] = false; gone[o] = true; } } break;
				case 3: { const uint8_t z = sym_u8("z"); tr::E v(z); V& r = (p[t] = v); CHECK(&r == &p[t], "assignment returns its target"); CHECK(v.get() == z, "assigning an lvalue leaves it unchanged"); m[t] = z; gone[t] = false; } break;
				case 4: { const uint8_t z = sym_u8("z"); tr::E v(z); V& r = (p[t] = std::move(v)); CHECK(&r == &p[t], "assignment returns its target"); CHECK(v.moved, "an rvalue is moved"); m[t] = z; gone[t] = false; } break;
				case 5: { const uint8_t z = sym_u8("z"); const tr::E v(z); p[t] = v; CHECK(v.get() == z, "assigning an lvalue leaves it unchanged"); m[t] = z; gone[t] = false; } break;
			}
			for (int k = 0; k < 2; ++k) { if (gone[k]) CHECK(p[k].Get().moved, "a source was moved from"); else isv(p[k], m[k]); }
		}
		sym_note(m[0]);
	}
	CHECK(tr::alive == 0, "no value outlives its wrapper");
}
ENTRY(value_history) { valueHistory<BOUND(2, 3)>(); }
// implicitly generated members of a class holding wrappers
struct Holder { Nz::MovablePtr<Obj> p; L<int32_t, -1> i; V v; };
ENTRY(holder)
{
	{
		Obj o{1, 2}; const uint32_t n = sym_u32("n"); const uint8_t x = sym_u8("x"); Holder a{&o, int32_t(n), V(x)};
		Holder b(a); is(a.p, &o); is(b.p, &o); isl(a.i, int32_t(n)); isl(b.i, int32_t(n)); isv(a.v, x); isv(b.v, x);
		Holder c(std::move(a)); is(a.p, nullptr); isl(a.i, -1); is(c.p, &o); isl(c.i, int32_t(n)); isv(c.v, x);
		Holder d; d = std::move(c); is(c.p, nullptr); isl(c.i, -1); is(d.p, &o); isl(d.i, int32_t(n)); isv(d.v, x);
		Holder e; e = d; is(d.p, &o); isl(d.i, int32_t(n)); is(e.p, &o); isl(e.i, int32_t(n)); isv(d.v, x); isv(e.v, x);
		Holder& r = d; d = std::move(r); is(d.p, &o); isl(d.i, int32_t(n)); isv(d.v, x); d = std::as_const(r); is(d.p, &o); isv(d.v, x);
	}
	CHECK(tr::alive == 0, "no value outlives its wrapper");
}
