// BOUNDS: every value; all pairs of states of two operands, histories of 3 (thorough 4) operations over two objects; in-place and heap forms, assignable and non-assignable objects, a copy which throws in the heap form
// ASSUMES: allocation succeeds; constructors of an object stored in place do not throw; Emplace is used on an empty implementation
// VARIANT: run
// VARIANT: run20 std=c++20
#include "sym.hpp"
#include "track.hpp"
#include <NazaraUtils/PrivateImpl.hpp>

// ---- in place
struct Two // two constructor arguments, 16 bytes aligned
{
	alignas(16) tr::E a; tr::E b; uint32_t n;
	Two(uint8_t x, uint8_t y) : a(x), b(y), n(uint32_t(x) << 8 | y) {}
	Two(const Two&) = default; Two(Two&&) = default;
};
using IP = Nz::PrivateImpl<tr::E, 64>;
using IT = Nz::PrivateImpl<Two, 128, 32>;
static void isi(IP& p, uint8_t v)
{
	const IP& c = p; tr::E* conv = p; const tr::E* cconv = c; const char* self = reinterpret_cast<const char*>(&p);
	CHECK(p.Get()->get() == v, "Get"); CHECK(c.Get() == p.Get(), "const Get"); CHECK(conv == p.Get(), "conversion"); CHECK(cconv == p.Get(), "const conversion"); CHECK(&*p == p.Get(), "operator*"); CHECK(&*c == p.Get(), "const operator*"); CHECK(p->get() == v, "operator->"); CHECK(c->get() == v, "const operator->");
	const char* at = reinterpret_cast<const char*>(p.Get()); CHECK((at >= self) & (at + sizeof(tr::E) <= self + sizeof(IP)), "the object lives in the buffer");
}
ENTRY(inplace_construct)
{
	{
		const uint8_t x = sym_u8("x"); const uint8_t y = sym_u8("y"); CHECK(tr::alive == 0, "start");
		IP d; isi(d, 0); CHECK(tr::alive == 1, "one object per implementation");
		IP a(x); isi(a, x); IP b(a); isi(a, x); isi(b, x); CHECK(a.Get() != b.Get(), "copies are different objects"); const IP k(y); IP c(k); isi(c, y); CHECK(k->get() == y, "a copy keeps its source");
		IP m(std::move(a)); isi(m, x); CHECK(a->moved, "a move takes the content"); CHECK(tr::alive == 6, "one object per implementation");
		tr::E v(y); IP w(v); isi(w, y); CHECK(v.get() == y, "an lvalue argument is left alone"); IP q(std::move(v)); isi(q, y); CHECK(v.moved, "an rvalue argument is moved");
		*b = tr::E(y); isi(b, y); isi(m, x);
	}
	CHECK(tr::alive == 0, "each object is destroyed");
}
ENTRY(inplace_two)
{
	{
		const uint8_t x = sym_u8("x"); const uint8_t y = sym_u8("y"); IT a(x, y); IT b(a); IT c(std::move(b)); IT d(y, x);
		CHECK((a->a.get() == x) & (a->b.get() == y) & (c->a.get() == x) & (c->b.get() == y) & (a->n == c->n), "content"); CHECK(reinterpret_cast<uintptr_t>(a.Get()) % 16 == 0, "alignment"); CHECK(tr::alive == 8, "objects");
		const size_t how = sym::pick("how", 0, 4);
		if (how == 0) { IT& r = (d = a); CHECK(&r == &d, "assignment returns its target"); CHECK((d->a.get() == x) & (a->a.get() == x), "content"); }
		if (how == 1) { IT& r = (d = std::move(c)); CHECK(&r == &d, "assignment returns its target"); CHECK((d->a.get() == x) & (d->b.get() == y) & c->a.moved, "content"); }
		if (how == 2) { IT& r = d; d = std::move(r); CHECK((d->a.get() == y) & (d->b.get() == x), "self-assignment changes nothing"); }
		if (how == 3) { const IT& r = d; d = r; CHECK((d->a.get() == y) & (d->b.get() == x) & (d->n == (uint32_t(y) << 8 | x)), "self-assignment changes nothing"); }
		if (how == 4) { b = a; CHECK((b->a.get() == x) & (b->b.get() == y), "a moved-from implementation can be assigned"); }
		CHECK(tr::alive == 8, "objects");
	}
	CHECK(tr::alive == 0, "each object is destroyed");
}
template<int Steps> static void inplaceHistory()
{
	{
		const uint8_t x = sym_u8("x"); const uint8_t y = sym_u8("y"); IP p[2] = {IP(x), IP(y)}; uint8_t m[2] = {x, y}; bool gone[2] = {};
		for (int s = 0; s < Steps; ++s)
		{
			const size_t t = sym::pick("target", 0, 1); const size_t o = sym::pick("other", 0, 1);
			switch (sym::pick("op", 0, 3))
			{
				case 0: if (!gone[o]) { const IP& src = p[o]; IP& r = (p[t] = src); CHECK(&r == &p[t], "assignment returns its target"); m[t] = m[o]; gone[t] = false; } break;
				case 1: if (!gone[o]) { IP& r = (p[t] = std::move(p[o])); CHECK(&r == &p[t], "assignment returns its target"); if (t != o) { m[t] = m[o]; gone[t] = false; gone[o] = true; } } break;
				case 2: { const uint8_t z = sym_u8("z"); *p[t] = tr::E(z); m[t] = z; gone[t] = false; } break;
				case 3: if (!gone[t]) { IP q(std::move(p[t])); isi(q, m[t]); gone[t] = true; } break;
			}
			for (int k = 0; k < 2; ++k) { if (gone[k]) CHECK(p[k]->moved, "the source was moved from"); else isi(p[k], m[k]); } CHECK(tr::alive == 2, "one object per implementation");
		}
		sym_note(m[0]);
	}
	CHECK(tr::alive == 0, "each object is destroyed");
}
ENTRY(inplace_history) { inplaceHistory<BOUND(3, 4)>(); }

// ---- heap. T: assignable element, N: neither copy nor move assignable
struct N : tr::X { using tr::X::X; N(const N&) = default; N(N&&) = default; N& operator=(const N&) = delete; N& operator=(N&&) = delete; };
template<typename T> static void ish(Nz::PrivateImpl<T>& p, int v) // v < 0: empty
{
	using I = Nz::PrivateImpl<T>; const I& c = p; T* conv = p; const T* cconv = c;
	CHECK(p.HasValue() == (v >= 0), "HasValue"); CHECK(c.HasValue() == (v >= 0), "HasValue"); CHECK(static_cast<bool>(c) == (v >= 0), "conversion to bool"); CHECK((p.Get() == nullptr) == (v < 0), "Get"); CHECK(c.Get() == p.Get(), "const Get"); CHECK(conv == p.Get(), "conversion"); CHECK(cconv == p.Get(), "const conversion");
	if (v >= 0) { CHECK(p->get() == v, "operator->"); CHECK(c->get() == v, "const operator->"); CHECK(&*p == p.Get(), "operator*"); CHECK(&*c == p.Get(), "const operator*"); }
}
template<typename T> static void heapConstruct()
{
	{
		using I = Nz::PrivateImpl<T>; const uint8_t x = sym_u8("x"); const uint8_t y = sym_u8("y");
		I n(nullptr); ish(n, -1); CHECK(tr::alive == 0, "an empty implementation holds nothing");
		I a(x); ish(a, x); I d; ish(d, 0); T* raw = new T(y); I o(raw); ish(o, y); CHECK(o.Get() == raw, "ownership is taken of the object given"); CHECK(tr::alive == 3, "objects");
		I b(a); ish(a, x); ish(b, x); CHECK(a.Get() != b.Get(), "copies are different objects"); I e(n); ish(e, -1); ish(n, -1);
		const I k(y); I c(k); ish(c, y); CHECK(k->get() == y, "a copy keeps its source"); CHECK(tr::alive == 6, "objects");
		T* at = a.Get(); I m(std::move(a)); ish(m, x); CHECK(m.Get() == at, "moving keeps the object"); ish(a, -1); I f(std::move(n)); ish(f, -1); ish(n, -1); CHECK(tr::alive == 6, "objects");
		T& r = n.Emplace(y); CHECK(&r == n.Get(), "Emplace returns the object"); ish(n, y); T& r2 = a.Emplace(); CHECK(&r2 == a.Get(), "Emplace returns the object"); ish(a, 0);
		m.Reset(); ish(m, -1); m.Reset(); ish(m, -1); e.Reset(); ish(e, -1); CHECK(tr::alive == 7, "Reset destroys the object");
		T& r3 = m.Emplace(x); ish(m, x); CHECK(&r3 == m.Get(), "Emplace after Reset");
	}
	CHECK(tr::alive == 0, "each object is destroyed");
}
ENTRY(heap_construct) { heapConstruct<tr::E>(); }
ENTRY(heap_construct_nonassignable) { heapConstruct<N>(); }
template<typename T> static void heapHistory(int steps)
{
	{
		using I = Nz::PrivateImpl<T>; const uint8_t x = sym_u8("x"); const uint8_t y = sym_u8("y"); I p0(nullptr), p1(nullptr); I* p[2] = {&p0, &p1}; int m[2] = {-1, -1};
		if (sym::pick("first holds", 0, 1)) { p0.Emplace(x); m[0] = x; }
		if (sym::pick("second holds", 0, 1)) { p1.Emplace(y); m[1] = y; }
		for (int s = 0; s < steps; ++s)
		{
			const size_t t = sym::pick("target", 0, 1);
			switch (sym::pick("op", 0, 6))
			{
				case 0: { const size_t o = sym::pick("other", 0, 1); const I& src = *p[o]; I& r = (*p[t] = src); CHECK(&r == p[t], "assignment returns its target"); m[t] = m[o]; if ((t != o) & (m[o] >= 0)) CHECK(p[0]->Get() != p[1]->Get(), "copies are different objects"); } break;
				case 1: { T* from = p[1 - t]->Get(); I& r = (*p[t] = std::move(*p[1 - t])); CHECK(&r == p[t], "assignment returns its target"); CHECK(p[t]->Get() == from, "moving keeps the object"); m[t] = m[1 - t]; m[1 - t] = p[1 - t]->HasValue() ? int((*p[1 - t])->get()) : -1; } break; // the source keeps either nothing or what the target had
				case 2: { T* was = p[t]->Get(); I& src = *p[t]; *p[t] = std::move(src); CHECK(p[t]->Get() == was, "self-assignment changes nothing"); } break;
				case 3: p[t]->Reset(); m[t] = -1; break;
				case 4: if (m[t] < 0) { const uint8_t z = sym_u8("z"); p[t]->Emplace(z); m[t] = z; } break;
				case 5: { const uint8_t z = sym_u8("z"); I q(z); *p[t] = std::move(q); m[t] = z; } break;
				case 6: { I q(std::move(*p[t])); ish(q, m[t]); m[t] = -1; } break;
			}
			ish(*p[0], m[0]); ish(*p[1], m[1]); CHECK(tr::alive == (m[0] >= 0) + (m[1] >= 0), "objects");
		}
		sym_note(x);
	}
	CHECK(tr::alive == 0, "each object is destroyed");
}
ENTRY(heap_history) { heapHistory<tr::E>(BOUND(3, 4)); }
ENTRY(heap_history_nonassignable) { heapHistory<N>(BOUND(3, 4)); }
// a copy which throws leaves the target as it was
template<typename T> static void heapThrow()
{
	{
		using I = Nz::PrivateImpl<T>; const uint8_t x = sym_u8("x"); const uint8_t y = sym_u8("y"); I a(x); I b(nullptr); const size_t holds = sym::pick("target holds", 0, 1); if (holds) b.Emplace(y);
		const size_t how = sym::pick("how", 0, 2); tr::countdown = 0; bool threw = false;
		try { if (how == 0) b = a; else if (how == 1) { I c(a); } else { const I& r = a; a = r; threw = tr::countdown < 0; } } catch (const tr::Failure&) { threw = true; }
		CHECK(threw | (how == 2), "the exception is passed on"); tr::countdown = -1; ish(a, x); ish(b, holds ? y : -1); CHECK(tr::alive == 1 + int(holds), "objects"); b = a; ish(b, x); ish(a, x);
	}
	CHECK(tr::alive == 0, "each object is destroyed");
}
ENTRY(heap_throw) { heapThrow<tr::X>(); }
ENTRY(heap_throw_nonassignable) { heapThrow<N>(); }
