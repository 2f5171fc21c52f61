// BOUNDS: every argument and state value; function references to lambdas (const, mutable, capturing), functors, functions, function pointers and other references; by-value, reference, rvalue-reference, move-only and void signatures
// ASSUMES: the callable outlives the reference
// VARIANT: run
// VARIANT: run20 std=c++20
#include "sym.hpp"
#include "track.hpp"
#include <NazaraUtils/FunctionRef.hpp>
#include <memory>

static uint32_t calls;
static uint32_t twice(uint32_t x) { ++calls; return x * 2; }
static uint32_t thrice(uint32_t x) noexcept { ++calls; return x * 3; }
struct Adder { uint32_t n; uint32_t operator()(uint32_t x) { ++calls; n += x; return n; } };
struct ConstAdder { uint32_t n; uint32_t operator()(uint32_t x) const { ++calls; return n + x; } };
struct Both { uint32_t n; uint32_t operator()(uint32_t x) { ++calls; return n + x; } uint32_t operator()(uint32_t x) const { ++calls; return n - x; } };
struct Many { uint32_t n; uint32_t operator()(uint32_t x) const { ++calls; return n ^ x; } uint32_t operator()(const char*) const { return 0; } uint32_t operator()() const { return 1; } };
using F = Nz::FunctionRef<uint32_t(uint32_t)>;
static uint32_t through(F f, uint32_t x) { return f(x); }
static uint32_t throughRef(const F& f, uint32_t x) { return f(x); }

ENTRY(kinds)
{
	calls = 0; const uint32_t n = sym_u32("n"); const uint32_t x = sym_u32("x"); uint32_t r = 0, e = 0;
	switch (sym::pick("kind", 0, 11))
	{
		case 0: { auto l = [&](uint32_t a) { ++calls; return a + n; }; F f(l); CHECK(bool(f), "a reference to a callable is true"); r = f(x); e = x + n; } break;
		case 1: { const auto l = [&](uint32_t a) { ++calls; return a - n; }; F f(l); r = f(x); e = x - n; } break;
		case 2: { Adder a{n}; F f(a); r = f(x); e = n + x; CHECK(a.n == n + x, "a call changes the callable itself"); } break;
		case 3: { const ConstAdder a{n}; F f(a); r = f(x); e = n + x; CHECK(a.n == n, "left alone"); } break;
		case 4: { Both b{n}; F f(b); r = f(x); e = n + x; } break;
		case 5: { const Both b{n}; F f(b); r = f(x); e = n - x; } break;
		case 6: { Many m{n}; F f(m); r = f(x); e = n ^ x; } break;
		case 7: { F f(twice); CHECK(bool(f), "a reference to a function is true"); r = f(x); e = 2 * x; } break;
		case 8: { uint32_t (*p)(uint32_t) = thrice; F f(p); r = f(x); e = 3 * x; } break;
		case 9: { r = through([&](uint32_t a) { ++calls; return a ^ n; }, x); e = x ^ n; } break;
		case 10: { r = throughRef(Adder{n}, x); e = x + n; } break;
		case 11: { uint32_t own = n; auto l = [own](uint32_t a) mutable { ++calls; own += a; return own; }; F f(l); r = f(x); e = n + x; CHECK(l(0) == n + x, "a call changes the callable itself"); --calls; } break;
	}
	CHECK(calls == 1, "the callable is called exactly once"); CHECK(r == e, "the callable is called with the arguments and its result returned"); sym_note(r);
}
ENTRY(copies)
{
	calls = 0; const uint32_t n = sym_u32("n"); const uint32_t x = sym_u32("x"); const uint32_t y = sym_u32("y"); const uint32_t z = sym_u32("z");
	Adder a{n}; Adder other{7}; F f(a); F g(f); const F h(std::move(f)); F k(other);
	CHECK(g(x) == n + x, "a copy refers to the same callable"); CHECK(h(y) == n + x + y, "a moved reference refers to the same callable"); CHECK(k(z) == 7 + z, "another callable");
	CHECK((a.n == n + x + y) & (other.n == 7 + z), "state is kept in the callables"); CHECK(calls == 3, "once each");
	F& r = (k = g); CHECK(&r == &k, "assignment returns its target"); CHECK(k(z) == n + x + y + z, "an assigned reference refers to the same callable"); CHECK(other.n == 7 + z, "the other callable is left alone");
	F l(h); CHECK(l(1) == n + x + y + z + 1, "a copy of a const reference"); F& self = l; l = self; CHECK(l(1) == n + x + y + z + 2, "self-assignment");
	Nz::FunctionRef<uint32_t(uint32_t)> n0(nullptr); CHECK(!n0, "a null reference is false"); CHECK(bool(l), "a reference to a callable is true"); n0 = l; CHECK(bool(n0), "assignment"); CHECK(n0(1) == n + x + y + z + 3, "assignment"); CHECK(calls == 7, "once each");
	l = nullptr; CHECK(!l, "a null reference is false"); F m(l); CHECK(!m, "a copy of a null reference is false");
	l = F(twice); CHECK(l(x) == 2 * x, "rebinding");
}
// arguments
struct MoveOnly { uint32_t v; explicit MoveOnly(uint32_t x) : v(x) {} MoveOnly(MoveOnly&& o) noexcept : v(o.v) { o.v = 0xDEAD; } MoveOnly& operator=(MoveOnly&&) = delete; };
ENTRY(arguments)
{
	const uint32_t x = sym_u32("x"); const uint8_t y = sym_u8("y"); uint32_t got = 0; const void* at = nullptr; calls = 0;
	switch (sym::pick("kind", 0, 11))
	{
		case 0: { auto l = [&](uint32_t& a) { ++calls; at = &a; a += 1; }; Nz::FunctionRef<void(uint32_t&)> f(l); uint32_t v = x; f(v); CHECK(at == &v, "a reference argument is the object given"); CHECK(v == x + 1, "and is modified"); } break;
		case 1: { auto l = [&](const uint32_t& a) { ++calls; at = &a; got = a; }; Nz::FunctionRef<void(const uint32_t&)> f(l); uint32_t v = x; f(v); CHECK(at == &v, "a reference argument is the object given"); CHECK(got == x, "value"); } break;
		case 2: { auto l = [&](MoveOnly m) { ++calls; got = m.v; }; Nz::FunctionRef<void(MoveOnly)> f(l); MoveOnly m(x); f(std::move(m)); CHECK(got == x, "a move-only argument"); CHECK(m.v == 0xDEAD, "moved"); } break;
		case 3: { auto l = [&](MoveOnly&& m) { ++calls; at = &m; got = m.v; }; Nz::FunctionRef<void(MoveOnly&&)> f(l); MoveOnly m(x); f(std::move(m)); CHECK(at == &m, "an rvalue reference is the object given"); CHECK((got == x) & (m.v == x), "value"); } break;
		case 4: { auto l = [&](std::unique_ptr<uint32_t> p) { ++calls; at = p.get(); got = *p; }; Nz::FunctionRef<void(std::unique_ptr<uint32_t>)> f(l); auto p = std::make_unique<uint32_t>(x); const void* was = p.get(); f(std::move(p)); CHECK(at == was, "ownership is passed on"); CHECK(!p, "ownership is passed on"); CHECK(got == x, "value"); } break;
		case 5: { auto l = [&](tr::E e) { ++calls; got = e.get(); }; Nz::FunctionRef<void(tr::E)> f(l); tr::E e(y); f(e); CHECK(got == y, "by value"); CHECK(e.get() == y, "an lvalue argument is left alone"); } break;
		case 6: { auto l = [&](tr::E e) { ++calls; got = e.get(); }; Nz::FunctionRef<void(tr::E)> f(l); const tr::E e(y); f(e); CHECK(got == y, "by value"); CHECK(e.get() == y, "an lvalue argument is left alone"); f(tr::E(uint8_t(y + 1))); CHECK(got == uint8_t(y + 1), "by value"); --calls; } break;
		case 7: { auto l = [&]() { ++calls; return x; }; Nz::FunctionRef<uint32_t()> f(l); got = f(); CHECK(got == x, "no argument"); } break;
		case 8: { uint32_t target = x; auto l = [&]() -> uint32_t& { ++calls; return target; }; Nz::FunctionRef<uint32_t&()> f(l); uint32_t& r = f(); CHECK(&r == &target, "a reference result is the object returned"); } break;
		case 9: { auto l = [&](uint32_t a, uint8_t b, uint64_t c, const char* d, bool e) -> uint64_t { ++calls; return (uint64_t(a) << 32 | b) ^ c ^ uint64_t(d[1]) ^ e; }; Nz::FunctionRef<uint64_t(uint32_t, uint8_t, uint64_t, const char*, bool)> f(l); const uint64_t c = sym_u64("c"); const char s[] = "ab"; const uint64_t r = f(x, y, c, s, true); CHECK(r == ((uint64_t(x) << 32 | y) ^ c ^ 'b' ^ 1), "argument order"); } break;
		case 10: { auto l = [&]() { ++calls; return MoveOnly(x); }; Nz::FunctionRef<MoveOnly()> f(l); MoveOnly m = f(); CHECK(m.v == x, "a move-only result"); } break;
		case 11: { auto l = [&](uint8_t a) -> uint16_t { ++calls; return uint16_t(a) * 3; }; Nz::FunctionRef<uint64_t(uint32_t)> f(l); const uint64_t r = f(y); CHECK(r == uint64_t(y) * 3, "arguments and result are converted"); } break;
	}
	CHECK(calls == 1, "called once"); sym_note(got);
}
ENTRY(arguments_alive) { { tr::E e(1); auto l = [](tr::E& a, const tr::E& b) { return a.get() == b.get(); }; Nz::FunctionRef<bool(tr::E&, const tr::E&)> f(l); CHECK(f(e, tr::E(1)), "temporaries live during the call"); } CHECK(tr::alive == 0, "nothing is leaked"); }
// members and nested references
struct S { uint32_t n; uint32_t add(uint32_t x) { ++calls; return n += x; } uint32_t peek(uint32_t x) const { ++calls; return n ^ x; } };
ENTRY(members)
{
	calls = 0; const uint32_t n = sym_u32("n"); const uint32_t x = sym_u32("x"); S s{n};
	auto add = &S::add; Nz::FunctionRef<uint32_t(S&, uint32_t)> f(add); CHECK(f(s, x) == n + x, "a member function pointer"); CHECK(s.n == n + x, "acts on the object");
	auto peek = &S::peek; Nz::FunctionRef<uint32_t(const S*, uint32_t)> g(peek); CHECK(g(&s, 5) == ((n + x) ^ 5), "a const member function pointer"); auto mem = &S::n; Nz::FunctionRef<uint32_t&(S&)> h(mem); CHECK(&h(s) == &s.n, "a data member pointer");
	Adder a{n}; F i(a); Nz::FunctionRef<uint64_t(uint32_t)> j(i); CHECK(j(x) == uint64_t(uint32_t(n + x)), "a reference to another kind of reference"); CHECK(a.n == n + x, "acts on the callable"); CHECK(calls == 3, "once each");
}
struct Failure { uint32_t v; };
ENTRY(throws)
{
	const uint32_t x = sym_u32("x"); uint32_t got = 0; auto l = [&](uint32_t a) -> uint32_t { if (a & 1) throw Failure{a}; return a; }; F f(l);
	try { const uint32_t r = f(x); CHECK((r == x) & !(x & 1), "result"); } catch (const Failure& e) { got = e.v; CHECK((got == x) & (x & 1), "exceptions pass through"); }
	sym_note(got);
}
