// BOUNDS: every size 0..6 (thorough 10), any contents, every index; every pair of sizes for moves; arrays of 255 to 300 elements
#include <NazaraUtils/StackArray.hpp>
#include "track.hpp"
#include <algorithm>
constexpr size_t Max = BOUND(6, 10);

template<typename A> void shape(A& a, size_t n)
{
	const A& c = a;
	CHECK(c.size() == n, "size"); CHECK(c.max_size() == n, "max_size"); CHECK(c.empty() == (n == 0), "empty");
	CHECK(size_t(a.end() - a.begin()) == n, "begin/end"); CHECK(size_t(c.end() - c.begin()) == n, "begin/end"); CHECK(size_t(c.cend() - c.cbegin()) == n, "cbegin/cend");
	CHECK(size_t(a.rend() - a.rbegin()) == n, "rbegin/rend"); CHECK(size_t(c.rend() - c.rbegin()) == n, "rbegin/rend"); CHECK(size_t(c.crend() - c.crbegin()) == n, "crbegin/crend");
	if (c.size() != n) return;
	auto i = a.begin(); auto ci = c.begin(); auto r = a.rbegin(); auto cr = c.rbegin(); auto ccr = c.crbegin(); auto cci = c.cbegin();
	for (size_t k = 0; k < n; ++k, ++i, ++ci, ++r, ++cr, ++ccr, ++cci)
	{
		CHECK(&a[k] == a.data() + k, "operator[]"); CHECK(&c[k] == c.data() + k, "operator[]"); CHECK(&*i == &a[k], "iteration"); CHECK(&*ci == &a[k], "iteration"); CHECK(&*cci == &a[k], "iteration");
		CHECK(&*r == &a[n - 1 - k], "reverse iteration"); CHECK(&*cr == &a[n - 1 - k], "reverse iteration"); CHECK(&*ccr == &a[n - 1 - k], "reverse iteration");
	}
	if (n) { CHECK(&a.front() == &a[0], "front"); CHECK(&c.front() == &a[0], "front"); CHECK(&a.back() == &a[n - 1], "back"); CHECK(&c.back() == &a[n - 1], "back"); CHECK(a.data() == c.data(), "data"); }
}

ENTRY(lifetime)
{
	const size_t n = sym::pick("n", 0, Max);
	{
		auto a = NazaraStackArray(tr::E, n); shape(a, n);
		CHECK(size_t(tr::alive) == n, "exactly n elements are constructed");
		for (auto& e : a) CHECK(e.get() == 0, "elements are default constructed");
		uint8_t v[Max]; for (size_t i = 0; i < n; ++i) { v[i] = sym::any<uint8_t>("v"); a[i].v = v[i]; }
		for (size_t i = 0; i < n; ++i) CHECK(a[i].get() == v[i], "elements are independent");
		tr::E f(sym::any<uint8_t>("f")); a.fill(f);
		for (size_t i = 0; i < n; ++i) CHECK(a[i].get() == f.v, "fill reaches every element");
		CHECK(size_t(tr::alive) == n + 1, "fill constructs nothing"); sym_note(f.v + n);
	}
	CHECK(tr::alive == 0, "each element is destroyed exactly once");
}

ENTRY(trivial)
{
	const size_t n = sym::pick("n", 0, Max);
	auto a = NazaraStackArray(uint32_t, n); shape(a, n);
	auto b = NazaraStackArrayNoInit(uint32_t, n); shape(b, n);
	uint32_t v[Max] = {};
	for (size_t i = 0; i < n; ++i) { v[i] = sym::any<uint32_t>("v"); b[i] = v[i]; a.data()[n - 1 - i] = v[i]; }
	size_t k = 0; for (uint32_t x : b) { CHECK(x == v[k], "iteration shows the contents"); ++k; }
	for (auto it = b.crbegin(); it != b.crend(); ++it) { --k; CHECK(*it == v[k], "reverse iteration shows the contents"); }
	CHECK(std::equal(a.rbegin(), a.rend(), b.begin()), "reverse iteration is the mirror of iteration");
	if (n) { b.front() = 7; b.back() = 9; CHECK(b[0] == (n == 1 ? 9u : 7u), "front writes the first element"); CHECK(b[n - 1] == 9, "back writes the last element"); sym_note(b[0]); }
}

ENTRY(no_init)
{
	const size_t n = sym::pick("n", 0, Max);
	{
		auto a = NazaraStackArrayNoInit(tr::E, n); shape(a, n);
		CHECK(tr::alive == 0, "no element is constructed on request");
		for (size_t i = 0; i < n; ++i) Nz::PlacementNew(&a[i], uint8_t(i + 1));
		for (size_t i = 0; i < n; ++i) CHECK(a[i].get() == i + 1, "elements constructed in place");
	}
	CHECK(tr::alive == 0, "each element is destroyed exactly once");
	sym_note(n);
}

ENTRY(moves)
{
	using A = Nz::StackArray<tr::E>;
	{
		const size_t n = sym::pick("n", 0, 4), m = sym::pick("m", 0, 3);
		A a = NazaraStackArray(tr::E, n); A b = NazaraStackArray(tr::E, m);
		uint8_t v[4]; for (size_t i = 0; i < n; ++i) { v[i] = sym::any<uint8_t>("v"); a[i].v = v[i]; }
		const tr::E* storage = a.data();
		auto owns = [&](A& x) { shape(x, n); CHECK(x.data() == storage, "the storage is handed over"); if (x.size() == n) for (size_t i = 0; i < n; ++i) CHECK(x[i].get() == v[i], "the elements are handed over"); };
		switch (sym::pick("how", 0, 4))
		{
			case 0: { A c(std::move(a)); owns(c); shape(a, 0); CHECK(size_t(tr::alive) == n + m, "moving creates no element"); } break;
			case 1: b = std::move(a); owns(b); shape(a, 0); CHECK(size_t(tr::alive) == n, "the former elements are destroyed once"); break;
			case 2: { A c; shape(c, 0); c = std::move(a); owns(c); a = std::move(c); owns(a); shape(c, 0); } break;
			case 3: std::swap(a, b); owns(b); shape(a, m); break;
			case 4: { A c(std::move(a)); A d(std::move(a)); shape(d, 0); owns(c); } break;
		}
		sym_note(n * 8 + m);
	}
	CHECK(tr::alive == 0, "each element is destroyed exactly once");
}

ENTRY(long_array)
{
	const size_t t[] = { 255, 256, 300 }; const size_t n = t[sym::pick("n", 0, 2)]; const uint32_t x = sym_u32("x"); const uint32_t y = sym_u32("y");
	auto a = NazaraStackArray(uint32_t, n); shape(a, n); a.fill(x); for (size_t i = 0; i < n; ++i) CHECK(a[i] == x, "fill reaches every element"); a.back() = y; CHECK(a[n - 1] == y, "the last element"); auto b = std::move(a); shape(b, n); CHECK(b[n - 1] == y, "handed over"); sym_note(y);
	{ auto c = NazaraStackArray(tr::E, n); CHECK(size_t(tr::alive) == n, "exactly n elements are constructed"); CHECK(c[n - 1].get() == 0, "the last one too"); } CHECK(tr::alive == 0, "each element is destroyed exactly once");
}
