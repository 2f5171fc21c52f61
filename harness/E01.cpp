// BOUNDS: every content, every enum value, every iterator position and offset; enums of 1, 4, 9, 250 and 300 values over 8/16-bit and tracked elements, signed and unsigned underlying types
// ASSUMES: positions stay within [begin, end]
// VARIANT: run
// VARIANT: run20 std=c++20
#include "sym.hpp"
#include "track.hpp"
#include <NazaraUtils/EnumArray.hpp>
#include <functional>

enum class One { Only, Max = Only };
enum class Small : uint8_t { A, B, C, D, Max = D };
enum class Large : uint16_t { A, Z = 299, Max = Z };
enum class Byte : uint8_t { A, Z = 249, Max = Z };
enum class Wide : int64_t { A, B, C, D, E, F, G, H, I, Max = I };

template<typename En, typename T, size_t N> struct Bed
{
	using A = Nz::EnumArray<En, T>; A a; T m[N];
	Bed() { for (size_t i = 0; i < N; ++i) { m[i] = sym::any<T>("content"); a[En(i)] = m[i]; } }
	void same() { const A& c = a; for (size_t i = 0; i < N; ++i) { CHECK(a[En(i)] == m[i], "indexing"); CHECK(c[En(i)] == m[i], "const indexing"); CHECK(&a[En(i)] == a.data() + i, "elements are stored in order"); CHECK(&c[En(i)] == a.data() + i, "elements are stored in order"); } }
};
template<typename En, typename T, size_t N> static void indexing()
{
	Bed<En, T, N> b; CHECK(b.a.size() == N, "one element per value"); CHECK(Nz::EnumValueCount_v<En> == N, "count"); b.same();
	const size_t i = sym::pick("index", 0, N - 1); const T x = sym::any<T>("x"); T& r = b.a[En(i)]; r = x; b.m[i] = x; b.same();
	typename Bed<En, T, N>::A copy = b.a; b.a[En(i)] = T(x ^ 1); b.m[i] = T(x ^ 1); b.same(); CHECK(copy[En(i)] == x, "copies are independent");
	size_t k = 0; for (T& v : b.a) { CHECK(&v == &b.a[En(k)], "element iteration is in order"); ++k; } CHECK(k == N, "every element"); sym_note(x);
}
ENTRY(indexing_one) { indexing<One, uint8_t, 1>(); }
ENTRY(indexing_small) { indexing<Small, uint16_t, 4>(); }
ENTRY(indexing_wide) { indexing<Wide, uint8_t, 9>(); }
// any enum value, also unknown to the compiler
ENTRY(indexing_symbolic)
{
	Nz::EnumArray<Wide, uint32_t> a; for (size_t i = 0; i < 9; ++i) a[Wide(i)] = uint32_t(i) * 7; const uint64_t i = sym_u64("index"); ASSUME(i < 9); const uint64_t j = sym_u64("other"); ASSUME(j < 9);
	const auto& c = a; CHECK(c[Wide(i)] == i * 7, "indexing reads the value's element"); const uint32_t x = sym_u32("x"); a[Wide(i)] = x; CHECK(a[Wide(j)] == (i == j ? x : j * 7), "writing changes that element only"); CHECK(&a[Wide(i)] == a.data() + i, "indexing designates the value's element");
}
template<typename En, typename T, size_t N> static void iteration()
{
	Bed<En, T, N> b; const auto& c = b.a; size_t k = 0;
	for (auto&& [key, value] : b.a.iter_kv()) { CHECK(key == En(k), "keys in order"); CHECK(&value == &b.a[En(k)], "a reference to the element"); value = T(value + 1); b.m[k] = T(b.m[k] + 1); ++k; } CHECK(k == N, "every value once"); b.same();
	k = 0; for (auto&& [key, value] : c.iter_kv()) { static_assert(std::is_const_v<std::remove_reference_t<decltype(value)>>, "const iteration gives const elements"); CHECK(key == En(k), "keys in order"); CHECK(&value == &b.a[En(k)], "a reference to the element"); CHECK(value == b.m[k], "content"); ++k; } CHECK(k == N, "every value once");
	auto kv = b.a.iter_kv(); size_t n = N; for (auto it = kv.end(); it != kv.begin();) { --it; --n; CHECK((*it).first == En(n), "backwards"); CHECK(&(*it).second == &b.a[En(n)], "backwards"); } CHECK(n == 0, "every value once");
	sym_note(b.m[0]);
}
ENTRY(iteration_one) { iteration<One, uint8_t, 1>(); }
ENTRY(iteration_small) { iteration<Small, uint16_t, 4>(); }
ENTRY(iteration_wide) { iteration<Wide, uint8_t, 9>(); }
// the iterator at position i compared with the one at position j, moved by n
template<bool Const> static void laws(size_t count)
{
	Nz::EnumArray<Wide, uint8_t> a; for (size_t k = 0; k < 9; ++k) a[Wide(k)] = uint8_t(k);
	auto kv = [&] { if constexpr (Const) return std::as_const(a).iter_kv(); else return a.iter_kv(); }(); using It = decltype(kv.begin()); using D = typename It::difference_type;
	auto at = [&](It& it, int64_t k) { return it == It(kv, D(k)); };
	const int64_t i = int64_t(sym_u64("i")); const int64_t j = int64_t(sym_u64("j")); ASSUME((i >= 0) & (i <= 9) & (j >= 0) & (j <= 9)); const int64_t n = j - i;
	It it(kv, D(i)); const It jt(kv, D(j)); It b = kv.begin(); It e = kv.end(); CHECK(at(b, 0), "begin"); CHECK(at(e, 9), "end");
	CHECK((it == jt) == (i == j), "=="); CHECK((it != jt) == (i != j), "!="); CHECK((it < jt) == (i < j), "<"); CHECK((it <= jt) == (i <= j), "<="); CHECK((it > jt) == (i > j), ">"); CHECK((it >= jt) == (i >= j), ">=");
	{ It c = it + D(n); CHECK(at(c, j), "it + n"); CHECK(at(it, i), "left alone"); } { It c = D(n) + it; CHECK(at(c, j), "n + it"); } { It c = it - D(-n); CHECK(at(c, j), "it - n"); CHECK(at(it, i), "left alone"); }
	{ It c = it; It& r = (c += D(n)); CHECK(&r == &c, "+= returns its target"); CHECK(at(c, j), "+="); } { It c = it; It& r = (c -= D(-n)); CHECK(&r == &c, "-= returns its target"); CHECK(at(c, j), "-="); }
	{ It c = it; (c += D(n)) -= D(n); CHECK(at(c, i), "forth and back"); }
	if (i < 9) { It c = it; It o = c++; CHECK(at(o, i) & at(c, i + 1), "it++"); } if (i < 9) { It c = it; It& r = ++c; CHECK(&r == &c, "++it returns its target"); CHECK(at(c, i + 1), "++it"); }
	if (i > 0) { It c = it; It o = c--; CHECK(at(o, i) & at(c, i - 1), "it--"); } if (i > 0) { It c = it; It& r = --c; CHECK(&r == &c, "--it returns its target"); CHECK(at(c, i - 1), "--it"); }
	if (i < 9) { auto p = *it; CHECK(p.first == Wide(i), "key"); CHECK(&p.second == a.data() + i, "element"); }
	if (j < 9) { auto p = it[D(n)]; CHECK(p.first == Wide(j), "it[n]"); CHECK(&p.second == a.data() + j, "it[n]"); }
	It c = it; c = jt; CHECK(at(c, j), "assignment"); c = std::move(it); CHECK(at(c, i), "assignment");
}
ENTRY(laws) { laws<false>(9); }
ENTRY(laws_const) { laws<true>(9); }
ENTRY(tracked)
{
	{
		Nz::EnumArray<Small, tr::E> a; const uint8_t x = sym_u8("x"); const size_t i = sym::pick("index", 0, 3); a[Small(i)] = tr::E(x); CHECK(a[Small(i)].get() == x, "indexing"); CHECK(tr::alive == 4, "elements");
		for (auto&& [key, value] : a.iter_kv()) { CHECK(value.get() == (size_t(key) == i ? x : 0), "content"); value = tr::E(uint8_t(key)); } CHECK(tr::alive == 4, "iteration copies nothing"); const auto b = a; for (auto&& [key, value] : b.iter_kv()) CHECK(value.get() == uint8_t(key), "content"); CHECK(tr::alive == 8, "copies");
	}
	CHECK(tr::alive == 0, "elements are destroyed");
}

// more values than a signed or unsigned byte counts
template<typename En, size_t N> static void large()
{
	Nz::EnumArray<En, uint16_t> a; for (size_t k = 0; k < N; ++k) a[En(k)] = uint16_t(k * 5); CHECK(a.size() == N, "one element per value");
	const size_t i = sym_u64("i"); ASSUME(i < N); const size_t j = sym_u64("j"); ASSUME(j < N); const int64_t n = int64_t(j) - int64_t(i);
	CHECK(a[En(i)] == i * 5, "indexing reads the value's element"); CHECK(&a[En(i)] == a.data() + i, "elements are stored in order");
	auto kv = a.iter_kv(); using It = decltype(kv.begin()); using D = typename It::difference_type; It it(kv, D(i)); const It jt(kv, D(j));
	{ auto p = *it; CHECK(p.first == En(i), "the key of a position"); CHECK(&p.second == a.data() + i, "the element of a position"); }
	{ auto p = it[D(n)]; CHECK(p.first == En(j), "the key at an offset"); CHECK(&p.second == a.data() + j, "the element at an offset"); }
	CHECK(it + D(n) == jt, "it + n"); CHECK(jt - D(n) == it, "it - n"); { It c = it; c += D(n); CHECK(c == jt, "+="); c -= D(n); CHECK(c == it, "-="); CHECK((it == jt) == (i == j), "=="); CHECK((it < jt) == (i < j), "<"); CHECK((it > jt) == (i > j), ">"); CHECK((it <= jt) == (i <= j), "<="); CHECK((it >= jt) == (i >= j), ">="); CHECK((it != jt) == (i != j), "!="); }
	{ It c = it; It o = c++; CHECK((*o).first == En(i), "it++"); CHECK(c == It(kv, D(i) + 1), "it++"); ++c; --c; c--; CHECK(c == it, "forth and back"); }
	sym_note(i);
}
ENTRY(large_300) { large<Large, 300>(); }
ENTRY(large_250) { large<Byte, 250>(); }
// iteration visits every one of them
template<typename En, size_t N> static void allLarge()
{
	Nz::EnumArray<En, uint16_t> a; const uint16_t x = sym_u16("x"); for (size_t k = 0; k < N; ++k) a[En(k)] = uint16_t(x + k); const auto& c = a;
	size_t k = 0; for (auto&& [key, value] : a.iter_kv()) { CHECK(key == En(k), "keys in order"); CHECK(&value == a.data() + k, "a reference to the element"); ++k; if (k > N) break; } CHECK(k == N, "every value once");
	k = 0; for (auto&& [key, value] : c.iter_kv()) { CHECK(key == En(k), "keys in order"); CHECK(value == uint16_t(x + k), "content"); ++k; if (k > N) break; } CHECK(k == N, "every value once"); sym_note(x);
}
ENTRY(all_300) { allLarge<Large, 300>(); }
ENTRY(all_250) { allLarge<Byte, 250>(); }
