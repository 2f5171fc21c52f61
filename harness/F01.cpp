// BOUNDS: every pair of subsets, and every value with every subset, of 15 enumerations of 1 to 64 values and 12 mask enumerations of 1 to 64 bits; C++17 and C++20
// VARIANT: run
// VARIANT: cpp20 std=c++20
#include "flags.hpp"

template<typename K> void sets()
{
	using F = typename K::F;
	const uint64_t a = K::anySet("a"), all = K::all; const uint64_t b = K::anySet("b");
	const F x = K::make(a); const F y = K::make(b);
	CHECK(K::set(x) == a, "the set given"); CHECK(K::set(F()) == 0, "no value by default"); CHECK(K::set(F(x)) == a, "copy");
	CHECK(K::set(x | y) == (a | b), "union"); CHECK(K::set(x & y) == (a & b), "intersection"); CHECK(K::set(x ^ y) == (a ^ b), "symmetric difference"); CHECK(K::set(~x) == (~a & all), "complement within the declared values");
	{ F z = x; CHECK(&(z |= y) == &z, "returns itself"); CHECK(K::set(z) == (a | b), "union in place"); } { F z = x; CHECK(&(z &= y) == &z, "returns itself"); CHECK(K::set(z) == (a & b), "intersection in place"); } { F z = x; CHECK(&(z ^= y) == &z, "returns itself"); CHECK(K::set(z) == (a ^ b), "symmetric difference in place"); }
	{ F z = x; z.Set(y); CHECK(K::set(z) == (a | b), "Set"); } { F z = x; z.Clear(y); CHECK(K::set(z) == (a & ~b), "Clear of a set"); } { F z = x; z.Clear(); CHECK(K::set(z) == 0, "Clear"); }
	{ F z = x; z = y; CHECK(K::set(z) == b, "assignment"); } { F z = x; z |= z; CHECK(K::set(z) == a, "union with itself"); z ^= z; CHECK(K::set(z) == 0, "symmetric difference with itself"); } { F z = x; z.Clear(z); CHECK(K::set(z) == 0, "Clear of itself"); }
	CHECK(x.Test(y) == ((a & b) == b), "Test is inclusion"); CHECK((x == y) == (a == b), "equality"); CHECK((x != y) == (a != b), "inequality"); CHECK(static_cast<bool>(x) == (a != 0), "bool conversion");
	CHECK(static_cast<uint64_t>(x) == a, "integer conversion"); CHECK(static_cast<typename F::BitField>(x) == a, "integer conversion"); CHECK(static_cast<int64_t>(x) == int64_t(a), "integer conversion");
	CHECK(uint64_t(F::ValueMask) == all, "the mask has the declared values");
	CHECK(K::set(~~x) == a, "complement twice"); CHECK(std::hash<F>{}(x) == std::hash<typename F::BitField>{}(static_cast<typename F::BitField>(x)), "the hash is a function of the set");
	{ const std::hash<F> h{}; CHECK((a != b) | (h(x) == h(y)), "equal sets have equal hashes"); }
	sym_note(K::set(x | y)); sym_note(x.Test(y));
}
EACH_ENUM(sets)

template<typename K> void values()
{
	using F = typename K::F; using E = typename K::Enum;
	const size_t i = sym::pick("i", 0, K::values - 1), j = sym::pick("j", 0, 3) * (K::values - 1) / 3; const uint64_t s = K::anySet("s"), all = K::all;
	const E e = K::value(i), g = K::value(j); const uint64_t be = uint64_t(1) << i, bg = uint64_t(1) << j; const F x = K::make(s);
	CHECK(K::set(F(e)) == be, "the set of one value"); CHECK(uint64_t(F::GetFlagValue(e)) == be, "the bit of a value"); { F z = e; CHECK(K::set(z) == be, "conversion from a value"); z = g; CHECK(K::set(z) == bg, "assignment of a value"); }
	CHECK(K::set(x | e) == (s | be), "union with a value"); CHECK(K::set(e | x) == (s | be), "union of a value"); CHECK(K::set(x & e) == (s & be), "intersection with a value"); CHECK(K::set(e & x) == (s & be), "intersection of a value");
	CHECK(K::set(x ^ e) == (s ^ be), "symmetric difference with a value"); CHECK(K::set(e ^ x) == (s ^ be), "symmetric difference of a value"); CHECK(x.Test(e) == ((s & be) != 0), "Test of a value");
	{ F z = x; z.Set(e); CHECK(K::set(z) == (s | be), "Set of a value"); z.Clear(e); CHECK(K::set(z) == (s & ~be), "Clear of a value"); } { F z = x; z |= e; CHECK(K::set(z) == (s | be), "union in place"); z &= e; CHECK(K::set(z) == be, "intersection in place"); z = x; z ^= e; CHECK(K::set(z) == (s ^ be), "symmetric difference in place"); }
	CHECK((x == e) == (s == be), "equality with a value"); CHECK((x != e) == (s != be), "inequality with a value");
	if constexpr (std::is_same_v<decltype(e | g), F>) { CHECK(K::set(e | g) == (be | bg), "union of two values"); CHECK(K::set(e & g) == (be & bg), "intersection of two values"); CHECK(K::set(e ^ g) == (be ^ bg), "symmetric difference of two values"); CHECK(K::set(~e) == (all & ~be), "complement of a value"); }
	sym_note(K::set(x | e));
}
EACH_ENUM(values)
