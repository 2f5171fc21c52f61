// BOUNDS: every triple of values of the 8-, 16-, 32- and 64-bit integer types; every float and double bit pattern for the classifications; finite floats and doubles for Clamp, Approach and NumberEquals; interpolation of integers at the two ends
// ASSUMES: intervals with min <= max, increments and tolerances that are not negative
// VARIANT: run
// VARIANT: run20 std=c++20 thorough
// VARIANT: constant consteval CONSTEVAL
// VARIANT: constant20 std=c++20 consteval CONSTEVAL thorough
#include "ints.hpp"
#include <NazaraUtils/MathUtils.hpp>

template<typename T> void clamp()
{
	const T v = sym::any<T>("v"), lo = sym::any<T>("lo"), hi = sym::any<T>("hi"); ASSUME(lo <= hi);
	const T r = Nz::Clamp(v, lo, hi);
	CHECK(r >= lo, "Clamp is not below the interval"); CHECK(r <= hi, "Clamp is not above the interval"); if (v >= lo && v <= hi) CHECK(r == v, "Clamp keeps a value of the interval"); else CHECK(r == (v < lo ? lo : hi), "Clamp returns the nearest end");
	sym_note(uint64_t(r));
}
EACH_INT(clamp)

template<typename T> void approach()
{
	const T v = sym::any<T>("v"), o = sym::any<T>("o"), i = sym::any<T>("i"); ASSUME(i >= 0);
	const T r = Nz::Approach(v, o, i);
	if (v < o) { CHECK(r >= v, "Approach moves towards the objective"); CHECK(r <= o, "Approach never goes past the objective"); }
	else { CHECK(r <= v, "Approach moves towards the objective"); CHECK(r >= o, "Approach never goes past the objective"); }
	const U<T> step = r < v ? U<T>(v) - U<T>(r) : U<T>(r) - U<T>(v);
	CHECK(step <= U<T>(i), "Approach moves by at most the increment");
	CHECK((r == o) | (step == U<T>(i)), "Approach moves by the increment until the objective is reached");
	sym_note(uint64_t(r));
}
ENTRY(approach_i32) { approach<int32_t>(); } ENTRY(approach_u32) { approach<uint32_t>(); } ENTRY(approach_i64) { approach<int64_t>(); } ENTRY(approach_u64) { approach<uint64_t>(); }

template<typename T> void equals()
{
	const T a = sym::any<T>("a"), b = sym::any<T>("b"), d = sym::any<T>("d"); ASSUME(d >= 0);
	const U<T> distance = a < b ? U<T>(b) - U<T>(a) : U<T>(a) - U<T>(b);
	CHECK(Nz::NumberEquals(a, b, d) == (distance <= U<T>(d)), "NumberEquals is true exactly within the tolerance");
	CHECK(Nz::NumberEquals(b, a, d) == Nz::NumberEquals(a, b, d), "NumberEquals is symmetric");
	CHECK(Nz::NumberEquals(a, b) == (a == b), "the default tolerance of integers is zero");
	sym_note(Nz::NumberEquals(a, b, d));
}
EACH_INT(equals)

template<typename T> T anyFloat(const char* name) { T v; sym_bytes(&v, sizeof v, name); return v; }
template<typename T> bool isFin(T v) { using I = std::conditional_t<sizeof(T) == 4, uint32_t, uint64_t>; I i; std::memcpy(&i, &v, sizeof v); constexpr I e = sizeof(T) == 4 ? I(0x7F800000u) : I(0x7FF0000000000000ull); return (i & e) != e; }

template<typename T> void classify()
{
	using I = std::conditional_t<sizeof(T) == 4, uint32_t, uint64_t>;
	const I i = sym::any<I>("bits"); T v; std::memcpy(&v, &i, sizeof v);
	constexpr I e = sizeof(T) == 4 ? I(0x7F800000u) : I(0x7FF0000000000000ull), m = sizeof(T) == 4 ? I(0x007FFFFFu) : I(0x000FFFFFFFFFFFFFull);
	CHECK(Nz::IsFinite(v) == ((i & e) != e), "IsFinite"); CHECK(Nz::IsInfinity(v) == (((i & e) == e) & ((i & m) == 0)), "IsInfinity"); CHECK(Nz::IsNaN(v) == (((i & e) == e) & ((i & m) != 0)), "IsNaN");
	sym_note(Nz::IsFinite(v) + 2 * Nz::IsNaN(v));
}
ENTRY(classify_float) { classify<float>(); } ENTRY(classify_double) { classify<double>(); }

template<typename T> void clamp_fp()
{
	const T v = anyFloat<T>("v"), lo = anyFloat<T>("lo"), hi = anyFloat<T>("hi"); ASSUME(isFin(v) & isFin(lo) & isFin(hi)); ASSUME(lo <= hi);
	const T r = Nz::Clamp(v, lo, hi);
	CHECK(r >= lo, "Clamp is not below the interval"); CHECK(r <= hi, "Clamp is not above the interval"); CHECK((v < lo) | (v > hi) | (r == v), "Clamp keeps a value of the interval"); CHECK((v >= lo) | (r == lo), "Clamp returns the nearest end"); CHECK((v <= hi) | (r == hi), "Clamp returns the nearest end");
	sym_note(r == v);
}
ENTRY(clamp_float) { clamp_fp<float>(); } ENTRY(clamp_double) { clamp_fp<double>(); }

template<typename T> void approach_fp()
{
	const T v = anyFloat<T>("v"), o = anyFloat<T>("o"), i = anyFloat<T>("i"); ASSUME(isFin(v) & isFin(o) & isFin(i)); ASSUME(i >= 0);
	const T r = Nz::Approach(v, o, i);
	if (v < o) { CHECK(r >= v, "Approach moves towards the objective"); CHECK(r <= o, "Approach never goes past the objective"); CHECK((r == o) | (r == v + i), "Approach moves by the increment"); }
	else { CHECK(r <= v, "Approach moves towards the objective"); CHECK(r >= o, "Approach never goes past the objective"); CHECK((r == o) | (r == v - i), "Approach moves by the increment"); }
	sym_note(r == o);
}
ENTRY(approach_float) { approach_fp<float>(); } ENTRY(approach_double) { approach_fp<double>(); }

template<typename T> void equals_fp()
{
	const T a = anyFloat<T>("a"), b = anyFloat<T>("b"), d = anyFloat<T>("d"); ASSUME(isFin(a) & isFin(b) & isFin(d)); ASSUME(d >= 0);
	const bool r = Nz::NumberEquals(a, b, d);
	const T distance = a < b ? b - a : a - b; // rounded to nearest
	CHECK(r == (distance <= d), "NumberEquals compares the (rounded) distance with the tolerance");
	CHECK(Nz::NumberEquals(b, a, d) == r, "NumberEquals is symmetric");
	CHECK(Nz::NumberEquals(a, a, d), "a number equals itself"); CHECK(Nz::NumberEquals(a, b) == (distance <= std::numeric_limits<T>::epsilon()), "the default tolerance is the epsilon of the type");
	sym_note(r);
}
ENTRY(equals_float) { equals_fp<float>(); } ENTRY(equals_double) { equals_fp<double>(); }

template<typename T> void lerp()
{
	const T a = sym::any<T>("a"), b = sym::any<T>("b");
	if constexpr (std::is_signed_v<T> && sizeof(T) >= 4) { const i128 d = i128(b) - a; ASSUME((d <= i128(std::numeric_limits<T>::max())) & (d >= i128(std::numeric_limits<T>::min()))); }
	CHECK(Nz::Lerp(a, b, 0) == a, "Lerp starts at the first value"); CHECK(Nz::Lerp(a, b, 1) == b, "Lerp ends at the second value");
	sym_note(uint64_t(Nz::Lerp(a, b, 1)));
}
EACH_INT(lerp)
// every float whose values are small integers is exact
ENTRY(lerp_float)
{
	const float a = float(sym::any<int8_t>("a")), b = float(sym::any<int8_t>("b"));
	CHECK(Nz::Lerp(a, b, 0.f) == a, "Lerp starts at the first value"); CHECK(Nz::Lerp(a, b, 1.f) == b, "Lerp ends at the second value"); CHECK(Nz::Lerp(a, b, 0.5f) == (a + b) / 2, "Lerp is half-way at one half");
	sym_note(a < b);
}

template<typename T> void muladd()
{
	const T x = sym::any<T>("x"), y = T(sym::pick("y", 0, 20)), z = sym::any<T>("z");
	using W = std::conditional_t<sizeof(T) <= 4, int64_t, i128>;
	const W e = W(x) * W(y) + W(z); if constexpr (std::is_signed_v<T>) ASSUME((e <= W(std::numeric_limits<T>::max())) & (e >= W(std::numeric_limits<T>::min())) & (W(x) * W(y) <= W(std::numeric_limits<T>::max())) & (W(x) * W(y) >= W(std::numeric_limits<T>::min())));
	CHECK(U<T>(Nz::MultiplyAdd(x, y, z)) == U<T>(e), "MultiplyAdd is x * y + z");
	sym_note(uint64_t(U<T>(Nz::MultiplyAdd(x, y, z))));
}
ENTRY(muladd_i32) { muladd<int32_t>(); } ENTRY(muladd_u32) { muladd<uint32_t>(); } ENTRY(muladd_i64) { muladd<int64_t>(); } ENTRY(muladd_u64) { muladd<uint64_t>(); } ENTRY(muladd_u8) { muladd<uint8_t>(); } ENTRY(muladd_i16) { muladd<int16_t>(); }
ENTRY(muladd_float)
{
	const float x = float(sym::any<int8_t>("x")), y = float(sym::pick("y", 0, 10)) - 5.f, z = float(sym::any<int16_t>("z")) / 4;
	CHECK(Nz::MultiplyAdd(x, y, z) == x * y + z, "MultiplyAdd is x * y + z"); sym_note(x < z);
}
