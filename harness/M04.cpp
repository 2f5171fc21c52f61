// BOUNDS: every value and alignment whose result is representable; general alignments (a division) are decided for every offset and every alignment of 8-bit types, and for every offset with 12 (thorough 24), 10 (24) and 4 (12) alignments of 16-, 32- and 64-bit types, small, odd and the largest ones included; AlignPow2 with every power of two of every type
// ASSUMES: positive alignments; power-of-two rounding of positive values
// VARIANT: run
// VARIANT: run20 std=c++20 thorough
#include "ints.hpp"
#include <NazaraUtils/MathUtils.hpp>

template<typename T> void align()
{
	// any offset is q * a - d for one q and one 0 <= d < a, and its alignment is q * a
	using W = std::conditional_t<sizeof(T) == 1, int32_t, std::conditional_t<sizeof(T) <= 4, int64_t, i128>>;
	const T max = std::numeric_limits<T>::max();
	const T t[] = { 1, 2, 3, 4, 5, 8, 16, 12, 7, 10, T(max / 2 + 1), max, T(max / 3), T(max - 1), 6, 9, 24, 32, 48, 64, 100, 11, 13, 127 };
	const T a = sizeof(T) == 1 ? T(sym::pick("a", 1, size_t(max))) : t[sym::pick("a", 0, sizeof(T) == 8 ? BOUND(3, 11) : sizeof(T) == 4 ? BOUND(9, 23) : BOUND(11, 23))];
	const T q = sym::any<T>("q"), d = sym::any<T>("d"); ASSUME((d >= 0) & (d < a));
	ASSUME((q <= max / a) & (q >= std::numeric_limits<T>::min() / a));
	const W e = W(q) * W(a); ASSUME((e <= W(max)) & (e - d >= W(std::numeric_limits<T>::min())));
	const T o = T(e - d);
	const T r = Nz::Align(o, a);
	CHECK(W(r) == e, "Align is the smallest multiple not below the offset");
	sym_note(uint64_t(r));
}
ENTRY(align_i8) { align<int8_t>(); } ENTRY(align_u8) { align<uint8_t>(); } ENTRY(align_i16) { align<int16_t>(); } ENTRY(align_u16) { align<uint16_t>(); } ENTRY(align_i32) { align<int32_t>(); } ENTRY(align_u32) { align<uint32_t>(); } ENTRY(align_i64) { align<int64_t>(); } ENTRY(align_u64) { align<uint64_t>(); }

// the same without a division in the oracle: any alignment of a wide type, by the defining property
template<typename T> void align_pow2()
{
	const T o = sym::any<T>("o"); const size_t k = sym::pick("k", 0, Bits<T> - 1 - std::is_signed_v<T>); const T a = T(T(1) << k);
	const U<T> mask = U<T>(U<T>(a) - 1);
	const T limit = T(std::numeric_limits<T>::max() & T(~mask)); // largest representable multiple
	ASSUME(o <= limit);
	const T r = Nz::AlignPow2(o, a);
	CHECK((U<T>(r) & mask) == 0, "AlignPow2 is a multiple of the alignment"); CHECK(r >= o, "AlignPow2 is not below the offset"); CHECK(U<T>(U<T>(r) - U<T>(o)) <= mask, "AlignPow2 is the smallest such multiple");
	sym_note(uint64_t(U<T>(r)));
}
EACH_INT(align_pow2)

template<typename T> void round()
{
	const T v = sym::any<T>("v"); const T top = T(T(1) << (Bits<T> - 1 - std::is_signed_v<T>));
	ASSUME((v > 0) & (v <= top));
	const T r = Nz::RoundToPow2(v);
	CHECK((r > 0) & ((U<T>(r) & U<T>(U<T>(r) - 1)) == 0), "RoundToPow2 is a power of two"); CHECK(r >= v, "not below the value"); CHECK((v == 1) | (U<T>(r) / 2 < U<T>(v)), "and the smallest one");
	const T n = Nz::GetNearestPowerOfTwo(v);
	CHECK(n == r, "GetNearestPowerOfTwo is the same power");
	sym_note(uint64_t(r));
}
EACH_INT(round)
template<typename T> void round_zero() { CHECK(Nz::GetNearestPowerOfTwo(T(0)) == 1, "the nearest power of zero is one"); if constexpr (std::is_signed_v<T>) { const T v = sym::any<T>("v"); ASSUME(v < 0); CHECK(Nz::GetNearestPowerOfTwo(v) == 1, "the nearest power of a negative number is one"); } }
EACH_INT(round_zero)

template<typename T> void is_pow2()
{
	const T v = sym::any<T>("v"); ASSUME(v != 0);
	const bool one = Nz::IsPow2(v);
	if (v < 0) { CHECK(!one, "no negative number is a power of two"); return; }
	if (one) { bool some = false; for (size_t i = 0; i < Bits<T>; ++i) some |= (U<T>(v) == U<T>(U<T>(1) << i)); CHECK(some, "IsPow2 only for powers of two"); }
	else for (size_t i = 0; i < Bits<T>; ++i) CHECK(U<T>(v) != U<T>(U<T>(1) << i), "IsPow2 for every power of two");
	sym_note(one);
}
EACH_INT(is_pow2)
