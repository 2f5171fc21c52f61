// BOUNDS: none on the values (every value of every type) except: counting bits on the constant-evaluation path of 32/64-bit types is decided for values with at most 8 (thorough 16) one bits; C++17 run-time path, C++20 run-time path and the constant-evaluation path (by compiling the library with its constant-evaluation test true)
// VARIANT: run
// VARIANT: run20 std=c++20
// VARIANT: constant consteval CONSTEVAL
// VARIANT: constant20 std=c++20 consteval CONSTEVAL
#include "ints.hpp"
#include <NazaraUtils/MathUtils.hpp>

template<typename T> void count()
{
	const T v = sym::any<T>("v");
	size_t n = 0; for (size_t i = 0; i < Bits<T>; ++i) n += bit(v, i);
#ifdef CONSTEVAL
	if constexpr (sizeof(T) >= 4) { U<T> w = v; for (size_t i = 0; i < BOUND(8, 16); ++i) w &= w - 1; ASSUME(w == 0); }
#endif
	CHECK(Nz::CountBits(v) == n, "CountBits is the number of one bits");
	sym_note(Nz::CountBits(v));
}
EACH_INT(count)

template<typename T> void first()
{
	const T v = sym::any<T>("v");
	const unsigned r = Nz::FindFirstBit(v);
	sym_note(r);
	if (v == 0) { CHECK(r == 0, "no bit in zero"); return; }
	CHECK((r >= 1) & (r <= Bits<T>), "the position lies in the type");
	const unsigned p = (r - 1) % Bits<T>;
	CHECK((U<T>(v) >> p) & 1, "the bit found is set");
	CHECK((U<T>(v) & ((U<T>(1) << p) - 1)) == 0, "no lower bit is set");
}
EACH_INT(first)

template<typename T> void last()
{
	const T v = sym::any<T>("v");
	const unsigned r = Nz::FindLastBit(v);
	sym_note(r);
	if (v == 0) { CHECK(r == 0, "no bit in zero"); return; }
	CHECK((r >= 1) & (r <= Bits<T>), "the position lies in the type");
	const unsigned p = (r - 1) % Bits<T>;
	CHECK(U<T>(U<T>(v) >> p) == 1, "the bit found is the highest one bit");
}
EACH_INT(last)
