// BOUNDS: every value and every valid bit index or shift of every integer type; C++17 and C++20 paths; BitCast between 4- and 8-byte types, any bits; pointer conversions for any 64-bit value
// VARIANT: run
// VARIANT: run20 std=c++20
// VARIANT: constant consteval
#include "ints.hpp"
#include <NazaraUtils/MathUtils.hpp>

template<typename T> void bits()
{
	const T v = sym::any<T>("v"), i = T(sym::pick("i", 0, Bits<T> - 1));
	const U<T> m = U<T>(U<T>(1) << i), u = U<T>(v);
	CHECK(U<T>(Nz::SetBit(v, i)) == U<T>(u | m), "SetBit sets the bit and no other");
	CHECK(U<T>(Nz::ClearBit(v, i)) == U<T>(u & U<T>(~m)), "ClearBit clears the bit and no other");
	CHECK(U<T>(Nz::ToggleBit(v, i)) == U<T>(u ^ m), "ToggleBit flips the bit and no other");
	CHECK(Nz::TestBit(v, i) == ((u & m) != 0), "TestBit reads the bit");
	sym_note(uint64_t(U<T>(Nz::ToggleBit(v, i))));
}
EACH_INT(bits)

template<typename T, typename S> void shifted()
{
	const T v = sym::any<T>("v"); const S s = S(sym::pick("s", 0, Bits<T> - 1));
	const T r = Nz::ArithmeticRightShift(v, s);
	const i128 rest = i128(v) - (i128(r) << size_t(s));
	CHECK((rest >= 0) & (rest < (i128(1) << size_t(s))), "arithmetic shift is floor division by the power of two");
	sym_note(uint64_t(U<T>(r)));
}
template<typename T> void shift() { shifted<T, int>(); }
template<typename T> void shift_unsigned() { shifted<T, unsigned>(); }
template<typename T> void shift_narrow() { switch (sym::pick("which", 0, 2)) { case 0: shifted<T, int8_t>(); break; case 1: shifted<T, uint8_t>(); break; case 2: shifted<T, uint64_t>(); break; } }
EACH_INT(shift)
EACH_INT(shift_unsigned)
EACH_INT(shift_narrow)

ENTRY(bitcast)
{
	const uint32_t u = sym::any<uint32_t>("u"); const uint64_t w = sym::any<uint64_t>("w");
	const float f = Nz::BitCast<float>(u); uint32_t fu; std::memcpy(&fu, &f, 4); CHECK(fu == u, "BitCast preserves every bit"); CHECK(Nz::BitCast<uint32_t>(f) == u, "BitCast round-trips");
	const double d = Nz::BitCast<double>(w); uint64_t dw; std::memcpy(&dw, &d, 8); CHECK(dw == w, "BitCast preserves every bit"); CHECK(Nz::BitCast<uint64_t>(d) == w, "BitCast round-trips");
	CHECK(Nz::BitCast<int64_t>(w) == int64_t(w), "BitCast between integers"); CHECK(Nz::BitCast<int32_t>(u) == int32_t(u), "BitCast between integers");
	struct P { uint16_t a, b; }; const P p = Nz::BitCast<P>(u); CHECK(p.a == uint16_t(u), "BitCast to a structure"); CHECK(p.b == uint16_t(u >> 16), "BitCast to a structure"); CHECK(Nz::BitCast<uint32_t>(p) == u, "BitCast of a structure");
	sym_note(u);
}

ENTRY(pointers)
{
	const uint64_t w = sym::any<uint64_t>("w");
	int* p = Nz::IntegerToPointer<int*>(w); CHECK(reinterpret_cast<uintptr_t>(p) == w, "IntegerToPointer preserves the value"); CHECK(Nz::PointerToInteger<uint64_t>(p) == w, "pointer conversions round-trip");
	int x = 0; const uintptr_t a = Nz::PointerToInteger<uintptr_t>(&x); CHECK(a == reinterpret_cast<uintptr_t>(&x), "PointerToInteger preserves the value"); CHECK(Nz::IntegerToPointer<int*>(a) == &x, "pointer conversions round-trip");
	const uint32_t small = uint32_t(w); CHECK(Nz::PointerToInteger<uint32_t>(Nz::IntegerToPointer<void*>(small)) == small, "a small value round-trips through a narrow integer");
	sym_note(w);
}
