// BOUNDS: every value of every integer and floating-point type of up to 64 bits; SwapBytes on every buffer size 0..17 (thorough 40) with any contents, and of 255 to 1000 bytes with three arbitrary ones; run-time and constant-evaluation paths
// VARIANT: run
// VARIANT: run20 std=c++20
// VARIANT: constant consteval CONSTEVAL
// VARIANT: constant20 std=c++20 consteval CONSTEVAL
#include "ints.hpp"
#include <NazaraUtils/MathUtils.hpp>
#include <NazaraUtils/Endianness.hpp>

template<typename T> void bytesOf(const T& v, uint8_t (&b)[sizeof(T)]) { std::memcpy(b, &v, sizeof(T)); }
template<typename T> T anyValue() { T v; sym_bytes(&v, sizeof(T), "v"); return v; }

template<typename T> void swapped()
{
	const T v = anyValue<T>(); uint8_t a[sizeof(T)], b[sizeof(T)];
	bytesOf(v, a);
	{ const T w = Nz::ByteSwap(v); bytesOf(w, b); for (size_t i = 0; i < sizeof(T); ++i) CHECK(b[i] == a[sizeof(T) - 1 - i], "ByteSwap reverses the bytes"); const T x = Nz::ByteSwap(w); bytesOf(x, b); for (size_t i = 0; i < sizeof(T); ++i) CHECK(b[i] == a[i], "ByteSwap twice is the identity"); sym_note(b[0]); }
	{ T w = v; Nz::SwapBytes(&w, sizeof(T)); bytesOf(w, b); for (size_t i = 0; i < sizeof(T); ++i) CHECK(b[i] == a[sizeof(T) - 1 - i], "SwapBytes reverses the bytes"); }
	{ const T w = Nz::HostToBigEndian(v); bytesOf(w, b); const uint16_t probe = 1; uint8_t low; std::memcpy(&low, &probe, 1); const bool little = low == 1;
	  for (size_t i = 0; i < sizeof(T); ++i) CHECK(b[i] == a[little ? sizeof(T) - 1 - i : i], "big endian layout has the most significant byte first");
	  const T y = Nz::HostToLittleEndian(v); bytesOf(y, b); for (size_t i = 0; i < sizeof(T); ++i) CHECK(b[i] == a[little ? i : sizeof(T) - 1 - i], "little endian layout has the least significant byte first");
	  const T bh = Nz::BigEndianToHost(w), lh = Nz::LittleEndianToHost(y);
	  bytesOf(bh, b); for (size_t i = 0; i < sizeof(T); ++i) CHECK(b[i] == a[i], "to big endian and back"); bytesOf(lh, b); for (size_t i = 0; i < sizeof(T); ++i) CHECK(b[i] == a[i], "to little endian and back");
	  CHECK(Nz::PlatformEndianness == (little ? Nz::Endianness::LittleEndian : Nz::Endianness::BigEndian), "platform endianness"); }
}
EACH_INT(swapped) ENTRY(swapped_float) { swapped<float>(); } ENTRY(swapped_double) { swapped<double>(); } ENTRY(swapped_char) { swapped<char>(); } ENTRY(swapped_char16) { swapped<char16_t>(); } ENTRY(swapped_char32) { swapped<char32_t>(); }

// the named layouts, from the value
template<typename T> void layout()
{
	const T v = sym::any<T>("v"); uint8_t b[sizeof(T)];
	bytesOf(Nz::HostToBigEndian(v), b); for (size_t i = 0; i < sizeof(T); ++i) CHECK(b[sizeof(T) - 1 - i] == uint8_t(U<T>(v) >> (8 * i)), "big endian byte i from the end is bits 8i..8i+7");
	bytesOf(Nz::HostToLittleEndian(v), b); for (size_t i = 0; i < sizeof(T); ++i) CHECK(b[i] == uint8_t(U<T>(v) >> (8 * i)), "little endian byte i is bits 8i..8i+7");
}
EACH_INT(layout)

template<typename T> void reversed()
{
	const T v = sym::any<T>("v"); const T r = Nz::ReverseBits(v);
	for (size_t i = 0; i < Bits<T>; ++i) CHECK(bit(r, i) == bit(v, Bits<T> - 1 - i), "ReverseBits reverses the bits");
	CHECK(Nz::ReverseBits(r) == v, "ReverseBits twice is the identity");
	sym_note(uint64_t(U<T>(r)));
}
EACH_INT(reversed)

ENTRY(buffer)
{
	constexpr size_t Max = BOUND(17, 40); uint8_t b[Max + 2], a[Max + 2]; sym_bytes(b, sizeof b, "b"); std::memcpy(a, b, sizeof b);
	const size_t n = sym::pick("n", 0, Max);
	Nz::SwapBytes(b + 1, n);
	for (size_t i = 0; i < n; ++i) CHECK(b[1 + i] == a[n - i], "SwapBytes reverses the buffer");
	CHECK(b[0] == a[0], "nothing before the buffer changes"); for (size_t i = n + 1; i < Max + 2; ++i) CHECK(b[i] == a[i], "nothing after the buffer changes");
	Nz::SwapBytes(b + 1, n); for (size_t i = 0; i < Max + 2; ++i) CHECK(b[i] == a[i], "SwapBytes twice is the identity");
	sym_note(n);
}
ENTRY(long_buffer)
{
	const size_t t[] = { 255, 256, 257, 1000 }; const size_t n = t[sym::pick("n", 0, 3)]; static uint8_t b[1000], a[1000]; for (size_t i = 0; i < n; ++i) b[i] = uint8_t(i * 167 + i / 256); b[1] = sym_u8("second"); b[n / 2] = sym_u8("middle"); b[n - 1] = sym_u8("last"); std::memcpy(a, b, n);
	Nz::SwapBytes(b, n); for (size_t i = 0; i < n; ++i) CHECK(b[i] == a[n - 1 - i], "SwapBytes reverses a long buffer"); sym_note(n);
}
