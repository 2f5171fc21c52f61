// BOUNDS: every content of every size 0..8 bytes (thorough 0..24); bit-by-bit definition for sizes 0..2 (thorough 4), table-driven definition beyond; long texts of 255 to 65538 bytes (the last two symbolic); character arrays of 1, 4 and 7 characters
#include "hash.hpp"
// the definition: one bit at a time
static uint32_t bitwise(const uint8_t* p, size_t n) { uint32_t crc = 0xFFFFFFFFu; for (size_t i = 0; i < n; ++i) { crc ^= p[i]; for (int b = 0; b < 8; ++b) crc = (crc >> 1) ^ ((crc & 1) * 0xEDB88320u); } return ~crc; }
static uint32_t g_table[256];
static void makeTable() { for (uint32_t v = 0; v < 256; ++v) { uint32_t crc = v; for (int b = 0; b < 8; ++b) crc = (crc >> 1) ^ ((crc & 1) * 0xEDB88320u); g_table[v] = crc; } }
static uint32_t tabled(const uint8_t* p, size_t n) { uint32_t crc = 0xFFFFFFFFu; for (size_t i = 0; i < n; ++i) crc = g_table[(crc ^ p[i]) & 0xFF] ^ (crc >> 8); return ~crc; }
static uint32_t cs(const char* s) { return Nz::CRC32(s); } static uint32_t sv(std::string_view s) { return Nz::CRC32(s); } static uint32_t bb(const uint8_t* p, size_t n) { return Nz::CRC32(p, n); }

ENTRY(definition) { everyOverload<Nz::CRC32Hash, uint32_t>(cs, sv, bb, bitwise, sym::pick("size", 0, BOUND(2, 4)), true); }
ENTRY(every_size) { makeTable(); everyOverload<Nz::CRC32Hash, uint32_t>(cs, sv, bb, tabled, sym::pick("size", 0, BOUND(8, 24)), true); }
// every entry of the table
ENTRY(table) { const uint8_t b = sym::any<uint8_t>("byte"); CHECK(Nz::CRC32(&b, 1) == bitwise(&b, 1), "one byte"); sym_note(Nz::CRC32(&b, 1)); }
template<size_t N> void array()
{
	makeTable(); char a[N]; sym_bytes(a, N - 1, "text"); a[N - 1] = 0; for (size_t i = 0; i + 1 < N; ++i) ASSUME(a[i] != 0);
	const char (&lit)[N] = a; uint8_t u[N]; std::memcpy(u, a, N);
	CHECK(Nz::CRC32(lit) == tabled(u, N - 1), "character array"); CHECK(Nz::CRC32Hash{}(lit) == tabled(u, N - 1), "hasher object on a character array"); sym_note(Nz::CRC32(lit));
}
ENTRY(array1) { array<2>(); } ENTRY(array4) { array<5>(); } ENTRY(array7) { array<8>(); }
ENTRY(empty) { CHECK(Nz::CRC32("") == 0, "no byte"); CHECK(Nz::CRC32(std::string_view()) == 0, "no byte"); CHECK(Nz::CRC32(nullptr, 0) == 0, "no byte"); sym_note(Nz::CRC32("123456789")); CHECK(Nz::CRC32("123456789") == 0xCBF43926u, "the standard check value"); }
ENTRY(long_texts) { makeTable(); longTexts<Nz::CRC32Hash, uint32_t>(cs, sv, bb, tabled); }
