// BOUNDS: every content of every size 0..10 bytes (thorough 0..24); long texts of 255 to 65538 bytes (the last two symbolic); character arrays of 1, 4 and 7 characters
#include "hash.hpp"
static uint32_t f32(const uint8_t* p, size_t n) { uint32_t h = 2166136261u; for (size_t i = 0; i < n; ++i) { h ^= p[i]; h *= 16777619u; } return h; }
static uint64_t f64(const uint8_t* p, size_t n) { uint64_t h = 14695981039346656037ull; for (size_t i = 0; i < n; ++i) { h ^= p[i]; h *= 1099511628211ull; } return h; }
static uint32_t cs32(const char* s) { return Nz::FNV1a32(s); } static uint32_t sv32(std::string_view s) { return Nz::FNV1a32(s); } static uint32_t bb32(const uint8_t* p, size_t n) { return Nz::FNV1a32(p, n); }
static uint64_t cs64(const char* s) { return Nz::FNV1a64(s); } static uint64_t sv64(std::string_view s) { return Nz::FNV1a64(s); } static uint64_t bb64(const uint8_t* p, size_t n) { return Nz::FNV1a64(p, n); }
ENTRY(fnv32) { everyOverload<Nz::FNV1a32Hash, uint32_t>(cs32, sv32, bb32, f32, sym::pick("size", 0, BOUND(10, 24)), true); }
ENTRY(fnv64) { everyOverload<Nz::FNV1a64Hash, uint64_t>(cs64, sv64, bb64, f64, sym::pick("size", 0, BOUND(10, 24)), true); }
template<size_t N> void array()
{
	char a[N]; sym_bytes(a, N - 1, "text"); a[N - 1] = 0; for (size_t i = 0; i + 1 < N; ++i) ASSUME(a[i] != 0);
	const char (&lit)[N] = a; uint8_t u[N]; std::memcpy(u, a, N);
	CHECK(Nz::FNV1a32(lit) == f32(u, N - 1), "character array"); CHECK(Nz::FNV1a32Hash{}(lit) == f32(u, N - 1), "hasher object on a character array");
	CHECK(Nz::FNV1a64(lit) == f64(u, N - 1), "character array"); CHECK(Nz::FNV1a64Hash{}(lit) == f64(u, N - 1), "hasher object on a character array"); sym_note(Nz::FNV1a64(lit));
}
ENTRY(array1) { array<2>(); } ENTRY(array4) { array<5>(); } ENTRY(array7) { array<8>(); }
ENTRY(empty) { CHECK(Nz::FNV1a32("") == 2166136261u, "no byte"); CHECK(Nz::FNV1a64(std::string_view()) == 14695981039346656037ull, "no byte"); CHECK(Nz::FNV1a32("a") == 0xe40c292cu, "published value"); CHECK(Nz::FNV1a64("a") == 0xaf63dc4c8601ec8cull, "published value"); sym_note(0); }
ENTRY(long_texts32) { longTexts<Nz::FNV1a32Hash, uint32_t>(cs32, sv32, bb32, f32); }
ENTRY(long_texts64) { longTexts<Nz::FNV1a64Hash, uint64_t>(cs64, sv64, bb64, f64); }
