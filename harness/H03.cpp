// BOUNDS: strings of 0..6 characters (thorough 16) of char, char16_t and char32_t with every content, and of 255 to 300 characters with an arbitrary last one; every seed and every hash value of the combined values; 1 to 4 combined values
// ASSUMES: libstdc++'s byte hash is replaced by an arbitrary fixed function of the bytes, the size and the seed
#include "sym.hpp"
#include <string>
#include <string_view>
#include <NazaraUtils/Hash.hpp>
#include <NazaraUtils/StringHash.hpp>

namespace std { size_t _Hash_bytes(const void* p, size_t n, size_t seed) { auto* b = static_cast<const unsigned char*>(p); size_t h = seed ^ (n * 0x9E3779B97F4A7C15ull); for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 0x100000001B3ull; return h; } }

template<typename C> void strings()
{
	const size_t n = sym::pick("size", 0, BOUND(6, 16)); C a[17]; sym_bytes(a, n * sizeof(C), "text"); for (size_t i = 0; i < n; ++i) ASSUME(a[i] != C(0)); a[n] = 0;
	C* exact = static_cast<C*>(operator new(n * sizeof(C))); std::memcpy(exact, a, n * sizeof(C));
	const std::basic_string_view<C> v(exact, n); const std::basic_string<C> s(a, n);
	const Nz::StringHash<C> h{}; const size_t e = std::hash<std::basic_string_view<C>>{}(v);
	CHECK(h(v) == e, "view"); CHECK(h(s) == e, "string"); CHECK(h(static_cast<const C*>(a)) == e, "C string"); CHECK(std::hash<std::basic_string<C>>{}(s) == e, "the standard string hash");
	operator delete(exact); sym_note(e);
}
ENTRY(char) { strings<char>(); } ENTRY(char16) { strings<char16_t>(); } ENTRY(char32) { strings<char32_t>(); }

struct Value { uint64_t hash; }; // a value of any hash
template<> struct std::hash<Value> { size_t operator()(const Value& v) const { return v.hash; } };
// the published combination (CityHash, 128 to 64 bits)
static uint64_t combine(uint64_t seed, uint64_t h) { const uint64_t k = 0x9ddfea08eb382d69ull; uint64_t a = (h ^ seed) * k; a ^= a >> 47; uint64_t b = (seed ^ a) * k; b ^= b >> 47; return b * k; }

ENTRY(one)
{
	const uint64_t seed = sym_u64("seed"); const Value v{sym_u64("hash")};
	size_t s = seed; Nz::HashCombine(s, v);
	CHECK(s == combine(seed, v.hash), "combination of the seed and the hash"); sym_note(s);
}
ENTRY(variadic)
{
	const Value a{sym_u64("a")}; const Value b{sym_u64("b")}; const Value c{sym_u64("c")}; const Value d{sym_u64("d")};
	CHECK(Nz::HashCombine(a) == a.hash, "one value");
	CHECK(Nz::HashCombine(a, b) == combine(a.hash, b.hash), "two values");
	CHECK(Nz::HashCombine(a, b, c) == combine(a.hash, combine(b.hash, c.hash)), "three values");
	CHECK(Nz::HashCombine(a, b, c, d) == combine(a.hash, combine(b.hash, combine(c.hash, d.hash))), "four values");
	sym_note(Nz::HashCombine(a, b, c));
}
ENTRY(integers)
{
	const uint64_t a = sym_u64("a"); const int b = sym::any<int>("b"); const uint8_t c = sym_u8("c");
	CHECK(Nz::HashCombine(uint64_t(a), b, c) == combine(a, combine(std::hash<int>{}(b), c)), "integers"); sym_note(c);
	struct H { uint64_t operator()(uint64_t x, uint64_t y) const { return x * 3 + y; } };
	CHECK(Nz::HashFunctor<H>{}(a, uint64_t(c)) == a * 3 + c, "functor");
}
// long strings, the last character arbitrary
template<typename C> void longStrings()
{
	const size_t t[] = { 255, 256, 300 }; const size_t n = t[sym::pick("size", 0, 2)]; static C a[301]; for (size_t i = 0; i < n; ++i) a[i] = C(i % 120 + 1); a[n - 1] = sym::any<C>("last"); ASSUME(a[n - 1] != C(0)); a[n] = 0;
	const std::basic_string_view<C> v(a, n); const Nz::StringHash<C> h{}; const size_t e = std::hash<std::basic_string_view<C>>{}(v); CHECK(h(v) == e, "long view"); CHECK(h(std::basic_string<C>(a, n)) == e, "long string"); CHECK(h(static_cast<const C*>(a)) == e, "long C string"); sym_note(e);
}
ENTRY(long_char) { longStrings<char>(); } ENTRY(long_char16) { longStrings<char16_t>(); }
