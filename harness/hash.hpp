// Byte strings for the hash checks: every content of a size, in a heap block of exactly that size (plus terminator).
#pragma once
#include "sym.hpp"
#include <string>
#include <string_view>
#include <NazaraUtils/Hash.hpp>
struct Text
{
	uint8_t* bytes; char* chars; size_t size;
	explicit Text(size_t n, bool noZero) : size(n)
	{
		bytes = static_cast<uint8_t*>(operator new(n)); chars = static_cast<char*>(operator new(n + 1));
		sym_bytes(bytes, n, "text");
		for (size_t i = 0; i < n; ++i) { if (noZero) ASSUME(bytes[i] != 0); chars[i] = char(bytes[i]); }
		chars[n] = 0;
	}
	~Text() { operator delete(bytes); operator delete(chars); }
};
// f(oracle, text, zero-free): all the entry points on the same bytes
template<typename H, typename R> void everyOverload(R (*cstr)(const char*) , R (*view)(std::string_view), R (*buffer)(const uint8_t*, size_t), R (*oracle)(const uint8_t*, size_t), size_t n, bool thoroughText)
{
	const bool noZero = sym::pick("zero-free", 0, 1);
	Text t(n, noZero);
	const R e = oracle(t.bytes, n);
	CHECK(buffer(t.bytes, n) == e, "byte buffer");
	{
		char* exact = static_cast<char*>(operator new(n)); std::memcpy(exact, t.chars, n);
		CHECK(view(std::string_view(exact, n)) == e, "string view"); CHECK(H{}(std::string_view(exact, n)) == e, "hasher object on a view"); operator delete(exact);
	}
	CHECK(H{}(static_cast<const uint8_t*>(t.bytes), n) == e, "hasher object on a buffer");
	if (thoroughText) { std::string s(t.chars, n); CHECK(H{}(s) == e, "hasher object on a string"); }
	if (noZero)
	{
		CHECK(cstr(t.chars) == e, "C string"); CHECK(H{}(static_cast<const char*>(t.chars)) == e, "hasher object on a C string");
	}
	sym_note(uint64_t(e));
}
// long texts: concrete but for the last two bytes (the loop counter has to go all the way)
template<typename H, typename R> void longTexts(R (*cstr)(const char*) , R (*view)(std::string_view), R (*buffer)(const uint8_t*, size_t), R (*oracle)(const uint8_t*, size_t))
{
	const size_t sizes[] = {255, 256, 257, BOUND(65537, 65535), 65538}; const size_t n = sizes[sym::pick("size", 0, BOUND(3, 4))];
	uint8_t* p = static_cast<uint8_t*>(operator new(n + 1)); for (size_t i = 0; i < n; ++i) p[i] = uint8_t(i % 255 + 1); p[n] = 0;
	const uint8_t a = sym_u8("before last"); const uint8_t b = sym_u8("last"); ASSUME(a != 0); ASSUME(b != 0); p[n - 2] = a; p[n - 1] = b;
	const R e = oracle(p, n); const char* c = reinterpret_cast<const char*>(p);
	CHECK(buffer(p, n) == e, "long byte buffer"); CHECK(view(std::string_view(c, n)) == e, "long string view"); CHECK(cstr(c) == e, "long C string");
	sym_note(uint64_t(e)); operator delete(p);
}
