// BOUNDS: every byte string of 0..8 and 14..18 (thorough 0..40) bytes, embedded zero bytes and invalid UTF-8 included; every overload; C strings of up to 8 (thorough 20) bytes; texts of 255 to 600 bytes with arbitrary first and last bytes
// ASSUMES: allocation succeeds
// VARIANT: run
// VARIANT: run20 std=c++20
#include "sym.hpp"
#include <NazaraUtils/StringUtils.hpp>
#include <type_traits>

#if __cplusplus >= 202002L
using U8S = std::u8string; using U8V = std::u8string_view; using U8C = char8_t;
#else
using U8S = std::string; using U8V = std::string_view; using U8C = char;
#endif
static size_t pickSize() { const size_t k = sym::pick("size", 0, BOUND(13, 40)); return BOUND(k < 9 ? k : k + 5, k); }

template<typename S> static void equals(const S& s, const uint8_t* m, size_t n)
{
	CHECK(s.size() == n, "the length is kept"); bool same = true; for (size_t i = 0; i < n; ++i) same = same & (uint8_t(s[i]) == m[i]); CHECK(same, "every byte is kept");
}
template<typename S> static void owned(S& s, const uint8_t* m, size_t n) { equals(s, m, n); CHECK(s.c_str()[n] == 0, "a string is terminated"); s.push_back('x'); CHECK(s.size() == n + 1, "a string is usable"); }

ENTRY(from)
{
	uint8_t m[48]; const size_t n = pickSize(); U8C buf[48]; for (size_t i = 0; i < n; ++i) { m[i] = sym_u8("byte"); buf[i] = U8C(m[i]); }
	switch (sym::pick("how", 0, 4))
	{
		case 0: { const U8S s(buf, n); auto r = Nz::FromUtf8String(s); static_assert(std::is_same_v<decltype(r), std::string>); owned(r, m, n); equals(s, m, n); } break;
		case 1: { auto r = Nz::FromUtf8String(U8V(buf, n)); static_assert(std::is_same_v<decltype(r), std::string_view>); equals(r, m, n); CHECK(static_cast<const void*>(r.data()) == buf, "a view designates the same memory"); } break;
		case 2: { auto r = Nz::FromUtf8String(U8S(buf, n)); static_assert(std::is_same_v<decltype(r), std::string>); owned(r, m, n); } break;
		case 3: { U8S s(buf, n); std::string r = std::string(Nz::FromUtf8String(U8V(s).substr(n / 2))); owned(r, m + n / 2, n - n / 2); } break;
		case 4: { U8S s(buf, n); const std::string r = Nz::FromUtf8String(s); U8S back = Nz::ToUtf8String(r); CHECK(back == s, "forth and back is the identity"); owned(back, m, n); } break;
	}
	for (size_t i = 0; i < n; ++i) CHECK(uint8_t(buf[i]) == m[i], "the source is left alone");
	sym_note(n);
}
ENTRY(to)
{
	uint8_t m[48]; const size_t n = pickSize(); char buf[48]; for (size_t i = 0; i < n; ++i) { m[i] = sym_u8("byte"); buf[i] = char(m[i]); }
	switch (sym::pick("how", 0, 4))
	{
		case 0: { const std::string s(buf, n); auto r = Nz::ToUtf8String(s); static_assert(std::is_same_v<decltype(r), U8S>); owned(r, m, n); equals(s, m, n); } break;
		case 1: { auto r = Nz::ToUtf8String(std::string_view(buf, n)); static_assert(std::is_same_v<decltype(r), U8V>); equals(r, m, n); CHECK(static_cast<const void*>(r.data()) == buf, "a view designates the same memory"); } break;
		case 2: { auto r = Nz::ToUtf8String(std::string(buf, n)); static_assert(std::is_same_v<decltype(r), U8S>); owned(r, m, n); } break;
		case 3: { std::string s(buf, n); U8S r = U8S(Nz::ToUtf8String(std::string_view(s).substr(n / 2))); owned(r, m + n / 2, n - n / 2); } break;
		case 4: { std::string s(buf, n); const U8S r = Nz::ToUtf8String(s); std::string back = Nz::FromUtf8String(r); CHECK(back == s, "forth and back is the identity"); owned(back, m, n); } break;
	}
	for (size_t i = 0; i < n; ++i) CHECK(uint8_t(buf[i]) == m[i], "the source is left alone");
	sym_note(n);
}
// up to the first zero byte
template<typename C> static size_t cstring(C* buf, uint8_t* m, size_t cap) { for (size_t i = 0; i < cap; ++i) { m[i] = sym_u8("byte"); buf[i] = C(m[i]); } buf[cap] = 0; for (size_t i = 0; i < cap; ++i) if (m[i] == 0) return i; return cap; }
ENTRY(from_c)
{
	constexpr size_t cap = BOUND(8, 20); U8C buf[cap + 1]; uint8_t m[cap]; const size_t n = cstring(buf, m, cap); auto r = Nz::FromUtf8String(static_cast<const U8C*>(buf)); equals(r, m, n);
#if __cplusplus >= 202002L
	static_assert(std::is_same_v<decltype(r), std::string_view>); CHECK(static_cast<const void*>(r.data()) == buf, "a view designates the same memory");
#else
	owned(r, m, n);
#endif
	for (size_t i = 0; i < cap; ++i) CHECK(uint8_t(buf[i]) == m[i], "the source is left alone");
	sym_note(n);
}
ENTRY(to_c)
{
	constexpr size_t cap = BOUND(8, 20); char buf[cap + 1]; uint8_t m[cap]; const size_t n = cstring(buf, m, cap); auto r = Nz::ToUtf8String(static_cast<const char*>(buf)); equals(r, m, n);
#if __cplusplus >= 202002L
	static_assert(std::is_same_v<decltype(r), std::u8string_view>); CHECK(static_cast<const void*>(r.data()) == buf, "a view designates the same memory");
#else
	owned(r, m, n);
#endif
	for (size_t i = 0; i < cap; ++i) CHECK(uint8_t(buf[i]) == m[i], "the source is left alone");
	sym_note(n);
}
// long texts, the first and the last bytes arbitrary
ENTRY(long_texts)
{
	const size_t t[] = { 255, 256, 257, 600 }; const size_t n = t[sym::pick("size", 0, 3)]; static uint8_t m[600]; static char c[601]; static U8C u[601]; m[0] = sym_u8("first"); for (size_t i = 1; i + 1 < n; ++i) m[i] = uint8_t(i % 255 + 1); m[n - 1] = sym_u8("last"); for (size_t i = 0; i < n; ++i) { c[i] = char(m[i]); u[i] = U8C(m[i]); } c[n] = 0; u[n] = 0;
	equals(Nz::FromUtf8String(U8V(u, n)), m, n); equals(Nz::ToUtf8String(std::string_view(c, n)), m, n);
	{ const U8S s(u, n); auto r = Nz::FromUtf8String(s); owned(r, m, n); auto q = Nz::FromUtf8String(U8S(u, n)); owned(q, m, n); } { const std::string s(c, n); auto r = Nz::ToUtf8String(s); owned(r, m, n); auto q = Nz::ToUtf8String(std::string(c, n)); owned(q, m, n); }
	ASSUME(m[0] != 0); ASSUME(m[n - 1] != 0); equals(Nz::FromUtf8String(static_cast<const U8C*>(u)), m, n); equals(Nz::ToUtf8String(static_cast<const char*>(c)), m, n); sym_note(n);
}
