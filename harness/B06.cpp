// BOUNDS: strings of every length 0..18 (thorough 30) with every content over {0,1}; every 8/16/32/64-bit unsigned integer into every block width; To<T> for every contents of 0..BitCount<T> bits; strings of 255 to 300 characters with two arbitrary ones
// ASSUMES: strings contain only the characters 0 and 1 (the documented precondition); other characters fail the library's assertion, which is checked separately
#include "bitset_big.hpp"
#include <string_view>
using namespace bs;

template<typename S> void strings()
{
	const size_t n = sym::pick("len", 0, BOUND(18, 30));
	char buf[40]; bool bit[40];
	for (size_t i = 0; i < n; ++i) { bit[i] = sym::any<bool>("c"); buf[i] = char('0' + bit[i]); }
	buf[n] = 0;
	Bits e; e.n = n; for (size_t i = 0; i < n; ++i) e.v[n - 1 - i] = bit[i];
	S a(static_cast<const char*>(buf)); checkBits(a, e, "from C string"); checkCoherent(a, "from C string");
	S b(buf, n); checkBits(b, e, "from pointer and length");
	S c{ std::string_view(buf, n) }; checkBits(c, e, "from string_view");
	std::string str(buf, n);
	S d(str); checkBits(d, e, "from std::string");
	S f(3, true); f = std::string_view(buf, n); checkBits(f, e, "assigned from string_view");
	S g(20, true); g = static_cast<const char*>(buf); checkBits(g, e, "assigned from C string"); checkCoherent(g, "assigned");
	S k; k = str; checkBits(k, e, "assigned from std::string");
	std::string back = a.ToString();
	CHECK(back.size() == n, "ToString length");
	for (size_t i = 0; i < n; ++i) CHECK(back[i] == buf[i], "ToString writes the string back");
	S again(back); checkBits(again, e, "round trip through ToString");
	const size_t m = sym::pick("sub", 0, n); // a length shorter than the terminated string
	S part(buf, m); CHECK(part.GetSize() == m, "partial length"); for (size_t i = 0; i < m; ++i) CHECK(part.Test(m - 1 - i) == bit[i], "partial content");
	note(a);
}
// the reading conversions fork on each character, so the whole-content entries use short strings
template<typename S> void stringsShort()
{
	const size_t n = sym::pick("len", 0, BOUND(5, 8));
	char buf[12]; bool bit[12];
	for (size_t i = 0; i < n; ++i) { bit[i] = sym::any<bool>("c"); buf[i] = char('0' + bit[i]); }
	buf[n] = 0;
	Bits e; e.n = n; for (size_t i = 0; i < n; ++i) e.v[n - 1 - i] = bit[i];
	S a(static_cast<const char*>(buf)); checkBits(a, e, "from C string"); checkCoherent(a, "from C string");
	S b(buf, n); checkBits(b, e, "from pointer and length");
	S c{ std::string_view(buf, n) }; checkBits(c, e, "from string_view");
	std::string str(buf, n);
	S d(str); checkBits(d, e, "from std::string");
	S f(3, true); f = std::string_view(buf, n); checkBits(f, e, "assigned from string_view");
	S g(20, true); g = static_cast<const char*>(buf); checkBits(g, e, "assigned from C string"); checkCoherent(g, "assigned");
	S k; k = str; checkBits(k, e, "assigned from std::string");
	std::string back = a.ToString();
	CHECK(back.size() == n, "ToString length");
	for (size_t i = 0; i < n; ++i) CHECK(back[i] == buf[i], "ToString writes the string back");
	const size_t m = sym::pick("sub", 0, n);
	S part(buf, m); CHECK(part.GetSize() == m, "partial length"); for (size_t i = 0; i < m; ++i) CHECK(part.Test(m - 1 - i) == bit[i], "partial content");
	note(a);
}
ENTRY(strings_u8) { stringsShort<V8>(); } ENTRY(strings_u32) { stringsShort<V32>(); } ENTRY(strings_fixed8) { stringsShort<F8>(); }

// longer strings: one arbitrary character among arbitrary positions of a fixed pattern, crossing block boundaries
template<typename S> void stringsLong()
{
	constexpr size_t W = sizeof(Block<S>) * 8;
	const size_t t[] = { W - 1, W, W + 1, 2 * W, 2 * W + 1 };
	const size_t n = t[sym::pick("len", 0, 4)];
	char buf[200];
	for (size_t i = 0; i < n; ++i) buf[i] = (i * 7 % 3) ? '1' : '0';
	buf[n] = 0;
	size_t p = sym::pick("pos", 0, n - 1); buf[p] = char('0' + sym::any<bool>("c"));
	S a(static_cast<const char*>(buf));
	CHECK(a.GetSize() == n, "size"); checkCoherent(a, "long string");
	for (size_t i = 0; i < n; ++i) CHECK(a.Test(n - 1 - i) == (buf[i] == '1'), "each character is its bit");
	std::string s = a.ToString(); CHECK(s.size() == n, "length");
	for (size_t i = 0; i < n; ++i) CHECK(s[i] == buf[i], "written back");
}
ENTRY(stringsLong_u8) { stringsLong<V8>(); } ENTRY(stringsLong_u16) { stringsLong<V16>(); } ENTRY(stringsLong_u32) { stringsLong<V32>(); } ENTRY(T_stringsLong_u64) { stringsLong<V64>(); }

// ToString of arbitrary contents
template<typename S> void toString()
{
	const S a = make<S>(sym::pick("n", 0, BOUND(9, 12)), "a"); const Bits b = observe(a);
	std::string s = a.ToString(); CHECK(s.size() == b.n, "length");
	for (size_t i = 0; i < b.n; ++i) CHECK(s[i] == (b.v[b.n - 1 - i] ? '1' : '0'), "ToString");
}
ENTRY(toString_u8) { toString<V8>(); } ENTRY(toString_u16) { toString<V16>(); }

template<typename S, typename T> void integer()
{
	const T v = sym::any<T>("v");
	S a(v);
	const size_t n = a.GetSize();
	for (size_t i = 0; i < n; ++i) CHECK(a.Test(i) == (i < sizeof(T) * 8 ? bool((v >> i) & 1) : false), "bit of the integer");
	for (size_t i = n; i < sizeof(T) * 8; ++i) CHECK(((v >> i) & 1) == 0, "no set bit lost");
	checkCoherent(a, "from integer");
	if (n <= sizeof(T) * 8) CHECK(a.template To<T>() == v, "To gives the integer back");
	CHECK(a.template To<uint64_t>() == v, "To<wider> gives the integer back");
	S b(70, true); b = v; CHECK(b.GetSize() == n, "assignment agrees with construction"); CHECK(b == a, "assignment agrees with construction");
	sym_note(n);
}
ENTRY(int_8_8) { integer<V8, uint8_t>(); } ENTRY(int_16_8) { integer<V16, uint8_t>(); } ENTRY(int_32_8) { integer<V32, uint8_t>(); } ENTRY(int_64_8) { integer<V64, uint8_t>(); }
ENTRY(int_16_16) { integer<V16, uint16_t>(); } ENTRY(int_32_16) { integer<V32, uint16_t>(); } ENTRY(int_64_16) { integer<V64, uint16_t>(); }
ENTRY(int_32_32) { integer<V32, uint32_t>(); } ENTRY(int_64_32) { integer<V64, uint32_t>(); } ENTRY(int_64_64) { integer<V64, uint64_t>(); }

// integers wider than the block: the bits are tested one by one, so at most a few arbitrary bits at a time
template<typename S, typename T> void integerWide()
{
	constexpr size_t W = sizeof(T) * 8;
	T v = 0; size_t p = sym::pick("p", 0, W - 1), q = sym::pick("q", 0, BOUND(3, 7)) * (W / BOUND(4, 8));
	v |= T(sym::any<bool>("bp")) << p; v |= T(sym::any<bool>("bq")) << q;
	S a(v); const size_t n = a.GetSize();
	CHECK(n <= W, "no more bits than the integer");
	for (size_t i = 0; i < n; ++i) CHECK(a.Test(i) == bool((v >> i) & 1), "bit of the integer");
	for (size_t i = n; i < W; ++i) CHECK(((v >> i) & 1) == 0, "no set bit lost");
	CHECK(a.template To<T>() == v, "To gives the integer back");
	checkCoherent(a, "from wide integer");
}
ENTRY(wide_8_16) { integerWide<V8, uint16_t>(); } ENTRY(wide_8_32) { integerWide<V8, uint32_t>(); } ENTRY(wide_8_64) { integerWide<V8, uint64_t>(); }
ENTRY(wide_16_32) { integerWide<V16, uint32_t>(); } ENTRY(wide_32_64) { integerWide<V32, uint64_t>(); }
ENTRY(T_wide_all16) { uint16_t v = sym::any<uint16_t>("v"); V8 a(v); CHECK(a.To<uint16_t>() == v, "every 16-bit value into 8-bit blocks"); }

template<typename S, typename T> void to()
{
	constexpr size_t W = sizeof(T) * 8;
	const S a = make<S>(sym::pick("n", 0, W), "a"); const Bits b = observe(a);
	uint64_t e = 0; for (size_t i = 0; i < b.n; ++i) e |= uint64_t(b.v[i]) << i;
	T r = a.template To<T>();
	CHECK(r == T(e), "To returns the number the bits denote");
	sym_note(r);
}
ENTRY(to_8_8) { to<V8, uint8_t>(); } ENTRY(to_8_16) { to<V8, uint16_t>(); } ENTRY(to_8_32) { to<V8, uint32_t>(); } ENTRY(to_8_64) { to<V8, uint64_t>(); }
ENTRY(to_16_16) { to<V16, uint16_t>(); } ENTRY(to_16_64) { to<V16, uint64_t>(); } ENTRY(to_32_32) { to<V32, uint32_t>(); } ENTRY(to_32_64) { to<V32, uint64_t>(); } ENTRY(to_64_64) { to<V64, uint64_t>(); } ENTRY(to_fixed) { to<F8, uint32_t>(); }
ENTRY(to_64_8) { to<V64, uint8_t>(); } ENTRY(to_32_16) { to<V32, uint16_t>(); }
ENTRY(badChar) { char c[3] = { '1', sym::any<char>("c"), 0 }; ASSUME(c[1] != '0'); ASSUME(c[1] != '1'); ASSUME(c[1] != 0); sym_abort_ok(1); V8 a(static_cast<const char*>(c)); sym_abort_never(); CHECK(false, "a character other than 0 and 1 must be reported"); }
ENTRY(goodReach) { char c[3] = { '1', '0', 0 }; V8 a(static_cast<const char*>(c)); CHECK(a.Test(1) && !a.Test(0), "witness"); }

// strings of hundreds of characters, two of them arbitrary
template<typename S> void stringsHuge()
{
	const size_t t[] = { 255, 256, 257, 300 }; const size_t n = t[sym::pick("len", 0, 3)]; char buf[301]; for (size_t i = 0; i < n; ++i) buf[i] = (i * 7 % 3) ? '1' : '0'; buf[n] = 0;
	const size_t p = sym::pick("pos", 0, 2) * ((n - 1) / 2); buf[p] = char('0' + sym::any<bool>("c")); buf[n - 2] = char('0' + sym::any<bool>("d"));
	const S a(static_cast<const char*>(buf)); CHECK(a.GetSize() == n, "size"); for (size_t i = 0; i < n; ++i) CHECK(a.Test(n - 1 - i) == (buf[i] == '1'), "each character is its bit");
	const S b(std::string(buf, n)); CHECK(b == a, "from a string"); const std::string s = a.ToString(); CHECK(s.size() == n, "length"); for (size_t i = 0; i < n; ++i) CHECK(s[i] == buf[i], "written back"); sym_note(n);
}
ENTRY(stringsHuge_u8) { stringsHuge<V8>(); } ENTRY(stringsHuge_u64) { stringsHuge<V64>(); }
