// BOUNDS: arbitrary contents; every size 0..17 (thorough 0..26), 30, 33, 40 and every index with 8-bit blocks, boundary sizes and indices with 16/32/64-bit blocks; bitsets of up to 300 blocks with two arbitrary blocks
#include "bitset_big.hpp"
#include <utility>
using namespace bs;

template<typename B> size_t pickIndex(const char* name, size_t n)
{
	constexpr size_t W = sizeof(B) * 8;
	if constexpr (W == 8) return sym::pick(name, 0, n - 1);
	else { const size_t t[] = { 0, n - 1, W - 1, W, 2 * W - 1, 2 * W, 1 }; size_t i = t[sym::pick(name, 0, 6)]; ASSUME(i < n); return i; }
}

template<typename S> void single()
{
	S a = make<S>(pickSize<Block<S>>("n"), "a"); const Bits b = observe(a);
	if (b.n == 0) { CHECK(a.TestNone(), "empty"); return; }
	const size_t i = pickIndex<Block<S>>("i", b.n);
	const bool v = sym::any<bool>("v");
	auto expect = [&](const S& s, bool bit, const char* what) { Bits e = b; e.v[i] = bit; checkBits(s, e, what); CHECK(s.GetBlockCount() == a.GetBlockCount(), what); };
	{ S s = a; s.Set(i, v); expect(s, v, "Set(bit, val)"); note(s); }
	{ S s = a; s.Set(i); expect(s, true, "Set(bit)"); }
	{ S s = a; s.Reset(i); expect(s, false, "Reset(bit)"); }
	{ S s = a; s.UnboundedSet(i, v); expect(s, v, "UnboundedSet in range"); }
	{ S s = a; s.UnboundedReset(i); expect(s, false, "UnboundedReset in range"); }
	{ S s = a; s[i].Set(v); expect(s, v, "Bit::Set"); }
	{ S s = a; s[i].Set(); expect(s, true, "Bit::Set()"); }
	{ S s = a; s[i].Reset(); expect(s, false, "Bit::Reset"); }
	{ S s = a; s[i].Flip(); expect(s, !b.v[i], "Bit::Flip"); }
	{ S s = a; s[i] = v; expect(s, v, "Bit = bool"); }
	{ S s = a; s[i] |= v; expect(s, b.v[i] | v, "Bit |= bool"); }
	{ S s = a; s[i] &= v; expect(s, b.v[i] & v, "Bit &= bool"); }
	{ S s = a; s[i] ^= v; expect(s, b.v[i] ^ v, "Bit ^= bool"); }
	{ S s = a; s[i] -= v; expect(s, b.v[i] & !v, "Bit -= bool"); }
	{ S s = a; CHECK(s[i].Test() == b.v[i], "Bit::Test"); CHECK(bool(s[i]) == b.v[i], "Bit to bool"); expect(s, b.v[i], "reading changes nothing"); }
	{ S s = a; const size_t j = pickIndex<Block<S>>("j", b.n); s[i] = s[j]; expect(s, b.v[j], "Bit = Bit copies the value"); }
}
ENTRY(H_single_u8) { single<V8>(); } ENTRY(single_u16) { single<V16>(); } ENTRY(single_u32) { single<V32>(); } ENTRY(single_u64) { single<V64>(); } ENTRY(T_single_fixed8) { single<F8>(); }

template<typename S> void block()
{
	using B = Block<S>; constexpr size_t W = sizeof(B) * 8;
	S a = make<S>(pickSize<B>("n"), "a"); const Bits b = observe(a);
	if (a.GetBlockCount() == 0) { CHECK(b.n == 0, "empty"); return; }
	const size_t k = sym::pick("block", 0, a.GetBlockCount() - 1); const B v = sym::any<B>("v");
	a.SetBlock(k, v);
	Bits e = b; for (size_t i = k * W; i < (k + 1) * W && i < b.n; ++i) e.v[i] = (v >> (i - k * W)) & 1;
	checkBits(a, e, "SetBlock changes exactly the bits of its block"); checkCoherent(a, "after SetBlock");
	note(a);
}
BITSET_ENTRIES(block)

template<typename S> void unbounded()
{
	using B = Block<S>; constexpr size_t W = sizeof(B) * 8;
	S a = make<S>(pickSize<B>("n"), "a"); const Bits b = observe(a);
	const size_t t[] = { 0, 1, 2, W - 1, W, W + 1, 2 * W };
	const size_t i = b.n + t[sym::pick("beyond", 0, 6)];
	{ S s = a; s.UnboundedReset(i); checkBits(s, b, "UnboundedReset never grows"); }
	{ S s = a; s.UnboundedSet(i, false); checkBits(s, b, "UnboundedSet(false) never grows"); }
	{ S s = a; CHECK(!s.UnboundedTest(i), "UnboundedTest of an absent bit"); checkBits(s, b, "UnboundedTest never grows"); }
	{ S s = a; s.UnboundedSet(i); Bits e = b; for (size_t k = b.n; k < i; ++k) e.v[k] = false; e.v[i] = true; e.n = i + 1; checkBits(s, e, "UnboundedSet grows just enough"); checkCoherent(s, "after UnboundedSet"); note(s); }
}
BITSET_ENTRIES(unbounded)

template<typename S> void whole()
{
	S a = make<S>(pickSize<Block<S>>("n"), "a"); const Bits b = observe(a);
	const bool v = sym::any<bool>("v");
	Bits e; e.n = b.n;
	{ S s = a; s.Set(v); for (size_t i = 0; i < b.n; ++i) e.v[i] = v; checkBits(s, e, "Set(val)"); checkCoherent(s, "Set(val)"); }
	{ S s = a; s.Set(); for (size_t i = 0; i < b.n; ++i) e.v[i] = true; checkBits(s, e, "Set()"); checkCoherent(s, "Set()"); }
	{ S s = a; s.Reset(); for (size_t i = 0; i < b.n; ++i) e.v[i] = false; checkBits(s, e, "Reset()"); }
	{ S s = a; s.Flip(); for (size_t i = 0; i < b.n; ++i) e.v[i] = !b.v[i]; checkBits(s, e, "Flip()"); checkCoherent(s, "Flip()"); note(s); s.Flip(); checkBits(s, b, "Flip twice"); }
	{ S s = a; s.Reverse(); for (size_t i = 0; i < b.n; ++i) e.v[i] = b.v[b.n - 1 - i]; checkBits(s, e, "Reverse"); note(s); s.Reverse(); checkBits(s, b, "Reverse twice"); }
	{ S s(a); checkBits(s, b, "copy construction"); S t(2, true); t = a; checkBits(t, b, "copy assignment"); t.Flip(); checkBits(a, b, "copies are independent"); S& r = s; s = r; checkBits(s, b, "self assignment"); }
	{ S c = a; S s(std::move(c)); checkBits(s, b, "move construction"); S t(9, true); t = std::move(s); checkBits(t, b, "move assignment"); checkCoherent(t, "moved"); s = t; checkBits(s, b, "a moved-from bitset can be assigned"); }
	{ S c = a, d = make<S>(pickSize<Block<S>>("m"), "d"); const Bits bd = observe(d); c.Swap(d); checkBits(c, bd, "Swap"); checkBits(d, b, "Swap"); std::swap(c, d); checkBits(c, b, "std::swap"); checkBits(d, bd, "std::swap"); }
}
BITSET_ENTRIES(whole)

template<typename S> void longWhole()
{
	constexpr size_t W = sizeof(Block<S>) * 8; static Big x, e; const size_t n = bigSize<Block<S>>("n"); S a = makeBig<S>(n, sym::pick("background", 0, 2), bigWhere<S>("w"), "a", x); const bool v = sym::any<bool>("v"); e.n = n;
	{ S s = a; s.Reverse(); for (size_t i = 0; i < n; ++i) e.v[i] = x.v[n - 1 - i]; checkBig(s, e, "Reverse of a long bitset"); }
	{ S s = a; s.Flip(); for (size_t i = 0; i < n; ++i) e.v[i] = !x.v[i]; checkBig(s, e, "Flip of a long bitset"); }
	{ S s = a; s.Set(v); for (size_t i = 0; i < n; ++i) e.v[i] = v; checkBig(s, e, "Set of a long bitset"); s.Reset(); CHECK(s.TestNone(), "Reset of a long bitset"); CHECK(s.GetSize() == n, "size"); }
	const size_t t[] = { 5, n / 2, 256 * W <= n ? 256 * W : 32 * W, n - 1 }; const size_t i = t[sym::pick("index", 0, 3)]; e = x; e.v[i] = v;
	{ S s = a; s.Set(i, v); checkBig(s, e, "Set of a far bit"); } { S s = a; s[i] = v; checkBig(s, e, "reference to a far bit"); } { S s = a; s.UnboundedSet(n + 3 * W); CHECK(s.GetSize() == n + 3 * W + 1, "growing"); CHECK(s.Test(n + 3 * W), "the bit"); CHECK(s.Test(i) == x.v[i], "others kept"); CHECK(!s.Test(n), "new bits are cleared"); }
	{ S s(a); checkBig(s, x, "copy"); S m(std::move(s)); checkBig(m, x, "move"); } sym_note(i);
}
BIG_ENTRIES(longWhole)
