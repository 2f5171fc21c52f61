// BOUNDS: Resize: arbitrary contents, every pair of sizes 0..17 (thorough 0..26), 30, 33, 40 with 8-bit blocks, boundary sizes with 16/32/64-bit blocks; histories: an arbitrary bitset of every size 0..10 followed by one mutating operation out of 22 kinds with every discrete argument (8/16-bit blocks, three storage kinds), and of size 0 or 9 (thorough also 18) followed by every pair of operations with boundary discrete arguments (8-bit blocks); bit contents and values arbitrary; bitsets of up to 300 blocks with two arbitrary blocks
#include "bitset_big.hpp"
#include <utility>
using namespace bs;

template<typename S> void resize()
{
	S a = make<S>(pickSize<Block<S>>("n"), "a");
	const Bits ba = observe(a);
	const size_t m = pickSize<Block<S>>("m");
	const bool d = sym::any<bool>("default");
	Bits e; e.n = m;
	for (size_t i = 0; i < m; ++i) e.v[i] = i < ba.n ? ba.v[i] : d;
	a.Resize(m, d);
	checkBits(a, e, "Resize keeps surviving bits and fills new ones with the default");
	checkCoherent(a, "after Resize");
	a.Resize(m + 9, false);
	e.n = m + 9; for (size_t i = m; i < e.n; ++i) e.v[i] = false;
	checkBits(a, e, "growing again adds zeros only");
	checkCoherent(a, "after growing again");
	note(a);
	S f(m, d); Bits ef; ef.n = m; for (size_t i = 0; i < m; ++i) ef.v[i] = d;
	checkBits(f, ef, "size and value constructor"); checkCoherent(f, "after construction");
	size_t cap = a.GetCapacity();
	CHECK(cap >= a.GetSize(), "capacity covers the size");
	a.Clear();
	CHECK(a.GetSize() == 0 && a.GetBlockCount() == 0 && a.Count() == 0 && a.TestNone(), "Clear empties");
	a.Resize(3, false); CHECK(a.TestNone(), "growing after Clear gives zeros");
}
BITSET_ENTRIES(resize)

template<typename S> void reserve()
{
	S a = make<S>(sym::pick("n", 0, 10), "a"); const Bits ba = observe(a);
	size_t want = sym::pick("want", 0, 40);
	a.Reserve(want);
	CHECK(a.GetCapacity() >= want, "Reserve gives the requested capacity");
	checkBits(a, ba, "Reserve keeps the contents"); checkCoherent(a, "after Reserve");
}
ENTRY(reserve_u8) { reserve<V8>(); } ENTRY(reserve_u32) { reserve<V32>(); } ENTRY(reserve_hybrid8) { reserve<H8>(); }

// in the two-operation histories the discrete arguments take boundary values only
static bool g_small = false;
static size_t arg(const char* name, size_t lo, size_t hi) { if (!g_small) return sym::pick(name, lo, hi); const size_t t[] = { lo, hi, lo < 8 && hi > 8 ? 8 : lo, lo < 5 && hi > 5 ? 5 : hi }; return t[sym::pick(name, 0, hi > 8 ? 3 : 1)]; }

template<typename S> void mutate(S& s)
{
	using B = Block<S>;
	const size_t n = s.GetSize();
	switch (sym::pick("op", 0, 21))
	{
		case 0: { size_t k = arg("size", 0, 18); s.Resize(k, sym::any<bool>("val")); break; }
		case 1: s.Set(sym::any<bool>("val")); break;
		case 2: s.Flip(); break;
		case 3: s.Reverse(); break;
		case 4: s <<= arg("k", 0, 9); break;
		case 5: s >>= arg("k", 0, 9); break;
		case 6: if (s.GetBlockCount()) s.SetBlock(s.GetBlockCount() - 1, sym::any<B>("block")); break;
		case 7: { auto v = sym::any<uint8_t>("bits"); s.AppendBits(v, arg("count", 0, 8)); break; }
		case 8: { auto v = sym::any<uint32_t>("bits"); s.AppendBits(v, arg("count", 0, 18)); break; }
		case 9: { size_t k = arg("bit", 0, 20); s.UnboundedSet(k, sym::any<bool>("val")); break; }
		case 10: { S o = make<S>(arg("on", 0, 17), "o"); s &= o; break; }
		case 11: { S o = make<S>(arg("on", 0, 17), "o"); s |= o; break; }
		case 12: { S o = make<S>(arg("on", 0, 17), "o"); s ^= o; break; }
		case 13: s.PerformsNOT(s); break;
		case 14: { S o = make<S>(arg("on", 0, 10), "o"); s.Swap(o); checkCoherent(o, "swapped partner"); break; }
		case 15: { S o = make<S>(arg("on", 0, 10), "o"); s = std::move(o); checkCoherent(o, "moved-from bitset (assignment)"); break; }
		case 16: { S o(std::move(s)); checkCoherent(s, "moved-from bitset (construction)"); checkCoherent(o, "move-constructed bitset"); break; }
		case 17: { uint8_t buf[3] = { sym::any<uint8_t>("m"), sym::any<uint8_t>("m"), sym::any<uint8_t>("m") }; size_t off = arg("off", 0, 7); s.Write(typename S::PointerSequence(buf, off), arg("bits", 0, 12)); break; }
		case 18: s = sym::any<uint8_t>("value"); break;
		case 19: if (n) { auto b = s[arg("bit", 0, n - 1)]; b.Flip(); } break;
		case 20: s = sym::any<int8_t>("value"); break;
		default: s.Clear(); break;
	}
}

template<typename S> void history()
{
	S s = make<S>(sym::pick("n", 0, 10), "a");
	for (int i = 0; i < BOUND(1, 2); ++i) mutate(s);
	checkCoherent(s, "after mutations");
	const Bits b = observe(s);
	// growing after anything gives zeros
	S t = s; t.Resize(b.n + 9, false);
	Bits e = b; e.n = b.n + 9; for (size_t i = b.n; i < e.n; ++i) e.v[i] = false;
	checkBits(t, e, "growing after mutations gives zeros"); checkCoherent(t, "after growing");
	// equality and order see only in-range bits
	S fresh(b.n, false); for (size_t i = 0; i < b.n; ++i) fresh.Set(i, b.v[i]);
	CHECK(fresh == s, "equal to a fresh bitset with the same bits");
	CHECK(s == t, "equal to its zero-extension");
	S shr = s; shr >>= 1; for (size_t i = 0; i + 1 < b.n; ++i) CHECK(shr.Test(i) == b.v[i + 1], "shifted right");
	if (b.n) CHECK(!shr.Test(b.n - 1), "nothing shifted in");
	note(s);
}
ENTRY(H_history_u8) { history<V8>(); } ENTRY(H_history_u16) { history<V16>(); } ENTRY(history_fixed8) { history<F8>(); } ENTRY(H_history_hybrid8) { history<H8>(); }
// two operations from a small arbitrary bitset
template<typename S> void history2()
{
	g_small = true;
	S s = make<S>(sym::pick("n", 0, BOUND(1, 2)) * 9, "a");
	mutate(s); mutate(s);
	checkCoherent(s, "after two mutations");
	const Bits b = observe(s);
	s.Resize(b.n + 9, false);
	for (size_t i = 0; i < b.n + 9; ++i) CHECK(s.Test(i) == b.at(i), "growing after two mutations gives zeros");
}
ENTRY(H_history2_u8) { history2<V8>(); }
ENTRY(T_history2_fixed8) { history2<F8>(); }

template<typename S> void longResize()
{
	constexpr size_t W = sizeof(Block<S>) * 8; static Big x, e; const size_t n = bigSize<Block<S>>("n"); const S a = makeBig<S>(n, sym::pick("background", 0, 2), bigWhere<S>("w"), "a", x);
	const size_t t[] = { 0, 5, n - W - 2, n - 1, n + 1, n + 5 * W }; const size_t m = t[sym::pick("to", 0, 5)]; const bool v = sym::any<bool>("v");
	e.n = m; for (size_t i = 0; i < m; ++i) e.v[i] = i < n ? x.v[i] : v; { S s = a; s.Resize(m, v); checkBig(s, e, "Resize of a long bitset"); s.Resize(n, false); if (m < n) for (size_t i = m; i < n; ++i) CHECK(!s.Test(i), "bits dropped by a shrink do not come back"); }
	const S filled(n, v); CHECK(filled.GetSize() == n, "size"); for (size_t i = 0; i < n; ++i) CHECK(filled.Test(i) == v, "a long filled bitset"); CHECK(filled.Count() == (v ? n : 0), "its count");
	{ S s = a; s.Clear(); CHECK(s.GetSize() == 0, "Clear"); CHECK(s.Count() == 0, "Clear"); } sym_note(m);
}
BIG_ENTRIES(longResize)
