// BOUNDS: arbitrary contents, every size 0..17 (thorough 0..26), 30, 33, 40 bits with 8-bit blocks and 8 (thorough 13) boundary sizes with 16/32/64-bit blocks; every start index for FindNext; iteration: every subset of 0..9 (thorough 12) bits, and arbitrary contents with at most one bit per explored position for wide blocks; bitsets of up to 300 blocks with two arbitrary blocks
#include "bitset_big.hpp"
using namespace bs;

template<typename S> void queries()
{
	const S a = make<S>(pickSize<Block<S>>("n"), "a");
	const Bits b = observe(a);
	size_t count = 0; bool any = false, all = true; size_t first = S::npos;
	for (size_t i = b.n; i-- > 0;) { count += b.v[i]; any |= b.v[i]; all &= b.v[i]; first = b.v[i] ? i : first; }
	CHECK(a.Count() == count, "Count is the number of set bits");
	CHECK(a.TestAny() == any, "TestAny"); CHECK(a.TestNone() == !any, "TestNone"); CHECK(a.TestAll() == all, "TestAll");
	CHECK(a.FindFirst() == first, "FindFirst is the lowest set index or npos");
	CHECK(a.GetSize() == b.n, "size");
	for (size_t i = 0; i < b.n; ++i) { CHECK(a[i] == b.v[i], "operator[] const"); CHECK(a.UnboundedTest(i) == b.v[i], "UnboundedTest in range"); }
	size_t far = sym::any<size_t>("far"); ASSUME(far >= b.n);
	CHECK(!a.UnboundedTest(far), "absent bits read as 0");
	sym_note(a.Count()); sym_note(a.FindFirst());
}
BITSET_ENTRIES(queries)

template<typename S> void findNext()
{
	const S a = make<S>(pickSize<Block<S>>("n"), "a");
	const Bits b = observe(a);
	if (b.n == 0) { CHECK(a.FindFirst() == S::npos, "empty"); return; }
	const size_t from = sym::pick("from", 0, b.n - 1);
	size_t next = S::npos;
	for (size_t i = b.n; i-- > from + 1;) next = b.v[i] ? i : next;
	size_t got = a.FindNext(from);
	CHECK(got == next, "FindNext is the lowest set index above the given one, or npos");
	sym_note(got);
}
BITSET_ENTRIES(findNext)

// iteration visits exactly the set indices, in order, once
template<typename S> void iterate(size_t maxBits)
{
	const S a = make<S>(sym::pick("n", 0, maxBits), "a");
	const Bits b = observe(a);
	size_t cursor = 0; uint64_t seen = 0;
	for (size_t i : a.IterBits())
	{
		CHECK(i < b.n, "visited index in range");
		CHECK(b.v[i], "visited bit is set");
		CHECK(i >= cursor, "increasing order, each once");
		for (size_t k = cursor; k < i; ++k) CHECK(!b.v[k], "no set bit skipped");
		cursor = i + 1; seen = seen * 31 + i;
	}
	for (size_t k = cursor; k < b.n; ++k) CHECK(!b.v[k], "no set bit left");
	sym_note(seen);
	// post-increment returns the old position and advances
	auto tag = a.IterBits(); auto it = tag.begin(); const auto end = tag.end();
	cursor = 0;
	for (size_t guard = 0; guard <= maxBits && it != end; ++guard)
	{
		size_t here = *it;
		auto old = it++;
		CHECK(*old == here, "post-increment returns the previous position");
		CHECK(here >= cursor && here < b.n && b.v[here], "post-increment visits set bits in order");
		for (size_t k = cursor; k < here; ++k) CHECK(!b.v[k], "post-increment skips nothing");
		cursor = here + 1;
	}
	CHECK(it == end, "post-increment reaches the end");
	for (size_t k = cursor; k < b.n; ++k) CHECK(!b.v[k], "post-increment leaves no set bit");
}
ENTRY(iterate_u8) { iterate<V8>(BOUND(9, 12)); }
ENTRY(iterate_fixed8) { iterate<F8>(BOUND(7, 10)); }
ENTRY(iterate_u16) { iterate<V16>(BOUND(6, 10)); }

template<typename S> void iterateSparse()
{
	constexpr size_t W = sizeof(Block<S>) * 8;
	const size_t t[] = { 0, 1, W - 1, W, W + 1, 2 * W - 1, 2 * W, 2 * W + 5 };
	const size_t i = t[sym::pick("i", 0, 7)], j = t[sym::pick("j", 0, 7)];
	S s(2 * W + 6, false); s.Set(i, sym::any<bool>("vi")); s.Set(j, true);
	const Bits b = observe(s);
	size_t cursor = 0, visits = 0;
	for (size_t k : s.IterBits())
	{
		CHECK(k < b.n && k >= cursor, "in order");
		for (size_t x = cursor; x < k; ++x) CHECK(!b.v[x], "none skipped");
		CHECK(b.v[k], "set"); cursor = k + 1; ++visits;
	}
	for (size_t x = cursor; x < b.n; ++x) CHECK(!b.v[x], "none left");
	CHECK(visits == s.Count(), "as many visits as set bits");
}
ENTRY(sparse_u32) { iterateSparse<V32>(); } ENTRY(sparse_u64) { iterateSparse<V64>(); }

template<typename S> void longQueries()
{
	static Big x; const size_t n = bigSize<Block<S>>("n"), background = sym::pick("background", 0, 2); const S a = makeBig<S>(n, background, bigWhere<S>("w"), "a", x);
	size_t count = 0, first = S::npos; bool all = true; for (size_t i = n; i-- > 0;) { count += x.v[i]; all &= x.v[i]; first = x.v[i] ? i : first; }
	CHECK(a.Count() == count, "Count of a long bitset"); CHECK(a.TestAny() == (count != 0), "TestAny"); CHECK(a.TestNone() == (count == 0), "TestNone"); CHECK(a.TestAll() == all, "TestAll"); CHECK(a.FindFirst() == first, "FindFirst");
	const size_t t[] = { 0, 6, 63, n / 2, n - 2, n - 1 }; const size_t from = t[sym::pick("from", 0, 5)]; size_t next = S::npos; for (size_t i = n; i-- > from + 1;) next = x.v[i] ? i : next; CHECK(a.FindNext(from) == next, "FindNext");
	for (size_t i = 0; i < n; ++i) CHECK(a[i] == x.v[i], "operator[]"); sym_note(a.Count());
}
BIG_ENTRIES(longQueries)
// iterating over a long sparse bitset: any subset of a few far apart bits
template<typename S> void longIteration()
{
	const size_t n = bigSize<Block<S>>("n"); S a(n, false); const size_t at[] = { 0, 7, n / 2, n - 65, n - 1 }; bool set[5]; size_t k = 0;
	for (size_t i = 0; i < 5; ++i) { set[i] = sym::any<bool>("bit"); if (set[i]) a.Set(at[i]); }
	for (size_t i : a.IterBits()) { while (k < 5 && !set[k]) ++k; if (k == 5) { CHECK(false, "only set bits are visited"); return; } CHECK(i == at[k], "set bits are visited in order"); ++k; }
	while (k < 5 && !set[k]) ++k; CHECK(k == 5, "every set bit is visited"); sym_note(a.Count());
}
BIG_ENTRIES(longIteration)
