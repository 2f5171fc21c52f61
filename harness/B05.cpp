// BOUNDS: two (transitivity: three) operands with arbitrary contents and every pair of sizes 0..17 (thorough 0..26), 30, 33, 40 with 8-bit blocks (transitivity 0..9), boundary sizes with 16/32/64-bit blocks; bitsets of up to 300 blocks with two arbitrary blocks
#include "bitset_big.hpp"
using namespace bs;

// reference order: compare the numbers bit by bit from the top
static bool lessThan(const Bits& a, const Bits& b)
{
	bool lt = false; size_t n = a.n > b.n ? a.n : b.n;
	for (size_t i = 0; i < n; ++i) { bool x = a.at(i), y = b.at(i); lt = (!x & y) | ((x == y) & lt); }
	return lt;
}
static bool same(const Bits& a, const Bits& b)
{
	bool eq = true; size_t n = a.n > b.n ? a.n : b.n;
	for (size_t i = 0; i < n; ++i) eq &= a.at(i) == b.at(i);
	return eq;
}

template<typename S> void order()
{
	const S a = make<S>(pickSize<Block<S>>("na"), "a"), b = make<S>(pickSize<Block<S>>("nb"), "b");
	const Bits x = observe(a), y = observe(b);
	bool lt = lessThan(x, y), gt = lessThan(y, x), eq = same(x, y);
	bool r;
	r = a == b; CHECK(r == eq, "== iff every bit agrees"); sym_note(r);
	r = a != b; CHECK(r == !eq, "!= is the negation of ==");
	r = a < b; CHECK(r == lt, "< iff the number is smaller"); sym_note(r);
	r = a > b; CHECK(r == gt, "> iff the number is greater");
	r = a <= b; CHECK(r == (lt | eq), "<= iff not greater");
	r = a >= b; CHECK(r == (gt | eq), ">= iff not smaller");
	CHECK(a == a && !(a < a) && a <= a && a >= a && !(a != a), "reflexivity");
}
ENTRY(H_order_u8) { order<V8>(); } ENTRY(order_u16) { order<V16>(); } ENTRY(order_u32) { order<V32>(); } ENTRY(order_u64) { order<V64>(); } ENTRY(H_order_fixed8) { order<F8>(); }

template<typename S> void longOrder()
{
	static Big x, y; const size_t n = bigSize<Block<S>>("na"), bg = sym::pick("background", 0, 2), w = bigWhere<S>("wa"); const S a = makeBig<S>(n, bg, w, "a", x);
	const size_t m = sym::pick("nb", 0, 1) ? n : n - 2 * sizeof(Block<S>) * 8; const S b = makeBig<S>(m, bg, bigWhere<S>("wb"), "b", y);
	bool lt = false, eq = true; for (size_t i = 0; i < n; ++i) { const bool p = x.at(i), q = y.at(i); lt = (!p & q) | ((p == q) & lt); eq &= p == q; }
	CHECK((a == b) == eq, "equality of long bitsets"); CHECK((a != b) == !eq, "inequality"); CHECK((a < b) == lt, "order of long bitsets"); CHECK((b > a) == lt, "order"); CHECK((a >= b) == !lt, "order"); CHECK((b < a) == (!lt & !eq), "order"); CHECK((a <= b) == (lt | eq), "order"); sym_note(eq);
}
BIG_ENTRIES(longOrder)
