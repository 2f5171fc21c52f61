// BOUNDS: arbitrary contents, every size 0..34 bits (thorough 50) and every shift 0..size+9 for 8-bit blocks; boundary sizes up to four blocks (11 quick, 16 thorough) and boundary shifts for 16/32/64-bit blocks; bitsets of up to 300 blocks with two arbitrary blocks
#include "bitset_big.hpp"
using namespace bs;

template<typename B> size_t pickShiftSize()
{
	constexpr size_t W = sizeof(B) * 8;
	if constexpr (W == 8) return sym::pick("n", 0, BOUND(34, 50));
	else { const size_t t[] = { 0, 1, W - 1, W, W + 1, 2 * W - 1, 2 * W, 2 * W + 1, 3 * W - 1, 3 * W + 1, 4 * W, 3, W / 2, W + W / 2, 3 * W, 4 * W + 3 }; return t[sym::pick("n", 0, BOUND(10, 15))]; }
}

template<typename B> size_t pickShift(size_t n)
{
	constexpr size_t W = sizeof(B) * 8;
	if constexpr (W == 8) return sym::pick("shift", 0, n + 9);
	else
	{
		const size_t t[] = { 0, 1, W - 1, W, W + 1, 2 * W - 1, 2 * W, 2 * W + 1, n, n + 1, n ? n - 1 : 0, SIZE_MAX, 3, W + 3, 2 * W + 3, 3 * W, 3 * W + 1, W / 2, W + W / 2 };
		return t[sym::pick("shift", 0, BOUND(16, 18))];
	}
}

template<typename S> void shift()
{
	S a = make<S>(pickShiftSize<Block<S>>(), "a");
	const Bits ba = observe(a);
	const size_t k = pickShift<Block<S>>(ba.n);
	Bits l, r; l.n = r.n = ba.n;
	for (size_t i = 0; i < ba.n; ++i)
	{
		l.v[i] = i >= k ? ba.v[i - k] : false;
		r.v[i] = k < ba.n && i + k < ba.n ? ba.v[i + k] : false;
	}
	checkBits(a << k, l, "operator<< moves each bit by the amount");
	checkBits(a >> k, r, "operator>> moves each bit by the amount");
	S x = a; x <<= k; checkBits(x, l, "operator<<= moves each bit by the amount"); note(x);
	S y = a; y >>= k; checkBits(y, r, "operator>>= moves each bit by the amount"); note(y);
	S p = a; p.ShiftLeft(k); checkBits(p, l, "ShiftLeft"); CHECK(p.GetBlockCount() == a.GetBlockCount(), "block count");
	S q = a; q.ShiftRight(k); checkBits(q, r, "ShiftRight"); CHECK(q.GetBlockCount() == a.GetBlockCount(), "block count");
	checkBits(a, ba, "operand unchanged");
}
BITSET_ENTRIES(shift)

template<typename S> void longShift()
{
	constexpr size_t W = sizeof(Block<S>) * 8; static Big x, l, r; const size_t n = bigSize<Block<S>>("n"); S a = makeBig<S>(n, sym::pick("background", 0, 2), bigWhere<S>("w"), "a", x);
	const size_t t[] = { 1, W, W + 1, 5 * W + 3, (n / W - 1) * W + 1, n - 1, 256, 300, n };
	const size_t k = t[sym::pick("shift", 0, BOUND(6, 8))]; l.n = r.n = n; for (size_t i = 0; i < n; ++i) { l.v[i] = i >= k && x.v[i - k]; r.v[i] = i + k < n && x.v[i + k]; }
	checkBig(a << k, l, "left shift of a long bitset"); checkBig(a >> k, r, "right shift of a long bitset"); { S c = a; c <<= k; checkBig(c, l, "left shift in place"); } { S c = a; c >>= k; checkBig(c, r, "right shift in place"); } sym_note(k);
}
BIG_ENTRIES(longShift)
