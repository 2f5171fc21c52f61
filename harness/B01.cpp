// BOUNDS: two operands with arbitrary contents and every pair of sizes 0..17 (thorough 0..26), 30, 33, 40 for 8-bit blocks, block-boundary sizes 0,1,W-1,W,W+1,2W-1,2W,2W+1 (thorough 13 sizes up to 3W) for 16/32/64-bit blocks; std::vector, FixedVector and HybridVector storage; operands of up to 300 blocks with two arbitrary blocks
#include "bitset_big.hpp"
using namespace bs;

enum class Op { And, Or, Xor };
static bool apply(Op op, bool a, bool b) { return op == Op::And ? (a & b) : op == Op::Or ? (a | b) : (a ^ b); }
static Bits expect(Op op, const Bits& a, const Bits& b)
{
	Bits r; r.n = a.n > b.n ? a.n : b.n;
	for (size_t i = 0; i < r.n; ++i) r.v[i] = apply(op, a.at(i), b.at(i));
	return r;
}

template<typename S> void binary()
{
	S a = make<S>(pickSize<Block<S>>("na"), "a"), b = make<S>(pickSize<Block<S>>("nb"), "b");
	const Bits ba = observe(a), bb = observe(b);
	const Op ops[] = { Op::And, Op::Or, Op::Xor };
	for (Op op : ops)
	{
		const Bits e = expect(op, ba, bb);
		S r = op == Op::And ? (a & b) : op == Op::Or ? (a | b) : (a ^ b);
		checkBits(r, e, "value-returning operator computes the operation");
		CHECK(r.GetBlockCount() == blockCountFor<S>(e.n), "block count of the result");
		S c = a; if (op == Op::And) c &= b; else if (op == Op::Or) c |= b; else c ^= b;
		checkBits(c, e, "in-place operator computes the operation");
		S d = b; // destination is the second operand
		if (op == Op::And) d.PerformsAND(a, d); else if (op == Op::Or) d.PerformsOR(a, d); else d.PerformsXOR(a, d);
		checkBits(d, e, "Performs form with the destination as second operand");
		S g(5, true); // unrelated destination with old contents
		if (op == Op::And) g.PerformsAND(a, b); else if (op == Op::Or) g.PerformsOR(a, b); else g.PerformsXOR(a, b);
		checkBits(g, e, "Performs form into another bitset");
		note(r);
	}
	checkBits(a, ba, "first operand unchanged"); checkBits(b, bb, "second operand unchanged");
	bool inter = false;
	for (size_t i = 0; i < ba.n && i < bb.n; ++i) inter |= ba.v[i] & bb.v[i];
	bool got = a.Intersects(b);
	CHECK(got == inter, "Intersects is true exactly when a common index is set");
	CHECK(b.Intersects(a) == inter, "Intersects is symmetric");
	sym_note(got);
}
BITSET_ENTRIES(binary)

template<typename S> void unary()
{
	S a = make<S>(pickSize<Block<S>>("n", BOUND(8, 8)), "a");
	const Bits ba = observe(a);
	Bits e = ba; for (size_t i = 0; i < e.n; ++i) e.v[i] = !ba.v[i];
	S r = ~a;
	checkBits(r, e, "operator~ inverts the in-range bits");
	CHECK(r.GetBlockCount() == blockCountFor<S>(e.n), "block count of ~");
	S d(pickSize<Block<S>>("m"), true); d.PerformsNOT(a);
	checkBits(d, e, "PerformsNOT into a bitset of another size");
	S s = a; s.PerformsNOT(s);
	checkBits(s, e, "PerformsNOT onto itself");
	checkBits(a, ba, "operand unchanged");
	S self = a;
	self &= self; checkBits(self, ba, "a &= a"); self |= self; checkBits(self, ba, "a |= a");
	CHECK(self.Intersects(self) == a.TestAny(), "a intersects itself iff it has a bit");
	self ^= self; Bits z; z.n = ba.n; checkBits(self, z, "a ^= a");
	note(r);
}
BITSET_ENTRIES(unary)

template<typename S> void longOperands()
{
	static Big x, y, e; const size_t n = bigSize<Block<S>>("na"); S a = makeBig<S>(n, sym::pick("background a", 0, 2), bigWhere<S>("wa"), "a", x);
	const size_t m = sym::pick("nb", 0, 1) ? n - sizeof(Block<S>) * 8 - 1 : 70; S b = makeBig<S>(m, 2, 0, "b", y);
	const size_t op = sym::pick("op", 0, 2); e.n = n; for (size_t i = 0; i < n; ++i) e.v[i] = op == 0 ? (x.at(i) & y.at(i)) : op == 1 ? (x.at(i) | y.at(i)) : (x.at(i) ^ y.at(i));
	checkBig(op == 0 ? (a & b) : op == 1 ? (a | b) : (a ^ b), e, "long operands"); checkBig(op == 0 ? (b & a) : op == 1 ? (b | a) : (b ^ a), e, "long operands, the shorter one first");
	{ S c = a; if (op == 0) c &= b; else if (op == 1) c |= b; else c ^= b; checkBig(c, e, "in place, long operands"); }
	{ S c = b; if (op == 0) c &= a; else if (op == 1) c |= a; else c ^= a; checkBig(c, e, "in place, growing"); }
	bool inter = false; for (size_t i = 0; i < m; ++i) inter |= x.at(i) & y.at(i); CHECK(a.Intersects(b) == inter, "Intersects"); CHECK(b.Intersects(a) == inter, "Intersects is symmetric");
	for (size_t i = 0; i < n; ++i) e.v[i] = !x.v[i]; if (op == 0) { checkBig(~a, e, "complement"); S c; c.PerformsNOT(a); checkBig(c, e, "PerformsNOT"); }
	sym_note(n);
}
BIG_ENTRIES(longOperands)
