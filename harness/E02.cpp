// BOUNDS: every address, every stride (positive, negative, zero) and every count of every integer type for which the address computation stays within the address space; real buffers of 8 elements with strides -3..3 for dereferencing
// ASSUMES: the products and sums of the specified addresses are representable; strides given as std::size_t are at most INT_MAX; differences are taken with a non-zero stride, as documented
// VARIANT: run
// VARIANT: run20 std=c++20 thorough
#include "sym.hpp"
#include <NazaraUtils/SparsePtr.hpp>
#include <algorithm>
#include <iterator>
#include <type_traits>

using P = Nz::SparsePtr<uint16_t>;
template<typename Q> static uint64_t addr(const Q& p) { return reinterpret_cast<uint64_t>(p.GetPtr()); }
static void* ptr(uint64_t a) { return reinterpret_cast<void*>(a); }
// the offset of n steps, required to be representable and to stay within the address space with the base
static bool inSpace(uint64_t a) { return a < (uint64_t(1) << 47); }
template<typename N> static uint64_t offset(N n, int stride)
{
	if constexpr (sizeof(N) == 8 && !std::is_signed_v<N>) ASSUME(n < (uint64_t(1) << 63));
	int64_t r; ASSUME(!__builtin_mul_overflow(int64_t(n), int64_t(stride), &r)); ASSUME((r > -(int64_t(1) << 47)) & (r < (int64_t(1) << 47))); return uint64_t(r);
}

template<typename N> static void arithmetic()
{
	const uint64_t base = sym_u64("base"); const int stride = int(sym_u32("stride")); const N n = sym::any<N>("n"); const uint64_t off = offset(n, stride);
	const uint64_t fwd = base + off; const uint64_t back = base - off; const bool ahead = sym::pick("ahead", 0, 1) != 0; ASSUME(inSpace(base) & inSpace(ahead ? fwd : back));
	const P p(ptr(base), stride); CHECK(addr(p) == base, "GetPtr"); CHECK(p.GetStride() == stride, "GetStride");
	if (ahead)
	{
		const P q = p + n; CHECK(addr(q) == fwd, "p + n"); CHECK(q.GetStride() == stride, "the stride is kept"); CHECK(addr(p) == base, "left alone"); CHECK(reinterpret_cast<uint64_t>(&p[n]) == fwd, "p[n]");
		P r = p; P& s = (r += n); CHECK(&s == &r, "+= returns its target"); CHECK(addr(r) == fwd, "p += n"); CHECK(r.GetStride() == stride, "the stride is kept"); r -= n; CHECK(addr(r) == base, "n forth and back is the identity"); const P t = q - n; CHECK(addr(t) == base, "n forth and back is the identity"); CHECK(t.GetStride() == stride, "the stride is kept");
	}
	else
	{
		const P q = p - n; CHECK(addr(q) == back, "p - n"); CHECK(q.GetStride() == stride, "the stride is kept");
		P r = p; P& s = (r -= n); CHECK(&s == &r, "-= returns its target"); CHECK(addr(r) == back, "p -= n"); CHECK(r.GetStride() == stride, "the stride is kept"); r += n; CHECK(addr(r) == base, "n back and forth is the identity");
	}
	sym_note(fwd);
}
ENTRY(arithmetic_i8) { arithmetic<int8_t>(); }
ENTRY(arithmetic_u8) { arithmetic<uint8_t>(); }
ENTRY(arithmetic_i16) { arithmetic<int16_t>(); }
ENTRY(arithmetic_u16) { arithmetic<uint16_t>(); }
ENTRY(arithmetic_i32) { arithmetic<int32_t>(); }
ENTRY(arithmetic_u32) { arithmetic<uint32_t>(); }
ENTRY(arithmetic_i64) { arithmetic<int64_t>(); }
ENTRY(arithmetic_u64) { arithmetic<uint64_t>(); }
ENTRY(step)
{
	const uint64_t base = sym_u64("base"); const int stride = int(sym_u32("stride")); const uint64_t next = base + uint64_t(int64_t(stride)); const uint64_t prev = base - uint64_t(int64_t(stride)); ASSUME(inSpace(base) & inSpace(next) & inSpace(prev)); const P p(ptr(base), stride);
	{ P q = p; P& r = ++q; CHECK(&r == &q, "++p returns its target"); CHECK(addr(q) == next, "++p"); CHECK(q.GetStride() == stride, "the stride is kept"); } { P q = p; P o = q++; CHECK((addr(q) == next) & (addr(o) == base), "p++"); CHECK((o.GetStride() == stride) & (q.GetStride() == stride), "the stride is kept"); }
	{ P q = p; P& r = --q; CHECK(&r == &q, "--p returns its target"); CHECK(addr(q) == prev, "--p"); CHECK(q.GetStride() == stride, "the stride is kept"); } { P q = p; P o = q--; CHECK((addr(q) == prev) & (addr(o) == base), "p--"); CHECK((o.GetStride() == stride) & (q.GetStride() == stride), "the stride is kept"); }
	CHECK(addr(p) == base, "left alone");
}
// the difference of two positions of one sequence, for each of these strides
template<typename N, size_t K> static void difference(const int (&strides)[K])
{
	const uint64_t base = sym_u64("base"); const int stride = strides[sym::pick("stride", 0, K - 1)]; const N n = sym::any<N>("n"); const uint64_t to = base + offset(n, stride); ASSUME(inSpace(base) & inSpace(to));
	const P p(ptr(base), stride); const P q(ptr(to), stride); CHECK(q - p == n, "the difference is the number of steps"); CHECK(p - q == -int64_t(n), "the difference is the number of steps"); CHECK(p - p == 0, "no step");
}
ENTRY(difference_powers) { difference<int64_t>({1, -1, 2, -2, 4, -4, 64, -64, 65536, -65536, -2147483647 - 1}); }
ENTRY(difference_small) { difference<int8_t>({3, -3, 5, -7, 12, -24, 2147483647}); }
ENTRY(T_difference_more) { difference<int16_t>({3, -3, 5, -5, 6, 7, -7, 12, -12, 20, 24, -24, 28, 36, 40, 48, 2147483647, -2147483647}); }

ENTRY(compare)
{
	const uint64_t a = sym_u64("a"); const uint64_t b = sym_u64("b"); const int s = int(sym_u32("stride")); const int t = int(sym_u32("other stride")); const P p(ptr(a), s); const P q(ptr(b), t);
	CHECK((p == q) == (a == b), "=="); CHECK((p != q) == (a != b), "!="); CHECK((p < q) == (a < b), "<"); CHECK((p > q) == (a > b), ">"); CHECK((p <= q) == (a <= b), "<="); CHECK((p >= q) == (a >= b), ">="); CHECK(bool(p) == (a != 0), "conversion to bool");
}
ENTRY(construct)
{
	const uint64_t a = sym_u64("a"); const int s = int(sym_u32("stride")); const uint64_t b = sym_u64("b"); const int t = int(sym_u32("other stride"));
	P d; CHECK((addr(d) == 0) & (d.GetStride() == 0) & !bool(d), "the default is null"); P n(static_cast<uint16_t*>(ptr(a))); CHECK((addr(n) == a) & (n.GetStride() == 2), "from a pointer"); P z(ptr(a), size_t(uint32_t(s) & 0x7FFFFFFF)); CHECK((addr(z) == a) & (z.GetStride() == int(uint32_t(s) & 0x7FFFFFFF)), "from a pointer and a size");
	P p(ptr(a), s); P q(ptr(b), t);
	switch (sym::pick("how", 0, 10))
	{
		case 0: { P r(p); CHECK((addr(r) == a) & (r.GetStride() == s), "copy"); } break;
		case 1: { P& r = (q = p); CHECK(&r == &q, "assignment returns its target"); CHECK((addr(q) == a) & (q.GetStride() == s), "assignment"); CHECK((addr(p) == a) & (p.GetStride() == s), "left alone"); } break;
		case 2: q.Reset(); CHECK((addr(q) == 0) & (q.GetStride() == 0), "Reset"); break;
		case 3: q.Reset(static_cast<uint16_t*>(ptr(a))); CHECK((addr(q) == a) & (q.GetStride() == 2), "Reset to a pointer"); break;
		case 4: q.Reset(ptr(a), s); CHECK((addr(q) == a) & (q.GetStride() == s), "Reset to a pointer and a stride"); break;
		case 5: q.Reset(p); CHECK((addr(q) == a) & (q.GetStride() == s), "Reset to another"); break;
		case 6: q.SetPtr(ptr(a)); CHECK((addr(q) == a) & (q.GetStride() == t), "SetPtr"); break;
		case 7: q.SetStride(s); CHECK((addr(q) == b) & (q.GetStride() == s), "SetStride"); break;
		case 8: { Nz::SparsePtr<const uint16_t> r(p); CHECK((addr(r) == a) & (r.GetStride() == s), "conversion to const"); r.Reset(q); CHECK((addr(r) == b) & (r.GetStride() == t), "conversion to const"); } break;
		case 9: { CHECK(static_cast<uint16_t*>(p) == ptr(a), "conversion to a pointer"); CHECK(&*p == ptr(a), "operator*"); CHECK(p.operator->() == ptr(a), "operator->"); } break;
		case 10: { uint16_t* raw = static_cast<uint16_t*>(ptr(a)); Nz::SparsePtr r(raw); static_assert(std::is_same_v<decltype(r), P>); Nz::SparsePtr u(raw, s); static_assert(std::is_same_v<decltype(u), P>); CHECK((addr(u) == a) & (u.GetStride() == s), "deduction"); P& self = p; p = self; CHECK((addr(p) == a) & (p.GetStride() == s), "self-assignment"); } break;
	}
}
// real memory
struct Vertex { uint32_t a; uint16_t uv; uint16_t pad; };
ENTRY(deref)
{
	Vertex v[8]; uint16_t m[8]; for (int i = 0; i < 8; ++i) { m[i] = sym_u16("content"); v[i] = {uint32_t(i), m[i], 0}; }
	const int step = int(sym::pick("step", 0, 6)) - 3; const int first = int(sym::pick("first", 0, 7)); const P p(&v[first].uv, int(sizeof(Vertex)) * step);
	const int i = int(sym::pick("index", 0, 14)) - 7; const int at = first + i * step; if ((at < 0) | (at >= 8)) { sym_reach("outside"); CHECK(true, "outside"); return; }
	CHECK(p[i] == m[at], "p[i] is element i"); CHECK(*(p + i) == m[at], "p + i designates element i"); CHECK(*(p - (-i)) == m[at], "p - -i designates element i"); P q = p; for (int k = 0; k < (i < 0 ? -i : i); ++k) { if (i < 0) --q; else ++q; } CHECK(*q == m[at], "i steps reach element i"); CHECK(q == p + i, "positions agree"); if (step) CHECK(q - p == i, "difference");
	if (i >= 0) { CHECK(p[uint8_t(i)] == m[at], "unsigned index"); CHECK(p[size_t(i)] == m[at], "unsigned index"); CHECK(*(p + unsigned(i)) == m[at], "unsigned count"); }
	const uint16_t x = sym_u16("x"); p[i] = x; for (int k = 0; k < 8; ++k) { CHECK(v[k].uv == (k == at ? x : m[k]), "writing changes that element only"); CHECK((v[k].a == uint32_t(k)) & (v[k].pad == 0), "writing changes that element only"); } sym_note(v[at].uv);
}
struct Base { uint32_t b; }; struct Second { uint32_t s; }; struct Derived : Base, Second { uint32_t d; };
ENTRY(bases)
{
	Derived arr[4]; for (uint32_t i = 0; i < 4; ++i) { arr[i].b = i; arr[i].s = 10 + i; arr[i].d = 20 + i; } Nz::SparsePtr<Derived> p(arr); CHECK(p.GetStride() == sizeof(Derived), "stride of a plain pointer");
	Nz::SparsePtr<Base> b(p); Nz::SparsePtr<Second> s(p); Nz::SparsePtr<const Second> c; c.Reset(p); Nz::SparsePtr<const Second> cs(s); const size_t i = sym::pick("index", 0, 3); const uint32_t x = sym_u32("x"); arr[i].s = x;
	CHECK(&b[i] == static_cast<Base*>(&arr[i]), "first base"); CHECK(&s[i] == static_cast<Second*>(&arr[i]), "second base"); CHECK(&c[i] == static_cast<Second*>(&arr[i]), "const second base"); CHECK(&cs[i] == static_cast<Second*>(&arr[i]), "const second base"); CHECK(b[i].b == i, "content"); CHECK(s[i].s == x, "content"); CHECK(c[i].s == x, "content"); CHECK((s + i)->s == x, "content"); CHECK(p[i].d == 20 + i, "content");
	Nz::SparsePtr<Derived> null; Nz::SparsePtr<Second> sn(null); CHECK(!sn, "a null pointer stays null");
}
ENTRY(algorithms)
{
	Vertex v[6]; uint16_t m[6]; for (int i = 0; i < 6; ++i) { m[i] = sym_u16("content"); v[i] = {uint32_t(i), m[i], 7}; } Nz::SparsePtr<uint16_t> first(&v[0].uv, sizeof(Vertex)); Nz::SparsePtr<uint16_t> last = first + 6; CHECK(last - first == 6, "distance");
	uint32_t sum = 0, expect = 0; for (auto it = first; it != last; ++it) sum = sum * 31 + *it; for (int i = 0; i < 6; ++i) expect = expect * 31 + m[i]; CHECK(sum == expect, "iteration visits every element in order"); Nz::SparsePtr<uint16_t> r(&v[5].uv, -int(sizeof(Vertex))); for (int i = 0; i < 6; ++i) CHECK(r[i] == m[5 - i], "reversed sequence"); sym_note(sum);
}
