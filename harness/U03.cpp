// BOUNDS: every argument value; every list of up to 4 (thorough 5) types out of three, and lists of 0 to 5 types, repeated types included; lvalue, const lvalue, several and no arguments; value-carrying functors and functors whose effects do not commute
// ASSUMES: arguments given as rvalues are outside the claim (they are forwarded to every functor)
// VARIANT: run
// VARIANT: run20 std=c++20 thorough
#include "sym.hpp"
#include "track.hpp"
#include <NazaraUtils/TypeList.hpp>
#include <limits>
#include <type_traits>

template<typename T> struct Digit; template<> struct Digit<int8_t> { static constexpr uint32_t v = 1; }; template<> struct Digit<uint16_t> { static constexpr uint32_t v = 2; }; template<> struct Digit<float> { static constexpr uint32_t v = 3; }; template<> struct Digit<void> { static constexpr uint32_t v = 4; };
static uint32_t trace, calls;
// appends the digit of its type: the order of the calls is visible in the result
template<typename T> struct Append { void operator()(uint32_t& out, uint32_t base) const { ++calls; out = (out << 3 | out >> 29) ^ (base + Digit<T>::v); } };
template<typename T> struct NoArg { void operator()() { ++calls; trace = trace * 10 + Digit<T>::v; } };
template<typename T> struct Take { void operator()(const tr::E& e, uint8_t& sum) const { ++calls; sum = uint8_t((sum << 1) ^ (e.get() + Digit<T>::v)); } };
template<typename T> struct Copy { void operator()(tr::E e, uint8_t& sum) const { ++calls; tr::E in(std::move(e)); sum = uint8_t((sum << 1) ^ (in.get() + Digit<T>::v)); } };
template<typename T> struct Fresh { uint32_t state = 0; void operator()(uint32_t& out, uint32_t add) { ++calls; state += add; out = (out << 3) ^ (state + Digit<T>::v); } };
using L0 = Nz::TypeList<>; using L1 = Nz::TypeList<float>; using L2 = Nz::TypeList<uint16_t, int8_t>; using L3 = Nz::TypeList<int8_t, void, float>; using L5 = Nz::TypeList<int8_t, int8_t, float, uint16_t, int8_t>;

template<typename L, size_t N> void apply(const uint32_t (&digits)[N], size_t n)
{
	const uint32_t base = sym_u32("base"); uint32_t out = sym_u32("start"); uint32_t expected = out; for (size_t i = 0; i < n; ++i) expected = (expected << 3 | expected >> 29) ^ (base + digits[i]);
	calls = 0; Nz::TypeListApply<L, Append>(out, base); CHECK(calls == n, "one call per type"); CHECK(out == expected, "each type in order with the arguments");
	trace = 0; calls = 0; Nz::TypeListApply<L, NoArg>(); uint32_t t = 0; for (size_t i = 0; i < n; ++i) t = t * 10 + digits[i]; CHECK(calls == n, "one call per type"); CHECK(trace == t, "each type in order");
	const uint8_t x = sym_u8("x"); uint8_t sum = 0, want = 0; for (size_t i = 0; i < n; ++i) want = uint8_t((want << 1) ^ (x + digits[i]));
	{
		tr::E e(x); calls = 0; Nz::TypeListApply<L, Take>(e, sum); CHECK(calls == n, "one call per type"); CHECK(sum == want, "each functor sees the argument"); sum = 0; Nz::TypeListApply<L, Take>(std::as_const(e), sum); CHECK(sum == want, "each functor sees the argument");
		sum = 0; calls = 0; Nz::TypeListApply<L, Copy>(e, sum); CHECK(calls == n, "one call per type"); CHECK(sum == want, "each functor gets its own copy"); CHECK(e.get() == x, "the argument is left alone");
	}
	CHECK(tr::alive == 0, "no argument outlives the call");
	uint32_t f = 1, wf = 1; const uint32_t add = sym_u32("add"); for (size_t i = 0; i < n; ++i) wf = (wf << 3) ^ (add + digits[i]); Nz::TypeListApply<L, Fresh>(f, add); CHECK(f == wf, "each type has a functor of its own"); sym_note(out);
}
ENTRY(apply0) { apply<L0>({ 0 }, 0); } ENTRY(apply1) { apply<L1>({ 3 }, 1); } ENTRY(apply2) { apply<L2>({ 2, 1 }, 2); } ENTRY(apply3) { apply<L3>({ 1, 4, 3 }, 3); } ENTRY(apply5) { apply<L5>({ 1, 1, 3, 2, 1 }, 5); }
// over lists computed by the other operations
ENTRY(computed)
{
	apply<Nz::TypeListAppend<L2, float>>({ 2, 1, 3 }, 3); apply<Nz::TypeListPrepend<L2, float>>({ 3, 2, 1 }, 3); apply<Nz::TypeListConcat<L2, L3>>({ 2, 1, 1, 4, 3 }, 5); apply<Nz::TypeListUnique<L5>>({ 1, 3, 2 }, 3);
}
template<typename T> struct Where { void operator()(uint32_t& out) const { out = out * 8 + uint32_t(Nz::TypeListFind<L3, T> & 7); } };
ENTRY(find) { uint32_t out = 1; Nz::TypeListApply<L3, Where>(out); CHECK(out == ((1 * 8 + 0) * 8 + 1) * 8 + 2, "the position of each type"); CHECK(((Nz::TypeListSize<L5> == 5) & (Nz::TypeListSize<L0> == 0) & bool(Nz::TypeListHas<L3, void>) & !bool(Nz::TypeListHas<L3, double>)), "sizes"); sym_note(out); }

// every list of N types out of three, the first type being the lowest digit of the list's number
template<size_t D> using Pick = std::conditional_t<D == 0, int8_t, std::conditional_t<D == 1, void, float>>;
constexpr size_t pow3(size_t n) { return n == 0 ? 1 : 3 * pow3(n - 1); }
template<size_t C, size_t... I> constexpr auto listOf(std::index_sequence<I...>) { return Nz::TypeList<Pick<C / pow3(I) % 3>...>{}; }
template<size_t N, size_t C> void oneList()
{
	using L = decltype(listOf<C>(std::make_index_sequence<N>{})); const uint32_t digits[3] = { 1, 4, 3 };
	const uint32_t base = sym_u32("base"); uint32_t out = sym_u32("start"), expected = out, t = 0; size_t c = C;
	for (size_t i = 0; i < N; ++i, c /= 3) { expected = (expected << 3 | expected >> 29) ^ (base + digits[c % 3]); t = t * 10 + digits[c % 3]; }
	calls = 0; Nz::TypeListApply<L, Append>(out, base); CHECK(calls == N, "one call per type"); CHECK(out == expected, "each type in order with the arguments");
	trace = 0; calls = 0; Nz::TypeListApply<L, NoArg>(); CHECK(calls == N, "one call per type"); CHECK(trace == t, "each type in order"); sym_note(out);
}
template<size_t N, size_t... C> void lists(std::index_sequence<C...>) { (oneList<N, C>(), ...); }
ENTRY(lists1) { lists<1>(std::make_index_sequence<pow3(1)>{}); } ENTRY(lists2) { lists<2>(std::make_index_sequence<pow3(2)>{}); } ENTRY(lists3) { lists<3>(std::make_index_sequence<pow3(3)>{}); }
ENTRY(lists4) { lists<4>(std::make_index_sequence<pow3(4)>{}); }
ENTRY(T_lists5) { lists<5>(std::make_index_sequence<pow3(5)>{}); }
