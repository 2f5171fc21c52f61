// BOUNDS: every subset of 15 enumerations of 1 to 64 values and 12 mask enumerations of 1 to 64 bits: one step of the iteration from any subset for all sizes, whole iterations for up to 8 values (thorough 16)
#include "flags.hpp"

template<typename K> void count()
{
	const uint64_t s = K::anySet("s"); uint64_t n = 0; for (size_t i = 0; i < K::values; ++i) n += (s >> i) & 1;
	const auto x = K::make(s); CHECK(x.Count() == n, "Count"); CHECK(x.size() == n, "size"); CHECK((x.begin() == x.end()) == (s == 0), "an empty range for an empty set"); CHECK((x.begin() != x.end()) == (s != 0), "an empty range for an empty set"); sym_note(n);
}
EACH_ENUM(count)

// from any set: the first value visited is its lowest, and what remains is the set without it
template<typename K> void step()
{
	uint64_t s = K::anySet("s"); const size_t low = sym::pick("lowest", 0, K::values - 1); ASSUME((s & -s) == uint64_t(1) << low);
	const auto x = K::make(s), rest = K::make(s & (s - 1));
	auto it = x.begin(); CHECK(*it == K::value(low), "the lowest value first"); CHECK(*it == K::value(low), "reading does not advance");
	{ auto p = it; auto& r = ++p; CHECK(&r == &p, "pre-increment returns the iterator"); CHECK(p == rest.begin(), "pre-increment moves to the rest of the set"); CHECK((p == x.end()) == (rest == K::make(0)), "the end is reached after the last value"); }
	{ auto p = it; auto q = p++; CHECK(q == it, "post-increment returns the former position"); CHECK(*q == K::value(low), "post-increment returns the former position"); CHECK(p == rest.begin(), "post-increment moves to the rest of the set"); CHECK((s & (s - 1)) == 0 || p != q, "post-increment advances"); }
	{ auto p = it; auto q = rest.begin(); q = p; CHECK(q == it, "assignment"); } sym_note(s);
}
EACH_ENUM(step)

template<typename K> void whole()
{
	const uint64_t s = K::anySet("s"); const auto x = K::make(s); size_t prev = 0; uint64_t seen = 0; const bool post = sym::pick("post", 0, 1);
	for (auto it = x.begin(); it != x.end();)
	{
		size_t i = 0; while (i < K::values && !(K::value(i) == *it)) ++i;
		CHECK(i < K::values, "a declared value"); CHECK(seen == 0 || i > prev, "increasing order"); CHECK((s >> i) & 1, "contained"); seen |= uint64_t(1) << i; prev = i;
		if (post) it++; else ++it;
	}
	CHECK(seen == s, "every value once"); sym_note(seen);
	uint64_t again = 0; for (auto v : x) for (size_t i = 0; i < K::values; ++i) if (K::value(i) == v) again |= uint64_t(1) << i; CHECK(again == s, "range for");
}
ENTRY(whole_1) { whole<Kind<I1, 1, false>>(); } ENTRY(whole_3) { whole<Kind<I3, 3, false>>(); } ENTRY(whole_8) { whole<Kind<I8, 8, false>>(); } ENTRY(whole_m4) { whole<Kind<masks::M4, 4, true>>(); } ENTRY(whole_m7) { whole<Kind<masks::M7, 7, true>>(); } ENTRY(T_whole_9) { whole<Kind<I9, 9, false>>(); } ENTRY(T_whole_m9) { whole<Kind<masks::M9, 9, true>>(); }
ENTRY(T_whole_16) { whole<Kind<I16, 16, false>>(); }
// complements never show a value that was not declared
template<typename K> void undeclared() { const uint64_t s = K::anySet("s"); ASSUME(s != K::all); const auto c = ~K::make(s); CHECK((static_cast<uint64_t>(c.begin() == c.end() ? K::value(0) : *c.begin())) <= static_cast<uint64_t>(K::value(K::values - 1)), "the complement has declared values only"); CHECK(c.Count() + K::make(s).Count() == K::values, "a set and its complement have all the values"); sym_note(s); }
ENTRY(undeclared_3) { undeclared<Kind<I3, 3, false>>(); } ENTRY(undeclared_9) { undeclared<Kind<I9, 9, false>>(); } ENTRY(undeclared_m3) { undeclared<Kind<masks::M3, 3, true>>(); } ENTRY(undeclared_m4) { undeclared<Kind<masks::M4, 4, true>>(); } ENTRY(undeclared_maskcount) { undeclared<Kind<ways::MaskCount, 3, true>>(); }
