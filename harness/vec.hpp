// Contents of FixedVector and HybridVector; the including file defines V (tracked elements), W (uint16_t elements), Cap, Early and checkCapacity.
#pragma once
#include "seq.hpp"
using namespace sq;

// any starting contents; a hybrid vector may have spilled before they were added, or have held more elements before
template<typename S> void start(S& s, Model& m)
{
	const size_t n = sym::pick("n", 0, Cap);
	if constexpr (Early != 0)
	{
		const size_t how = sym::pick("how", 0, 2);
		if (how == 1) s.reserve(Early);
		if (how == 2) { for (size_t i = 0; i < Early; ++i) s.emplace_back(uint8_t(9)); s.clear(); }
	}
	fill(s, m, n);
}

ENTRY(H_history)
{
	V s; Model m; start(s, m); same(s, m, "after construction");
	for (size_t k = 0; k < BOUND(2, 3); ++k)
	{
		if (!apply(s, m, sym::pick("op", 0, OpCount - 1), Cap)) return;
		same(s, m, "the vector holds the sequence its history describes");
	}
	checkCapacity(s);
	note(s);
}

ENTRY(construct)
{
	const size_t n = sym::pick("n", 0, Cap); const uint8_t x = sym::any<uint8_t>("x");
	{ V s; Model m; same(s, m, "default"); s.reserve(n); same(s, m, "reserve within the capacity"); }
	{ V s(n); Model m; m.resize(n, 0); same(s, m, "size"); }
	{ tr::E e(x); V s(n, e); Model m; m.resize(n, x); same(s, m, "size, value"); }
	{ V s{ tr::E(x), tr::E(3), tr::E(x) }; Model m; m.insert(0, x); m.insert(1, 3); m.insert(2, x); same(s, m, "initializer list"); note(s); }
	{ uint8_t t[Cap]; Model m; for (size_t i = 0; i < n; ++i) { t[i] = sym::any<uint8_t>("t"); m.insert(i, t[i]); } V s(t, t + n); same(s, m, "range"); note(s); }
}

ENTRY(assign)
{
	V a; Model ma; start(a, ma); V b; Model mb; start(b, mb);
	{ V c(a); same(c, ma, "copy construction"); same(a, ma, "copying leaves the source alone"); V d(b); d = a; same(d, ma, "copy assignment"); same(a, ma, "copying leaves the source alone"); if (ma.n) { d.pop_back(); same(a, ma, "copies are independent"); } V& r = c; c = r; same(c, ma, "self copy assignment"); c = std::move(r); same(c, ma, "self move assignment"); note(c); }
	{ V c(a); V d(std::move(c)); same(d, ma, "move construction"); V e(b); e = std::move(d); same(e, ma, "move assignment"); c = e; same(c, ma, "a moved-from vector can be assigned"); d.clear(); d.push_back(tr::E(7)); Model one; one.insert(0, 7); same(d, one, "a moved-from vector can be reused"); note(e); }
	{ std::swap(a, b); same(a, mb, "swap"); same(b, ma, "swap"); }
}

// reading, iterating and writing through the observers
ENTRY(access)
{
	W s; const size_t n = sym::pick("n", 1, 6); uint16_t ref[6];
	for (size_t i = 0; i < n; ++i) { ref[i] = sym::any<uint16_t>("v"); s.push_back(ref[i]); }
	const size_t i = sym::pick("i", 0, n - 1); const uint16_t x = sym::any<uint16_t>("x");
	switch (sym::pick("how", 0, 5))
	{
		case 0: s[i] = x; ref[i] = x; break;
		case 1: *(s.begin() + i) = x; ref[i] = x; break;
		case 2: s.front() = x; ref[0] = x; break;
		case 3: s.back() = x; ref[n - 1] = x; break;
		case 4: *(s.rbegin() + i) = x; ref[n - 1 - i] = x; break;
		case 5: *s.data(i) = x; ref[i] = x; break;
	}
	const auto& c = s; size_t k = 0;
	for (uint16_t v : c) { CHECK(v == ref[k], "iteration shows the elements in order"); CHECK(*c.data(k) == ref[k], "data(n)"); ++k; }
	CHECK(k == n, "iteration shows every element");
	for (auto it = c.crbegin(); it != c.crend(); ++it) { --k; CHECK(*it == ref[k], "reverse iteration"); }
	sym_note(c.back());
}

// a plain element type: every position of vectors of up to 9 elements, a few positions of vectors of hundreds
ENTRY(plain) { Short s; plainOperation(s, sym::pick("n", 0, BOUND(7, 9)), 9); }
ENTRY(plain_long)
{
	const size_t n = sym::pick("n", 0, 2); const size_t t[] = { 257, 299, 300 }; { Long s; plainOperation(s, t[n], 300); }
	Long a; for (size_t i = 0; i < t[n]; ++i) a.push_back(uint32_t(i * 3)); a[256] = sym_u32("x"); const Long c(a); Long d; d = c; Long e(std::move(a)); Long f; f = std::move(d); CHECK(c.size() == t[n], "size"); CHECK(e.size() == t[n], "size"); CHECK(f.size() == t[n], "size");
	for (size_t i = 0; i < t[n]; ++i) { if (i != 256) CHECK(c[i] == i * 3, "a long copy"); CHECK(c[i] == e[i], "a long move"); CHECK(c[i] == f[i], "a long assignment"); }
}
