// Elements which can only be moved and have no default constructor: the operations which need neither must work, with the same sequence and lifetimes.
#pragma once
#include "seq.hpp"
namespace mo
{
	using sq::Model;
	struct M { tr::E e; explicit M(uint8_t x) : e(x) {} M(M&&) noexcept = default; M& operator=(M&&) noexcept = default; M(const M&) = delete; };
	template<typename V> void sameM(V& s, const Model& m)
	{
		const V& c = s; CHECK(c.size() == m.n, "the size"); CHECK(c.empty() == (m.n == 0), "empty"); CHECK(size_t(c.end() - c.begin()) == m.n, "iterators span the size"); if (c.size() != m.n) return;
		for (size_t i = 0; i < m.n; ++i) CHECK(c[i].e.get() == m.v[i], "the elements"); if (m.n) { CHECK(&s.front() == &s[0], "front"); CHECK(&s.back() == &s[m.n - 1], "back"); }
	}
	template<typename V> void fillM(V& s, Model& m, size_t n) { for (size_t i = 0; i < n; ++i) { const uint8_t x = sym::any<uint8_t>("init"); s.emplace_back(x); m.insert(m.n, x); } }
	template<typename V> bool applyM(V& s, Model& m, size_t cap)
	{
		const uint8_t x = sym::any<uint8_t>("x"); const size_t op = sym::pick("op", 0, 7); const bool room = m.n < cap;
		if (op <= 3 && !room) return false;
		switch (op)
		{
			case 0: { auto& r = s.push_back(M(x)); m.insert(m.n, x); CHECK(&r == &s.back(), "push_back returns the new element"); } return true;
			case 1: { auto& r = s.emplace_back(x); m.insert(m.n, x); CHECK(&r == &s.back(), "emplace_back returns the new element"); } return true;
			case 2: { const size_t i = sym::pick("pos", 0, m.n); auto it = s.emplace(s.begin() + i, x); m.insert(i, x); CHECK(it == s.begin() + i, "emplace returns the new element"); } return true;
			case 3: { const size_t i = sym::pick("pos", 0, m.n); auto it = s.insert(s.cbegin() + i, M(x)); m.insert(i, x); CHECK(it == s.begin() + i, "insert returns the new element"); } return true;
			case 4: if (!m.n) return false; { const size_t i = sym::pick("pos", 0, m.n - 1); auto it = s.erase(s.begin() + i); m.erase(i, 1); CHECK(it == s.begin() + i, "erase returns the following element"); } return true;
			case 5: { const size_t i = sym::pick("pos", 0, m.n), j = sym::pick("last", i, m.n); auto it = s.erase(s.begin() + i, s.begin() + j); m.erase(i, j - i); CHECK(it == s.begin() + i, "erase returns the following element"); } return true;
			case 6: if (!m.n) return false; s.pop_back(); m.erase(m.n - 1, 1); return true;
			case 7: s.clear(); m.n = 0; return true;
		}
		return false;
	}
	// a history over one vector, then a move into a second one (`take`)
	template<typename V, typename F> void history(V& s, V& t, size_t cap, size_t ops, F take)
	{
		Model m, o; fillM(s, m, sym::pick("n", 0, cap)); fillM(t, o, sym::pick("other n", 0, 1));
		for (size_t k = 0; k < ops; ++k) { if (!applyM(s, m, cap)) return; sameM(s, m); CHECK(size_t(tr::alive) == m.n + o.n, "exactly the elements of the vectors are alive"); }
		take(s, t, m); sym_note(m.n);
	}
}
