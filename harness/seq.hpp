// Operation histories on a vector-like class, followed by a mathematical sequence.
#pragma once
#include "track.hpp"
#include <iterator>

namespace sq
{
	constexpr size_t ModelMax = 32;
	struct Model
	{
		size_t n = 0; uint8_t v[ModelMax] = {};
		void insert(size_t i, uint8_t x) { for (size_t k = n; k > i; --k) v[k] = v[k - 1]; v[i] = x; ++n; }
		void erase(size_t i, size_t c) { for (size_t k = i + c; k < n; ++k) v[k - c] = v[k]; n -= c; }
		void resize(size_t c, uint8_t x) { for (size_t k = n; k < c; ++k) v[k] = x; n = c; }
	};
	inline uint8_t val(uint8_t x) { return x; }
	template<bool B> uint8_t val(const tr::Elem<B>& e) { return e.get(); }

	// everything the class lets a user see must agree with the model
	template<typename V> void same(V& s, const Model& m, const char* what)
	{
		const V& c = s;
		CHECK(c.size() == m.n, what); CHECK(c.empty() == (m.n == 0), what); CHECK(c.capacity() >= m.n, "capacity holds the size"); CHECK(c.max_size() >= m.n, "max_size holds the size");
		CHECK(size_t(c.end() - c.begin()) == m.n, "iterators span the size"); CHECK(size_t(s.end() - s.begin()) == m.n, "iterators span the size"); CHECK(size_t(c.cend() - c.cbegin()) == m.n, "iterators span the size");
		CHECK(size_t(c.crend() - c.crbegin()) == m.n, "reverse iterators span the size"); CHECK(size_t(s.rend() - s.rbegin()) == m.n, "reverse iterators span the size"); CHECK(size_t(c.rend() - c.rbegin()) == m.n, "reverse iterators span the size");
		if (c.size() != m.n) return;
		CHECK(s.data() == s.begin(), "data is the first element");
		for (size_t i = 0; i < m.n; ++i) CHECK(val(c[i]) == m.v[i], what);
		auto it = s.rbegin(); auto ci = c.begin(); auto cri = c.crbegin(); auto crj = c.rbegin();
		for (size_t i = 0; i < m.n; ++i, ++it, ++ci, ++cri, ++crj) { CHECK(&*it == &s[m.n - 1 - i], "reverse iteration"); CHECK(&*ci == &c[i], "iteration"); CHECK(&*cri == &c[m.n - 1 - i], "reverse iteration"); CHECK(&*crj == &c[m.n - 1 - i], "reverse iteration"); }
		if (m.n) { CHECK(&s.front() == &s[0], "front"); CHECK(&c.front() == &s[0], "front"); CHECK(&s.back() == &s[m.n - 1], "back"); CHECK(&c.back() == &s[m.n - 1], "back"); CHECK(c.data() == &c[0], "data"); }
	}
	template<typename V> void note(const V& s) { sym_note(s.size()); uint64_t h = 0; for (size_t i = 0; i < s.size(); ++i) h = h * 31 + s.data()[i].v; sym_note(h); }

	// an element of the history: x is the value argument, k selects position/count
	constexpr size_t OpCount = 15;
	template<typename V> bool apply(V& s, Model& m, size_t op, size_t cap)
	{
		using T = typename V::value_type;
		const uint8_t x = sym::any<uint8_t>("x");
		const bool room = m.n < cap;
		switch (op)
		{
			case 0: if (!room) return false; { T e(x); auto& r = s.push_back(e); m.insert(m.n, x); CHECK(&r == &s.back(), "push_back returns the new element"); CHECK(val(e) == x, "push_back copies its argument"); } return true;
			case 1: if (!room) return false; { T e(x); auto& r = s.push_back(std::move(e)); m.insert(m.n, x); CHECK(&r == &s.back(), "push_back returns the new element"); } return true;
			case 2: if (!room) return false; { auto& r = s.emplace_back(x); m.insert(m.n, x); CHECK(&r == &s.back(), "emplace_back returns the new element"); } return true;
			case 3: if (!room || !m.n) return false; { size_t j = sym::pick("alias", 0, m.n - 1); s.push_back(s[j]); m.insert(m.n, m.v[j]); } return true;
			case 4: if (!room) return false; { size_t i = sym::pick("pos", 0, m.n); auto it = s.emplace(s.begin() + i, x); m.insert(i, x); CHECK(it == s.begin() + i, "emplace returns the new element"); } return true;
			case 5: if (!room) return false; { size_t i = sym::pick("pos", 0, m.n); T e(x); auto it = s.insert(s.begin() + i, e); m.insert(i, x); CHECK(it == s.begin() + i, "insert returns the new element"); CHECK(val(e) == x, "insert copies its argument"); } return true;
			case 6: if (!room) return false; { size_t i = sym::pick("pos", 0, m.n); T e(x); auto it = s.insert(s.cbegin() + i, std::move(e)); m.insert(i, x); CHECK(it == s.begin() + i, "insert returns the new element"); } return true;
			case 7: if (!room || !m.n) return false; { size_t i = sym::pick("pos", 0, m.n); size_t j = sym::pick("alias", 0, m.n - 1); uint8_t w = m.v[j]; s.insert(s.begin() + i, s[j]); m.insert(i, w); } return true;
			case 8: if (!m.n) return false; { size_t i = sym::pick("pos", 0, m.n - 1); auto it = s.erase(s.begin() + i); m.erase(i, 1); CHECK(it == s.begin() + i, "erase returns the following element"); } return true;
			case 9: { size_t i = sym::pick("pos", 0, m.n); size_t j = sym::pick("last", i, m.n); auto it = s.erase(s.begin() + i, s.begin() + j); m.erase(i, j - i); CHECK(it == s.begin() + i, "erase returns the following element"); } return true;
			case 10: if (!m.n) return false; s.pop_back(); m.erase(m.n - 1, 1); return true;
			case 11: s.clear(); m.n = 0; return true;
			case 12: { size_t c = sym::pick("count", 0, cap); s.resize(c); m.resize(c, 0); } return true;
			case 13: { size_t c = sym::pick("count", 0, cap); T e(x); s.resize(c, e); m.resize(c, x); } return true;
			case 14: if (!m.n) return false; { size_t c = sym::pick("count", 0, cap); size_t j = sym::pick("alias", 0, m.n - 1); uint8_t w = m.v[j]; s.resize(c, s[j]); m.resize(c, w); } return true;
		}
		return false;
	}

	// any contents of any size up to n
	template<typename V> void fill(V& s, Model& m, size_t n) { for (size_t i = 0; i < n; ++i) { const uint8_t x = sym::any<uint8_t>("init"); s.emplace_back(x); m.insert(m.n, x); } }

	// trivially copyable elements of several bytes, every position of longer vectors: one operation from any size
	struct ModelW
	{
		size_t n = 0; uint32_t v[320] = {};
		void insert(size_t i, uint32_t x) { for (size_t k = n; k > i; --k) v[k] = v[k - 1]; v[i] = x; ++n; }
		void erase(size_t i, size_t c) { for (size_t k = i + c; k < n; ++k) v[k - c] = v[k]; n -= c; }
		void resize(size_t c, uint32_t x) { for (size_t k = n; k < c; ++k) v[k] = x; n = c; }
	};
	template<typename V> void sameW(V& s, const ModelW& m, const char* what)
	{
		CHECK(s.size() == m.n, what); CHECK(s.empty() == (m.n == 0), what); CHECK(size_t(s.end() - s.begin()) == m.n, "iterators span the size"); if (s.size() != m.n) return;
		for (size_t i = 0; i < m.n; ++i) CHECK(s[i] == m.v[i], what); size_t k = m.n; for (auto it = s.rbegin(); it != s.rend(); ++it) CHECK(*it == m.v[--k], "reverse iteration"); if (m.n) { CHECK(s.front() == m.v[0], "front"); CHECK(s.back() == m.v[m.n - 1], "back"); }
	}
	// positions 0..n, or a few of them
	inline size_t position(const char* name, size_t lo, size_t n) { if (n < 20) return sym::pick(name, lo, n); const size_t t[] = { 0, 1, 254, 256, n - 1, n }; const size_t p = t[sym::pick(name, 0, 5)]; ASSUME(p >= lo); ASSUME(p <= n); return p; }
	template<typename V> void plainOperation(V& s, size_t n, size_t cap)
	{
		ModelW m; for (size_t i = 0; i < n; ++i) { const uint32_t x = (n < 20 || i < 2 || i > n - 3 || i == 256) ? sym_u32("init") : uint32_t(i * 0x01010101u); s.push_back(x); m.insert(i, x); }
		sameW(s, m, "after construction"); const uint32_t x = sym_u32("x"); const size_t op = sym::pick("op", 0, 11); const bool room = n < cap; if (!room && op < 6) return; if (!n && (op == 4 || op == 5 || op == 6 || op == 8)) return;
		switch (op)
		{
			case 0: CHECK(s.push_back(x) == x, "push_back returns the new element"); m.insert(n, x); break;
			case 1: CHECK(s.emplace_back(x) == x, "emplace_back returns the new element"); m.insert(n, x); break;
			case 2: { const size_t i = position("pos", 0, n); auto it = s.emplace(s.begin() + i, x); CHECK(it == s.begin() + i, "emplace returns the new element"); m.insert(i, x); } break;
			case 3: { const size_t i = position("pos", 0, n); auto it = s.insert(s.begin() + i, x); CHECK(it == s.begin() + i, "insert returns the new element"); m.insert(i, x); } break;
			case 4: { const size_t i = position("pos", 0, n), j = position("alias", 0, n - 1); const uint32_t w = m.v[j]; s.insert(s.begin() + i, s[j]); m.insert(i, w); } break;
			case 5: { const size_t j = position("alias", 0, n - 1); const uint32_t w = m.v[j]; s.push_back(s[j]); m.insert(n, w); } break;
			case 6: { const size_t i = position("pos", 0, n - 1); auto it = s.erase(s.begin() + i); CHECK(it == s.begin() + i, "erase returns the following element"); m.erase(i, 1); } break;
			case 7: { const size_t i = position("pos", 0, n), j = position("last", i, n); auto it = s.erase(s.begin() + i, s.begin() + j); CHECK(it == s.begin() + i, "erase returns the following element"); m.erase(i, j - i); } break;
			case 8: s.pop_back(); m.erase(n - 1, 1); break;
			case 9: s.clear(); m.n = 0; break;
			case 10: { const size_t c = position("count", 0, cap); s.resize(c); m.resize(c, 0); } break;
			case 11: { const size_t c = position("count", 0, cap); s.resize(c, x); m.resize(c, x); } break;
		}
		sameW(s, m, "the vector holds the sequence"); if (m.n < cap) { s.push_back(x); m.insert(m.n, x); sameW(s, m, "and goes on"); } sym_note(s.size());
	}
}
