// Element lifetimes of FixedVector and HybridVector, with and without a throwing element operation.
// The including file defines Vec<T>, Cap, Early, Exact (the vector accounts for every living element even after a failure).
#pragma once
#include "seq.hpp"
using namespace sq;

template<typename S> void spill(S& s, size_t how)
{
	if (how == 1) s.reserve(Early);
	if (how == 2) { for (size_t i = 0; i < Early; ++i) s.emplace_back(uint8_t(9)); s.clear(); }
}
template<typename S> void allLive(const S& s) { for (auto& e : s) e.live("every element of the vector is alive"); }

// two vectors in any pair of storage states, any history over both
ENTRY(H_two_vectors)
{
	using V = Vec<tr::E>;
	{
		V a, b; Model ma, mb; 
		if (Early) { spill(a, sym::pick("ha", 0, 1)); spill(b, sym::pick("hb", 0, 1)); }
		fill(a, ma, sym::pick("na", 0, Cap)); fill(b, mb, sym::pick("nb", 0, Cap));
		for (size_t k = 0; k < 2; ++k)
		{
			switch (sym::pick("op", 0, 9))
			{
				case 0: a = b; break;
				case 1: a = std::move(b); break;
				case 2: { V c(a); b = std::move(c); } break;
				case 3: { V c(std::move(a)); a = c; } break;
				case 4: std::swap(a, b); break;
				case 5: { V& r = a; a = r; a = std::move(r); } break;
				case 6: a.clear(); break;
				case 7: if (Early) a.reserve(Early); break;
				case 8: a.resize(sym::pick("count", 0, Cap)); break;
				case 9: if (a.size() < Cap) a.insert(a.begin() + a.size() / 2, tr::E(1)); break;
			}
			allLive(a); allLive(b);
			CHECK(size_t(tr::alive) == a.size() + b.size(), "exactly the elements of the vectors are alive");
		}
	}
	CHECK(tr::alive == 0, "no element outlives its vector");
	sym_note(1);
}

ENTRY(single_history)
{
	{
		Vec<tr::E> a; Model m; if (Early) spill(a, sym::pick("ha", 0, 2));
		fill(a, m, sym::pick("n", 0, Cap));
		if (!apply(a, m, sym::pick("op", 0, OpCount - 1), Cap)) return;
		if (!apply(a, m, sym::pick("op", 8, OpCount - 1), Cap)) return;
		allLive(a); CHECK(size_t(tr::alive) == m.n, "exactly the elements of the vector are alive");
	}
	CHECK(tr::alive == 0, "no element outlives its vector");
	sym_note(1);
}

// the k-th construction or assignment of an element throws
template<typename F> bool attempt(size_t most, F f)
{
	tr::countdown = int(sym::pick("fails_at", 0, most));
	bool threw = false;
	try { f(); } catch (const tr::Failure&) { threw = true; }
	tr::countdown = -1;
	return threw;
}

ENTRY(throwing_operation)
{
	using T = tr::X; using V = Vec<T>;
	{
		V a; Model m; if (Early) spill(a, sym::pick("ha", 0, 1));
		fill(a, m, sym::pick("n", 0, Cap));
		const size_t op = sym::pick("op", 0, 11); const size_t p = sym::pick("p", 0, a.size()); const bool room = a.size() < Cap;
		if (op < 6 && !room) return;
		if (op == 6 && p == a.size()) return;
		bool threw;
		{
			T e(uint8_t(5));
			threw = attempt(2 * Cap + 2, [&] {
				switch (op)
				{
					case 0: a.push_back(e); break;
					case 1: a.push_back(std::move(e)); break;
					case 2: a.emplace_back(uint8_t(3)); break;
					case 3: a.emplace(a.begin() + p, uint8_t(3)); break;
					case 4: a.insert(a.begin() + p, e); break;
					case 5: a.insert(a.begin() + p, std::move(e)); break;
					case 6: a.erase(a.begin() + p); break;
					case 7: a.erase(a.begin(), a.begin() + p); break;
					case 8: a.resize(Cap); break;
					case 9: a.resize(Cap, e); break;
					case 10: a.resize(p); break;
					case 11: a.reserve(Cap); break;
				}
			});
		}
		allLive(a);
		CHECK(size_t(tr::alive) >= a.size(), "the elements of the vector are alive");
		if (Exact || !threw) CHECK(size_t(tr::alive) == a.size(), "exactly the elements of the vector are alive");
		if (op == 0 || op == 2 || op == 8 || op == 9) { CHECK(a.size() >= m.n, "a failed insertion loses nothing"); if (Exact) for (size_t i = 0; i < m.n; ++i) CHECK(a[i].get() == m.v[i], "a failed insertion at the end keeps the elements"); }
		// still usable
		switch (sym::pick("after", 0, 3))
		{
			case 0: break;
			case 1: a.clear(); CHECK(a.empty(), "clear"); if (Exact) CHECK(tr::alive == 0, "clear destroys every element"); break;
			case 2: a.resize(Cap); CHECK(a.size() == Cap, "resize"); allLive(a); break;
			case 3: if (a.size() < Cap) { size_t n = a.size(); a.push_back(T(8)); CHECK(a.size() == n + 1, "push_back"); CHECK(a.back().get() == 8, "push_back"); } allLive(a); break;
		}
		sym_note(a.size());
	}
	CHECK(tr::alive == 0, "no element outlives its vector");
}

ENTRY(throwing_construction)
{
	using T = tr::X; using V = Vec<T>;
	{
		V a; Model m; if (Early) spill(a, sym::pick("ha", 0, 1));
		fill(a, m, sym::pick("n", 0, Cap));
		V b; if (Early) spill(b, sym::pick("hb", 0, 1)); { Model mb; fill(b, mb, sym::pick("nb", 0, 2)); }
		const size_t kind = sym::pick("kind", 0, 4);
		size_t others = b.size();
		bool threw = attempt(Cap + 1, [&] {
			switch (kind)
			{
				case 0: { V c(a); CHECK(c.size() == m.n, "copy"); allLive(c); } break;
				case 1: { V c(m.n); CHECK(c.size() == m.n, "size construction"); allLive(c); } break;
				case 2: { V c(m.v, m.v + m.n); CHECK(c.size() == m.n, "range construction"); allLive(c); } break;
				case 3: b = a; break;
				case 4: { T t(uint8_t(1)); V c(m.n, t); CHECK(c.size() == m.n, "size, value"); } break;
			}
		});
		if (kind == 3 && !threw) CHECK(b.size() == m.n, "copy assignment");
		allLive(a); allLive(b);
		if (kind != 3) CHECK(b.size() == others, "untouched");
		CHECK(a.size() == m.n, "a copied vector keeps its elements"); for (size_t i = 0; i < m.n; ++i) CHECK(a[i].get() == m.v[i], "a copied vector keeps its elements");
		if (Exact || !threw) CHECK(size_t(tr::alive) == a.size() + b.size(), "exactly the elements of the vectors are alive");
		b = a; CHECK(b.size() == m.n, "assignable after a failure"); allLive(b);
		sym_note(a.size() + b.size());
	}
	CHECK(tr::alive == 0, "no element outlives its vector");
}
