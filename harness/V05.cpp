// BOUNDS: capacity 4 (thorough 5); any starting size with any contents, then every history of 2 operations (thorough 3) with any positions, counts, values and aliasing arguments; every pair of sizes and capacities for moves; the k-th element construction or assignment throwing, every k; move-only elements without a default constructor: 2 operations (thorough 3) and a move; plain elements: one operation at any position of up to 7 (thorough 9) elements, and at six positions of 257 to 300 elements
#include <NazaraUtils/StackVector.hpp>
#include "track.hpp"
#include "seq.hpp"
using namespace sq;
constexpr size_t Cap = BOUND(4, 5);
using V = Nz::StackVector<tr::E>;

ENTRY(H_history)
{
	{
		V s = NazaraStackVector(tr::E, Cap); Model m; fill(s, m, sym::pick("n", 0, Cap)); same(s, m, "after construction");
		CHECK(size_t(reinterpret_cast<uintptr_t>(s.data()) % alignof(tr::E)) == 0, "the storage is aligned");
		for (size_t k = 0; k < BOUND(2, 3); ++k)
		{
			if (!apply(s, m, sym::pick("op", 0, OpCount - 1), Cap)) return;
			same(s, m, "the vector holds the sequence its history describes");
			CHECK(size_t(tr::alive) == m.n, "exactly the elements of the vector are alive");
		}
		CHECK(s.capacity() == Cap, "the capacity never changes"); CHECK(s.max_size() == Cap, "max_size is the capacity");
		note(s);
	}
	CHECK(tr::alive == 0, "no element outlives its vector");
}

ENTRY(moves)
{
	{
		V a = NazaraStackVector(tr::E, Cap); Model ma; fill(a, ma, sym::pick("n", 0, Cap));
		V b = NazaraStackVector(tr::E, 2); Model mb; fill(b, mb, sym::pick("m", 0, 2));
		const tr::E* storage = a.data(); Model none;
		switch (sym::pick("how", 0, 4))
		{
			case 0: { V c(std::move(a)); same(c, ma, "move construction"); CHECK(c.data() == storage, "the storage is handed over"); CHECK(c.capacity() == Cap, "with its capacity"); CHECK(a.empty(), "a moved-from vector is empty"); CHECK(a.size() == 0, "a moved-from vector is empty"); CHECK(tr::alive == int(ma.n + mb.n), "moving creates no element"); if (ma.n) { c.pop_back(); c.push_back(tr::E(4)); } note(c); } break;
			case 1: b = std::move(a); same(b, ma, "move assignment"); CHECK(b.data() == storage, "the storage is handed over"); CHECK(b.capacity() == Cap, "with its capacity"); CHECK(a.empty(), "a moved-from vector is empty"); CHECK(tr::alive == int(ma.n), "the former elements are destroyed once"); note(b); break;
			case 2: { V c; CHECK(c.empty(), "default"); CHECK(c.capacity() == 0, "default"); c = std::move(a); same(c, ma, "move assignment"); a = std::move(c); same(a, ma, "and back"); CHECK(c.empty(), "a moved-from vector is empty"); note(a); } break;
			case 3: std::swap(a, b); same(b, ma, "swap"); same(a, mb, "swap"); note(a); break;
			case 4: { V& r = a; a = std::move(r); if (a.size() == ma.n) same(a, ma, "self move assignment"); V d(std::move(a)); V e(std::move(a)); CHECK(e.empty(), "a moved-from vector can be moved from"); CHECK(e.size() == 0, "a moved-from vector can be moved from"); a.clear(); note(d); } break;
		}
	}
	CHECK(tr::alive == 0, "each element is destroyed exactly once");
}

ENTRY(throwing)
{
	using T = tr::X;
	{
		Nz::StackVector<T> a = NazaraStackVector(T, Cap); Model m; fill(a, m, sym::pick("n", 0, Cap));
		const size_t op = sym::pick("op", 0, 9); const size_t p = sym::pick("p", 0, a.size()); const bool room = a.size() < Cap;
		if (op < 6 && !room) return;
		if (op == 6 && p == a.size()) return;
		{
			T e(uint8_t(5)); tr::countdown = int(sym::pick("fails_at", 0, 2 * Cap + 2));
			try
			{
				switch (op)
				{
					case 0: a.push_back(e); break;
					case 1: a.push_back(std::move(e)); break;
					case 2: a.emplace_back(uint8_t(3)); break;
					case 3: a.emplace(a.begin() + p, uint8_t(3)); break;
					case 4: a.insert(a.begin() + p, e); break;
					case 5: a.insert(a.begin() + p, std::move(e)); break;
					case 6: a.erase(a.begin() + p); break;
					case 7: a.erase(a.begin(), a.begin() + p); break;
					case 8: a.resize(Cap); break;
					case 9: a.resize(Cap, e); break;
				}
			}
			catch (const tr::Failure&) {}
			tr::countdown = -1;
		}
		for (auto& e : a) e.live("every element of the vector is alive");
		CHECK(size_t(tr::alive) == a.size(), "exactly the elements of the vector are alive");
		sym_note(a.size());
	}
	CHECK(tr::alive == 0, "no element outlives its vector");
}

// a plain element type: every position of vectors of up to 9 elements, a few positions of vectors of hundreds
ENTRY(plain) { Nz::StackVector<uint32_t> s = NazaraStackVector(uint32_t, 9); plainOperation(s, sym::pick("n", 0, BOUND(7, 9)), 9); }
ENTRY(plain_long) { const size_t n = sym::pick("n", 0, 2); const size_t t[] = { 257, 299, 300 }; Nz::StackVector<uint32_t> s = NazaraStackVector(uint32_t, 300); plainOperation(s, t[n], 300); }

#include "moveonly.hpp"
ENTRY(move_only)
{
	{
		using VM = Nz::StackVector<mo::M>; VM s = NazaraStackVector(mo::M, Cap); VM t = NazaraStackVector(mo::M, Cap);
		mo::history(s, t, Cap, BOUND(2, 3), [](VM& s, VM& t, Model& m) { if (sym::pick("construct", 0, 1)) { VM u(std::move(s)); mo::sameM(u, m); } else { t = std::move(s); mo::sameM(t, m); } });
	}
	CHECK(tr::alive == 0, "no element outlives its vector");
}
