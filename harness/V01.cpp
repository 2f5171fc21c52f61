// BOUNDS: capacity 4; any starting size 0..4 with any contents, then every history of 2 operations (thorough 3) with any positions, counts, values and aliasing arguments; every pair of sizes for copy/move/assignment; move-only elements without a default constructor: 2 operations (thorough 3) and a move; plain elements: one operation at any position of up to 7 (thorough 9) elements, and at six positions of 257 to 300 elements
#include <NazaraUtils/FixedVector.hpp>
#include "track.hpp"
constexpr size_t Cap = 4, Early = 0;
using V = Nz::FixedVector<tr::E, Cap>;
using W = Nz::FixedVector<uint16_t, 6>;
void checkCapacity(const V& s) { CHECK(s.capacity() == Cap, "a fixed capacity never changes"); CHECK(s.max_size() == Cap, "max_size is the capacity"); CHECK(V::FixedCapacity == Cap, "FixedCapacity"); }
using Short = Nz::FixedVector<uint32_t, 9>; using Long = Nz::FixedVector<uint32_t, 300>;
#include "vec.hpp"

#include "moveonly.hpp"
ENTRY(move_only)
{
	{
		using VM = Nz::FixedVector<mo::M, Cap>; VM s, t;
		mo::history(s, t, Cap, BOUND(2, 3), [](VM& s, VM& t, Model& m) { if (sym::pick("construct", 0, 1)) { VM u(std::move(s)); mo::sameM(u, m); } else { t = std::move(s); mo::sameM(t, m); } });
	}
	CHECK(tr::alive == 0, "no element outlives its vector");
}
