// BOUNDS: inline capacity 2; any starting size 0..4 (thorough 5) with any contents, stored inline or on the heap, then every history of 2 operations (thorough 3) with any positions, counts, values and aliasing arguments; every pair of sizes and storage kinds for copy/move/assignment; plain elements: one operation at any position of up to 7 (thorough 9) elements, and at six positions of 257 to 300 elements; elements which can only be moved and have no default constructor: the same histories over up to 3 elements
#include <NazaraUtils/FixedVector.hpp>
#include "track.hpp"
constexpr size_t Inline = 2, Cap = BOUND(4, 5), Early = 3;
using V = Nz::HybridVector<tr::E, Inline>;
using W = Nz::HybridVector<uint16_t, 3>;
void checkCapacity(const V& s) { CHECK(s.capacity() >= Inline, "the capacity never falls below the inline one"); }
using Short = Nz::HybridVector<uint32_t, 4>; using Long = Nz::HybridVector<uint32_t, 280>;
#include "vec.hpp"

#include "moveonly.hpp"
ENTRY(move_only)
{
	{
		using VM = Nz::HybridVector<mo::M, Inline>; VM s, t;
		mo::history(s, t, Inline + 1, BOUND(2, 3), [](VM& s, VM& t, Model& m) { if (sym::pick("construct", 0, 1)) { VM u(std::move(s)); mo::sameM(u, m); } else { t = std::move(s); mo::sameM(t, m); } });
	}
	CHECK(tr::alive == 0, "no element outlives its vector");
}
