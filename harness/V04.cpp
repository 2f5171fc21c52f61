// BOUNDS: inline capacity 2; every pair of sizes 0..4 (thorough 5) and storage kinds; two operations over two vectors; one operation with the k-th element construction or assignment throwing, every k, then any of four follow-ups
#include <NazaraUtils/FixedVector.hpp>
#include "track.hpp"
constexpr size_t Cap = BOUND(4, 5), Early = 3; constexpr bool Exact = false;
template<typename T> using Vec = Nz::HybridVector<T, 2>;
#include "life.hpp"
