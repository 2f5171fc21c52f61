// BOUNDS: capacity 4; every pair of sizes 0..4; two operations over two vectors; one operation with the k-th element construction or assignment throwing, every k, then any of four follow-ups
#include <NazaraUtils/FixedVector.hpp>
#include "track.hpp"
constexpr size_t Cap = BOUND(4, 5), Early = 0; constexpr bool Exact = true;
template<typename T> using Vec = Nz::FixedVector<T, Cap>;
#include "life.hpp"
