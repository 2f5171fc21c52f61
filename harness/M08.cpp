// BOUNDS: every float and double angle whose conversion is normal and finite; the limits and constants of every arithmetic type, named or converted to
// ASSUMES: angles whose conversion is neither subnormal nor overflows
// VARIANT: run
// VARIANT: run20 std=c++20 thorough
#include "ints.hpp"
#include <NazaraUtils/Constants.hpp>
#include <NazaraUtils/MathUtils.hpp>
#include <limits>

template<typename T> struct Lay; template<> struct Lay<float> { using I = uint32_t; static constexpr int m = 23; static constexpr I e = 0xFF; static constexpr int bias = 127; }; template<> struct Lay<double> { using I = uint64_t; static constexpr int m = 52; static constexpr I e = 0x7FF; static constexpr int bias = 1023; };
using u128 = unsigned __int128;
// |x| = mantissa * 2^exponent read from the bits
template<typename T> struct Parts { typename Lay<T>::I man; int ex; bool neg; };
template<typename T> Parts<T> parts(T v) { using L = Lay<T>; typename L::I b; std::memcpy(&b, &v, sizeof v); return { typename L::I((b & ((typename L::I(1) << L::m) - 1)) | (typename L::I(1) << L::m)), int((b >> L::m) & L::e), bool(b >> (sizeof(T) * 8 - 1)) }; }

// r is v * k / 2^62 within a few units in the last place; k is the factor scaled by 2^62 (or 2^57 when large)
template<typename T> void near(T v, T r, T rounded, T up, T down, uint64_t k, int scale)
{
	if (r == rounded) return; // the usual ways of rounding the conversion are within these bounds
	if (r == v * up / down) return;
	if (r == v / T(down / up)) return;
	using L = Lay<T>; const Parts<T> a = parts(v), b = parts(r);
	CHECK(a.neg == b.neg, "the sign is kept");
	// a.man * k * 2^(a.ex - scale) against b.man * 2^b.ex
	const u128 exact = u128(a.man) * k; const int shift = b.ex - a.ex + scale; CHECK((shift > 0) & (shift < 127 - L::m), "the magnitude");
	if (!((shift > 0) & (shift < 127 - L::m))) return;
	const u128 got = u128(b.man) << shift; const u128 diff = exact > got ? exact - got : got - exact; CHECK(diff <= (u128(3) << shift), "within three units in the last place");
}
template<typename T> void angle(bool toRadian)
{
	using L = Lay<T>; using I = typename L::I; const size_t some = sym::pick("some", 0, 4); const T few[] = { T(1), T(180), T(-90), T(3.14159265358979323846) }; I bits; if (some) std::memcpy(&bits, &few[some - 1], sizeof bits); else bits = sym::any<I>("bits");
	const I ex = (bits >> L::m) & L::e; T v; std::memcpy(&v, &bits, sizeof v);
	if ((bits << 1) == 0) { CHECK((toRadian ? Nz::DegreeToRadian(v) : Nz::RadianToDegree(v)) == 0, "no angle"); return; }
	ASSUME((ex > 8) & (ex < L::e - 8));
	// pi / 180 * 2^67 and 180 / pi * 2^58
	if (toRadian) near<T>(v, Nz::DegreeToRadian(v), v * T(T(3.14159265358979323846) / T(180)), T(3.14159265358979323846), T(180), 0x8EFA351294E9C8AEull >> (sizeof(T) == 4 ? 24 : 0), sizeof(T) == 4 ? 69 - 24 : 69); else near<T>(v, Nz::RadianToDegree(v), v * T(T(180) / T(3.14159265358979323846)), T(180), T(3.14159265358979323846), 0xE52EE0D31E0FBDC3ull >> (sizeof(T) == 4 ? 24 : 0), sizeof(T) == 4 ? 58 - 24 : 58);
}
ENTRY(radian_float) { angle<float>(true); } ENTRY(degree_float) { angle<float>(false); }
ENTRY(radian_double) { angle<double>(true); } ENTRY(degree_double) { angle<double>(false); }

// limits and constants, asked for by type or deduced from what they are converted to
template<typename T> void limits()
{
	using L = std::numeric_limits<T>; const T v = sym::any<T>("v");
	CHECK(Nz::MaxValue<T>() == L::max(), "MaxValue"); CHECK(Nz::MinValue<T>() == L::min(), "MinValue");
	const T mx = Nz::MaxValue(); const T mn = Nz::MinValue(); CHECK(mx == L::max(), "MaxValue deduced"); CHECK(mn == L::min(), "MinValue deduced"); T assigned = 1; assigned = Nz::MaxValue(); CHECK(assigned == L::max(), "MaxValue deduced");
	if constexpr (std::is_integral_v<T>) CHECK((v <= Nz::MaxValue<T>()) & (v >= Nz::MinValue<T>()), "every value lies between the limits");
	else { CHECK((v != v) | (v <= Nz::Infinity<T>()), "nothing exceeds infinity"); CHECK((v > Nz::MaxValue<T>()) == (v == Nz::Infinity<T>()), "only infinity exceeds the largest value"); }
	sym_note(1);
}
EACH_INT(limits) ENTRY(limits_float) { limits<float>(); } ENTRY(limits_double) { limits<double>(); }
template<typename T> T ulps(T x) { return x * std::numeric_limits<T>::epsilon(); }
template<typename T> bool is(T got, double exact) { const T e = T(exact); return (got >= e - ulps(e)) & (got <= e + ulps(e)); }
template<typename T> void constants()
{
	const T v = sym::any<T>("v"); const T pi = Nz::Pi(), half = Nz::HalfPi(), tau = Nz::Tau(), s2 = Nz::Sqrt2(), s3 = Nz::Sqrt3(), s5 = Nz::Sqrt5(), inf = Nz::Infinity(), nan = Nz::NaN();
	CHECK(pi == Nz::Pi<T>(), "deduced"); CHECK(half == Nz::HalfPi<T>(), "deduced"); CHECK(tau == Nz::Tau<T>(), "deduced"); CHECK(s2 == Nz::Sqrt2<T>(), "deduced"); CHECK(s3 == Nz::Sqrt3<T>(), "deduced"); CHECK(s5 == Nz::Sqrt5<T>(), "deduced"); CHECK(inf == Nz::Infinity<T>(), "deduced");
	CHECK(is(pi, 3.14159265358979323846), "pi"); CHECK(is(half, 1.57079632679489661923), "half pi"); CHECK(is(tau, 6.28318530717958647693), "tau"); CHECK(is(s2, 1.41421356237309504880), "sqrt 2"); CHECK(is(s3, 1.73205080756887729353), "sqrt 3"); CHECK(is(s5, 2.23606797749978969641), "sqrt 5");
	CHECK((half * 2 == pi) & (pi * 2 == tau), "multiples of pi");
	CHECK(!((inf < v) | (v < -inf)), "nothing lies past infinity"); CHECK(!((nan == v) | (nan < v) | (nan > v)), "NaN equals nothing"); CHECK(Nz::NaN<T>() != Nz::NaN<T>(), "NaN differs from itself"); CHECK((v - v != 0) | ((v < inf) & (v > -inf)), "finite values are below infinity"); sym_note(1);
}
ENTRY(constants_float) { constants<float>(); } ENTRY(constants_double) { constants<double>(); }
