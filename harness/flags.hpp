// Enumerations of several sizes used as flags: by index (automatic flags) and by mask.
#pragma once
#include "sym.hpp"
#include <cassert>
#include <type_traits>
#include <NazaraUtils/Flags.hpp>

#define INDEXED(N) enum class I##N : uint32_t { Last = N - 1 }; template<> struct Nz::EnumAsFlags<I##N> { static constexpr I##N max = I##N::Last; };
INDEXED(1) INDEXED(3) INDEXED(8) INDEXED(9) INDEXED(16) INDEXED(17) INDEXED(32) INDEXED(33) INDEXED(40) INDEXED(63) INDEXED(64)
// the same through the other ways of declaring flags
namespace ways
{
	enum class ByCount : uint8_t { A, B, C, D, E, Count }; constexpr bool EnableEnumAsNzFlags(ByCount) { return true; }
	enum class ByMax : int { A, B, C, Max = C }; constexpr bool EnableEnumAsNzFlags(ByMax) { return true; }
	enum Plain { P0, P1, P2, P3, P4, P5, P6, P7, P8, P9, PMax = P9 }; constexpr bool EnableEnumAsNzFlags(Plain) { return true; }
	enum class MaskCount { A = 1, B = 2, C = 4, Count }; constexpr bool EnableEnumAsNzFlags(MaskCount) { return true; } constexpr bool EnableAutoFlagForNzFlags(MaskCount) { return false; }
}
template<> struct Nz::EnumAsFlags<ways::Plain> { static constexpr ways::Plain max = ways::PMax; };
// enumerations whose values are bit masks, with the given highest bit
#define MASKED(N) namespace masks { enum class M##N : uint64_t { Last = uint64_t(1) << (N - 1) }; constexpr bool EnableAutoFlagForNzFlags(M##N) { return false; } } template<> struct Nz::EnumAsFlags<masks::M##N> { static constexpr masks::M##N max = masks::M##N::Last; };
MASKED(1) MASKED(3) MASKED(4) MASKED(6) MASKED(7) MASKED(8) MASKED(9) MASKED(16) MASKED(31) MASKED(32) MASKED(33) MASKED(64)

template<typename E, size_t N, bool Mask> struct Kind
{
	using Enum = E; using F = Nz::Flags<E>; static constexpr size_t values = N; static constexpr uint64_t all = N == 64 ? ~uint64_t(0) : (uint64_t(1) << (N & 63)) - 1;
	static E value(size_t i) { if constexpr (Mask) return static_cast<E>(uint64_t(1) << i); else return static_cast<E>(i); } // the i-th value
	static uint64_t set(const F& f) { return static_cast<uint64_t>(f); } // the set, bit i = i-th value contained
	static F make(uint64_t s) { return F(static_cast<typename F::BitField>(s)); }
	static uint64_t anySet(const char* n) { uint64_t s = sym_u64(n); ASSUME((s & ~all) == 0); return s; }
};
#define EACH_ENUM(f) \
	ENTRY(f##_1) { f<Kind<I1, 1, false>>(); } ENTRY(f##_3) { f<Kind<I3, 3, false>>(); } ENTRY(f##_8) { f<Kind<I8, 8, false>>(); } ENTRY(f##_9) { f<Kind<I9, 9, false>>(); } ENTRY(f##_16) { f<Kind<I16, 16, false>>(); } ENTRY(f##_17) { f<Kind<I17, 17, false>>(); } \
	ENTRY(f##_32) { f<Kind<I32, 32, false>>(); } ENTRY(f##_33) { f<Kind<I33, 33, false>>(); } ENTRY(f##_40) { f<Kind<I40, 40, false>>(); } ENTRY(f##_63) { f<Kind<I63, 63, false>>(); } ENTRY(f##_64) { f<Kind<I64, 64, false>>(); } \
	ENTRY(f##_count) { f<Kind<ways::ByCount, 5, false>>(); } ENTRY(f##_max) { f<Kind<ways::ByMax, 3, false>>(); } ENTRY(f##_plain) { f<Kind<ways::Plain, 10, false>>(); } ENTRY(f##_maskcount) { f<Kind<ways::MaskCount, 3, true>>(); } \
	ENTRY(f##_m1) { f<Kind<masks::M1, 1, true>>(); } ENTRY(f##_m3) { f<Kind<masks::M3, 3, true>>(); } ENTRY(f##_m4) { f<Kind<masks::M4, 4, true>>(); } ENTRY(f##_m6) { f<Kind<masks::M6, 6, true>>(); } ENTRY(f##_m7) { f<Kind<masks::M7, 7, true>>(); } ENTRY(f##_m8) { f<Kind<masks::M8, 8, true>>(); } ENTRY(f##_m9) { f<Kind<masks::M9, 9, true>>(); } \
	ENTRY(f##_m16) { f<Kind<masks::M16, 16, true>>(); } ENTRY(f##_m31) { f<Kind<masks::M31, 31, true>>(); } ENTRY(f##_m32) { f<Kind<masks::M32, 32, true>>(); } ENTRY(f##_m33) { f<Kind<masks::M33, 33, true>>(); } ENTRY(f##_m64) { f<Kind<masks::M64, 64, true>>(); }
