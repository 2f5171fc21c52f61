// One entry per integer type for a template check f<T>().
#pragma once
#include "sym.hpp"
#include <limits>
#include <type_traits>
#define EACH_INT(f) \
	ENTRY(f##_i8) { f<int8_t>(); } ENTRY(f##_u8) { f<uint8_t>(); } ENTRY(f##_i16) { f<int16_t>(); } ENTRY(f##_u16) { f<uint16_t>(); } \
	ENTRY(f##_i32) { f<int32_t>(); } ENTRY(f##_u32) { f<uint32_t>(); } ENTRY(f##_i64) { f<int64_t>(); } ENTRY(f##_u64) { f<uint64_t>(); } ENTRY(f##_ll) { f<long long>(); } ENTRY(f##_ull) { f<unsigned long long>(); }
template<typename T> constexpr size_t Bits = sizeof(T) * 8;
template<typename T> using U = std::make_unsigned_t<T>;
template<typename T> bool bit(T v, size_t i) { return (U<T>(v) >> i) & 1; }
using i128 = __int128;
