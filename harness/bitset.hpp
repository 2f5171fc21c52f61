// Shared pieces of the Bitset harnesses: arbitrary bitsets and their observed contents.
#pragma once
#include "sym.hpp"
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <string>

namespace bs
{
	constexpr size_t MaxBits = 328;

	template<typename T> struct BlockOf;
	template<typename B, typename C> struct BlockOf<Nz::Bitset<B, C>> { using type = B; };
	template<typename S> using Block = typename BlockOf<S>::type;

	// the contents of a bitset as seen through its public per-bit read
	struct Bits
	{
		size_t n = 0;
		bool v[MaxBits] = {};
		bool at(size_t i) const { return i < n ? v[i] : false; }
	};

	template<typename S> Bits observe(const S& s)
	{
		Bits r; r.n = s.GetSize();
		for (size_t i = 0; i < r.n; ++i) r.v[i] = s.Test(i);
		return r;
	}

	template<typename S> void note(const S& s)
	{
		sym_note(s.GetSize());
		uint64_t h = 0;
		for (size_t i = 0; i < s.GetSize(); ++i) h = (h << 1 | h >> 63) ^ uint64_t(s.Test(i));
		sym_note(h);
	}

	// sizes explored: every size up to two blocks and a bit and a few larger ones for 8-bit blocks, the boundaries for wider ones
	template<typename B> size_t pickSize(const char* name, size_t extra = 0)
	{
		constexpr size_t W = sizeof(B) * 8;
		if constexpr (W == 8)
		{
			constexpr size_t all = BOUND(17, 26); const size_t more[] = { 30, 33, 40 }; // a few sizes of four and five blocks
			const size_t k = sym::pick(name, 0, all + extra + 3);
			return k <= all + extra ? k : more[k - all - extra - 1];
		}
		else
		{
			const size_t t[] = { 0, 1, W - 1, W, W + 1, 2 * W - 1, 2 * W, 2 * W + 1, 3, W / 2, W + W / 2, 3 * W, 3 * W - 1 };
			return t[sym::pick(name, 0, BOUND(7, 12))];
		}
	}

	// an arbitrary bitset of the given size
	template<typename S> S make(size_t n, const char* name)
	{
		S s(n, false);
		for (size_t i = 0; i < s.GetBlockCount(); ++i) s.SetBlock(i, sym::any<Block<S>>(name));
		return s;
	}

	template<typename S> void checkBits(const S& s, const Bits& expected, const char* what)
	{
		CHECK(s.GetSize() == expected.n, what);
		for (size_t i = 0; i < expected.n; ++i) CHECK(s.Test(i) == expected.v[i], what);
	}

	template<typename S> size_t blockCountFor(size_t n) { constexpr size_t W = sizeof(Block<S>) * 8; return (n + W - 1) / W; }

	// everything observable depends only on the in-range bits
	template<typename S> void checkCoherent(const S& s, const char* what)
	{
		using B = Block<S>; constexpr size_t W = sizeof(B) * 8;
		const size_t n = s.GetSize();
		CHECK(s.GetBlockCount() == blockCountFor<S>(n), what);
		CHECK(s.GetCapacity() >= n, what);
		size_t count = 0; bool any = false, all = true;
		for (size_t k = 0; k < s.GetBlockCount(); ++k)
		{
			B expected = 0;
			for (size_t i = k * W; i < (k + 1) * W && i < n; ++i) { bool b = s.Test(i); expected |= B(B(b) << (i - k * W)); count += b; any |= b; all &= b; }
			CHECK(s.GetBlock(k) == expected, what);
		}
		CHECK(s.Count() == count, what);
		CHECK(s.TestAny() == any, what);
		CHECK(s.TestAll() == all, what);
	}

	using V8 = Nz::Bitset<uint8_t>; using V16 = Nz::Bitset<uint16_t>; using V32 = Nz::Bitset<uint32_t>; using V64 = Nz::Bitset<uint64_t>;
	using F8 = Nz::Bitset<uint8_t, Nz::FixedVector<uint8_t, 8>>;
	using H8 = Nz::Bitset<uint8_t, Nz::HybridVector<uint8_t, 2>>;
	using H32 = Nz::Bitset<uint32_t, Nz::HybridVector<uint32_t, 1>>;
}

#define BITSET_ENTRIES(fn) \
	ENTRY(fn##_u8) { fn<bs::V8>(); } ENTRY(fn##_u16) { fn<bs::V16>(); } ENTRY(fn##_u32) { fn<bs::V32>(); } ENTRY(fn##_u64) { fn<bs::V64>(); } \
	ENTRY(fn##_fixed8) { fn<bs::F8>(); } ENTRY(fn##_hybrid8) { fn<bs::H8>(); }
