// Long bitsets: hundreds of blocks, concrete but for two blocks, so that anything counted in a narrow type or stopped early shows.
#pragma once
#include "bitset.hpp"

namespace bs
{
	constexpr size_t BigMax = 3000;
	struct Big { size_t n = 0; bool v[BigMax] = {}; bool at(size_t i) const { return i < n ? v[i] : false; } };

	// sizes in bits: 257 and 300 blocks of 8 bits and a few more bits, 33 and 40 blocks of 64 bits
	template<typename B> size_t bigSize(const char* name)
	{
		constexpr size_t W = sizeof(B) * 8; const size_t t[] = { W == 8 ? 257 * W + 3 : 33 * W + 3, W == 8 ? 300 * W : 40 * W };
		return t[sym::pick(name, 0, 1)];
	}
	// concrete background (zeros, ones or a pattern), a window of symbolic blocks: one near `where`, and the last one
	template<typename S> S makeBig(size_t n, size_t background, size_t where, const char* name, Big& model)
	{
		using B = Block<S>; constexpr size_t W = sizeof(B) * 8; S s(n, false); const size_t blocks = s.GetBlockCount();
		for (size_t i = 0; i < blocks; ++i) s.SetBlock(i, background == 0 ? B(0) : background == 1 ? B(~B(0)) : B(0x9E3779B97F4A7C15ull * (i + 1) >> 8));
		s.SetBlock(where < blocks ? where : 0, sym::any<B>(name)); s.SetBlock(blocks - 1, sym::any<B>(name));
		model.n = n; for (size_t i = 0; i < n; ++i) model.v[i] = s.Test(i);
		CHECK(s.GetSize() == n, "size"); CHECK(blocks == blockCountFor<S>(n), "block count"); (void) W;
		return s;
	}
	template<typename S> size_t bigWhere(const char* name) { const size_t t[] = { 0, sizeof(Block<S>) == 1 ? 255u : 31u, sizeof(Block<S>) == 1 ? 256u : 32u }; return t[sym::pick(name, 0, 2)]; }
	template<typename S> void checkBig(const S& s, const Big& e, const char* what)
	{
		CHECK(s.GetSize() == e.n, what); CHECK(s.GetBlockCount() == blockCountFor<S>(e.n), what);
		for (size_t i = 0; i < e.n; ++i) CHECK(s.Test(i) == e.v[i], what);
	}
}
#define BIG_ENTRIES(fn) ENTRY(fn##_u8) { fn<bs::V8>(); } ENTRY(fn##_u64) { fn<bs::V64>(); } ENTRY(T_##fn##_hybrid8) { fn<bs::H8>(); }
