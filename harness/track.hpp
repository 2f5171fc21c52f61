// An element type which reports every lifetime error: use before construction, use after destruction,
// double destruction, leak. A counter can make the k-th construction/assignment throw.
#pragma once
#include "sym.hpp"
#include <utility>

namespace tr
{
	inline int alive = 0;
	inline int countdown = -1;        // < 0: never throws; otherwise the number of throwing operations before the one that throws
	struct Failure {};
	inline void step() { if (countdown >= 0 && countdown-- == 0) throw Failure{}; }

	template<bool MayThrow> struct Elem
	{
		const void* self;
		uint8_t v;
		bool moved = false;

		void enter() { self = this; ++alive; }
		void live(const char* what) const { CHECK(self == this, what); }

		Elem() noexcept(!MayThrow) : v(0) { if constexpr (MayThrow) step(); enter(); }
		Elem(uint8_t x) noexcept(!MayThrow) : v(x) { if constexpr (MayThrow) step(); enter(); }
		Elem(const Elem& o) noexcept(!MayThrow) : v(o.v), moved(o.moved) { o.live("a copy is taken from a living element"); if constexpr (MayThrow) step(); enter(); }
		Elem(Elem&& o) noexcept(!MayThrow) : v(o.v), moved(o.moved) { o.live("a move is taken from a living element"); if constexpr (MayThrow) step(); o.moved = true; o.v = 0xEE; enter(); }
		Elem& operator=(const Elem& o) noexcept(!MayThrow) { live("a living element is assigned"); o.live("a living element is copied"); if constexpr (MayThrow) step(); v = o.v; moved = o.moved; return *this; }
		Elem& operator=(Elem&& o) noexcept(!MayThrow) { live("a living element is assigned"); o.live("a living element is moved"); if constexpr (MayThrow) step(); if (this != &o) { v = o.v; moved = o.moved; o.v = 0xEE; o.moved = true; } return *this; }
		~Elem() { live("an element is destroyed exactly once, and only after construction"); self = nullptr; --alive; }
		uint8_t get() const { live("a living element is read"); CHECK(!moved, "no element of the sequence was moved away"); return v; }
	};
	using E = Elem<false>;
	using X = Elem<true>;
}
