// BOUNDS: two pools of block sizes 1..3, every history of 4 (thorough 6) operations among allocation, deferred allocation, free, free without destruction, Clear, Reset, move construction, move assignment (also to itself) and swap, then destruction; a constructor that throws at any allocation of a history of 5 (thorough 7); 320 objects in blocks of 2 or 300, any subset of five freed, then Reset, Clear, a move or destruction
// ASSUMES: allocation succeeds
#include "pool.hpp"
using namespace po;
using Pool = Nz::MemoryPool<tr::E>;

struct Side
{
	Pool pool; bool live[Slots] = {}; tr::E* ptr[Slots] = {}; uint8_t val[Slots] = {}; size_t count = 0;
	explicit Side(size_t bs) : pool(bs) {}
	void added(tr::E* p, size_t i, uint8_t x) { if (i >= Slots) { CHECK(false, "indices stay within the blocks needed"); return; } CHECK(!live[i], "an entry is given once"); for (size_t k = 0; k < Slots; ++k) CHECK(!live[k] | (ptr[k] != p), "an entry is given once"); live[i] = true; ptr[i] = p; val[i] = x; ++count; }
	void none() { for (bool& b : live) b = false; count = 0; }
	void take(Side& o) { for (size_t i = 0; i < Slots; ++i) { live[i] = o.live[i]; ptr[i] = o.ptr[i]; val[i] = o.val[i]; } count = o.count; o.none(); }
	void check() { CHECK(pool.GetAllocatedEntryCount() == count, "allocated entries"); CHECK(pool.GetFreeEntryCount() == pool.GetBlockCount() * pool.GetBlockSize() - count, "free entries"); for (size_t i = 0; i < Slots; ++i) if (live[i]) { CHECK(pool.RetrieveFromIndex(i) == ptr[i], "an entry is found by its index"); CHECK(ptr[i]->get() == val[i], "a live entry keeps its object"); } }
	size_t pickLive(const char* n) { size_t i = sym::pick(n, 0, count - 1); for (size_t k = 0; k < Slots; ++k) if (live[k] && i-- == 0) return k; return 0; }
};
// another pool afterwards behaves as a new one of the same size
static void usable(Side& s, size_t blocks)
{
	const size_t before = s.count, room = blocks * s.pool.GetBlockSize();
	CHECK(s.pool.GetBlockCount() == blocks, "blocks of the pool"); CHECK(s.pool.GetFreeEntryCount() == room - before, "room of the pool");
	for (size_t k = before; k < room && k < 6; ++k) { size_t i = 999; tr::E* p = s.pool.Allocate(i, uint8_t(k)); s.added(p, i, uint8_t(k)); CHECK(s.pool.GetBlockCount() == blocks, "the room is used before the pool grows"); }
	s.check();
}
ENTRY(two_pools)
{
	const size_t bs = sym::pick("block size", 1, 3);
	{
		Side a(bs), b(2); size_t blocks = 1, blocksB = 1; // blocks expected of a and b
		for (size_t k = 0; k < BOUND(4, 6); ++k)
		{
			switch (sym::pick("op", 0, 9))
			{
				case 0: { const uint8_t x = sym_u8("x"); size_t i = 999; if (a.count == blocks * a.pool.GetBlockSize()) ++blocks; tr::E* p = a.pool.Allocate(i, x); a.added(p, i, x); } break;
				case 1: { const uint8_t x = sym_u8("x"); size_t i = 999; if (a.count == blocks * a.pool.GetBlockSize()) ++blocks; tr::E* p = a.pool.Allocate(Pool::DeferConstruct, i); CHECK(size_t(tr::alive) == a.count + b.count, "nothing is constructed by a deferred construction"); new (p) tr::E(x); a.added(p, i, x); } break;
				case 2: if (!a.count) return; { size_t i = a.pickLive("free"); a.pool.Free(i); a.live[i] = false; --a.count; } break;
				case 3: if (!a.count) return; { size_t i = a.pickLive("free"); a.ptr[i]->~Elem(); a.pool.Free(i, Pool::NoDestruction); a.live[i] = false; --a.count; } break;
				case 4: a.pool.Clear(); a.none(); blocks = 0; CHECK(size_t(tr::alive) == b.count, "Clear destroys every object"); break;
				case 5: a.pool.Reset(); a.none(); CHECK(size_t(tr::alive) == b.count, "Reset destroys every object"); CHECK(a.pool.GetBlockCount() == blocks, "Reset keeps the blocks"); break;
				case 6: { Pool c(std::move(a.pool)); CHECK(size_t(tr::alive) == a.count + b.count, "a move destroys nothing"); CHECK(c.GetAllocatedEntryCount() == a.count, "a move takes the objects"); CHECK(a.pool.GetAllocatedEntryCount() == 0, "a moved pool is empty"); a.pool = std::move(c); } break;
				case 7: b.pool = std::move(a.pool); b.none(); b.take(a); CHECK(size_t(tr::alive) == b.count, "move assignment destroys the overwritten objects"); blocksB = blocks; blocks = 0; CHECK(b.pool.GetBlockSize() == a.pool.GetBlockSize(), "move assignment takes the block size"); break;
				case 8: { Pool& r = a.pool; a.pool = std::move(r); } break;
				case 9: std::swap(a.pool, b.pool); { bool l[Slots]; tr::E* p[Slots]; uint8_t v[Slots]; for (size_t i = 0; i < Slots; ++i) { l[i] = a.live[i]; p[i] = a.ptr[i]; v[i] = a.val[i]; a.live[i] = b.live[i]; a.ptr[i] = b.ptr[i]; a.val[i] = b.val[i]; b.live[i] = l[i]; b.ptr[i] = p[i]; b.val[i] = v[i]; } std::swap(a.count, b.count); std::swap(blocks, blocksB); } break;
			}
			a.check(); b.check(); CHECK(size_t(tr::alive) == a.count + b.count, "exactly the allocated objects are alive");
		}
		usable(a, blocks); usable(b, blocksB);
	}
	CHECK(tr::alive == 0, "no object outlives its pool"); sym_note(1);
}
// a constructor throws: the entry goes back to the pool
ENTRY(throwing_constructor)
{
	using P = Nz::MemoryPool<tr::X>;
	{
		const size_t bs = sym::pick("block size", 1, 3); P pool(bs); size_t n = 0, idx[8]; tr::countdown = int(sym::pick("throws at", 0, BOUND(4, 6))); size_t failures = 0;
		for (size_t k = 0; k < BOUND(5, 7); ++k)
		{
			if (n && sym::pick("free", 0, 1)) { pool.Free(idx[--n]); }
			else { size_t i = 999; try { tr::X* p = pool.Allocate(i, uint8_t(k)); CHECK(p->get() == uint8_t(k), "the object"); idx[n++] = i; } catch (const tr::Failure&) { ++failures; } }
			CHECK(pool.GetAllocatedEntryCount() == n, "allocated entries"); CHECK(size_t(tr::alive) == n, "exactly the allocated objects are alive"); CHECK(pool.GetFreeEntryCount() == pool.GetBlockCount() * bs - n, "free entries");
			size_t seen = 0; for (auto& e : pool) { e.live("a visited object is alive"); ++seen; } CHECK(seen == n, "iteration sees the live objects");
		}
		tr::countdown = -1; sym_note(failures);
	}
	CHECK(tr::alive == 0, "no object outlives its pool");
}
// many objects: every one is destroyed
ENTRY(many)
{
	{
		const size_t bs = sym::pick("entries per block", 0, 1) ? 300 : 2; constexpr size_t N = 320; Pool pool(bs); for (size_t k = 0; k < N; ++k) { size_t i; pool.Allocate(i, uint8_t(k)); } size_t left = N; const size_t t[] = { 0, 1, 255, 256, 319 }; for (size_t w : t) if (sym::any<bool>("free")) { pool.Free(w); --left; }
		CHECK(size_t(tr::alive) == left, "exactly the allocated objects are alive"); const size_t how = sym::pick("how", 0, 3); if (how == 0) pool.Reset(); if (how == 1) pool.Clear(); if (how == 2) { Pool q(std::move(pool)); CHECK(size_t(tr::alive) == left, "a move destroys nothing"); }
		if (how < 3) CHECK(tr::alive == 0, "every object is destroyed"); sym_note(left);
	}
	CHECK(tr::alive == 0, "no object outlives its pool");
}
