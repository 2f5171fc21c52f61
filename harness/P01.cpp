// BOUNDS: block sizes 1..3; every history of 6 (thorough 8) allocations (constructed, deferred) and frees (any live entry, with or without destruction), any values; entries of 1, 8, 16 and 64-aligned bytes; blocks of 64..66 entries from any occupancy of the entries around the word boundary; 600 entries in blocks of 2 or 300 with any subset of seven far apart entries freed and reallocated
// ASSUMES: allocation succeeds
#include "pool.hpp"
using namespace po;

struct Byte { uint8_t v; Byte(uint8_t x) : v(x) {} };
struct Wide { uint64_t a; uint8_t v; Wide(uint8_t x) : a(0x1122334455667788), v(x) {} };
struct alignas(64) Over { uint8_t v; Over(uint8_t x) : v(x) {} };

template<typename T, size_t A> void history(size_t length)
{
	using Pool = Nz::MemoryPool<T, A>;
	const size_t bs = sym::pick("block size", 1, 3);
	Pool pool(bs); Model<Pool, T> m(pool);
	m.counters();
	for (size_t k = 0; k < length; ++k)
	{
		size_t i;
		switch (sym::pick("op", 0, m.count ? 3 : 1))
		{
			case 0: if (m.allocate(sym_u8("x")) == npos) return; break;
			case 1: { size_t e = 999; T* p = pool.Allocate(Pool::DeferConstruct, e); const uint8_t x = sym_u8("x"); if (m.allocated(p, e, x) == npos) return; new (p) T(x); } break;
			case 2: if (!m.anyLive("free", i)) return; pool.Free(i); m.forget(i); break;
			case 3: if (!m.anyLive("free", i)) return; m.ptr[i]->~T(); pool.Free(i, Pool::NoDestruction); m.forget(i); break;
		}
		m.counters(); m.contents();
		for (size_t e = 0; e < m.top; ++e) if (m.live[e]) CHECK(reinterpret_cast<uintptr_t>(m.ptr[e]) % A == 0, "the requested alignment");
	}
	sym_note(m.count); sym_note(m.top);
}
ENTRY(history_byte) { history<Byte, 1>(BOUND(6, 8)); }
ENTRY(history_wide) { history<Wide, alignof(Wide)>(BOUND(5, 7)); }
ENTRY(history_aligned) { history<Byte, 16>(BOUND(5, 7)); }
ENTRY(history_over) { history<Over, 64>(BOUND(5, 7)); }

// a big block: fill it, free any subset of the entries around the word boundary, then allocate until it is full again and once more
ENTRY(wide_block)
{
	using Pool = Nz::MemoryPool<Byte>;
	const size_t bs = sym::pick("block size", 64, 66); Pool pool(bs); uint8_t* where[70]; bool live[70] = {};
	for (size_t k = 0; k < bs; ++k) { size_t i = 999; Byte* p = pool.Allocate(i, uint8_t(k)); CHECK(i < bs, "the first block is used"); CHECK(!live[i], "an entry is given once"); live[i] = true; where[i] = &p->v; p->v = uint8_t(i); }
	CHECK(pool.GetFreeEntryCount() == 0, "a full block"); CHECK(pool.GetBlockCount() == 1, "a single block");
	const size_t watched[] = {0, 62, 63, bs - 1}; size_t freed = 0;
	for (size_t w : watched) if (live[w] && sym::pick("free", 0, 1)) { pool.Free(w); live[w] = false; ++freed; CHECK(pool.GetFreeEntryCount() == freed, "free entries"); }
	const uint8_t x = sym_u8("x");
	for (size_t k = 0; k <= freed; ++k) { size_t i = 999; Byte* p = pool.Allocate(i, x); if (k < freed) { CHECK(i < bs, "free entries are reused before the pool grows"); CHECK(!live[i], "an entry is given once"); CHECK(&p->v == where[i], "an entry keeps its storage"); live[i] = true; CHECK(pool.GetBlockCount() == 1, "a single block"); } else { CHECK(i >= bs, "a new block"); CHECK(i < 2 * bs, "a new block"); CHECK(pool.GetBlockCount() == 2, "a new block"); CHECK(pool.GetFreeEntryCount() == bs - 1, "a whole new block"); } }
	for (size_t i = 0; i < bs; ++i) CHECK((*where[i] == uint8_t(i)) | (*where[i] == x), "entries keep their content");
	sym_note(freed);
}
// hundreds of blocks or of entries, freed at far apart places
ENTRY(many)
{
	using Pool = Nz::MemoryPool<uint32_t>; const size_t bs = sym::pick("entries per block", 0, 1) ? 300 : 2; Pool pool(bs); constexpr size_t N = 600; static uint32_t* where[N]; static bool live[N];
	for (size_t k = 0; k < N; ++k) { size_t i = 9999; uint32_t* p = pool.Allocate(i, uint32_t(k)); if (i >= N) { CHECK(false, "indices stay within the blocks needed"); return; } CHECK(!live[i], "an entry is given once"); live[i] = true; where[i] = p; *p = uint32_t(i); }
	CHECK(pool.GetBlockCount() == N / bs, "no more blocks than needed"); CHECK(pool.GetAllocatedEntryCount() == N, "allocated entries"); CHECK(pool.GetFreeEntryCount() == 0, "free entries");
	const size_t t[] = { 0, 127, 256, 299, 300, 512, 599 }; size_t freed = 0; for (size_t w : t) if (sym::any<bool>("free")) { pool.Free(w); live[w] = false; ++freed; }
	CHECK(pool.GetFreeEntryCount() == freed, "free entries"); const uint32_t x = sym_u32("x");
	for (size_t k = 0; k < freed; ++k) { size_t i = 9999; uint32_t* p = pool.Allocate(i, x); if (i >= N) { CHECK(false, "free entries are reused before the pool grows"); return; } CHECK(!live[i], "an entry is given once"); CHECK(p == where[i], "an entry keeps its storage"); live[i] = true; }
	CHECK(pool.GetBlockCount() == N / bs, "the pool did not grow"); for (size_t i = 0; i < N; ++i) { CHECK((*where[i] == i) | (*where[i] == x), "entries keep their content"); CHECK(pool.RetrieveFromIndex(i) == where[i], "an index designates its entry"); CHECK(live[i], "every entry is live"); }
	sym_note(freed);
}
