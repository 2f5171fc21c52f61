// BOUNDS: pools of 1..4 blocks of 1..3 entries (thorough 5 blocks) with every occupancy; blocks of 65 entries with any occupancy of the entries around the word boundary; entries with natural and increased alignment; 600 entries in blocks of 2 or 300, any subset of seven far apart ones live
#include "pool.hpp"
#include <memory>
using namespace po;

struct Byte { uint8_t v; Byte(uint8_t x) : v(x) {} };
struct Odd { uint8_t v; uint8_t rest[11]; Odd(uint8_t x) : v(x), rest{} {} };

template<typename Pool, typename T> void look(Pool& pool, const bool* live, T* const* ptr, size_t total)
{
	const Pool& cp = pool; size_t expected[160], n = 0; for (size_t i = 0; i < total; ++i) if (live[i]) expected[n++] = i;
	size_t k = 0;
	for (auto it = pool.begin(); it != pool.end(); ++it) { CHECK(k < n, "nothing but the live entries"); if (k >= n) return; CHECK(it.GetIndex() == expected[k], "index order"); CHECK(&*it == ptr[expected[k]], "the entry visited"); ++k; }
	CHECK(k == n, "every live entry"); k = 0;
	for (auto it = cp.begin(); it != cp.end(); it++) { CHECK(k < n, "nothing but the live entries"); if (k >= n) return; CHECK(it.GetIndex() == expected[k], "index order"); CHECK(&*it == ptr[expected[k]], "the entry visited"); ++k; }
	CHECK(k == n, "every live entry"); k = 0;
	for (auto it = cp.cbegin(); it != cp.cend();) { auto c = it++; CHECK(k < n, "nothing but the live entries"); if (k >= n) return; CHECK(c.GetIndex() == expected[k], "index order"); CHECK(c != it, "advances"); auto d = c; ++d; CHECK(d == it, "both increments agree"); d = c; CHECK(d == c, "assignment"); ++k; }
	CHECK(k == n, "every live entry"); k = 0;
	for (auto& e : pool) { CHECK(k < n, "nothing but the live entries"); if (k >= n) return; CHECK(&e == ptr[expected[k]], "the entry visited"); ++k; }
	CHECK(k == n, "every live entry"); CHECK((pool.begin() == pool.end()) == (n == 0), "empty range");
	for (size_t j = 0; j < n; ++j) { const size_t i = expected[j]; CHECK(pool.RetrieveFromIndex(i) == ptr[i], "lookup by index"); CHECK(cp.RetrieveFromIndex(i) == ptr[i], "lookup by index"); CHECK(pool.RetrieveEntryIndex(ptr[i]) == i, "lookup by pointer"); }
}
template<typename T, size_t A> void small(size_t maxBlocks)
{
	using Pool = Nz::MemoryPool<T, A>;
	const size_t bs = sym::pick("block size", 1, 3); const size_t blocks = sym::pick("blocks", 1, maxBlocks); const size_t total = bs * blocks; if (total > BOUND(8, 10)) return;
	Pool pool(bs); bool live[16] = {}; T* ptr[16] = {};
	for (size_t k = 0; k < total; ++k) { size_t i = 999; T* p = pool.Allocate(i, uint8_t(k)); CHECK(i < total, "indices stay within the blocks"); if (i >= total) return; live[i] = true; ptr[i] = p; }
	look(pool, live, ptr, total);
	for (size_t i = 0; i < total; ++i) if (sym::pick("free", 0, 1)) { pool.Free(i); live[i] = false; }
	look(pool, live, ptr, total);
	{ T other(uint8_t(0)); CHECK(pool.RetrieveEntryIndex(&other) == Pool::InvalidIndex, "a pointer of elsewhere has no index"); std::unique_ptr<T> far(new T(uint8_t(0))); CHECK(pool.RetrieveEntryIndex(far.get()) == Pool::InvalidIndex, "a pointer of elsewhere has no index"); }
	size_t n = 0; for (bool b : live) n += b; sym_note(n);
}
ENTRY(natural) { small<Byte, 1>(BOUND(4, 5)); }
ENTRY(odd) { small<Odd, 1>(BOUND(4, 5)); }
ENTRY(aligned4) { small<Byte, 4>(BOUND(4, 5)); }
ENTRY(aligned64) { small<Odd, 64>(BOUND(3, 5)); }
ENTRY(two_words)
{
	using Pool = Nz::MemoryPool<Byte, 2>; constexpr size_t bs = 65; Pool pool(bs); bool live[2 * bs] = {}; Byte* ptr[2 * bs] = {};
	for (size_t k = 0; k < 2 * bs; ++k) { size_t i = 999; Byte* p = pool.Allocate(i, uint8_t(k)); CHECK(i < 2 * bs, "indices stay within the blocks"); if (i >= 2 * bs) return; live[i] = true; ptr[i] = p; }
	const bool keepAll = sym::pick("others", 0, 1); const size_t watched[] = {0, 63, 64, 65, 65 + 63, 65 + 64}; 
	for (size_t i = 0; i < 2 * bs; ++i) { bool w = false; for (size_t x : watched) w |= x == i; if (w ? sym::pick("free", 0, 1) : !keepAll) { pool.Free(i); live[i] = false; } }
	look(pool, live, ptr, 2 * bs); sym_note(pool.GetAllocatedEntryCount());
}
// hundreds of blocks or of entries, any subset of far apart live ones
ENTRY(many)
{
	using Pool = Nz::MemoryPool<uint32_t>; const size_t bs = sym::pick("entries per block", 0, 1) ? 300 : 2; Pool pool(bs); constexpr size_t N = 600; for (size_t k = 0; k < N; ++k) { size_t i; pool.Allocate(i, uint32_t(k)); }
	for (auto it = pool.begin(); it != pool.end(); ++it) *it = uint32_t(it.GetIndex()); const size_t t[] = { 0, 127, 256, 299, 300, 512, 599 }; bool keep[7]; size_t left = 0; for (size_t w = 0; w < 7; ++w) { keep[w] = sym::any<bool>("keep"); if (keep[w]) ++left; }
	size_t w = 0; for (size_t i = 0; i < N; ++i) { while (w < 7 && t[w] < i) ++w; if (w == 7 || t[w] != i || !keep[w]) pool.Free(i); }
	size_t k = 0, seen = 0; for (auto it = pool.begin(); it != pool.end(); ++it) { while (k < 7 && !keep[k]) ++k; if (k == 7) { CHECK(false, "only live entries are visited"); return; } CHECK(it.GetIndex() == t[k], "live entries are visited in order"); CHECK(*it == t[k], "with their content"); CHECK(pool.RetrieveEntryIndex(&*it) == t[k], "an address designates its entry"); ++k; ++seen; }
	CHECK(seen == left, "every live entry is visited"); sym_note(left);
}
