// Histories of a memory pool, followed by a table of its live entries.
#pragma once
#include "track.hpp"
#include <NazaraUtils/MemoryPool.hpp>

namespace po
{
	constexpr size_t Slots = 12;
	constexpr size_t npos = ~size_t(0);
	template<typename Pool, typename T> struct Model
	{
		Pool& pool; const size_t bs;
		bool live[Slots] = {}; T* ptr[Slots] = {}; uint8_t val[Slots] = {}; size_t count = 0, blocks = 1, top = 0; // top: slots ever given

		explicit Model(Pool& p) : pool(p), bs(p.GetBlockSize()) {}
		size_t allocate(uint8_t x)
		{
			size_t i = 999; T* p;
			const size_t how = 0; (void) how;
			p = pool.Allocate(i, x);
			return allocated(p, i, x);
		}
		size_t allocated(T* p, size_t i, uint8_t x)
		{
			if (count == blocks * bs) ++blocks;
			i = sym_concretize(i);
			CHECK(i < blocks * bs, "free entries are reused before the pool grows"); if (i >= Slots) return npos;
			CHECK(!live[i], "an entry is given once"); CHECK(p != nullptr, "an entry"); CHECK(reinterpret_cast<uintptr_t>(p) % alignof(T) == 0, "the entry is aligned");
			CHECK((ptr[i] == nullptr) | (ptr[i] == p), "an entry keeps its storage");
			for (size_t k = 0; k < Slots; ++k) if (k != i) CHECK((ptr[k] == nullptr) | (reinterpret_cast<uintptr_t>(p) + sizeof(T) <= reinterpret_cast<uintptr_t>(ptr[k])) | (reinterpret_cast<uintptr_t>(ptr[k]) + sizeof(T) <= reinterpret_cast<uintptr_t>(p)), "entries do not overlap");
			live[i] = true; ptr[i] = p; val[i] = x; ++count; if (i >= top) top = i + 1;
			return i;
		}
		bool anyLive(const char* name, size_t& i) { if (!count) return false; i = sym::pick(name, 0, top - 1); return live[i]; }
		void forget(size_t i) { live[i] = false; --count; }
		void counters()
		{
			CHECK(pool.GetAllocatedEntryCount() == count, "allocated entries"); CHECK(pool.size() == count, "size"); CHECK(pool.GetBlockCount() == blocks, "the pool grows by whole blocks, only when it is full"); CHECK(pool.GetFreeEntryCount() == blocks * bs - count, "free entries"); CHECK(pool.GetBlockSize() == bs, "block size");
		}
		void contents() { for (size_t i = 0; i < top; ++i) if (live[i]) { CHECK(ptr[i]->v == val[i], "an entry keeps its content"); } }
		void none() { for (size_t i = 0; i < Slots; ++i) live[i] = false; count = 0; }
	};
}
