// BOUNDS: every index, position and size as 64-bit values (positions outside a container: up to 4 elements past its storage's ends); bitsets of every size explored by B04 in six block/container kinds; vectors and arrays of every size up to a capacity of 3 (thorough 5), before and after spilling; pools of up to 3 blocks of 2 entries with any subset live; bit numbers, alignments and values of each 8- to 64-bit integer type
// ASSUMES: a build with assertions; SafeCast is covered by M07
// VARIANT: debug
// VARIANT: release_on NDEBUG NAZARA_ENABLE_ASSERTS ONLY_NAZARA
#include "bitset.hpp"
#include "ints.hpp"
#include "track.hpp"
#include <NazaraUtils/Algorithm.hpp>
#include <NazaraUtils/MathUtils.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/Signal.hpp>
#include <NazaraUtils/SparsePtr.hpp>
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <functional>
using namespace bs;

// the call must stop on an assertion exactly when it is outside its domain
template<typename F> void guarded(bool inside, F&& f)
{
	sym_abort_ok(!inside); f(); sym_abort_never();
	CHECK(inside, "a call outside its domain fails an assertion");
}

template<typename S> void bitsetIndex()
{
	S s = make<S>(pickSize<Block<S>>("n"), "a"); const size_t n = s.GetSize(), blocks = s.GetBlockCount(); const size_t i = sym_u64("i"); const S& c = s; const bool v = sym::any<bool>("v");
	switch (sym::pick("op", 0, 6))
	{
		case 0: guarded(i < n, [&] { sym_note(c.Test(i)); }); break;
		case 1: guarded(i < n, [&] { s.Set(i, v); }); CHECK(s.Test(i) == v, "set"); break;
		case 2: guarded(i < n, [&] { s.Reset(i); }); CHECK(!s.Test(i), "reset"); break;
		case 3: guarded(i < blocks, [&] { sym_note(uint64_t(c.GetBlock(i))); }); break;
		case 4: guarded(i < blocks, [&] { s.SetBlock(i, 0); }); CHECK(s.GetBlock(i) == 0, "set"); break;
		case 5: guarded(i < n, [&] { sym_note(c[i]); }); break;
		case 6: guarded(i < n, [&] { sym_note(c.FindNext(i)); }); break;
	}
}
BITSET_ENTRIES(bitsetIndex)
template<typename S> void bitsetTo()
{
	const S s = make<S>(pickSize<Block<S>>("n"), "a"); const size_t n = s.GetSize();
	switch (sym::pick("op", 0, 3))
	{
		case 0: guarded(n <= 8, [&] { sym_note(s.template To<uint8_t>()); }); break;
		case 1: guarded(n <= 16, [&] { sym_note(s.template To<uint16_t>()); }); break;
		case 2: guarded(n <= 32, [&] { sym_note(s.template To<uint32_t>()); }); break;
		case 3: guarded(n <= 64, [&] { sym_note(s.template To<uint64_t>()); }); break;
	}
}
ENTRY(bitsetTo_u8) { bitsetTo<V8>(); } ENTRY(bitsetTo_u16) { bitsetTo<V16>(); } ENTRY(bitsetTo_u32) { bitsetTo<V32>(); } ENTRY(bitsetTo_u64) { bitsetTo<V64>(); }
ENTRY(bitsetWrite)
{
	const uint8_t bytes[4] = { sym_u8("b"), 1, 2, 3 }; const uint8_t bit = sym_u8("bit"); const bool null = sym::any<bool>("null"); V8 s;
	V8::PointerSequence from(null ? nullptr : bytes, bit); const size_t n = sym::pick("n", 0, 9); guarded(!null & (bit < 8), [&] { s.Write(from, n); }); CHECK(s.GetSize() == n, "written");
}

constexpr size_t Cap = BOUND(3, 5);
using FV = Nz::FixedVector<tr::E, Cap>; using HV = Nz::HybridVector<tr::E, Cap>;
template<typename S> void fillSome(S& s, size_t n) { for (size_t i = 0; i < n; ++i) s.emplace_back(uint8_t(i)); }
template<typename S> void content(const S& s, size_t n) { CHECK(s.size() == n, "size"); for (size_t i = 0; i < n; ++i) CHECK(s[i].get() == uint8_t(i), "elements"); }
// observers and growth of a sequence holding n elements of capacity cap (no limit when 0)
template<typename S> void sequence(S& s, size_t n, size_t cap, bool storageEnd)
{
	const S& c = s; const size_t i = sym_u64("i"); const bool room = cap == 0 || n < cap; const tr::E x(40);
	switch (sym::pick("op", 0, 15))
	{
		case 0: guarded(i < n, [&] { sym_note(s[i].get()); }); break;
		case 1: guarded(i < n, [&] { sym_note(c[i].get()); }); break;
		case 2: guarded(n > 0, [&] { sym_note(s.front().get()); }); break;
		case 3: guarded(n > 0, [&] { sym_note(c.front().get()); }); break;
#ifdef ONLY_NAZARA
		case 4: case 5: return;
#else
		case 4: guarded(n > 0, [&] { sym_note(s.back().get()); }); break;
		case 5: guarded(n > 0, [&] { sym_note(c.back().get()); }); break;
#endif
		case 6: if (!storageEnd) return; guarded(n > 0, [&] { s.pop_back(); }); CHECK(s.size() == n - 1, "pop"); break;
		case 7: guarded(room, [&] { s.push_back(x); }); CHECK(s.size() == n + 1, "push"); break;
		case 8: guarded(room, [&] { s.push_back(tr::E(5)); }); CHECK(s.size() == n + 1, "push"); break;
		case 9: guarded(room, [&] { s.emplace_back(uint8_t(7)); }); CHECK(s.size() == n + 1, "push"); break;
		case 10: { const size_t at = sym::pick("at", 0, n); guarded(room, [&] { s.insert(s.begin() + at, x); }); CHECK(s.size() == n + 1, "insert"); } break;
		case 11: { const size_t at = sym::pick("at", 0, n); guarded(room, [&] { s.emplace(s.begin() + at, uint8_t(7)); }); CHECK(s.size() == n + 1, "insert"); } break;
		case 12: { const size_t count = sym::pick("count", 0, Cap + 2); guarded(cap == 0 || count <= cap, [&] { s.resize(count); }); CHECK(s.size() == count, "resize"); } break;
		case 13: { const size_t count = sym::pick("count", 0, Cap + 2); guarded(cap == 0 || count <= cap, [&] { s.resize(count, x); }); CHECK(s.size() == count, "resize"); } break;
		case 14: { const size_t at = sym::pick("at", 0, n + 1); if (!room || (at > n && !storageEnd)) return; guarded(at <= n, [&] { s.insert(s.begin() + at, x); }); CHECK(s.size() == n + 1, "insert"); } break;
		case 15: { if (!storageEnd) return; const size_t at = sym::pick("at", 0, n + 1); guarded(at < n, [&] { s.erase(s.begin() + at); }); CHECK(s.size() == n - 1, "erase"); } break;
	}
	CHECK(size_t(tr::alive) == s.size() + 1, "every element counts");
}
template<typename S> void eraseRange(S& s, size_t n)
{
	const size_t first = sym::pick("first", 0, n + 1); const size_t last = sym::pick("last", 0, n + 1); if (first == last) return; // nothing is erased
	guarded(first < last && last <= n, [&] { s.erase(s.begin() + first, s.begin() + last); }); CHECK(s.size() == n - (last - first), "erase");
}
ENTRY(fixed) { FV s; const size_t n = sym::pick("n", 0, Cap); fillSome(s, n); content(s, n); sequence(s, n, Cap, true); }
ENTRY(fixed_range) { FV s; const size_t n = sym::pick("n", 0, Cap - 1); fillSome(s, n); eraseRange(s, n); }
ENTRY(fixed_reserve) { FV s; const size_t n = sym_u64("n"); guarded(n <= Cap, [&] { s.reserve(n); }); CHECK(s.empty(), "nothing"); }
ENTRY(fixed_build)
{
	const size_t n = sym::pick("n", 0, Cap + 2); const tr::E x(3); const tr::E t[Cap + 2] = { tr::E(1), tr::E(2), tr::E(3) };
	switch (sym::pick("how", 0, 2))
	{
		case 0: guarded(n <= Cap, [&] { FV s(n); CHECK(s.size() == n, "size"); }); break;
		case 1: guarded(n <= Cap, [&] { FV s(n, x); CHECK(s.size() == n, "size"); }); break;
		case 2: guarded(n <= Cap, [&] { FV s(t, t + n); CHECK(s.size() == n, "size"); }); break;
	}
}
ENTRY(hybrid) { HV s; const size_t n = sym::pick("n", 0, Cap); fillSome(s, n); content(s, n); sequence(s, n, 0, true); }
ENTRY(hybrid_range) { HV s; const size_t n = sym::pick("n", 0, Cap - 1); fillSome(s, n); eraseRange(s, n); }
#ifndef ONLY_NAZARA
ENTRY(hybrid_spilled) { HV s; const size_t n = sym::pick("n", 0, 2); fillSome(s, Cap + 1); s.resize(n); content(s, n); sequence(s, n, 0, false); }
ENTRY(stack_vector) { auto s = NazaraStackVector(tr::E, Cap); const size_t n = sym::pick("n", 0, Cap); fillSome(s, n); content(s, n); sequence(s, n, Cap, true); }
ENTRY(stack_vector_range) { auto s = NazaraStackVector(tr::E, Cap + 1); const size_t n = sym::pick("n", 0, Cap); fillSome(s, n); eraseRange(s, n); }
ENTRY(stack_array)
{
	const size_t n = sym::pick("n", 0, Cap); auto s = NazaraStackArray(tr::E, n); const auto& c = s; const size_t i = sym_u64("i");
	switch (sym::pick("op", 0, 3))
	{
		case 0: guarded(i < n, [&] { sym_note(s[i].get()); }); break;
		case 1: guarded(i < n, [&] { sym_note(c[i].get()); }); break;
		case 2: guarded(n > 0, [&] { sym_note(s.back().get()); }); break;
		case 3: guarded(n > 0, [&] { sym_note(c.back().get()); }); break;
	}
}
// an entry that is not live can be neither freed nor looked up
ENTRY(pool)
{
	Nz::MemoryPool<tr::E> p(2); const size_t n = sym::pick("n", 0, 5); bool live[6] = {}; tr::E* at[6] = {};
	for (size_t k = 0; k < n; ++k) { size_t index; at[k] = p.Allocate(index, uint8_t(k)); CHECK(index == k, "entries are handed out in order"); live[k] = true; }
	for (size_t k = 0; k < n; ++k) if (sym::pick("free", 0, 1)) { p.Free(k); live[k] = false; }
	const size_t i = sym::pick("index", 0, 8); const bool ok = i < 6 && live[i]; const auto& c = p;
	switch (sym::pick("op", 0, 3))
	{
		case 0: guarded(ok, [&] { CHECK(p.RetrieveFromIndex(i) == at[i], "the live entry"); }); break;
		case 1: guarded(ok, [&] { CHECK(c.RetrieveFromIndex(i) == at[i], "the live entry"); }); break;
		case 2: guarded(ok, [&] { p.Free(i); }); break;
		case 3: { const size_t far = sym_u64("far"); ASSUME(far >= p.GetBlockCount() * 2); guarded(false, [&] { sym_note(c.RetrieveFromIndex(far) != nullptr); }); } break;
	}
}
ENTRY(pool_iterators)
{
	Nz::MemoryPool<uint8_t> p(2), q(2); size_t index; p.Allocate(index, uint8_t(1)); q.Allocate(index, uint8_t(1)); const bool same = sym::pick("same", 0, 1) != 0;
	guarded(same, [&] { sym_note(p.begin() == (same ? p : q).begin()); }); auto it = p.begin(); const bool end = sym::pick("end", 0, 1) != 0; if (end) ++it; guarded(!end, [&] { sym_note(it.GetIndex()); });
}
ENTRY(signal) { Nz::Signal<> s; const bool null = sym::pick("null", 0, 1) != 0; Nz::Signal<>::Callback f; if (!null) f = [] {}; guarded(!null, [&] { (void)s.Connect(std::move(f)); }); s(); }
ENTRY(sparse) { uint32_t v = 1; const size_t stride = sym_u64("stride"); guarded(stride <= 0x7FFFFFFF, [&] { Nz::SparsePtr<uint32_t> p(&v, stride); CHECK(p.GetStride() == int(stride), "stride"); }); }
#endif
ENTRY(pimpl) { Nz::PrivateImpl<tr::E> p(nullptr); const bool twice = sym::pick("twice", 0, 1) != 0; if (twice) p.Emplace(uint8_t(1)); guarded(!twice, [&] { p.Emplace(uint8_t(2)); }); CHECK(p->get() == 2, "emplaced"); }
struct Assoc { using iterator = std::pair<uint8_t, uint8_t>*; std::pair<uint8_t, uint8_t> e[3]; auto begin() { return e; } auto end() { return e + 3; } auto end() const { return e + 3; } auto find(uint8_t k) { auto it = e; while (it != e + 3 && it->first != k) ++it; return it; } auto find(uint8_t k) const { auto it = e; while (it != e + 3 && it->first != k) ++it; return it; } };
ENTRY(retrieve)
{
	Assoc a{ { { sym_u8("k0"), 1 }, { sym_u8("k1"), 2 }, { sym_u8("k2"), 3 } } }; const Assoc& c = a; const uint8_t k = sym_u8("k"); const bool there = (a.e[0].first == k) | (a.e[1].first == k) | (a.e[2].first == k);
	if (sym::pick("const", 0, 1)) guarded(there, [&] { sym_note(Nz::Retrieve(c, k)); }); else guarded(there, [&] { sym_note(Nz::Retrieve(a, k)); });
}
template<typename T> void bitNumber()
{
	const T v = sym::any<T>("v"), bit = sym::any<T>("bit"); const bool ok = (bit >= 0) & (uint64_t(bit) < sizeof(T) * 8);
	switch (sym::pick("op", 0, 3))
	{
		case 0: guarded(ok, [&] { sym_note(uint64_t(Nz::SetBit(v, bit))); }); break;
		case 1: guarded(ok, [&] { sym_note(uint64_t(Nz::ClearBit(v, bit))); }); break;
		case 2: guarded(ok, [&] { sym_note(uint64_t(Nz::ToggleBit(v, bit))); }); break;
		case 3: guarded(ok, [&] { sym_note(uint64_t(Nz::TestBit(v, bit))); }); break;
	}
}
ENTRY(bitNumber_u8) { bitNumber<uint8_t>(); } ENTRY(bitNumber_u16) { bitNumber<uint16_t>(); } ENTRY(bitNumber_u32) { bitNumber<uint32_t>(); } ENTRY(bitNumber_u64) { bitNumber<uint64_t>(); }
template<typename T> bool isPow2(T v) { bool r = false; for (size_t i = 0; i < sizeof(T) * 8; ++i) r |= v == T(T(1) << i); return r; }
template<typename T> void alignment()
{
	const T a = sym::any<T>("a"); const T offset = T(sym::pick("offset", 0, 3)); const bool positive = a > 0;
	switch (sym::pick("op", 0, 2))
	{
		case 0: ASSUME(!positive | (a < T(100))); guarded(positive, [&] { sym_note(uint64_t(Nz::Align(offset, a))); }); break;
		case 1: ASSUME(!positive | (a < T(100))); guarded(positive & isPow2(a), [&] { sym_note(uint64_t(Nz::AlignPow2(offset, a))); }); break;
		case 2: guarded(a != 0, [&] { sym_note(Nz::IsPow2(a)); }); break;
	}
}
ENTRY(alignment_u8) { alignment<uint8_t>(); } ENTRY(alignment_u32) { alignment<uint32_t>(); } ENTRY(alignment_i32) { alignment<int32_t>(); } ENTRY(alignment_u64) { alignment<uint64_t>(); } ENTRY(alignment_i64) { alignment<int64_t>(); }
