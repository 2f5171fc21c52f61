// BOUNDS: every content, offset and key within buffers of 64 bytes, association lists and a map-like container of up to 4 entries with symbolic keys, arrays of 1..9 elements, containers of 0..6; unique pointers over a tracked hierarchy
// ASSUMES: offsets designate an object of the type asked for; the key is present, as required
// VARIANT: run
// VARIANT: run20 std=c++20
#include "sym.hpp"
#include "track.hpp"
#include <NazaraUtils/Algorithm.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/MemoryHelper.hpp>
#include <NazaraUtils/OffsetOf.hpp>
#include <array>
#include <map>
#include <memory>
#include <type_traits>
#include <vector>

// ---- offsets
template<typename T> static void access()
{
	alignas(16) uint8_t buf[64]; uint8_t m[64]; for (size_t i = 0; i < 64; ++i) buf[i] = m[i] = uint8_t(i * 37 + 11); const size_t off = sym::pick("offset", 0, 64 / sizeof(T) - 1) * sizeof(T);
	const T x = sym::any<T>("x"); void* base = buf; const void* cbase = buf;
	decltype(auto) r = Nz::AccessByOffset<T&>(base, off); static_assert(std::is_same_v<decltype(r), T&>); CHECK(static_cast<void*>(&r) == buf + off, "a reference to the object at the offset");
	decltype(auto) c = Nz::AccessByOffset<const T&>(cbase, off); static_assert(std::is_same_v<decltype(c), const T&>); CHECK(static_cast<const void*>(&c) == buf + off, "a reference to the object at the offset");
	auto p = Nz::AccessByOffset<T*>(base, off); static_assert(std::is_same_v<decltype(p), T*>); CHECK(static_cast<void*>(p) == buf + off, "a pointer to the object at the offset"); auto cp = Nz::AccessByOffset<const T*>(cbase, off); static_assert(std::is_same_v<decltype(cp), const T*>); CHECK(static_cast<const void*>(cp) == buf + off, "a pointer to the object at the offset");
	CHECK(&Nz::AccessByOffset<const T&>(base, off) == cp, "const access of modifiable memory"); T old; std::memcpy(&old, m + off, sizeof(T)); CHECK(std::memcmp(&c, &old, sizeof(T)) == 0, "reading");
	r = x; T got; std::memcpy(&got, buf + off, sizeof(T)); CHECK(got == x, "writing writes that object"); CHECK(c == x, "reading"); for (size_t i = 0; i < 64; ++i) CHECK(((i >= off) & (i < off + sizeof(T))) | (buf[i] == m[i]), "and nothing else"); sym_note(got);
}
ENTRY(access_u8) { access<uint8_t>(); }
ENTRY(access_u16) { access<uint16_t>(); }
ENTRY(access_u32) { access<uint32_t>(); }
ENTRY(access_u64) { access<uint64_t>(); }
ENTRY(access_any) // any base and any offset, also beyond 32 bits
{
	const uint64_t base = sym_u64("base"); const uint64_t off = sym_u64("offset"); ASSUME((base < (uint64_t(1) << 47)) & (off < (uint64_t(1) << 47))); void* p = reinterpret_cast<void*>(base); const void* c = p;
	CHECK(reinterpret_cast<uint64_t>(Nz::AccessByOffset<uint8_t*>(p, off)) == base + off, "pointer"); CHECK(reinterpret_cast<uint64_t>(Nz::AccessByOffset<const uint8_t*>(c, off)) == base + off, "const pointer"); CHECK(reinterpret_cast<uint64_t>(&Nz::AccessByOffset<uint8_t&>(p, off)) == base + off, "reference"); CHECK(reinterpret_cast<uint64_t>(&Nz::AccessByOffset<const uint8_t&>(c, off)) == base + off, "const reference");
}
struct Plain { uint8_t a; uint32_t b; uint16_t c[3]; uint64_t d; void* e; uint8_t f; };
ENTRY(member)
{
	Plain s{}; const uint32_t x = sym_u32("x"); CHECK(NazaraOffsetOf(Plain, a) == offsetof(Plain, a), "offset"); CHECK(NazaraOffsetOf(Plain, b) == offsetof(Plain, b), "offset"); CHECK(NazaraOffsetOf(Plain, d) == offsetof(Plain, d), "offset"); CHECK(NazaraOffsetOf(Plain, e) == offsetof(Plain, e), "offset"); CHECK(NazaraOffsetOf(Plain, f) == offsetof(Plain, f), "offset");
	Nz::AccessByOffset<uint32_t&>(static_cast<void*>(&s), NazaraOffsetOf(Plain, b)) = x; CHECK((s.b == x) & (s.a == 0) & (s.c[0] == 0) & (s.d == 0) & (s.f == 0), "the member designated"); s.d = 7; CHECK(*Nz::AccessByOffset<uint64_t*>(static_cast<void*>(&s), offsetof(Plain, d)) == 7, "the member designated");
}
// ---- keyed retrieval
struct Assoc // an association list with the interface of a map, searched without knowing the order
{
	struct Item { uint16_t first; uint32_t second; }; Item items[4]; size_t n = 0;
	Item* begin() { return items; } Item* end() { return items + n; } const Item* begin() const { return items; } const Item* end() const { return items + n; }
	Item* find(uint16_t k) { for (size_t i = 0; i < n; ++i) if (items[i].first == k) return items + i; return items + n; }
	const Item* find(uint16_t k) const { for (size_t i = 0; i < n; ++i) if (items[i].first == k) return items + i; return items + n; }
};
ENTRY(retrieve)
{
	Assoc a; a.n = sym::pick("count", 1, 4); for (size_t i = 0; i < a.n; ++i) { a.items[i] = {sym_u16("key"), sym_u32("value")}; for (size_t j = 0; j < i; ++j) ASSUME(a.items[i].first != a.items[j].first); }
	const size_t i = sym::pick("which", 0, a.n - 1); const uint16_t k = a.items[i].first; const uint32_t v = a.items[i].second; const Assoc& c = a;
	auto& r = Nz::Retrieve(a, k); static_assert(std::is_same_v<decltype(r), uint32_t&>); CHECK(&r == &a.items[i].second, "the element stored under the key"); auto& cr = Nz::Retrieve(c, k); static_assert(std::is_same_v<decltype(cr), const uint32_t&>); CHECK(&cr == &a.items[i].second, "the element stored under the key"); CHECK(cr == v, "content"); r = 5; for (size_t j = 0; j < a.n; ++j) CHECK((j == i) == (&a.items[j].second == &r), "one element"); CHECK(cr == 5, "writing writes that element"); sym_note(v);
}
struct PairMap // the standard map, without its out-of-line tree balancing
{
	std::vector<std::pair<const uint32_t, tr::E>> v; using It = std::vector<std::pair<const uint32_t, tr::E>>::iterator; using CIt = std::vector<std::pair<const uint32_t, tr::E>>::const_iterator;
	It find(uint32_t k) { It i = v.begin(); while (i != v.end() && i->first != k) ++i; return i; } CIt find(uint32_t k) const { CIt i = v.begin(); while (i != v.end() && i->first != k) ++i; return i; }
	It end() { return v.end(); } CIt end() const { return v.end(); }
};
ENTRY(retrieve_tracked)
{
	{
		PairMap m; m.v.reserve(3); const uint8_t x = sym_u8("x"); const uint32_t k = sym_u32("key"); ASSUME((k != 1) & (k != 2)); m.v.emplace_back(1, tr::E(10)); const size_t mid = sym::pick("position", 0, 1); if (mid) m.v.emplace_back(k, tr::E(x)); m.v.emplace_back(2, tr::E(20)); if (!mid) m.v.emplace_back(k, tr::E(x));
		CHECK(Nz::Retrieve(m, k).get() == x, "the element stored under the key"); const PairMap& c = m; CHECK(Nz::Retrieve(c, k).get() == x, "the element stored under the key"); CHECK(Nz::Retrieve(c, 1u).get() == 10, "another key"); Nz::Retrieve(m, 2u) = tr::E(30); CHECK(Nz::Retrieve(c, 2u).get() == 30, "writing writes that element"); CHECK(tr::alive == 3, "nothing is copied");
	}
	CHECK(tr::alive == 0, "elements are destroyed");
}
// ---- unique pointers
static uint32_t deleted;
struct B { uint32_t n; tr::E e; explicit B(uint32_t x) : n(x), e(uint8_t(x)) {} virtual ~B() { ++deleted; } virtual uint32_t id() const { return 1; } };
struct Pad { uint64_t pad = 3; virtual ~Pad() = default; };
struct D : Pad, B { uint32_t extra; explicit D(uint32_t x) : B(x), extra(x + 1) {} uint32_t id() const override { return 2; } };
ENTRY(unique)
{
	{
		deleted = 0; const uint32_t x = sym_u32("x"); auto d = std::make_unique<D>(x); D* raw = d.get();
		std::unique_ptr<B> b = Nz::StaticUniquePointerCast<B>(std::move(d)); CHECK(!d, "ownership leaves the source"); CHECK(b.get() == static_cast<B*>(raw), "the pointer is converted"); CHECK(b->n == x, "the same object"); CHECK((deleted == 0) & (tr::alive == 1), "nothing is destroyed or duplicated"); CHECK(b->id() == 2, "the same object");
		std::unique_ptr<D> back = Nz::StaticUniquePointerCast<D>(std::move(b)); CHECK(!b, "ownership leaves the source"); CHECK(back.get() == raw, "forth and back is the identity"); CHECK(back->extra == x + 1, "the same object"); CHECK((deleted == 0) & (tr::alive == 1), "nothing is destroyed or duplicated");
		std::unique_ptr<const D> k = Nz::StaticUniquePointerCast<const D>(std::move(back)); CHECK((k.get() == raw) & !back, "a conversion to const");
		std::unique_ptr<D> none; std::unique_ptr<B> nb = Nz::StaticUniquePointerCast<B>(std::move(none)); CHECK(!nb, "an empty pointer stays empty"); std::unique_ptr<D> nd = Nz::StaticUniquePointerCast<D>(std::move(nb)); CHECK(!nd, "an empty pointer stays empty");
		if (sym::pick("early", 0, 1)) { k.reset(); CHECK((deleted == 1) & (tr::alive == 0), "the owner destroys the object"); }
		Nz::StaticUniquePointerCast<D>(std::make_unique<D>(x)); // a discarded result destroys the object
	}
	CHECK(deleted == 2, "each object is destroyed once"); CHECK(tr::alive == 0, "each object is destroyed");
}
// ---- counts
template<typename T, size_t N> static void count() { T a[N]; const T c[N] = {}; CHECK(Nz::CountOf(a) == N, "elements of an array"); CHECK(Nz::CountOf(c) == N, "elements of a const array"); static_assert(Nz::CountOf(std::array<T, N>()) == N, "elements of a container"); T m[N][3]; CHECK(Nz::CountOf(m) == N, "elements of an array of arrays"); CHECK(Nz::CountOf(m[0]) == 3, "elements of an array of arrays"); }
ENTRY(counts)
{
	count<uint16_t, 1>(); count<uint32_t, 2>(); count<Plain, 5>(); count<uint8_t, 9>(); const size_t n = sym::pick("count", 0, 6); std::vector<uint32_t> v(n); CHECK(Nz::CountOf(v) == n, "elements of a container"); Nz::FixedVector<uint32_t, 6> f(n); CHECK(Nz::CountOf(f) == n, "elements of a container");
	struct Sized { uint64_t n; constexpr size_t size() const { return n; } }; const uint64_t any = sym_u64("size"); CHECK(Nz::CountOf(Sized{any}) == any, "any size"); sym_note(any);
}
// ---- placement
struct Args { tr::E a; uint32_t b; uint32_t* c; Args(const tr::E& x, uint32_t y, uint32_t& z) : a(x), b(y), c(&z) {} Args(tr::E&& x, uint32_t y, uint32_t& z) : a(std::move(x)), b(y + 1), c(&z) {} };
ENTRY(placement)
{
	alignas(16) uint8_t buf[96]; for (auto& v : buf) v = 0x5A; const uint8_t x = sym_u8("x"); const uint32_t y = sym_u32("y"); uint32_t z = 0; const size_t at = sym::pick("slot", 0, 2) * sizeof(Args); Args* p = reinterpret_cast<Args*>(buf + at); CHECK(tr::alive == 0, "start");
	{
		tr::E e(x); Args* r = nullptr; const size_t how = sym::pick("how", 0, 3); if (how == 0) r = Nz::PlacementNew(p, e, y, z); if (how == 1) r = Nz::PlacementNew(p, std::move(e), y, z); if (how >= 2) { const Args src(e, y, z); r = how == 2 ? Nz::PlacementNew(p, src) : Nz::PlacementNew(p, Args(e, y, z)); }
		CHECK(r == p, "construction acts on the storage given"); CHECK(tr::alive == 2, "exactly one construction"); CHECK(p->a.get() == x, "arguments are passed on"); CHECK(p->b == (how == 1 ? y + 1 : y), "arguments are passed on"); CHECK(p->c == &z, "references are passed on"); CHECK(e.moved == (how == 1), "only an rvalue is moved");
		for (size_t i = 0; i < sizeof(buf); ++i) CHECK(((i >= at) & (i < at + sizeof(Args))) | (buf[i] == 0x5A), "the storage around is left alone");
	}
	CHECK(tr::alive == 1, "the object lives"); Nz::PlacementDestroy(p); CHECK(tr::alive == 0, "exactly one destruction"); Nz::PlacementDestroy(static_cast<Args*>(nullptr)); CHECK(tr::alive == 0, "a null pointer is left alone");
	tr::E* q = reinterpret_cast<tr::E*>(buf); Nz::PlacementNew(q); CHECK((q->get() == 0) & (tr::alive == 1), "default construction"); Nz::PlacementDestroy(q); CHECK(tr::alive == 0, "exactly one destruction"); uint32_t* u = reinterpret_cast<uint32_t*>(buf + 32); CHECK(*Nz::PlacementNew(u, y) == y, "a plain object"); CHECK(*Nz::PlacementNew(u) == 0, "value construction"); Nz::PlacementDestroy(u);
}
ENTRY(placement_throw)
{
	alignas(16) uint8_t buf[16]; tr::X* p = reinterpret_cast<tr::X*>(buf); tr::countdown = 0; bool threw = false; try { Nz::PlacementNew(p, uint8_t(1)); } catch (const tr::Failure&) { threw = true; } CHECK(threw, "exceptions pass through"); CHECK(tr::alive == 0, "nothing was constructed"); tr::countdown = -1; Nz::PlacementNew(p, uint8_t(2)); CHECK(p->get() == 2, "the storage can be used again"); Nz::PlacementDestroy(p); CHECK(tr::alive == 0, "destroyed");
}
// ---- enum values
enum class E8 : uint8_t {}; enum class EI8 : int8_t {}; enum E16 : int16_t {}; enum class E64 : uint64_t {}; enum class EI32 {};
template<typename En> static void underlying() { using U = std::underlying_type_t<En>; const U x = sym::any<U>("x"); auto r = Nz::UnderlyingCast(static_cast<En>(x)); static_assert(std::is_same_v<decltype(r), U>); CHECK(r == x, "the value of the enum"); sym_note(uint64_t(r)); }
ENTRY(underlying_u8) { underlying<E8>(); }
ENTRY(underlying_i8) { underlying<EI8>(); }
ENTRY(underlying_i16) { underlying<E16>(); }
ENTRY(underlying_u64) { underlying<E64>(); }
ENTRY(underlying_i32) { underlying<EI32>(); }
