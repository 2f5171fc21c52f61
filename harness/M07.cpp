// BOUNDS: every value of each source type; pairs: all 64 pairs of integer types of 8 to 64 bits, float and double to every integer type, double to float, enumerations of 8 to 64 bits both ways; lvalues, rvalues and SafeCaster; pointers and references down a polymorphic hierarchy of three levels: every pair of dynamic type and target, null pointers, const, lvalues, rvalues, owning pointers
// ASSUMES: checked build (NAZARA_DEBUG without NDEBUG)
// VARIANT: debug NAZARA_DEBUG
#include "ints.hpp"
#include <NazaraUtils/Algorithm.hpp>
#include <cmath>

// true when To holds v, decided by mathematical comparison
template<typename To, typename From> bool fits(From v) { const i128 x = i128(v); return (x >= i128(std::numeric_limits<To>::min())) & (x <= i128(std::numeric_limits<To>::max())); }

template<typename To, typename From> void one()
{
	From v = sym::any<From>("v");
	const int how = int(sym::pick("how", 0, 3));
	const bool ok = fits<To>(v);
	sym_abort_ok(!ok);
	To r;
	if (how == 0) r = Nz::SafeCast<To>(v);
	else if (how == 1) r = Nz::SafeCast<To>(From(v));
	else if (how == 2) { const From c = v; r = Nz::SafeCast<To>(c); }
	else { r = Nz::SafeCaster(v); }
	sym_abort_never();
	CHECK(ok, "a value the target cannot represent fails the assertion");
	CHECK(i128(r) == i128(v), "the value is unchanged");
	sym_note(uint64_t(r));
}
#define ALLTO(F, n) \
	ENTRY(n##_i8) { one<int8_t, F>(); } ENTRY(n##_u8) { one<uint8_t, F>(); } ENTRY(n##_i16) { one<int16_t, F>(); } ENTRY(n##_u16) { one<uint16_t, F>(); } \
	ENTRY(n##_i32) { one<int32_t, F>(); } ENTRY(n##_u32) { one<uint32_t, F>(); } ENTRY(n##_i64) { one<int64_t, F>(); } ENTRY(n##_u64) { one<uint64_t, F>(); }
ALLTO(int8_t, i8) ALLTO(uint8_t, u8) ALLTO(int16_t, i16) ALLTO(uint16_t, u16) ALLTO(int32_t, i32) ALLTO(uint32_t, u32) ALLTO(int64_t, i64) ALLTO(uint64_t, u64)

// floating-point sources: only integral values in range are representable
template<typename F> struct Lay; template<> struct Lay<float> { using I = uint32_t; static constexpr int m = 23, bias = 127; static constexpr I e = 0xFF; }; template<> struct Lay<double> { using I = uint64_t; static constexpr int m = 52, bias = 1023; static constexpr I e = 0x7FF; };
// 1 when the float is integral, and its value in `out` when it is below 2^65 in magnitude; read from the bits of the number
template<typename F> bool integralValue(typename Lay<F>::I bits, i128& out)
{
	using L = Lay<F>; using I = typename L::I;
	const I ex = (bits >> L::m) & L::e; const I man = bits & ((I(1) << L::m) - 1);
	const bool neg = bits >> (sizeof(I) * 8 - 1); const int p = int(ex) - L::bias; // value = 1.man * 2^p
	const unsigned __int128 full = (unsigned __int128)(man | (I(1) << L::m));
	const bool zero = (ex == 0) & (man == 0), small = p < 0, big = p > 64; // big covers infinities and NaNs
	const int up = p > L::m ? (big ? 0 : p - L::m) : 0, down = p < L::m ? (small ? L::m : L::m - p) : 0;
	const unsigned __int128 whole = (full << up) >> down; const bool exact = ((whole << down) >> up) == full;
	out = neg ? -i128(whole) : i128(whole); if (zero) out = 0;
	return zero | (!small & !big & exact);
}
template<typename To, typename F> void onef()
{
	using I = typename Lay<F>::I;
	const I bits = sym::any<I>("bits"); F v; std::memcpy(&v, &bits, sizeof v);
	const int how = int(sym::pick("how", 0, 2));
	i128 x; const bool integral = integralValue<F>(bits, x);
	const bool ok = integral & (x >= i128(std::numeric_limits<To>::min())) & (x <= i128(std::numeric_limits<To>::max()));
	sym_abort_ok(!ok);
	To r;
	if (how == 0) r = Nz::SafeCast<To>(v);
	else if (how == 1) r = Nz::SafeCast<To>(F(v));
	else { r = Nz::SafeCaster(v); }
	sym_abort_never();
	CHECK(ok, "a number the target cannot represent fails the assertion");
	CHECK(i128(r) == x, "the value is unchanged");
	sym_note(uint64_t(r));
}
#define ALLTOF(F) \
	ENTRY(F##_i8) { onef<int8_t, F>(); } ENTRY(F##_u8) { onef<uint8_t, F>(); } ENTRY(F##_i16) { onef<int16_t, F>(); } ENTRY(F##_u16) { onef<uint16_t, F>(); } \
	ENTRY(F##_i32) { onef<int32_t, F>(); } ENTRY(F##_u32) { onef<uint32_t, F>(); } ENTRY(F##_i64) { onef<int64_t, F>(); } ENTRY(F##_u64) { onef<uint64_t, F>(); }
ALLTOF(float) ALLTOF(double)

ENTRY(double_float)
{
	const uint64_t bits = sym::any<uint64_t>("bits"); double v; std::memcpy(&v, &bits, 8); const bool lvalue = sym::pick("lvalue", 0, 1);
	const uint64_t a = bits & 0x7FFFFFFFFFFFFFFFull; const bool ok = a <= 0x47EFFFFFE0000000ull; // the largest float
	sym_abort_ok(!ok); const float r = lvalue ? Nz::SafeCast<float>(v) : Nz::SafeCast<float>(double(v)); sym_abort_never();
	CHECK(ok, "a number out of the range of float fails the assertion"); CHECK(std::abs(r) <= 3.402823466e38f, "the result is finite"); sym_note(r > 0);
}
ENTRY(float_double)
{
	const uint32_t bits = sym::any<uint32_t>("bits"); float v; std::memcpy(&v, &bits, 4); const bool ok = (bits & 0x7F800000u) != 0x7F800000u;
	sym_abort_ok(!ok); const double r = Nz::SafeCast<double>(v); sym_abort_never();
	CHECK(!ok | (r == double(v)), "the value is unchanged"); sym_note(r > 0);
}

enum class E8 : uint8_t {}; enum class Es8 : int8_t {}; enum class E16 : uint16_t {}; enum class E32 : uint32_t {}; enum class Es32 : int32_t {}; enum class E64 : uint64_t {};
template<typename En, typename I> void intToEnum()
{
	using Un = std::underlying_type_t<En>; I v = sym::any<I>("v"); const int how = int(sym::pick("how", 0, 2)); const bool ok = fits<Un>(v);
	sym_abort_ok(!ok); En r; if (how == 0) r = Nz::SafeCast<En>(v); else if (how == 1) r = Nz::SafeCast<En>(I(v)); else r = Nz::SafeCaster(v); sym_abort_never();
	CHECK(ok, "a value the enumeration cannot represent fails the assertion"); CHECK(i128(Un(r)) == i128(v), "the value is unchanged"); sym_note(uint64_t(r));
}
template<typename En, typename I> void enumToInt()
{
	using Un = std::underlying_type_t<En>; En v = En(sym::any<Un>("v")); const int how = int(sym::pick("how", 0, 2)); const bool ok = fits<I>(Un(v));
	sym_abort_ok(!ok); I r; if (how == 0) r = Nz::SafeCast<I>(v); else if (how == 1) r = Nz::SafeCast<I>(En(v)); else r = Nz::SafeCaster(v); sym_abort_never();
	CHECK(ok, "a value the target cannot represent fails the assertion"); CHECK(i128(r) == i128(Un(v)), "the value is unchanged"); sym_note(uint64_t(r));
}
#define ENUMS(En) ENTRY(to_##En##_i8) { intToEnum<En, int8_t>(); } ENTRY(to_##En##_u16) { intToEnum<En, uint16_t>(); } ENTRY(to_##En##_i32) { intToEnum<En, int32_t>(); } ENTRY(to_##En##_u32) { intToEnum<En, uint32_t>(); } ENTRY(to_##En##_i64) { intToEnum<En, int64_t>(); } ENTRY(to_##En##_u64) { intToEnum<En, uint64_t>(); } \
	ENTRY(from_##En##_i8) { enumToInt<En, int8_t>(); } ENTRY(from_##En##_u8) { enumToInt<En, uint8_t>(); } ENTRY(from_##En##_i32) { enumToInt<En, int32_t>(); } ENTRY(from_##En##_u32) { enumToInt<En, uint32_t>(); } ENTRY(from_##En##_u64) { enumToInt<En, uint64_t>(); } ENTRY(from_##En##_i64) { enumToInt<En, int64_t>(); }
ENUMS(E8) ENUMS(Es8) ENUMS(E16) ENUMS(E32) ENUMS(Es32) ENUMS(E64)
ENTRY(enum_enum)
{
	E16 v = E16(sym::any<uint16_t>("v")); const bool ok = uint16_t(v) <= 255;
	sym_abort_ok(!ok); const E8 r = Nz::SafeCast<E8>(v); sym_abort_never();
	CHECK(ok, "a value the enumeration cannot represent fails the assertion"); CHECK(uint16_t(r) == uint16_t(v), "the value is unchanged"); sym_note(uint64_t(r));
}
ENTRY(bool_i32) { one<int32_t, bool>(); } ENTRY(i32_bool) { one<bool, int32_t>(); } ENTRY(u8_bool) { one<bool, uint8_t>(); }

// pointers and references down a class hierarchy: the target represents the object when the object's own class derives from it
namespace
{
	struct Root { int id; explicit Root(int i) : id(i) {} virtual ~Root() = default; };
	struct Mid : Root { using Root::Root; };
	struct Leaf : Mid { using Mid::Mid; };
	struct Other : Root { using Root::Root; };
	Root* make(size_t kind, int id) { return kind == 0 ? new Root(id) : kind == 1 ? new Mid(id) : kind == 2 ? static_cast<Root*>(new Leaf(id)) : new Other(id); }
	template<typename T> bool isA(size_t kind) { return std::is_same_v<T, Root> || (std::is_same_v<T, Mid> && (kind == 1 || kind == 2)) || (std::is_same_v<T, Leaf> && kind == 2) || (std::is_same_v<T, Other> && kind == 3); }
	template<typename T> void down()
	{
		const size_t kind = sym::pick("kind", 0, 3), how = sym::pick("how", 0, 6); const int id = int(sym::any<uint32_t>("id"));
		std::unique_ptr<Root> o(make(kind, id)); Root* p = o.get(); Root* const cp = p; const Root* pc = p; bool same = false; int seen = 0;
		const bool ok = isA<T>(kind); sym_abort_ok(!ok);
		if (how == 0) { T* r = Nz::SafeCast<T*>(p); same = r == p; seen = r->id; }
		else if (how == 1) { T* r = Nz::SafeCast<T*>(o.get()); same = r == p; seen = r->id; }
		else if (how == 2) { T* r = Nz::SafeCast<T*>(cp); same = r == p; seen = r->id; }
		else if (how == 3) { const T* r = Nz::SafeCast<const T*>(pc); same = r == p; seen = r->id; }
		else if (how == 4) { T& r = Nz::SafeCast<T&>(*p); same = &r == p; seen = r.id; }
		else if (how == 5) { const T& r = Nz::SafeCast<const T&>(*pc); same = &r == p; seen = r.id; }
		else { std::unique_ptr<T> r = Nz::StaticUniquePointerCast<T>(std::move(o)); same = r.get() == p; seen = r->id; CHECK(!o, "the owner changed"); }
		sym_abort_never();
		CHECK(ok, "a cast to a class the object is not of fails the assertion"); CHECK(same, "the same object"); CHECK(seen == id, "its contents"); sym_note(uint64_t(uint32_t(seen)));
	}
}
ENTRY(down_root) { down<Root>(); }
ENTRY(down_mid) { down<Mid>(); }
ENTRY(down_leaf) { down<Leaf>(); }
ENTRY(down_other) { down<Other>(); }
ENTRY(null_pointers)
{
	Root* p = nullptr; const size_t how = sym::pick("how", 0, 2); const void* r = &p;
	if (how == 0) r = Nz::SafeCast<Leaf*>(p); else if (how == 1) r = Nz::SafeCast<Other*>(static_cast<Mid*>(nullptr) ? p : nullptr); else { std::unique_ptr<Root> o; r = Nz::StaticUniquePointerCast<Leaf>(std::move(o)).get(); }
	CHECK(r == nullptr, "null stays null"); sym_note(0);
}
