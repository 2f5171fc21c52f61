// BOUNDS: every condition value and message argument; NazaraAssert, NazaraAssertMsg, Assert and AssertWithSource with zero to three arguments; builds with assertions on (debug, or asked for in a release build) and off (release, or asked off)
// ASSUMES: no debugger resumes the program after the break raised by a failed assertion
// VARIANT: debug
// VARIANT: release_on NDEBUG NAZARA_ENABLE_ASSERTS
// VARIANT: release OFF NDEBUG
// VARIANT: debug_off OFF NAZARA_NO_ASSERT
// VARIANT: off_wins OFF NAZARA_NO_ASSERT NAZARA_ENABLE_ASSERTS
// VARIANT: debug20 std=c++20
#include "sym.hpp"
#include <NazaraUtils/Assert.hpp>
#include <type_traits>

#ifdef OFF
constexpr bool On = false;
#else
constexpr bool On = true;
#endif

static uint32_t evaluated, message;
static bool test(uint32_t v) { ++evaluated; return v != 0; }
static int arg(int v) { ++message; return v; }
static uint32_t elses;
// an assertion is one statement: it does not take the else of the statement around it
static void nested(bool outer, uint32_t v) { if (outer) NazaraAssert(test(v)); else ++elses; }
static void nestedMsg(bool outer, uint32_t v) { if (outer) NazaraAssertMsg(test(v), "nested %d", arg(1)); else ++elses; }

// the macros: with assertions on, execution goes on exactly when the condition is true; with assertions off nothing is evaluated
ENTRY(macros)
{
	const uint32_t v = sym_u32("v"); const int a = int(sym_u32("a")); evaluated = message = elses = 0; bool after = false; const size_t form = sym::pick("form", 0, 7);
	sym_abort_ok(On & (v == 0));
	switch (form)
	{
		case 0: NazaraAssert(test(v)); break;
		case 1: NazaraAssert(v); ++evaluated; break;
		case 2: NazaraAssertMsg(test(v), "message"); break;
		case 3: NazaraAssertMsg(test(v), "message %d", arg(a)); break;
		case 4: NazaraAssertMsg(test(v), "message %d %d %s", arg(a), arg(2), "text"); break;
		case 5: for (int i = 0; i < 3; ++i) NazaraAssert(test(v)); break;
		case 6: NazaraAssert(test(v) && v > 0); break;
		case 7: NazaraAssert(v == 0 ? false : test(v)); break;
	}
	after = true; sym_abort_never();
	if (On) { CHECK(v != 0, "execution does not go on after a false assertion"); CHECK(evaluated == (form == 5 ? 3u : 1u), "the condition is evaluated exactly once"); }
	else CHECK(evaluated == (form == 1 ? 1u : 0u), "a disabled assertion evaluates nothing");
	CHECK(message == 0, "the message is not evaluated unless the assertion fails"); CHECK(after, "execution goes on"); sym_note(evaluated);
}
ENTRY(statement)
{
	const bool outer = sym::any<bool>("outer"); const uint32_t v = sym_u32("v"); evaluated = message = elses = 0; const bool msg = sym::pick("msg", 0, 1) != 0;
	sym_abort_ok(On & outer & (v == 0)); if (msg) nestedMsg(outer, v); else nested(outer, v); sym_abort_never();
	CHECK(elses == !outer, "an assertion is a single statement"); CHECK(evaluated == (On && outer ? 1u : 0u), "the condition is evaluated exactly once when reached"); CHECK(message == 0, "no message");
	if (On) CHECK(!outer | (v != 0), "a false assertion stops"); sym_note(elses);
}
// the functions check in every build
ENTRY(functions)
{
	const bool ok = sym::any<bool>("ok"); const int a = int(sym_u32("a")); const size_t form = sym::pick("form", 0, 5);
	sym_abort_ok(!ok);
	switch (form)
	{
		case 0: Nz::Assert(ok); break;
		case 1: Nz::Assert(ok, "message"); break;
		case 2: Nz::Assert(ok, "message %d", a); break;
		case 3: Nz::AssertWithSource(ok, "file", 12, "message"); break;
		case 4: Nz::AssertWithSource(ok, "file", 12, "message %d", a); break;
		case 5: { const bool copy = ok; Nz::Assert(copy, "message %d %s", a, "text"); } break;
	}
	sym_abort_never(); CHECK(ok, "execution does not go on after a false assertion"); sym_note(form);
}
ENTRY(failures)
{
	const int a = int(sym_u32("a")); const size_t form = sym::pick("form", 0, 4); sym_abort_ok(1);
	switch (form)
	{
		case 0: Nz::AssertFailure(); break;
		case 1: Nz::AssertFailure("message"); break;
		case 2: Nz::AssertFailure("message %d", a); break;
		case 3: Nz::AssertFailureWithSource("file", 1, "message"); break;
		case 4: Nz::AssertFailureWithSource("file", 1, "message %d", a); break;
	}
	sym_abort_never(); CHECK(false, "a reported failure does not return");
}
#if __cplusplus >= 202002L
template<bool B> constexpr bool asserts() { NazaraAssert(B); return true; }
template<bool B> constexpr bool assertsMsg() { NazaraAssertMsg(B, "message %d", 1); return true; }
template<bool B> constexpr bool function() { Nz::Assert(B, "message"); return true; }
template<bool B> constexpr bool functionSource() { Nz::AssertWithSource(B, "file", 1, "message"); return true; }
template<bool B> concept Usable = requires { typename std::bool_constant<asserts<B>()>; }; template<bool B> concept UsableMsg = requires { typename std::bool_constant<assertsMsg<B>()>; };
template<bool B> concept UsableF = requires { typename std::bool_constant<function<B>()>; }; template<bool B> concept UsableS = requires { typename std::bool_constant<functionSource<B>()>; };
// in constant evaluation a true assertion is accepted and a false one is not a constant
ENTRY(constant)
{
	CHECK((Usable<true> & UsableMsg<true> & UsableF<true> & UsableS<true>), "a true assertion is a constant expression");
	CHECK((!UsableF<false> & !UsableS<false>), "a false assertion is no constant expression"); CHECK((!On | (!Usable<false> & !UsableMsg<false>)), "a false assertion is no constant expression");
	sym_note(1);
}
#endif
