// BOUNDS: every history of 6 (thorough 8) operations among connecting, disconnecting any connection (also a dead one), clearing and emitting, on at most 4 (5) slots at a time; every connection overload; arguments moved away by any slot while slots connect and disconnect; argument packs by value, by reference and of class type; symbolic argument values; 300 slots with any subset of six far apart ones disconnected
// ASSUMES: allocation succeeds; callbacks do not throw; no emission is nested in another emission of the same signal
#include "sym.hpp"
#include "track.hpp"
#include <NazaraUtils/Signal.hpp>
#include <utility>

using S = Nz::Signal<uint32_t, uint8_t>;
constexpr size_t Max = BOUND(6, 8);

ENTRY(histories)
{
	S s; S::Connection c[Max]; bool on[Max] = {}; uint32_t calls[Max] = {}; uint32_t got[Max] = {}; uint8_t got2[Max] = {}; size_t n = 0, live = 0;
	for (size_t k = 0; k < BOUND(6, 8); ++k)
	{
		switch (sym::pick("op", 0, 3))
		{
			case 0: { if (live == BOUND(4, 5)) return; const size_t id = n++; c[id] = s.Connect([&calls, &got, &got2, id](uint32_t a, uint8_t b) { calls[id]++; got[id] = a; got2[id] = b; }); on[id] = true; ++live; } break;
			case 1: { if (!n) return; const size_t id = sym::pick("disconnect", 0, n - 1); c[id].Disconnect(); if (on[id]) --live; on[id] = false; } break;
			case 2: s.Clear(); for (bool& b : on) b = false; live = 0; break;
			case 3: { const uint32_t a = sym_u32("a"); const uint8_t b = sym_u8("b"); for (uint32_t& x : calls) x = 0; s(a, b); for (size_t i = 0; i < n; ++i) { CHECK(calls[i] == on[i], "an emission calls exactly the connected slots, once each"); if (on[i]) { CHECK(got[i] == a, "the first argument"); CHECK(got2[i] == b, "the second argument"); } } } break;
		}
		for (size_t i = 0; i < Max; ++i) CHECK(c[i].IsConnected() == on[i], "a connection knows whether its slot is connected");
	}
	for (uint32_t& x : calls) x = 0; s(7, 8); for (size_t i = 0; i < n; ++i) CHECK(calls[i] == on[i], "the last emission calls exactly the connected slots"); sym_note(live);
}

struct Receiver
{
	uint32_t sum = 0; mutable uint32_t csum = 0; uint32_t mult = 1;
	void on(uint32_t a, uint8_t b) { sum = sum * 3 + a * mult + b; }
	void onConst(uint32_t a, uint8_t b) const { csum = csum * 3 + a * mult + b; }
};
static uint32_t freeSum;
static void freeFunction(uint32_t a, uint8_t b) { freeSum = freeSum * 3 + a + b; }

// every way of connecting behaves alike: called with the arguments, disconnected alone
ENTRY(overloads)
{
	Receiver r[4]; for (size_t i = 0; i < 4; ++i) r[i].mult = uint32_t(i + 1); freeSum = 0;
	S s; S::Connection c[7]; uint32_t lambdaSum = 0;
	const S::Callback kept = [&](uint32_t a, uint8_t b) { lambdaSum = lambdaSum * 3 + a * 5 + b; };
	c[0] = s.Connect(r[0], &Receiver::on); c[1] = s.Connect(&r[1], &Receiver::on);
	c[2] = s.Connect(std::as_const(r[2]), &Receiver::onConst); const Receiver* p = &r[3]; c[3] = s.Connect(p, &Receiver::onConst);
	c[4] = s.Connect(kept); c[5] = s.Connect(&freeFunction); c[6].Connect(s, r[0], &Receiver::on);
	bool on[7]; for (bool& b : on) b = true; const size_t dead = sym::pick("disconnected", 0, 7); if (dead < 7) { c[dead].Disconnect(); on[dead] = false; }
	const uint32_t a = sym_u32("a"); const uint8_t b = sym_u8("b"); s(a, b);
	const uint32_t once = a + b; CHECK(r[0].sum == (on[0] & on[6] ? once * 3 + once : once), "a member function of a reference"); CHECK(r[1].sum == (on[1] ? a * 2 + b : 0), "a member function of a pointer");
	CHECK(r[2].csum == (on[2] ? a * 3 + b : 0), "a const member function of a reference"); CHECK(r[3].csum == (on[3] ? a * 4 + b : 0), "a const member function of a pointer");
	CHECK(lambdaSum == (on[4] ? a * 5 + b : 0), "a copied callback"); CHECK(freeSum == (on[5] ? once : 0), "a free function"); CHECK(bool(kept), "connecting an lvalue leaves it usable");
	for (size_t i = 0; i < 7; ++i) CHECK(c[i].IsConnected() == on[i], "only the disconnected one is disconnected"); sym_note(dead);
}
// every slot receives the same arguments, whatever the previous ones did with theirs
ENTRY(arguments)
{
	Nz::Signal<tr::E, uint32_t&> s; const uint8_t x = sym_u8("x"); uint32_t target = sym_u32("target"); const uint32_t start = target; uint32_t seen = 0; const size_t n = sym::pick("slots", 1, 4); const uint32_t* address = &target;
	for (size_t i = 0; i < n; ++i) s.Connect([&](tr::E e, uint32_t& t) { CHECK(e.get() == x, "each slot receives the argument"); tr::E stolen(std::move(e)); CHECK(&t == address, "references are passed along"); t++; ++seen; });
	{ tr::E e(x); s(e, target); CHECK(e.get() == x, "the argument of the caller is unchanged"); s(std::move(e), target); }
	CHECK(seen == 2 * n, "every slot is called once per emission"); CHECK(target == uint32_t(start + 2 * n), "slots act on the referred object"); CHECK(tr::alive == 0, "no argument outlives the emission"); sym_note(n);
}
ENTRY(member_arguments)
{
	struct R { uint8_t sum = 0; void take(tr::E e) { tr::E in(std::move(e)); sum = uint8_t(sum * 2 + in.get()); } void takeConst(tr::E e) const { tr::E in(std::move(e)); const_cast<R*>(this)->sum = uint8_t(sum * 2 + in.get()); } } r, q;
	Nz::Signal<tr::E> s; s.Connect(r, &R::take); s.Connect(&r, &R::take); s.Connect(std::as_const(q), &R::takeConst); s.Connect(static_cast<const R*>(&q), &R::takeConst); const uint8_t x = sym_u8("x");
	{ tr::E e(x); s(e); CHECK(e.get() == x, "the argument of the caller is unchanged"); } CHECK(r.sum == uint8_t(x * 3), "members receive the value"); CHECK(q.sum == uint8_t(x * 3), "const members receive the value"); CHECK(tr::alive == 0, "no argument outlives the emission");
}
// a slot's callback lives exactly as long as it is connected
ENTRY(callback_lifetime)
{
	{
		Nz::Signal<> s; Nz::Signal<>::Connection c[3]; uint32_t sum = 0; size_t live = sym::pick("slots", 1, 3); const size_t n = live;
		for (size_t i = 0; i < n; ++i) { tr::E e{uint8_t(i + 1)}; c[i] = s.Connect([e, &sum] { sum += e.get(); }); } CHECK(size_t(tr::alive) == n, "each slot keeps its callback");
		const size_t d = sym::pick("disconnected", 0, n - 1); c[d].Disconnect(); --live; CHECK(size_t(tr::alive) == live, "a disconnected slot releases its callback"); s(); CHECK(sum == n * (n + 1) / 2 - (d + 1), "the other slots are called");
		if (sym::pick("clear", 0, 1)) { s.Clear(); CHECK(tr::alive == 0, "a cleared signal releases its callbacks"); } sym_note(d);
	}
	CHECK(tr::alive == 0, "a destroyed signal releases its callbacks");
}
// more slots than fit inline, in one go, then disconnected in any order
ENTRY(disconnect_order)
{
	constexpr size_t N = BOUND(4, 5); Nz::Signal<> s; Nz::Signal<>::Connection c[N]; bool on[N]; uint32_t calls[N];
	for (size_t i = 0; i < N; ++i) { c[i] = s.Connect([&calls, i] { calls[i]++; }); on[i] = true; }
	const bool emitted = sym::pick("emitted before", 0, 1); if (emitted) s();
	for (size_t k = 0; k < N; ++k)
	{
		size_t left = sym::pick("which", 0, N - 1 - k), i = 0; for (;; ++i) if (on[i] && left-- == 0) break; c[i].Disconnect(); on[i] = false;
		for (uint32_t& x : calls) x = 0; s(); for (size_t j = 0; j < N; ++j) { CHECK(calls[j] == on[j], "an emission calls exactly the connected slots, once each"); CHECK(c[j].IsConnected() == on[j], "connections know their state"); }
	}
}
// slots connect and disconnect others while they are called: whoever is called, and whenever, receives the emitted arguments
ENTRY(arguments_while_changing)
{
	{
		Nz::Signal<tr::E, uint32_t> s; using C = Nz::Signal<tr::E, uint32_t>::Connection; const uint8_t x = sym_u8("x"); const uint32_t y = sym_u32("y"); const size_t n = sym::pick("slots", 1, 3); C c[8]; size_t total = n, calls = 0;
		const size_t actor = sym::pick("actor", 0, n - 1), action = sym::pick("action", 0, 2), target = sym::pick("target", 0, n - 1); bool acted = false;
		for (size_t i = 0; i < n; ++i) c[i] = s.Connect([&, i](tr::E e, uint32_t v)
		{
			CHECK(e.get() == x, "each slot receives the argument"); CHECK(v == y, "each slot receives the second argument"); ++calls; tr::E stolen(std::move(e));
			if (i != actor || acted) return; acted = true;
			if (action != 0) c[target].Disconnect();
			if (action != 1) for (int k = 0; k < 2; ++k) c[total++] = s.Connect([&](tr::E e, uint32_t v) { CHECK(e.get() == x, "a new slot receives the argument"); CHECK(v == y, "a new slot receives the second argument"); tr::E stolen(std::move(e)); });
		});
		s(tr::E(x), y); CHECK(calls <= n, "no slot is called twice"); tr::E again(x); s(again, y); CHECK(again.get() == x, "the argument of the caller is unchanged"); sym_note(calls);
	}
	CHECK(tr::alive == 0, "no argument or callback outlives the signal");
}
// hundreds of slots, a few far apart ones disconnected in any combination
ENTRY(many_slots)
{
	Nz::Signal<uint32_t> s; constexpr size_t N = 300; Nz::Signal<uint32_t>::Connection c[N]; uint32_t calls[N] = {}; bool on[N]; const uint32_t x = sym_u32("x");
	for (size_t i = 0; i < N; ++i) { c[i] = s.Connect([&calls, i, x](uint32_t v) { CHECK(v == x, "the argument"); calls[i]++; }); on[i] = true; }
	if (sym::pick("emitted before", 0, 1)) { s(x); for (uint32_t& n : calls) n = 0; } const size_t t[] = { 0, 1, 254, 255, 256, 299 }; for (size_t w : t) if (sym::any<bool>("off")) { c[w].Disconnect(); on[w] = false; }
	s(x); for (size_t i = 0; i < N; ++i) { CHECK(calls[i] == on[i], "an emission calls exactly the connected slots, once each"); CHECK(c[i].IsConnected() == on[i], "connections know their state"); } sym_note(calls[0]);
}
