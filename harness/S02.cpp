// BOUNDS: 1..4 slots (thorough 1..5); one acting slot doing 3 actions (thorough 4), or two acting slots doing one action each, among: disconnecting any slot (itself included), clearing, connecting a new slot, disconnecting the new slot, moving the connections around, or two actions and an exception leaving the emission; then another emission and another connection; 280 slots, one of six far apart ones disconnecting itself, another or both
// ASSUMES: allocation succeeds; no emission is nested in another emission of the same signal; the signal itself is not moved or destroyed by its slots
#include "sym.hpp"
#include "track.hpp"
#include <NazaraUtils/Signal.hpp>

using S = Nz::Signal<>;
constexpr size_t Max = BOUND(5, 6), Extra = 3, Total = Max + Extra;

struct Stop {};
struct World
{
	S s; S::Connection c[Total]; size_t n = 0;
	bool on[Total] = {}, during[Total] = {}, newly[Total] = {}; uint32_t calls[Total] = {};
	size_t action[Total][4]; size_t actions[Total] = {}; bool emitting = false; size_t thrower = Total;

	void connect() { const size_t id = n++; tr::E tag{uint8_t(id)}; c[id] = s.Connect([this, tag, id] { called(tag, id); }); on[id] = true; newly[id] = emitting; }
	void off(size_t i) { on[i] = false; during[i] = false; }
	void called(const tr::E& tag, size_t id)
	{
		CHECK(tag.get() == id, "the callback is alive while it runs"); CHECK(on[id], "a disconnected slot is not called"); calls[id]++;
		const size_t count = actions[id]; actions[id] = 0; // acts once
		for (size_t k = 0; k < count; ++k)
		{
			const size_t a = action[id][k];
			if (a < Max) { if (a < n) { c[a].Disconnect(); off(a); CHECK(!c[a].IsConnected(), "a disconnected connection knows it"); } }
			else if (a == Max) { s.Clear(); for (size_t i = 0; i < n; ++i) off(i); }
			else if (a == Max + 1) { if (n < Total) connect(); }
			else { if (newly[n - 1]) { c[n - 1].Disconnect(); off(n - 1); } }
			CHECK(tag.get() == id, "the callback is alive until it returns");
		}
		if (thrower == id) { thrower = Total; throw Stop{}; }
	}
	// an emission left by the exception of a slot
	void emitThrowing(size_t who)
	{
		for (size_t i = 0; i < Total; ++i) { calls[i] = 0; newly[i] = false; }
		thrower = who; emitting = true; bool thrown = false; try { s(); } catch (...) { thrown = true; } emitting = false;
		CHECK(thrown == (calls[who] == 1), "the exception of a slot leaves the emission"); thrower = Total;
		for (size_t i = 0; i < n; ++i) { CHECK(calls[i] <= 1, "no slot is called twice"); CHECK(c[i].IsConnected() == on[i], "connections know their state"); }
		size_t live = 0; for (size_t i = 0; i < n; ++i) live += on[i]; CHECK(size_t(tr::alive) == live, "exactly the callbacks of the connected slots are alive");
	}
	void emit()
	{
		for (size_t i = 0; i < Total; ++i) { calls[i] = 0; during[i] = on[i]; newly[i] = false; }
		emitting = true; s(); emitting = false;
		for (size_t i = 0; i < n; ++i)
		{
			if (during[i]) CHECK(calls[i] == 1, "a slot connected during the whole emission is called once"); else CHECK(calls[i] <= 1, "no slot is called twice");
			CHECK(c[i].IsConnected() == on[i], "connections know their state");
		}
		size_t live = 0; for (size_t i = 0; i < n; ++i) live += on[i]; CHECK(size_t(tr::alive) == live, "exactly the callbacks of the connected slots are alive");
	}
};
static size_t pickAction(size_t n) { const size_t a = sym::pick("action", 0, n + 2); return a < n ? a : Max + (a - n); }
static void after(World& w)
{
	w.emit(); if (w.n < Total) w.connect(); w.emit();
	const size_t d = sym::pick("disconnected afterwards", 0, w.n - 1); w.c[d].Disconnect(); w.off(d); w.emit();
}
ENTRY(H_one_actor)
{
	{
		World w; const size_t n = sym::pick("slots", 1, BOUND(4, 5)); for (size_t i = 0; i < n; ++i) w.connect(); if (sym::pick("emitted before", 0, 1)) w.emit();
		const size_t actor = sym::pick("actor", 0, n - 1); w.actions[actor] = BOUND(3, 4); for (size_t k = 0; k < BOUND(3, 4); ++k) w.action[actor][k] = pickAction(n);
		w.emit(); after(w); sym_note(actor);
	}
	CHECK(tr::alive == 0, "no callback outlives the signal");
}
ENTRY(H_two_actors)
{
	{
		World w; const size_t n = sym::pick("slots", 2, BOUND(4, 5)); for (size_t i = 0; i < n; ++i) w.connect();
		const size_t a = sym::pick("first actor", 0, n - 2), b = sym::pick("second actor", a + 1, n - 1); w.actions[a] = w.actions[b] = 1; w.action[a][0] = pickAction(n); w.action[b][0] = pickAction(n);
		w.emit(); after(w); sym_note(a);
	}
	CHECK(tr::alive == 0, "no callback outlives the signal");
}
// a slot acts, then throws: the exception ends the emission and later ones are complete
ENTRY(H_throwing)
{
	{
		World w; const size_t n = sym::pick("slots", 1, BOUND(4, 5)); for (size_t i = 0; i < n; ++i) w.connect();
		const size_t actor = sym::pick("actor", 0, n - 1); w.actions[actor] = sym::pick("actions", 0, 2); for (size_t k = 0; k < w.actions[actor]; ++k) w.action[actor][k] = pickAction(n);
		w.emitThrowing(actor);
		const size_t then = sym::pick("then", 0, 2); if (then == 1 && w.n < Total) w.connect(); else if (then == 2) { const size_t d = sym::pick("disconnected", 0, w.n - 1); w.c[d].Disconnect(); w.off(d); }
		after(w); sym_note(actor);
	}
	CHECK(tr::alive == 0, "no callback outlives the signal");
}
// every slot disconnects itself (a one-shot slot) or not, over two emissions
ENTRY(one_shots)
{
	{
		World w; const size_t n = sym::pick("slots", 1, BOUND(5, 6)); for (size_t i = 0; i < n; ++i) { w.connect(); if (sym::pick("one-shot", 0, 1)) { w.actions[i] = 1; w.action[i][0] = i; } }
		w.emit(); w.emit(); sym_note(n);
	}
	CHECK(tr::alive == 0, "no callback outlives the signal");
}
// slots connect and disconnect others while they are called: whoever is called, and whenever, receives the emitted arguments
ENTRY(arguments_while_changing)
{
	{
		Nz::Signal<tr::E, uint32_t> s; using C = Nz::Signal<tr::E, uint32_t>::Connection; const uint8_t x = sym_u8("x"); const uint32_t y = sym_u32("y"); const size_t n = sym::pick("slots", 1, 3); C c[8]; size_t total = n, calls = 0;
		const size_t actor = sym::pick("actor", 0, n - 1), action = sym::pick("action", 0, 2), target = sym::pick("target", 0, n - 1); bool acted = false;
		for (size_t i = 0; i < n; ++i) c[i] = s.Connect([&, i](tr::E e, uint32_t v)
		{
			CHECK(e.get() == x, "each slot receives the argument"); CHECK(v == y, "each slot receives the second argument"); ++calls; tr::E stolen(std::move(e));
			if (i != actor || acted) return; acted = true;
			if (action != 0) c[target].Disconnect();
			if (action != 1) for (int k = 0; k < 2; ++k) c[total++] = s.Connect([&](tr::E e, uint32_t v) { CHECK(e.get() == x, "a new slot receives the argument"); CHECK(v == y, "a new slot receives the second argument"); tr::E stolen(std::move(e)); });
		});
		s(tr::E(x), y); CHECK(calls <= n, "no slot is called twice"); tr::E again(x); s(again, y); CHECK(again.get() == x, "the argument of the caller is unchanged"); sym_note(calls);
	}
	CHECK(tr::alive == 0, "no argument or callback outlives the signal");
}
// hundreds of slots: one of them disconnects another
ENTRY(many_slots)
{
	Nz::Signal<> s; constexpr size_t N = 280; Nz::Signal<>::Connection c[N]; uint32_t calls[N] = {}; const size_t t[] = { 0, 1, 254, 255, 256, 279 }; const size_t actor = t[sym::pick("actor", 0, 5)], target = t[sym::pick("target", 0, 5)], action = sym::pick("action", 0, 2); bool gone = false;
	for (size_t i = 0; i < N; ++i) c[i] = s.Connect([&, i] { calls[i]++; if (i == actor && action != 0) c[i].Disconnect(); if (i == actor && action != 1) { c[target].Disconnect(); gone = true; } });
	s(); for (size_t i = 0; i < N; ++i) { if (action != 1 && i == target) CHECK(calls[i] <= 1, "at most once"); else CHECK(calls[i] == 1, "a slot connected during the whole emission is called once"); const bool off = (action != 0 && i == actor) || (action != 1 && i == target); CHECK(c[i].IsConnected() == !off, "connections know their state"); }
	s(); for (size_t i = 0; i < N; ++i) { const bool off = (action != 0 && i == actor) || (action != 1 && i == target); if (off) CHECK(calls[i] <= 1, "a disconnected slot is not called"); else CHECK(calls[i] == 2, "the others are"); } sym_note(gone);
}
