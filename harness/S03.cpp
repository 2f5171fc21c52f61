// BOUNDS: two signals; every history of 3 (thorough 4) operations, from empty signals or from signals with three slots, among connecting through a guard or a connection, guard assignment from a connection (copied or moved), guard move construction and assignment (also to itself), connection copy and move (also to itself), disconnecting, guard destruction, signal copy and move construction and assignment (also to itself) and destruction; callbacks owning guards of the same signal for every teardown
// ASSUMES: allocation succeeds; callbacks do not throw
#include "sym.hpp"
#include "track.hpp"
#include <NazaraUtils/Signal.hpp>
#include <optional>

using S = Nz::Signal<>;
constexpr size_t Ids = 8, Conns = 2, Guards = 2;

// slots are numbered; where[i] is the signal (0 or 1) the slot is connected to, or -1
struct World
{
	std::optional<S> s[2]; std::optional<S::ConnectionGuard> g[Guards]; S::Connection c[Conns]; int where[Ids]; int gid[Guards], cid[Conns]; size_t n = 0; uint32_t calls[Ids];
	World() { s[0].emplace(); s[1].emplace(); for (auto& x : g) x.emplace(); for (int& w : where) w = -1; for (int& i : gid) i = -1; for (int& i : cid) i = -1; }
	S::Callback slot(int id) { tr::E tag{uint8_t(id)}; return [this, tag, id] { CHECK(tag.get() == id, "a living callback"); calls[id]++; }; }
	void off(int id) { if (id >= 0) where[id] = -1; }
	bool live(int id) const { return id >= 0 && where[id] >= 0; }
	void check()
	{
		size_t total = 0; for (size_t i = 0; i < n; ++i) total += where[i] >= 0; CHECK(size_t(tr::alive) == total, "exactly the connected slots own their callback");
		for (size_t k = 0; k < Guards; ++k) CHECK(g[k]->IsConnected() == live(gid[k]), "a guard knows whether its slot is connected");
		for (size_t k = 0; k < Conns; ++k) CHECK(c[k].IsConnected() == live(cid[k]), "a connection knows whether its slot is connected");
		for (int k = 0; k < 2; ++k) { for (uint32_t& x : calls) x = 0; (*s[k])(); for (size_t i = 0; i < n; ++i) CHECK(calls[i] == (where[i] == k), "an emission calls exactly the slots of its signal"); }
	}
};
static void transfer(World& w, int from, int to) { for (int& x : w.where) if (x == to) x = -1; for (int& x : w.where) if (x == from) x = to; }

ENTRY(H_histories)
{
	{
		World w;
		if (sym::pick("prepared", 0, 1)) // start from a connection and two guards on slots of both signals
		{
			w.c[0].Connect(*w.s[0], w.slot(0)); w.where[0] = 0; w.cid[0] = 0; w.g[0]->Connect(*w.s[0], w.slot(1)); w.where[1] = 0; w.gid[0] = 1; w.g[1]->Connect(*w.s[1], w.slot(2)); w.where[2] = 1; w.gid[1] = 2; w.n = 3;
		}
		for (size_t k = 0; k < BOUND(3, 4); ++k)
		{
			const size_t op = sym::pick("op", 0, 20); const int a = int(op & 1);
			if (op < 4) // 0..3: a connection or a guard connects to a signal (the guard releases its previous slot)
			{
				const int to = int(op >> 1), id = int(w.n++); if (a) { w.off(w.gid[0]); w.g[0]->Connect(*w.s[to], w.slot(id)); w.gid[0] = id; } else { w.c[0].Connect(*w.s[to], w.slot(id)); w.cid[0] = id; } w.where[id] = to;
			}
			else switch (op)
			{
				case 4: { const int id = int(w.n++); w.off(w.gid[1]); *w.g[1] = w.s[0]->Connect(w.slot(id)); w.where[id] = 0; w.gid[1] = id; } break; // a guard takes a temporary connection
				case 5: w.off(w.gid[0]); *w.g[0] = w.c[0]; w.gid[0] = w.cid[0]; break;
				case 6: w.off(w.gid[0]); *w.g[0] = std::move(w.c[0]); w.gid[0] = w.cid[0]; w.cid[0] = -1; break;
				case 7: w.off(w.gid[0]); *w.g[0] = std::move(*w.g[1]); w.gid[0] = w.gid[1]; w.gid[1] = -1; break;
				case 8: { S::ConnectionGuard& self = *w.g[0]; *w.g[0] = std::move(self); } break;
				case 9: { S::ConnectionGuard t(std::move(*w.g[0])); CHECK(!w.g[0]->IsConnected(), "a moved guard holds nothing"); CHECK(t.IsConnected() == w.live(w.gid[0]), "a guard is moved with its slot"); w.off(w.gid[0]); w.gid[0] = -1; } break; // t releases the slot
				case 10: w.off(w.gid[0]); w.g[0].reset(); w.g[0].emplace(); w.gid[0] = -1; break;
				case 11: w.off(w.gid[1]); w.g[1]->Disconnect(); break;
				case 12: w.off(w.cid[0]); w.c[0].Disconnect(); break;
				case 13: w.c[1] = w.c[0]; w.cid[1] = w.cid[0]; break;
				case 14: w.c[1] = std::move(w.c[0]); w.cid[1] = w.cid[0]; w.cid[0] = -1; break;
				case 15: w.c[1] = w.g[0]->GetConnection(); w.cid[1] = w.gid[0]; break;
				case 16: { w.off(w.gid[1]); w.g[1].reset(); w.g[1].emplace(w.c[0]); w.gid[1] = w.cid[0]; } break;
				case 17: *w.s[0] = std::move(*w.s[1]); transfer(w, 1, 0); break;
				case 18: { S t(std::move(*w.s[0])); transfer(w, 0, 2); for (uint32_t& x : w.calls) x = 0; t(); for (size_t i = 0; i < w.n; ++i) CHECK(w.calls[i] == (w.where[i] == 2), "a moved signal takes the slots"); if (sym::pick("moved back", 0, 1)) { *w.s[0] = std::move(t); transfer(w, 2, 0); } else for (int& x : w.where) if (x == 2) x = -1; } break;
				case 19: { S t(*w.s[0]); for (uint32_t& x : w.calls) x = 0; t(); for (uint32_t x : w.calls) CHECK(!x, "a copied signal has no slot"); *w.s[1] = t; S& self = *w.s[0]; *w.s[0] = self; *w.s[0] = std::move(self); } break;
				case 20: w.s[1].reset(); w.s[1].emplace(); for (int& x : w.where) if (x == 1) x = -1; break;
			}
			w.check();
		}
		for (size_t k = 0; k < Guards; ++k) { w.off(w.gid[k]); w.g[k].reset(); w.g[k].emplace(); w.gid[k] = -1; } w.check(); sym_note(w.n);
	}
	CHECK(tr::alive == 0, "no callback outlives its signal");
}
// callbacks own guards of slots of the same signal: any teardown leaves everything consistent
ENTRY(owned_guards)
{
	{
		S s, other; uint32_t calls[5] = {}; const size_t n = sym::pick("slots", 2, BOUND(4, 5)), owner = sym::pick("owner", 0, n - 1), owned = sym::pick("owned", 0, n - 1); S::Connection c[5];
		auto guard = std::make_shared<S::ConnectionGuard>(); std::weak_ptr<S::ConnectionGuard> watch = guard;
		for (size_t i = 0; i < n; ++i) { tr::E tag{uint8_t(i)}; if (i == owner) c[i] = s.Connect([&calls, tag, guard, i] { calls[i]++; (void)tag.get(); }); else c[i] = s.Connect([&calls, tag, i] { calls[i]++; (void)tag.get(); }); }
		*guard = c[owned]; guard.reset(); s(); for (size_t i = 0; i < n; ++i) CHECK(calls[i] == 1, "every slot is called");
		switch (sym::pick("teardown", 0, 4))
		{
			case 0: s.Clear(); s(); CHECK(tr::alive == 0, "a cleared signal releases its callbacks"); break;
			case 1: s = std::move(other); s(); CHECK(tr::alive == 0, "an overwritten signal releases its callbacks"); break;
			case 2: other = std::move(s); s(); CHECK(size_t(tr::alive) == n, "a moved signal keeps its slots"); other(); for (size_t i = 0; i < n; ++i) CHECK(calls[i] == 2, "every slot is called by the new signal"); break;
			case 3: { c[owner].Disconnect(); s(); for (size_t i = 0; i < n; ++i) CHECK(calls[i] == ((i == owner) | (i == owned) ? 1u : 2u), "the guard disconnects its slot when its owner goes"); CHECK(watch.expired(), "the owner released the guard"); } break;
			case 4: { s.Connect([] {}); s.Clear(); s.Connect([&calls] { calls[0] += 10; }); s(); CHECK(calls[0] == 11, "a cleared signal can be used again"); } break;
		}
		sym_note(owner);
	}
	CHECK(tr::alive == 0, "no callback outlives the signals");
}
