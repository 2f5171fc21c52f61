// Harness interface shared by the symbolic run (functions are interpreted by nzsym)
// and the native replay (functions are defined in replay_rt.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>

extern "C"
{
	uint8_t sym_u8(const char* name);
	uint16_t sym_u16(const char* name);
	uint32_t sym_u32(const char* name);
	uint64_t sym_u64(const char* name);
	int sym_bool(const char* name); // 0 or 1
	void sym_bytes(void* p, size_t n, const char* name);
	size_t sym_pick(const char* name, size_t lo, size_t hi); // any value in [lo, hi], each explored on its own path(s)
	uint64_t sym_concretize(uint64_t v);
	void sym_assume(int cond);
	void sym_assert(int cond, const char* msg);
	void sym_note(uint64_t v);
	void sym_reach(const char* tag);
	void sym_abort_ok(int cond);   // from now on an assertion failure/abort is expected, and only when cond holds
	void sym_abort_never();        // back to: an assertion failure is a violation
	void sym_no_leak_check();
}

#define ENTRY(name) extern "C" void entry_##name(); extern "C" __attribute__((used, noinline)) void entry_##name()
#define CHECK(cond, msg) sym_assert(static_cast<int>(static_cast<bool>(cond)), msg)
#define ASSUME(cond) sym_assume(static_cast<int>(static_cast<bool>(cond)))

#ifdef THOROUGH
	#define BOUND(q, t) (t)
#else
	#define BOUND(q, t) (q)
#endif

namespace sym
{
	template<typename T> inline T any(const char* name)
	{
		if constexpr (sizeof(T) == 1) return static_cast<T>(sym_u8(name));
		else if constexpr (sizeof(T) == 2) return static_cast<T>(sym_u16(name));
		else if constexpr (sizeof(T) == 4) { uint32_t v = sym_u32(name); T r; std::memcpy(&r, &v, 4); return r; }
		else { uint64_t v = sym_u64(name); T r; std::memcpy(&r, &v, 8); return r; }
	}
	template<> inline bool any<bool>(const char* name) { return sym_bool(name) != 0; }
	inline size_t pick(const char* name, size_t lo, size_t hi) { return sym_pick(name, lo, hi); }
	// logical connectives that do not branch
	inline bool implies(bool a, bool b) { return !a | b; }
}
