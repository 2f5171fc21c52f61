// Native replay of a harness entry with concrete inputs (counterexamples and sampled paths).
// usage: replay ENTRY < inputs (one decimal number per line)
// exit 0: ran to the end; 77: assertion violated; 78: inputs do not satisfy an assumption (diverged); 79: leak; other: crash
#include "sym.hpp"
#include <cinttypes>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <dlfcn.h>
#include <new>
#include <unistd.h>

static uint64_t g_inputs[1 << 16]; static size_t g_count, g_pos;
static uint64_t g_notes[1 << 16]; static size_t g_noteCount;
static long g_live; static bool g_counting, g_leak = true; static volatile sig_atomic_t g_abortOk, g_abortSet;

static uint64_t nextInput() { if (g_pos >= g_count) { fprintf(stdout, "REPLAY-DIVERGED: no more inputs\n"); fflush(stdout); _exit(78); } return g_inputs[g_pos++]; }
static void finish(int code) { for (size_t i = 0; i < g_noteCount; ++i) printf("NOTE %" PRIu64 "\n", g_notes[i]); printf("USED %zu\n", g_pos); fflush(stdout); _exit(code); }

extern "C"
{
	uint8_t sym_u8(const char*) { return (uint8_t)nextInput(); }
	uint16_t sym_u16(const char*) { return (uint16_t)nextInput(); }
	uint32_t sym_u32(const char*) { return (uint32_t)nextInput(); }
	uint64_t sym_u64(const char*) { return nextInput(); }
	int sym_bool(const char*) { return (int)(nextInput() & 1); }
	void sym_bytes(void* p, size_t n, const char*) { for (size_t i = 0; i < n; ++i) ((uint8_t*)p)[i] = (uint8_t)nextInput(); }
	size_t sym_pick(const char*, size_t lo, size_t hi) { uint64_t v = nextInput(); if (v < lo || v > hi) { printf("REPLAY-DIVERGED: pick\n"); fflush(stdout); _exit(78); } return v; }
	uint64_t sym_concretize(uint64_t v) { return v; }
	void sym_assume(int c) { if (!c) { printf("REPLAY-DIVERGED: assumption\n"); fflush(stdout); _exit(78); } }
	void sym_assert(int c, const char* msg) { if (!c) { printf("REPLAY-FAIL: %s\n", msg); fflush(stdout); _exit(77); } }
	void sym_note(uint64_t v) { if (g_noteCount < (1 << 16)) g_notes[g_noteCount++] = v; }
	void sym_reach(const char*) {}
	void sym_abort_ok(int c) { g_abortSet = 1; g_abortOk = c; }
	void sym_abort_never() { g_abortSet = 0; }
	void sym_no_leak_check() { g_leak = false; }
}

static void onSignal(int sig)
{
	if (g_abortSet && g_abortOk && (sig == SIGABRT || sig == SIGTRAP)) finish(0);
	printf("REPLAY-CRASH: signal %d\n", sig); fflush(stdout); _exit(80);
}

static int g_fill = 0xA5;
static void* doNew(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, g_fill, n); if (g_counting) ++g_live; return p; }
static void* doNewA(size_t n, size_t a) { void* p = aligned_alloc(a, (n + a - 1) / a * a + (n ? 0 : a)); if (!p) throw std::bad_alloc(); memset(p, g_fill, n); if (g_counting) ++g_live; return p; }
static void doDel(void* p) { if (!p) return; if (g_counting) --g_live; free(p); }
void* operator new(size_t n) { return doNew(n); }
void* operator new[](size_t n) { return doNew(n); }
void* operator new(size_t n, std::align_val_t a) { return doNewA(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return doNewA(n, (size_t)a); }
void operator delete(void* p) noexcept { doDel(p); }
void operator delete[](void* p) noexcept { doDel(p); }
void operator delete(void* p, size_t) noexcept { doDel(p); }
void operator delete[](void* p, size_t) noexcept { doDel(p); }
void operator delete(void* p, std::align_val_t) noexcept { doDel(p); }
void operator delete[](void* p, std::align_val_t) noexcept { doDel(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { doDel(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { doDel(p); }

extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=81:handle_abort=0:handle_sigtrap=0:allocator_may_return_null=1:detect_stack_use_after_return=1"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=82:print_stacktrace=0"; }

int main(int argc, char** argv)
{
	if (argc < 2) return 2;
	auto* f = reinterpret_cast<void(*)()>(dlsym(RTLD_DEFAULT, argv[1]));
	if (!f) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
	while (g_count < (1 << 16) && scanf("%" SCNu64, &g_inputs[g_count]) == 1) ++g_count;
	if (const char* fill = getenv("REPLAY_FILL")) g_fill = atoi(fill);
	signal(SIGABRT, onSignal); signal(SIGTRAP, onSignal);
	g_counting = true;
	f();
	g_counting = false;
	if (g_leak && g_live != 0) { printf("REPLAY-FAIL: %ld heap block(s) leaked\n", g_live); finish(79); }
	finish(0);
}
