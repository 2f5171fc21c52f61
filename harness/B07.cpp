// BOUNDS: AppendBits: initial sizes 0..9 (8-bit blocks) or block-boundary sizes, every count 0..BitCount<T>+9, every value of T (8/16/32/64-bit unsigned, int), all block widths; Write/FromPointer: buffers of exactly the addressed bytes (0..5, arbitrary contents), bit offsets 0..7, counts 0..26, initial sizes 0..9; writes of up to 2400 bits with four arbitrary bytes
#include "bitset_big.hpp"
#include <memory>
using namespace bs;

template<typename S, typename T> void append()
{
	constexpr size_t W = sizeof(Block<S>) * 8, TW = sizeof(T) * 8;
	const size_t t[] = { 0, 1, W - 1, W, W + 1, W / 2, 2 * W - 3 };
	const size_t n = W == 8 ? sym::pick("n", 0, 9) : t[sym::pick("n", 0, BOUND(4, 6))];
	const size_t cs[] = { 0, 1, TW - 1, TW, TW + 1, TW + 9, W - 1, W, W + 1, TW / 2, 3 };
	const size_t c = TW <= 16 ? sym::pick("count", 0, TW + 9) : cs[sym::pick("count", 0, 10)];
	S s = make<S>(n, "a"); Bits e = observe(s);
	const T v = sym::any<T>("bits");
	s.AppendBits(v, c);
	for (size_t i = 0; i < c; ++i) e.v[n + i] = i < TW ? bool((v >> i) & 1) : false;
	e.n = n + c;
	checkBits(s, e, "AppendBits appends the low bits in order and keeps earlier ones");
	checkCoherent(s, "after AppendBits");
	// the next append continues right after
	s.AppendBits(T(1), 1); e.v[e.n++] = true;
	checkBits(s, e, "the following append continues at the end"); checkCoherent(s, "after the second AppendBits");
	note(s);
}
#define APPEND(T) ENTRY(append_8_##T) { append<V8, T>(); } ENTRY(append_16_##T) { append<V16, T>(); } ENTRY(append_32_##T) { append<V32, T>(); } ENTRY(append_64_##T) { append<V64, T>(); } ENTRY(append_fixed_##T) { append<Nz::Bitset<uint8_t, Nz::FixedVector<uint8_t, 12>>, T>(); }
APPEND(uint8_t) APPEND(uint16_t) APPEND(uint32_t) APPEND(uint64_t) APPEND(int) APPEND(int8_t)
ENTRY(append_bool) { V8 s = make<V8>(sym::pick("n", 0, 9), "a"); Bits e = observe(s); bool b = sym::any<bool>("b"); s.AppendBits(b, 1); e.v[e.n++] = b; checkBits(s, e, "appending one bool"); checkCoherent(s, "after appending a bool"); }

template<typename S> void write(size_t maxCount)
{
	constexpr size_t W = sizeof(Block<S>) * 8;
	const size_t t[] = { 0, 1, W - 1, W, W - 5 };
	const size_t n = W == 8 ? sym::pick("n", 0, 9) : t[sym::pick("n", 0, 4)];
	const size_t off = sym::pick("offset", 0, 7), c = sym::pick("count", 0, maxCount);
	const size_t bytes = (off + c + 7) / 8; // exactly the bytes holding the addressed bits: any access beyond is out of bounds
	uint8_t* raw = static_cast<uint8_t*>(::operator new(bytes));
	bool in[64 + 16] = {};
	for (size_t i = 0; i < bytes; ++i) { raw[i] = sym::any<uint8_t>("m"); for (size_t k = 0; k < 8; ++k) in[i * 8 + k] = (raw[i] >> k) & 1; }
	S s = make<S>(n, "a"); Bits e = observe(s);
	auto next = s.Write(typename S::PointerSequence(raw, off), c);
	for (size_t i = 0; i < c; ++i) e.v[n + i] = in[off + i];
	e.n = n + c;
	checkBits(s, e, "Write appends exactly the addressed bits, least significant first");
	checkCoherent(s, "after Write");
	CHECK(static_cast<const uint8_t*>(next.first) == raw + (off + c) / 8, "returned pointer follows the last consumed bit");
	CHECK(next.second == (off + c) % 8, "returned bit offset follows the last consumed bit");
	::operator delete(raw);
	note(s);
}
ENTRY(H_write_u8) { write<V8>(BOUND(17, 26)); } ENTRY(write_u16) { write<V16>(BOUND(26, 40)); } ENTRY(write_u32) { write<V32>(BOUND(34, 50)); } ENTRY(write_u64) { write<V64>(BOUND(34, 60)); }

// consecutive calls read a contiguous stream
template<typename S> void stream()
{
	const size_t c1 = sym::pick("c1", 0, 11), c2 = sym::pick("c2", 0, 11), off = sym::pick("offset", 0, 7);
	const size_t bytes = (off + c1 + c2 + 7) / 8;
	uint8_t* raw = static_cast<uint8_t*>(::operator new(bytes ? bytes : 1));
	for (size_t i = 0; i < bytes; ++i) raw[i] = sym::any<uint8_t>("m");
	S a, b;
	auto p = a.Write(typename S::PointerSequence(raw, off), c1);
	auto q = a.Write(p, c2);
	auto r = b.Write(typename S::PointerSequence(raw, off), c1 + c2);
	CHECK(a.GetSize() == b.GetSize(), "same size"); CHECK(a == b, "two calls read what one call reads");
	CHECK(q == r, "same final position");
	::operator delete(raw);
}
ENTRY(H_stream_u8) { stream<V8>(); } ENTRY(T_stream_u32) { stream<V32>(); }

template<typename S> void fromPointer()
{
	const size_t c = sym::pick("count", 0, BOUND(20, 40));
	const size_t bytes = (c + 7) / 8;
	uint8_t* raw = static_cast<uint8_t*>(::operator new(bytes));
	Bits e; e.n = c;
	for (size_t i = 0; i < bytes; ++i) { raw[i] = sym::any<uint8_t>("m"); for (size_t k = 0; k < 8 && i * 8 + k < c; ++k) e.v[i * 8 + k] = (raw[i] >> k) & 1; }
	S s = S::FromPointer(raw, c);
	checkBits(s, e, "FromPointer reads the bits"); checkCoherent(s, "FromPointer");
	typename S::PointerSequence seq;
	S t = S::FromPointer(raw, c, &seq);
	checkBits(t, e, "FromPointer with sequence reads the bits");
	CHECK(static_cast<const uint8_t*>(seq.first) == raw + c / 8 && seq.second == c % 8, "sequence follows the last consumed bit");
	S w(2, true); auto pos = w.Write(static_cast<const void*>(raw), c);
	CHECK(pos == seq, "Write from a plain pointer ends at the same place"); CHECK(w.GetSize() == c + 2, "size");
	for (size_t i = 0; i < c; ++i) CHECK(w.Test(i + 2) == e.v[i], "Write from a plain pointer");
	::operator delete(raw);
	note(s);
}
ENTRY(fromPointer_u8) { fromPointer<V8>(); } ENTRY(fromPointer_u16) { fromPointer<V16>(); } ENTRY(fromPointer_u32) { fromPointer<V32>(); } ENTRY(fromPointer_u64) { fromPointer<V64>(); }

// hundreds of bytes, the first, one in the middle and the last ones arbitrary
template<typename S> void writeLong()
{
	const size_t n = sym::pick("n", 0, 2) * 3, off = sym::pick("offset", 0, 7); const size_t t[] = { 2040, 2048, 2060, 2400 }; const size_t c = t[sym::pick("count", 0, 3)]; const size_t bytes = (off + c + 7) / 8;
	uint8_t* raw = static_cast<uint8_t*>(::operator new(bytes)); for (size_t i = 0; i < bytes; ++i) raw[i] = uint8_t(i * 167 + 13); raw[0] = sym_u8("first"); raw[bytes / 2] = sym_u8("middle"); raw[bytes - 2] = sym_u8("before last"); raw[bytes - 1] = sym_u8("last");
	S s = make<S>(n, "a"); const Bits e = observe(s); auto next = s.Write(typename S::PointerSequence(raw, off), c); CHECK(s.GetSize() == n + c, "size"); CHECK(s.GetBlockCount() == blockCountFor<S>(n + c), "blocks");
	for (size_t i = 0; i < n; ++i) CHECK(s.Test(i) == e.v[i], "earlier bits are kept"); for (size_t i = 0; i < c; ++i) CHECK(s.Test(n + i) == ((raw[(off + i) / 8] >> ((off + i) % 8)) & 1), "a long Write appends the addressed bits");
	CHECK(static_cast<const uint8_t*>(next.first) == raw + (off + c) / 8, "returned pointer"); CHECK(next.second == (off + c) % 8, "returned bit offset"); ::operator delete(raw); sym_note(c);
}
ENTRY(writeLong_u8) { writeLong<V8>(); } ENTRY(writeLong_u64) { writeLong<V64>(); }
