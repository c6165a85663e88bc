// C04: integer and float serialization is byte-order exact and lossless.
// Oracle: reference bytes computed arithmetically; guard bytes around the output; redzones through exact heap buffers.
#define VH_MAIN
#include "vh.hpp"

#include <utki/deserializer.hpp>
#include <utki/utility.hpp>

using namespace vh;

template <typename T>
static std::array<u8, sizeof(T)> ref_bytes(T v, bool be)
{
	std::array<u8, sizeof(T)> r{};
	u64 x = v;
	for (size_t i = 0; i != sizeof(T); ++i) {
		r[be ? sizeof(T) - 1 - i : i] = u8(x % 256);
		x /= 256;
	}
	return r;
}

// writes through f into a guarded buffer and compares; off is the misalignment
template <size_t N, typename F>
static void written(const char* what, F f, const std::array<u8, N>& want, size_t off, u8 guard, u64 value)
{
	const size_t pad = 16;
	u8 buf[pad + 8 + N + pad];
	memset(buf, guard, sizeof(buf));
	u8* p = buf + pad + off;
	u8* e = f(p);
	CHECK("end-pointer", e == p + N, std::string(what), " of ", value, " returned an address ", long(e - p), " bytes after the start, expected ", N);
	CHECK("bytes", memcmp(p, want.data(), N) == 0, std::string(what), " of ", value, " at offset ", off, " wrote ", std::vector<u8>(p, p + N), " expected ", std::vector<u8>(want.begin(), want.end()));
	for (size_t i = 0; i != sizeof(buf); ++i) {
		if (buf + i >= p && buf + i < p + N) {
			continue;
		}
		CHECK("guard", buf[i] == guard, std::string(what), " of ", value, " changed a byte at distance ", long(buf + i - p));
	}
	// exact heap buffer: writes or reads beyond it are seen by the sanitizer
	std::unique_ptr<u8[]> h(new u8[off + N]);
	f(h.get() + off);
}

template <typename T, typename F>
static void read_back(const char* what, F f, const std::array<u8, sizeof(T)>& b, T want, size_t off)
{
	exact<u8> e(b.data(), b.size(), off);
	T got = f(e.data());
	CHECK("value", got == want, std::string(what), " read ", got, " expected ", want);
}

static void u16_all(u16 v, size_t off, u8 g)
{
	auto le = ref_bytes(v, false), be = ref_bytes(v, true);
	written("serialize16le", [&](u8* p) { return utki::serialize16le(v, p); }, le, off, g, v);
	written("serialize16be", [&](u8* p) { return utki::serialize16be(v, p); }, be, off, g, v);
	written("serialize_le<u16>", [&](u8* p) { return utki::serialize_le(v, p); }, le, off, g, v);
	written("serialize_be<u16>", [&](u8* p) { return utki::serialize_be(v, p); }, be, off, g, v);
	read_back<u16>("deserialize16le", [](const u8* p) { return utki::deserialize16le(p); }, le, v, off);
	read_back<u16>("deserialize16be", [](const u8* p) { return utki::deserialize16be(p); }, be, v, off);
	read_back<u16>("deserialize_le<u16>", [](const u8* p) { return utki::deserialize_le<u16>(p); }, le, v, off);
	read_back<u16>("deserialize_be<u16>", [](const u8* p) { return utki::deserialize_be<u16>(p); }, be, v, off);
	COUNT("u16");
}
static void u8_all(u8 v, size_t off, u8 g)
{
	auto b = ref_bytes(v, false);
	written("serialize_le<u8>", [&](u8* p) { return utki::serialize_le(v, p); }, b, off, g, v);
	written("serialize_be<u8>", [&](u8* p) { return utki::serialize_be(v, p); }, b, off, g, v);
	read_back<u8>("deserialize_le<u8>", [](const u8* p) { return utki::deserialize_le<u8>(p); }, b, v, off);
	read_back<u8>("deserialize_be<u8>", [](const u8* p) { return utki::deserialize_be<u8>(p); }, b, v, off);
	COUNT("u8");
}
static void u32_all(u32 v, size_t off, u8 g)
{
	auto le = ref_bytes(v, false), be = ref_bytes(v, true);
	written("serialize32le", [&](u8* p) { return utki::serialize32le(v, p); }, le, off, g, v);
	written("serialize32be", [&](u8* p) { return utki::serialize32be(v, p); }, be, off, g, v);
	written("serialize_le<u32>", [&](u8* p) { return utki::serialize_le(v, p); }, le, off, g, v);
	written("serialize_be<u32>", [&](u8* p) { return utki::serialize_be(v, p); }, be, off, g, v);
	read_back<u32>("deserialize32le", [](const u8* p) { return utki::deserialize32le(p); }, le, v, off);
	read_back<u32>("deserialize32be", [](const u8* p) { return utki::deserialize32be(p); }, be, v, off);
	read_back<u32>("deserialize_le<u32>", [](const u8* p) { return utki::deserialize_le<u32>(p); }, le, v, off);
	read_back<u32>("deserialize_be<u32>", [](const u8* p) { return utki::deserialize_be<u32>(p); }, be, v, off);
	COUNT("u32");
}
static void u64_all(u64 v, size_t off, u8 g)
{
	auto le = ref_bytes(v, false), be = ref_bytes(v, true);
	written("serialize64le", [&](u8* p) { return utki::serialize64le(v, p); }, le, off, g, v);
	written("serialize64be", [&](u8* p) { return utki::serialize64be(v, p); }, be, off, g, v);
	written("serialize_le<u64>", [&](u8* p) { return utki::serialize_le(v, p); }, le, off, g, v);
	written("serialize_be<u64>", [&](u8* p) { return utki::serialize_be(v, p); }, be, off, g, v);
	read_back<u64>("deserialize64le", [](const u8* p) { return utki::deserialize64le(p); }, le, v, off);
	read_back<u64>("deserialize64be", [](const u8* p) { return utki::deserialize64be(p); }, be, v, off);
	read_back<u64>("deserialize_le<u64>", [](const u8* p) { return utki::deserialize_le<u64>(p); }, le, v, off);
	read_back<u64>("deserialize_be<u64>", [](const u8* p) { return utki::deserialize_be<u64>(p); }, be, v, off);
	if constexpr (!std::is_same_v<u64, unsigned long long>) {
		auto w = (unsigned long long)(v);
		written("serialize_le<ull>", [&](u8* p) { return utki::serialize_le(w, p); }, le, off, g, v);
		written("serialize_be<ull>", [&](u8* p) { return utki::serialize_be(w, p); }, be, off, g, v);
	}
	COUNT("u64");
}

static u32 float_bits(float f)
{
	u32 b;
	memcpy(&b, &f, 4);
	return b;
}
static void float_all(u32 bits, size_t off, u8 g)
{
	float f;
	memcpy(&f, &bits, 4);
	auto le = ref_bytes(bits, false), be = ref_bytes(bits, true);
	written("serialize_float_le", [&](u8* p) { return utki::serialize_float_le(f, p); }, le, off, g, bits);
	written("serialize_float_be", [&](u8* p) { return utki::serialize_float_be(f, p); }, be, off, g, bits);
	read_back<u32>("deserialize_float_le", [](const u8* p) { return float_bits(utki::deserialize_float_le(p)); }, le, bits, off);
	read_back<u32>("deserialize_float_be", [](const u8* p) { return float_bits(utki::deserialize_float_be(p)); }, be, bits, off);
	COUNT("float");
}

SUITE(integers, 8000, 0, "boundary-heavy 8/16/32/64 bit values at offsets 0..7 with random guard bytes, all entry points; every case non-trivial")
{
	auto& r = c.r;
	c.nt();
	size_t off = r.below(8);
	u8 g = u8(r.below(256));
	u64 v = r.integer<u64>();
	SAMPLE("value ", v, " offset ", off);
	u8_all(u8(v), off, g);
	u16_all(u16(v), off, g);
	u32_all(u32(v), off, g);
	u64_all(v, off, g);
	u32_all(u32(v >> 32), off, g);
	// all bytes different: any swap, repetition or loss shows
	u64 w = 0;
	u8 b = u8(r.below(200));
	for (int i = 0; i != 8; ++i) {
		w = (w << 8) | u8(b + 7 * i + 1);
	}
	u64_all(w, off, g);
	u32_all(u32(w), off, g);
	u16_all(u16(w), off, g);
}

SUITE(all16, 256, fixed, "all 65536 16 bit values and all 8 bit values; every case non-trivial")
{
	c.nt();
	c.distinct(c.index);
	for (u32 lo = 0; lo != 256; ++lo) {
		u16_all(u16((c.index << 8) | lo), lo % 8, u8(lo ^ c.index ^ 0x33));
	}
	u8_all(u8(c.index), c.index % 8, u8(~c.index));
}

SUITE(floats, 12000, 0, "float bit patterns (every class: zeros, subnormals, normals, infinities, quiet and signalling NaNs with payloads), all offsets; every case non-trivial")
{
	auto& r = c.r;
	c.nt();
	u32 bits;
	switch (r.below(6)) {
		case 0: {
			static const u32 p[] = {0, 0x80000000u, 1, 0x80000001u, 0x7fffff, 0x800000, 0x7f7fffff, 0xff7fffffu, 0x7f800000, 0xff800000u, 0x7fc00000, 0xffc00000u, 0x7f800001, 0xff800001u, 0x7fffffff, 0xffffffffu, 0x3f800000, 0xbf800000u, 0x7fa00000};
			bits = r.pick(p);
			break;
		}
		case 1: // NaN with payload
			bits = 0x7f800000 | u32(r.next() & 0x807fffff) | 1;
			break;
		case 2: // subnormal
			bits = u32(r.next() & 0x807fffff);
			break;
		default:
			bits = u32(r.next());
			break;
	}
	SAMPLE("bits ", bits);
	float_all(bits, r.below(8), u8(r.below(256)));
}

// an optimiser may drop or reorder accesses around the conversion: long loops over arrays, results folded into a sum
SUITE(float_arrays, 60, 0, "arrays of floats written back to back and read back in one go, compared bit by bit; every case non-trivial")
{
	auto& r = c.r;
	c.nt();
	size_t n = r.range(100, 3000);
	std::vector<u32> bits(n);
	std::vector<float> fl(n);
	for (size_t i = 0; i != n; ++i) {
		bits[i] = u32(r.next());
		memcpy(&fl[i], &bits[i], 4);
	}
	for (bool be : {false, true}) {
		exact<u8> out(std::vector<u8>(n * 4).data(), n * 4);
		u8* p = out.data();
		for (float f : fl) {
			p = be ? utki::serialize_float_be(f, p) : utki::serialize_float_le(f, p);
		}
		CHECK("array-end", p == out.data() + n * 4, "");
		for (size_t i = 0; i != n; ++i) {
			auto w = ref_bytes(bits[i], be);
			CHECK("array-bytes", memcmp(out.data() + i * 4, w.data(), 4) == 0, "element ", i, " bits ", bits[i], " big-endian ", be);
		}
		std::vector<float> back(n);
		for (size_t i = 0; i != n; ++i) {
			back[i] = be ? utki::deserialize_float_be(out.data() + i * 4) : utki::deserialize_float_le(out.data() + i * 4);
		}
		for (size_t i = 0; i != n; ++i) {
			CHECK("array-back", float_bits(back[i]) == bits[i], "element ", i, " bits ", bits[i], " came back as ", float_bits(back[i]));
		}
		// arithmetic on the results in the same expression
		float s = 0, t = 0;
		for (size_t i = 0; i + 1 < n; i += 2) {
			u8 b[8];
			float x = float(int(bits[i] & 0xffff)) * 0.5f;
			auto q = be ? utki::serialize_float_be(x + 1, b) : utki::serialize_float_le(x + 1, b);
			q = be ? utki::serialize_float_be(x * 2, q) : utki::serialize_float_le(x * 2, q);
			s += be ? utki::deserialize_float_be(b) + utki::deserialize_float_be(b + 4) : utki::deserialize_float_le(b) + utki::deserialize_float_le(b + 4);
			t += (x + 1) + (x * 2);
		}
		CHECK("array-arith", s == t, "sum ", s, " expected ", t);
		COUNT_N("float-array-elements", n);
	}
}
