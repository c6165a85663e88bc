// C02: base64_decode inverts RFC 4648 encoding.  Oracle: an independent encoder, equality of bytes.
#define VH_MAIN
#include "vh.hpp"

#include <utki/base64.hpp>

using namespace vh;

static std::string encode(const std::vector<u8>& v, bool pad)
{
	static const char* al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string r;
	u32 acc = 0;
	int bits = 0;
	for (u8 b : v) {
		acc = (acc << 8) | b;
		bits += 8;
		while (bits >= 6) {
			bits -= 6;
			r += al[(acc >> bits) & 63];
		}
	}
	if (bits) {
		r += al[(acc << (6 - bits)) & 63];
	}
	while (pad && r.size() % 4) {
		r += '=';
	}
	return r;
}

static void round_trip(const std::vector<u8>& v)
{
	for (bool pad : {true, false}) {
		auto s = encode(v, pad);
		exact<char> e(s);
		note(esc(s));
		auto d = utki::base64_decode(e.view());
		CHECK_EQ("round-trip", d, v, "padded=", pad, " encoding=", esc(s));
	}
}

SUITE(random, 12000, 0, "byte sequences of random content and boundary-heavy length, padded and unpadded; non-trivial from one byte on")
{
	auto v = c.r.bytes_vec(c.r.size(c.r.chance(1, 50) ? 70000 : 800));
	if (c.r.chance(1, 4)) { // long runs of one value, zeros in particular
		u8 x = c.r.coin() ? 0 : u8(c.r.below(256));
		for (size_t i = c.r.below(v.size() + 1); i < v.size(); ++i) {
			v[i] = x;
		}
	}
	c.nt(!v.empty());
	SAMPLE(v);
	round_trip(v);
}

// every value of every 24 bit group position pair: all 2-byte sequences at each offset within a group
SUITE(pairs, 256, fixed, "all 65536 byte pairs, at each of the three offsets in a group, alone and followed by 0..2 bytes; every case non-trivial")
{
	u8 a = u8(c.index);
	c.nt();
	c.distinct(c.index);
	for (int b = 0; b != 256; ++b) {
		size_t off = size_t(b + a) % 3;
		size_t tail = size_t(b / 3 + a) % 3;
		std::vector<u8> v(off, u8(b ^ 0x5a));
		v.push_back(a);
		v.push_back(u8(b));
		v.insert(v.end(), tail, u8(a ^ 0xa5));
		round_trip(v);
		round_trip({a, u8(b)});
	}
	round_trip({a});
	COUNT_N("pairs", 256);
}

SUITE(lengths, 2100, fixed, "every length 0..2099, distinct bytes; non-trivial when not empty")
{
	std::vector<u8> v(c.index);
	for (size_t i = 0; i != v.size(); ++i) {
		v[i] = u8(mix(i ^ (c.index << 20) ^ c.r.below(256)));
	}
	c.nt(!v.empty());
	c.distinct(c.index);
	round_trip(v);
}

// sizes around the points where 16 bit counters of bytes, characters and groups would wrap
SUITE(huge, 12, fixed | nofuzz | novg, "byte sequences of 64 KiB to 2 MiB, around the multiples of 65536 bytes, characters and groups; every case non-trivial")
{
	static const size_t around[] = {65536, 65536 * 3 / 4, 65536 * 3, 65536 * 3 + 200, 2 * 65536 * 3, 500000, 1 << 20, 2 << 20};
	c.nt();
	c.distinct(c.index);
	size_t n = around[c.index % std::size(around)] + c.r.below(7) - 3;
	auto v = c.r.bytes_vec(n);
	SAMPLE(n, " bytes");
	for (bool pad : {true, false}) {
		auto s = encode(v, pad);
		exact<char> e(s);
		note("huge " + std::to_string(n));
		auto d = utki::base64_decode(e.view());
		CHECK("round-trip-huge", d == v, "padded=", pad, " size ", n, " decoded size ", d.size());
		COUNT("huge");
	}
}

SUITE(reject, 4000, 0, "encodings cut to leave one character in the last group, and padded texts below four characters; every case non-trivial")
{
	auto& r = c.r;
	c.nt();
	std::string s;
	if (r.coin()) {
		auto v = r.bytes_vec(3 * r.size(200));
		s = encode(v, false);
		s += encode({u8(r.below(256))}, false)[0];
	} else {
		static const char* shorts[] = {"=", "==", "===", "A=", "AA=", "A==", "/=", "z+=", "b=="};
		s = r.pick(shorts);
	}
	SAMPLE(s);
	note(esc(s));
	exact<char> e(s);
	CHECK_THROWS("rejects", std::invalid_argument, utki::base64_decode(e.view()), "text ", esc(s));
}
