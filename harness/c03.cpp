// C03: UTF-8 and UTF-32 conversions are exact inverses.  Oracle: an independent encoder.
#define VH_MAIN
#include "vh.hpp"

#include <utki/span.hpp>
#include <utki/unicode.hpp>

using namespace vh;

// reference: shortest form of the original (up to six bytes) UTF-8, built from the bit count
static std::string enc(u32 c)
{
	if (c < 0x80) {
		return std::string(1, char(c));
	}
	int bits = 0;
	while (bits < 32 && (u64(c) >> bits)) {
		++bits;
	}
	int n = 2;
	while (5 * n + 1 < bits) {
		++n;
	}
	std::string s(size_t(n), '\0');
	for (int i = n - 1; i > 0; --i) {
		s[size_t(i)] = char(0x80 | (c & 0x3f));
		c >>= 6;
	}
	s[0] = char(u8((0xff00u >> n) & 0xff) | c);
	return s;
}

static void check_char(u32 ch)
{
	auto ref = enc(ch);
	auto a = utki::to_utf8(char32_t(ch));
	static_assert(std::tuple_size_v<decltype(a)> >= 7, "");
	CHECK("encode", memcmp(a.data(), ref.c_str(), ref.size() + 1) == 0, "character ", ch, " encoded as ", std::string(esc(std::string_view(a.data(), 7))), " expected ", esc(ref));
	exact<char> e(ref);
	utki::utf8_iterator i(e.view());
	CHECK("decode", !i.is_end() && u32(i.character()) == ch, "encoding ", esc(ref), " of character ", ch, " decoded as ", u32(i.character()));
	++i;
	CHECK("decode-end", i.is_end(), "no end after single character ", ch);
}

SUITE(blocks, 2200, 0, "4096 consecutive character values per case: the case index walks all of 1..0x10ffff and samples the rest, ladder boundaries included; every case non-trivial")
{
	c.nt();
	u64 base;
	if (c.index < 0x110) {
		base = c.index << 12;
	} else if (c.index < 0x110 + 64) {
		// around the ladder boundaries and powers of two
		u64 bit = c.index - 0x110;
		base = bit < 31 ? (u64(1) << bit) : (u64(1) << (bit % 31)) + (u64(1) << ((bit * 7) % 31));
		base = base > 2048 ? base - 2048 : 0;
	} else {
		base = c.r.next() & 0x7fffffff;
	}
	c.distinct(base);
	SAMPLE("from ", base);
	for (u64 i = 0; i != 4096; ++i) {
		u64 ch = base + i;
		if (ch == 0 || ch > 0x7fffffff) {
			continue;
		}
		check_char(u32(ch));
		COUNT("characters");
	}
	check_char(0x7fffffff);
}

static u32 pick_char(rng& r)
{
	u32 ch;
	switch (r.below(4)) {
		case 0:
			ch = u32(r.below(0x7f) + 1);
			break;
		case 1: {
			static const u32 b[] = {0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xfeff, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x1fffff, 0x200000, 0x3ffffff, 0x4000000, 0x7fffffff, 0x3f, 0x40, 0x1000, 0x40000, 0x1000000, 0x40000000};
			ch = r.pick(b);
			break;
		}
		case 2:
			ch = u32(r.next() & 0x7fffffff) >> r.below(31);
			break;
		default:
			ch = u32(r.below(0x10ffff) + 1);
			break;
	}
	return ch ? ch : 1;
}

template <typename IT>
static std::u32string collect(IT i, size_t max)
{
	std::u32string s;
	for (; !i.is_end(); ++i) {
		s.push_back(i.character());
		CHECK("endless", s.size() <= max, "more characters than bytes");
	}
	return s;
}

static void all_entries(const std::string& bytes, const std::u32string& want, const char* what)
{
	note(esc(bytes));
	exact<char> e(bytes);
	exact<u8> e8(bytes.data(), bytes.size());
	vh::cstr z(bytes);
	std::string st(bytes);
	utki::span<const u8> s8(e8.data(), e8.size());
	utki::span<const char> sc(e.data(), e.size());
	size_t m = bytes.size();
	CHECK("iter-span", collect(utki::utf8_iterator(s8), m) == want, std::string(what), " ", esc(bytes));
	CHECK("iter-view", collect(utki::utf8_iterator(e.view()), m) == want, std::string(what), " ", esc(bytes));
	CHECK("iter-cstr", collect(utki::utf8_iterator(z.get()), m) == want, std::string(what), " ", esc(bytes));
	CHECK("conv-span8", utki::to_utf32(s8) == want, std::string(what), " ", esc(bytes));
	CHECK("conv-span", utki::to_utf32(sc) == want, std::string(what), " ", esc(bytes));
	CHECK("conv-view", utki::to_utf32(e.view()) == want, std::string(what), " ", esc(bytes));
	CHECK("conv-cstr", utki::to_utf32(z.get()) == want, std::string(what), " ", esc(bytes));
	CHECK("conv-string", utki::to_utf32(st) == want, std::string(what), " ", esc(bytes));
	utki::utf8_iterator it(e.view());
	auto copy = it;
	CHECK("conv-iter", utki::to_utf32(it) == want && utki::to_utf32(copy) == want, std::string(what), " ", esc(bytes));
	if (want.size() > 1) { // an iterator in the middle
		auto k = want.size() / 2;
		for (size_t i = 0; i != k; ++i) {
			++it;
		}
		CHECK("conv-iter-mid", utki::to_utf32(it) == want.substr(k), std::string(what), " ", esc(bytes));
	}
}

SUITE(strings, 8000, 0, "strings of characters of all encoded lengths: encode, compare with the reference, decode through every entry point; non-trivial when not empty")
{
	auto& r = c.r;
	size_t n = r.huge(1500, r.size(r.chance(1, 40) ? 3000 : 120));
	std::u32string u;
	std::string ref;
	for (size_t i = 0; i != n; ++i) {
		u.push_back(char32_t(pick_char(r)));
		ref += enc(u.back());
	}
	c.nt(n != 0);
	SAMPLE(ref);
	exact<char32_t> eu(u.data(), u.size());
	CHECK_EQ("to-utf8-string", utki::to_utf8(u), ref);
	CHECK_EQ("to-utf8-span", utki::to_utf8(utki::span<const char32_t>(eu.data(), eu.size())), ref);
	all_entries(ref, u, "whole");
}

SUITE(cuts, 6000, 0, "an encoded string cut inside its last character, at every position of the cut, through every entry point; every case non-trivial")
{
	auto& r = c.r;
	size_t n = r.below(12);
	std::u32string u;
	std::string ref;
	for (size_t i = 0; i != n; ++i) {
		u.push_back(char32_t(pick_char(r)));
		ref += enc(u.back());
	}
	u32 last = pick_char(r);
	if (last < 0x80) {
		last += 0x80 << r.below(24);
	}
	auto l = enc(last);
	c.nt();
	SAMPLE(ref, " + part of ", l);
	for (size_t k = 1; k < l.size(); ++k) {
		all_entries(ref + l.substr(0, k), u, "cut");
		COUNT("cuts");
	}
}

SUITE(edge, 1, fixed, "empty inputs, null pointer, default iterator")
{
	c.nt();
	all_entries("", U"", "empty");
	CHECK("null-span", utki::utf8_iterator(utki::span<const u8>()).is_end(), "");
	CHECK("default", utki::utf8_iterator().is_end(), "");
	CHECK("to-empty", utki::to_utf8(std::u32string()).empty(), "");
}
