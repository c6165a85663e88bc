// C06: string_parser moves forward by exactly what it reports.
// Oracle: an independent index-based scanner over a copy of the text, plus address identity of the unread view.
#define VH_MAIN
#include "vh.hpp"

#include <utki/span.hpp>
#include <utki/string.hpp>

using namespace vh;

static bool sp(char c)
{
	return c == ' ' || (c >= 9 && c <= 13);
}

static std::string gen_text(rng& r)
{
	size_t n = r.huge(1500, r.size(r.chance(1, 30) ? 5000 : 200));
	if (n > 65000 && r.coin()) {
		return r.text(n, "abc") + " ,x" + r.text(r.below(100), "ab ,"); // a huge word
	}
	switch (r.below(5)) {
		case 0: return r.bytes_str(n);
		case 1: return r.text(n, " \t\n\v\f\r,,ab");
		case 2: return r.text(n, "abcdefgh   ,;:\n");
		case 3: return r.text(n, std::string_view(" a,\0\xff\xa0\x85", 7));
		default: { // words separated by runs
			std::string s;
			while (s.size() < n) {
				s += r.text(r.below(6), "xyz,=<>");
				s += r.text(r.below(4), " \t\n,");
			}
			return s;
		}
	}
}

SUITE(sequences, 12000, 0, "random sequences of all parser operations over texts rich in whitespace, commas and delimiter hits; non-trivial when the text is not empty and at least one operation consumed characters")
{
	auto& r = c.r;
	auto s = gen_text(r);
	size_t n = s.size();
	exact<char> e(s);
	utki::string_parser p(e.view());
	size_t pos = 0;
	std::string log;
	bool consumed = false;
	size_t steps = r.range(1, 50);
	for (size_t i = 0; i != steps; ++i) {
		auto op = r.below(12);
		char ch = n == 0 || r.chance(1, 5) ? char(u8(r.below(256))) : s[pos < n ? pos + r.below(std::min<size_t>(n - pos, 12)) : r.below(n)];
		size_t left = n - pos;
		size_t cnt = 0;
		switch (r.below(5)) {
			case 0: cnt = left; break;
			case 1: cnt = left + r.below(3); break;
			case 2: cnt = r.below(left + 1); break;
			case 3: cnt = r.below(5); break;
			default: cnt = size_t(0) - 1 - r.below(3); break;
		}
		std::string set;
		size_t setn = r.below(4);
		for (size_t k = 0; k != setn; ++k) {
			set += n == 0 || r.chance(1, 3) ? char(u8(r.below(256))) : s[r.below(n)];
		}
		if (log.size() < 180) {
			log += str("op", op, "@", pos, " ");
		}
		note(log + esc(s));
		size_t want_pos = pos;
		bool want_throw = false;
		// the unread text starts right there for a peek through the same cursor
		auto scan = [&](auto stop) {
			size_t k = pos;
			while (k < n && !stop(s[k])) {
				++k;
			}
			return k;
		};
		bool threw = false;
		std::string_view got;
		std::string_view want;
		char gc = 0, wc = 0;
		switch (op) {
			case 0: want_pos = scan([](char x) { return !sp(x); }); break;
			case 1: {
				bool comma = false;
				want_pos = scan([&](char x) {
					if (sp(x)) {
						return false;
					}
					if (x == ',' && !comma) {
						comma = true;
						return false;
					}
					return true;
				});
				break;
			}
			case 2: want_pos = scan([&](char x) { return x == ch; }); want_pos += want_pos < n; break;
			case 3:
				want_pos = scan([&](char x) { return set.find(x) != std::string::npos; });
				wc = want_pos < n ? s[want_pos] : '\0';
				want_pos += want_pos < n;
				break;
			case 4: want_pos = scan([](char x) { return sp(x); }); break;
			case 5: want_pos = scan([&](char x) { return sp(x) || x == ch; }); break;
			case 6:
				want_throw = pos == n;
				if (!want_throw) {
					wc = s[pos];
					want_pos = pos + 1;
				}
				break;
			case 7:
				want_throw = pos == n;
				wc = want_throw ? '\0' : s[pos];
				break;
			case 8:
				want_throw = cnt >= left;
				wc = want_throw ? '\0' : s[pos + cnt];
				break;
			case 9: want_pos = pos + std::min(cnt, left); break;
			case 10: want_pos = scan([&](char x) { return x == ch; }); break;
			default: break; // observers only
		}
		want = std::string_view(e.data() + pos, want_pos - pos);
		try {
			switch (op) {
				case 0: p.skip_whitespaces(); break;
				case 1: p.skip_whitespaces_and_comma(); break;
				case 2: p.skip_inclusive_until(ch); break;
				case 3: {
					exact<char> es(set);
					gc = p.skip_inclusive_until_one_of(utki::span<const char>(es.data(), es.size()));
					break;
				}
				case 4: got = p.read_word(); break;
				case 5: got = p.read_word_until(ch); break;
				case 6: gc = p.read_char(); break;
				case 7: gc = p.peek_char(); break;
				case 8: gc = p.peek_char(cnt); break;
				case 9: got = p.read_chars(cnt); break;
				case 10: got = p.read_chars_until(ch); break;
				default: break;
			}
		} catch (const std::invalid_argument&) {
			threw = true;
		}
		auto what = [&]() { return str("text ", esc(s), " char ", ch, " count ", cnt, " set ", esc(set), " history ", log); };
		CHECK("throws", threw == want_throw, "op ", op, " threw=", threw, " ", what());
		if (op == 4 || op == 5 || op == 9 || op == 10) {
			CHECK_EQ("result", got, want, what());
			CHECK("result-address", got.empty() || got.data() == want.data(), "the result does not refer to the text; ", what());
		} else if (!threw && (op == 3 || (op >= 6 && op <= 8))) {
			CHECK_EQ("char", gc, wc, what());
		}
		consumed = consumed || want_pos != pos;
		pos = want_pos;
		auto v = p.get_view();
		CHECK("position", v.size() == n - pos && (v.empty() || v.data() == e.data() + pos), "op ", op, ": unread view has ", v.size(), " characters, expected ", n - pos, "; ", what());
		CHECK_EQ("size", p.size(), n - pos, what());
		CHECK_EQ("empty", p.empty(), pos == n, what());
		COUNT("operations");
		if (threw) {
			COUNT("rejected");
		}
		if (r.chance(1, 25)) {
			auto q = p; // an independent copy
			if (!q.empty()) {
				q.read_char();
				CHECK_EQ("copy", p.size(), n - pos, what());
			}
		}
	}
	c.nt(n != 0 && consumed);
	SAMPLE(s, " | ", log);
}

SUITE(is_space, 256, fixed, "all 256 character values")
{
	char ch = char(u8(c.index));
	c.nt();
	c.distinct(c.index);
	CHECK_EQ("is-space", utki::string_parser::is_space(ch), sp(ch), "character ", ch);
}

SUITE(vast_text, 4, fixed | nofuzz | novg, "steps by given numbers of characters through a text of more than 4 GiB; every case non-trivial")
{
	auto& r = c.r;
	c.nt();
	vast m;
	if (!m.ok()) {
		return;
	}
	char* base = m.as<char>();
	const size_t n = vast::num_bytes;
	for (int round = 0; round != 10; ++round) {
		utki::string_parser p(std::string_view(base, n));
		size_t pos = 0;
		while (pos != n) {
			size_t left = n - pos;
			size_t len = r.below(4) == 0 ? left + r.below(2) : r.below(left + 1);
			if (r.coin() && len < left) {
				base[pos + len] = 'x';
				CHECK("vast-peek", p.peek_char(len) == 'x', "peek_char(", len, ") at ", pos);
				base[pos + len] = 'y';
				CHECK("vast-peek", p.peek_char(len) == 'y', "peek_char(", len, ") at ", pos);
			} else {
				bool threw = false;
				try {
					p.peek_char(left + r.below(3));
				} catch (const std::invalid_argument&) {
					threw = true;
				}
				CHECK("vast-peek-end", threw, "at ", pos);
			}
			auto s = p.read_chars(len);
			size_t want = std::min(len, left);
			CHECK("vast-read", s.size() == want && s.data() == base + pos, "read_chars(", len, ") at ", pos, " gave ", s.size());
			pos += want;
			CHECK("vast-left", p.size() == n - pos && p.empty() == (pos == n) && p.get_view().size() == n - pos && p.get_view().data() == base + pos, "left ", p.size(), " expected ", n - pos);
			if (pos != n) {
				base[pos] = 'z';
				CHECK("vast-char", p.read_char() == 'z', "at ", pos);
				++pos;
				CHECK("vast-left", p.size() == n - pos, "left ", p.size(), " expected ", n - pos);
			}
		}
	}
	COUNT("vast texts");
}
