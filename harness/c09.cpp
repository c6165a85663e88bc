// C09: word_wrap keeps every word and never exceeds the width.
// Oracle: conservation of non-space characters, width bound, line feeds, and a reference greedy wrap for normalised text.
#define VH_MAIN
#include "vh.hpp"

#include <utki/string.hpp>

using namespace vh;

static std::vector<std::string> greedy(const std::string& s, size_t w)
{
	std::vector<std::string> out;
	size_t b = 0;
	for (;;) {
		auto e = s.find('\n', b);
		auto para = s.substr(b, e == std::string::npos ? e : e - b);
		std::string cur;
		bool any = false;
		size_t i = 0;
		while (i < para.size()) {
			auto k = para.find(' ', i);
			auto word = para.substr(i, k == std::string::npos ? k : k - i);
			i = k == std::string::npos ? para.size() : k + 1;
			if (any && cur.size() + 1 + word.size() <= w) {
				cur += ' ';
				cur += word;
				continue;
			}
			if (any) {
				out.push_back(cur);
			}
			while (word.size() > w) {
				out.push_back(word.substr(0, w));
				word = word.substr(w);
			}
			cur = word;
			any = true;
		}
		out.push_back(cur);
		if (e == std::string::npos) {
			return out;
		}
		b = e + 1;
	}
}

static std::string squeeze(const std::string& s)
{
	std::string r;
	for (char ch : s) {
		if (ch != ' ' && ch != '\n') {
			r += ch;
		}
	}
	return r;
}

static void common(const std::string& s, unsigned w, const std::vector<std::string>& lines)
{
	std::string all;
	for (auto& l : lines) {
		CHECK("width", l.size() <= w, "line ", esc(l), " is longer than ", w, "; text ", esc(s));
		CHECK("line-feed", l.find('\n') == std::string::npos, "line feed inside of line ", esc(l), "; text ", esc(s));
		all += l;
	}
	CHECK_EQ("characters", squeeze(all), squeeze(s), "width ", w, " text ", esc(s), " lines ", lines);
	// every line feed ends a line: split the result at the same places
	size_t k = 0;
	std::string want, got;
	for (size_t b = 0;;) {
		auto e = s.find('\n', b);
		if (e == std::string::npos) {
			break;
		}
		// the lines of this paragraph: consume lines until all its characters are seen; at least one line
		want += squeeze(s.substr(b, e - b));
		CHECK("line-feed-ends", k < lines.size(), "too few lines; width ", w, " text ", esc(s), " lines ", lines);
		got += squeeze(lines[k++]);
		while (got.size() < want.size()) {
			CHECK("line-feed-ends", k < lines.size(), "too few lines; width ", w, " text ", esc(s), " lines ", lines);
			got += squeeze(lines[k++]);
		}
		CHECK("line-feed-ends", got == want, "a line goes over a line feed; width ", w, " text ", esc(s), " lines ", lines);
		b = e + 1;
	}
}

SUITE(arbitrary, 12000, 0, "arbitrary texts (runs of spaces, line feeds, any bytes) and widths 1..; non-trivial when more than one line is produced")
{
	auto& r = c.r;
	size_t n = r.huge(1500, r.size(r.chance(1, 30) ? 4000 : 160));
	std::string s;
	switch (r.below(4)) {
		case 0: s = r.text(n, "ab  \n"); break;
		case 1: s = r.text(n, "abcdefg \n"); break;
		case 2: s = r.text(n, "aaaaaaaaaaaaaaaaaaaaaaaaa \n"); break;
		default: s = r.bytes_str(n); break;
	}
	unsigned w = r.chance(1, 12) ? r.integer<unsigned>() : unsigned(r.range(1, r.coin() ? 8 : 80));
	if (w == 0) {
		w = 1;
	}
	exact<char> e(s);
	note(str("width ", w, " ", esc(s)));
	auto lines = utki::word_wrap(e.view(), w);
	c.nt(lines.size() > 1);
	COUNT_N("lines", lines.size());
	SAMPLE("width ", w, ": ", s);
	common(s, w, lines);
}

SUITE(normalised, 16000, 0, "paragraphs of words separated by single spaces, word lengths around the width; compared line by line with the greedy reference; non-trivial when more than one line is produced")
{
	auto& r = c.r;
	unsigned w = unsigned(r.huge(1500, r.chance(1, 100) ? r.range(200, 5000) : r.range(1, r.chance(1, 4) ? 60 : 12)));
	std::string s;
	size_t paras = r.below(4) + 1;
	for (size_t p = 0; p != paras; ++p) {
		if (p) {
			s += '\n';
		}
		size_t words = r.below(9);
		for (size_t k = 0; k != words; ++k) {
			size_t len;
			switch (r.below(4)) {
				case 0: len = w; break;
				case 1: len = r.range(1, w + 1); break;
				case 2: len = w * r.range(1, 3) + r.below(3); break;
				default: len = r.range(1, 4); break;
			}
			if (k) {
				s += ' ';
			}
			s += r.text(len, "abcdefghijklmnopqrstuvwxyz\t\xff-");
		}
	}
	exact<char> e(s);
	note(str("width ", w, " ", esc(s)));
	auto lines = utki::word_wrap(e.view(), w);
	auto ref = greedy(s, w);
	c.nt(ref.size() > 1);
	SAMPLE("width ", w, ": ", s);
	common(s, w, lines);
	CHECK_EQ("greedy", lines, ref, "width ", w, " text ", esc(s));
	COUNT_N("lines", lines.size());
	// wide enough: nothing is wrapped
	auto one = utki::word_wrap(e.view(), unsigned(s.size() + 1));
	CHECK_EQ("wide", one, greedy(s, s.size() + 1), "text ", esc(s));
}

SUITE(zero_width, 1500, 0, "zero width over arbitrary text; non-trivial when not empty")
{
	auto s = c.r.coin() ? c.r.bytes_str(c.r.size(300)) : c.r.text(c.r.size(300), "ab \n");
	c.nt(!s.empty());
	exact<char> e(s);
	auto lines = utki::word_wrap(e.view(), 0);
	CHECK("zero", lines.size() == 1 && lines[0] == s, "text ", esc(s), " gave ", lines);
}

SUITE(small_exhaustive, 4096, fixed, "all texts over {a,b,space,LF} up to length 6, all widths 1..7 (normalised ones against the greedy reference); non-trivial when more than one line is produced")
{
	static const char al[] = {'a', 'b', ' ', '\n'};
	for (size_t len = 0; len <= 6; ++len) {
		u64 x = c.index;
		if ((x >> (2 * len)) != 0) {
			continue; // every shorter text once
		}
		std::string s;
		for (size_t i = 0; i != len; ++i) {
			s += al[x & 3];
			x >>= 2;
		}
		bool norm = true;
		for (size_t i = 0; i != len; ++i) {
			if (s[i] == ' ' && (i == 0 || i + 1 == len || s[i - 1] == ' ' || s[i - 1] == '\n' || s[i + 1] == '\n')) {
				norm = false;
			}
		}
		for (unsigned w = 1; w <= 7; ++w) {
			exact<char> e(s);
			note(str("width ", w, " ", esc(s)));
			auto lines = utki::word_wrap(e.view(), w);
			common(s, w, lines);
			c.nt(lines.size() > 1);
			if (norm) {
				CHECK_EQ("greedy", lines, greedy(s, w), "width ", w, " text ", esc(s));
			}
			COUNT("exhaustive-texts");
		}
	}
	c.distinct(c.index);
}
