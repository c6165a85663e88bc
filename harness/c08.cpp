// C08: splitting, joining, trimming and prefix/suffix tests match their definitions.
#define VH_MAIN
#include "vh.hpp"

#include <array>
#include <clocale>
#include <forward_list>
#include <list>
#include <sstream>

#include <locale>

#include <utki/span.hpp>
#include <utki/string.hpp>

using namespace vh;

static bool sp(int c)
{
	return c == ' ' || (c >= 9 && c <= 13);
}

static std::string gen_text(rng& r)
{
	size_t n = r.huge(2000, r.size(r.chance(1, 40) ? 5000 : 150));
	switch (r.below(6)) {
		case 0: return r.bytes_str(n);
		case 1: return r.text(n, "ab");
		case 2: return r.text(n, " \t\n\v\f\rab\xa0\x85\xff._");
		case 3: return r.text(n, std::string_view("a,\0;", 4));
		case 4: return r.text(r.below(5), " \t\n") + r.text(n, "ab c") + r.text(r.below(5), " \v\f\r");
		default: return std::string(n, char(r.coin() ? ' ' : 'a'));
	}
}

template <typename C>
static std::basic_string<C> widen(const std::string& s)
{
	std::basic_string<C> w;
	for (char ch : s) {
		w.push_back(C(u8(ch)));
	}
	return w;
}

template <typename C>
static void split_delim(const std::basic_string<C>& s, C d, const std::string& shown)
{
	exact<C> e(s.data(), s.size());
	std::basic_string_view<C> v(e.data(), e.size());
	auto parts = utki::split(v, d);
	// reference
	std::vector<std::basic_string<C>> want(1);
	for (C ch : s) {
		if (ch == d) {
			want.emplace_back();
		} else {
			want.back().push_back(ch);
		}
	}
	CHECK("split-pieces", parts == want, "text ", shown, " delimiter ", u32(d), ": ", parts.size(), " pieces, expected ", want.size());
	CHECK("split-string", utki::split(s, d) == want, "text ", shown);
	if (s.find(C(0)) == std::basic_string<C>::npos) {
		CHECK("split-cstr", utki::split(s.c_str(), d) == want, "text ", shown);
	}
	{
		CHECK("join", utki::join(parts, d) == s, "text ", shown, " delimiter ", u32(d));
		std::vector<std::basic_string_view<C>> views(parts.begin(), parts.end());
		CHECK("join-views", utki::join(views, d) == s, "text ", shown);
		std::list<std::basic_string<C>> l(parts.begin(), parts.end());
		CHECK("join-list", utki::join(l, d) == s, "text ", shown);
		std::forward_list<std::basic_string_view<C>> fl(views.begin(), views.end());
		CHECK("join-forward-list", utki::join(fl, d) == s, "text ", shown);
		if (parts.size() >= 3) {
			std::array<std::basic_string_view<C>, 3> a{views[0], views[1], views[2]};
			std::basic_string<C> w = parts[0];
			w.push_back(d);
			w += parts[1];
			w.push_back(d);
			w += parts[2];
			CHECK("join-array", utki::join(a, d) == w, "text ", shown);
		}
	}
	COUNT_N("pieces", parts.size());
}

SUITE(split_join, 9000, 0, "texts and delimiters (present, repeated, absent, NUL, high bytes) through all overloads, char, wchar_t, char16_t, char32_t; non-trivial when the delimiter occurs")
{
	auto& r = c.r;
	auto s = gen_text(r);
	char d = s.empty() || r.chance(1, 4) ? char(u8(r.below(256))) : s[r.below(s.size())];
	c.nt(s.find(d) != std::string::npos);
	SAMPLE(s, " by ", d);
	auto shown = esc(s);
	note(shown);
	split_delim<char>(s, d, shown);
	split_delim<wchar_t>(widen<wchar_t>(s), wchar_t(u8(d)), shown);
	split_delim<char32_t>(widen<char32_t>(s), char32_t(u8(d)), shown);
	split_delim<char16_t>(widen<char16_t>(s), char16_t(u8(d)), shown);
}

SUITE(join_any, 3000, 0, "collections of 0..20 arbitrary pieces (also containing the delimiter); non-trivial from two pieces on")
{
	auto& r = c.r;
	size_t n = r.below(21);
	std::vector<std::string> v;
	char d = char(u8(r.below(256)));
	std::string want;
	for (size_t i = 0; i != n; ++i) {
		v.push_back(gen_text(r));
		if (i) {
			want += d;
		}
		want += v.back();
	}
	c.nt(n > 1);
	CHECK_EQ("join-any", utki::join(v, d), want, "pieces ", n);
}

// a global C++ locale in which other characters are blanks: none of the functions may depend on it
struct hostile_ctype : std::ctype<char> {
	static const mask* table()
	{
		static std::vector<mask> t = [] {
			std::vector<mask> v(classic_table(), classic_table() + table_size);
			for (u8 ch : {'_', 'a', '0', '\x85', '\xa0'}) {
				v[ch] |= space;
			}
			for (u8 ch : {' ', '\n'}) {
				v[ch] = punct;
			}
			return v;
		}();
		return t.data();
	}
	hostile_ctype() :
		std::ctype<char>(table())
	{}
};
struct hostile_wctype : std::ctype<wchar_t> {
	bool do_is(mask m, wchar_t ch) const override
	{
		if (ch == L' ' || ch == L'\n') {
			return false;
		}
		return (ch == L'_' || ch == L'a') ? (m & space) != 0 : std::ctype<wchar_t>::do_is(m, ch);
	}
};
struct locale_guard {
	std::locale old;
	locale_guard(bool hostile, bool hostile_c)
	{
		if (hostile_c) { // a C locale in which '.', '_', 0x85 and 0xa0 are blanks, if the driver could generate it
			if (setlocale(LC_ALL, "xx_XX.ISO-8859-1")) {
				COUNT("locale.xx_XX");
				if (isspace('_') && isspace(0xa0)) {
					COUNT("hostile-c-locale");
				}
			} else {
				COUNT("locale.xx_XX-not-available");
			}
		}
		static std::locale l(std::locale(std::locale::classic(), new hostile_ctype), new hostile_wctype);
		old = std::locale();
		if (hostile) {
			std::locale::global(l);
			COUNT("hostile-locale");
		}
	}
	~locale_guard()
	{
		std::locale::global(old);
		setlocale(LC_ALL, "C");
	}
};

SUITE(words, 9000, 0, "texts with all kinds of whitespace; non-trivial when there are at least two words")
{
	auto s = gen_text(c.r);
	exact<char> e(s);
	note(esc(s));
	std::vector<std::string> want;
	bool in = false;
	for (char ch : s) {
		if (sp(u8(ch))) {
			in = false;
		} else {
			if (!in) {
				want.emplace_back();
			}
			want.back() += ch;
			in = true;
		}
	}
	c.nt(want.size() > 1);
	SAMPLE(s);
	locale_guard guard(c.r.chance(1, 4), c.r.chance(1, 4));
	CHECK_EQ("words", utki::split(e.view()), want, "text ", esc(s));
}

template <typename C>
static void trims(const std::basic_string<C>& s, const std::string& shown)
{
	exact<C> e(s.data(), s.size());
	std::basic_string_view<C> v(e.data(), e.size());
	size_t b = 0, en = s.size();
	auto is = [](C ch) { return u32(ch) < 128 && sp(int(ch)); };
	while (b < s.size() && is(s[b])) {
		++b;
	}
	while (en > 0 && is(s[en - 1])) {
		--en;
	}
	auto same = [](auto got, const C* p, size_t n) { return got.size() == n && (n == 0 || got.data() == p); };
	CHECK("trim-front", same(utki::trim_front(v), e.data() + b, s.size() - b), "text ", shown);
	CHECK("trim-back", same(utki::trim_back(v), e.data(), en), "text ", shown);
	CHECK("trim", same(utki::trim(v), e.data() + b, b < en ? en - b : 0), "text ", shown);
	CHECK("trim-front-string", same(utki::trim_front(s), s.data() + b, s.size() - b), "text ", shown);
	CHECK("trim-back-string", same(utki::trim_back(s), s.data(), en), "text ", shown);
	CHECK("trim-string", same(utki::trim(s), s.data() + b, b < en ? en - b : 0), "text ", shown);
	if constexpr (std::is_same_v<C, char>) {
		if (s.find('\0') == std::string::npos) {
			vh::cstr z(s);
			CHECK("trim-front-cstr", same(utki::trim_front(z.get()), z.get() + b, s.size() - b), "text ", shown);
			CHECK("trim-back-cstr", same(utki::trim_back(z.get()), z.get(), en), "text ", shown);
			CHECK("trim-cstr", same(utki::trim(z.get()), z.get() + b, b < en ? en - b : 0), "text ", shown);
		}
	}
}

SUITE(trim, 9000, 0, "texts with leading/trailing/inner whitespace, all-blank ones and non-ASCII characters, char, wchar_t, char16_t, char32_t; non-trivial when something is trimmed")
{
	auto s = gen_text(c.r);
	auto shown = esc(s);
	note(shown);
	c.nt(!s.empty() && (sp(u8(s.front())) || sp(u8(s.back()))));
	SAMPLE(s);
	locale_guard guard(c.r.chance(1, 4), c.r.chance(1, 4));
	trims<char>(s, shown);
	trims<wchar_t>(widen<wchar_t>(s), shown);
	// units which do not fit into a char: some of them are equal to blanks in the lower bits
	auto far = [&](auto w, u32 top) {
		for (auto& ch : w) {
			if (c.r.chance(1, 6)) {
				ch = typename decltype(w)::value_type(u32(ch) + (u32(1 + c.r.below(255)) << (c.r.chance(1, 3) ? top : 8)));
			}
		}
		return w;
	};
	trims<char16_t>(widen<char16_t>(s), shown);
	trims<char32_t>(widen<char32_t>(s), shown);
	trims<char16_t>(far(widen<char16_t>(s), 8), shown + " with some units moved up");
	trims<char32_t>(far(widen<char32_t>(s), 16), shown + " with some units moved up");
}

static void ends(const std::string& s, const std::string& t)
{
	exact<char> e(s), f(t);
	bool st = t.size() <= s.size(), en = st;
	for (size_t i = 0; i != t.size() && st; ++i) {
		st = s[i] == t[i];
	}
	for (size_t i = 0; i != t.size() && en; ++i) {
		en = s[s.size() - 1 - i] == t[t.size() - 1 - i];
	}
	note(esc(s) + " " + esc(t));
	CHECK_EQ("starts-with", utki::starts_with(e.view(), f.view()), st, "text ", esc(s), " prefix ", esc(t));
	CHECK_EQ("ends-with", utki::ends_with(e.view(), f.view()), en, "text ", esc(s), " suffix ", esc(t));
	if (st || en) {
		COUNT("prefix-or-suffix-hit");
	}
}

SUITE(affixes, 12000, 0, "texts against affixes: real prefixes/suffixes, inner substrings, repetitive patterns, one changed character, empty, longer than the text; non-trivial when the pattern occurs somewhere in the text")
{
	auto& r = c.r;
	auto s = gen_text(r);
	std::string t;
	switch (r.below(6)) {
		case 0: t = s.substr(0, r.below(s.size() + 1)); break;
		case 1: t = s.substr(r.below(s.size() + 1)); break;
		case 2: {
			auto b = r.below(s.size() + 1);
			t = s.substr(b, r.below(6));
			break;
		}
		case 3: { // repetitive: a pattern which occurs several times, the end included
			auto u = r.text(r.range(1, 3), "ab");
			s = r.text(r.below(4), "ab");
			auto k = r.range(1, 6);
			for (size_t i = 0; i != k; ++i) {
				s += u;
				if (r.chance(1, 3)) {
					s += r.text(r.below(3), "abX");
				}
			}
			t = u;
			break;
		}
		case 4:
			t = s.substr(r.below(s.size() + 1));
			if (!t.empty()) {
				t[r.below(t.size())] ^= char(1 << r.below(8));
			}
			break;
		default: t = s + r.text(r.below(3), "ab"); break;
	}
	c.nt(!t.empty() && s.find(t) != std::string::npos);
	SAMPLE(s, " / ", t);
	ends(s, t);
	ends(t, s);
	ends(s, "");
	ends("", s);
}

SUITE(affixes_exhaustive, 511, fixed, "all texts over {a,b} up to length 8 against all patterns up to length 4; every case non-trivial")
{
	c.nt();
	c.distinct(c.index);
	auto word = [](u64 k) { // 1-prefixed binary numbering of all words
		std::string s;
		++k;
		while (k > 1) {
			s += char('a' + (k & 1));
			k >>= 1;
		}
		return s;
	};
	auto s = word(c.index);
	for (u64 k = 0; k != 31; ++k) {
		ends(s, word(k));
	}
}

SUITE(conversions, 5000, 0, "make_string, make_string_view over span/vector/array of char and uint8_t; non-trivial when not empty")
{
	auto& r = c.r;
	auto s = gen_text(r);
	c.nt(!s.empty());
	exact<char> e(s);
	exact<u8> e8(s.data(), s.size());
	utki::span<const char> sc(e.data(), e.size());
	utki::span<const u8> s8(e8.data(), e8.size());
	CHECK_EQ("ms-span", utki::make_string(sc), s, "");
	CHECK_EQ("ms-span8", utki::make_string(s8), s, "");
	std::vector<char> v(s.begin(), s.end());
	std::vector<u8> v8(s.begin(), s.end());
	CHECK_EQ("ms-vec", utki::make_string(v), s, "");
	CHECK_EQ("ms-vec8", utki::make_string(v8), s, "");
	auto w = utki::make_string_view(sc);
	CHECK("msv-span", w.data() == e.data() && w.size() == s.size(), "");
	auto w8 = utki::make_string_view(s8);
	CHECK("msv-span8", (const void*)(w8.data()) == (const void*)(e8.data()) && w8.size() == s.size(), "");
	std::array<char, 5> a{};
	std::array<u8, 5> a8{};
	std::array<char, 1> a1{};
	for (size_t i = 0; i != 5 && i < s.size(); ++i) {
		a[i] = s[i];
		a8[i] = u8(s[i]);
	}
	CHECK_EQ("ms-array", utki::make_string(a), std::string(a.begin(), a.end()), "");
	CHECK_EQ("ms-array8", utki::make_string(a8), std::string(a.begin(), a.end()), "");
	CHECK_EQ("ms-array1", utki::make_string(a1), std::string(1, '\0'), "");
	CHECK_EQ("ms-empty", utki::make_string(utki::span<const char>()), std::string(), "");
	CHECK_EQ("ms-empty8", utki::make_string(utki::span<const u8>()), std::string(), "");
	CHECK_EQ("ms-empty-vec", utki::make_string(std::vector<char>()), std::string(), "");
	CHECK("msv-empty", utki::make_string_view(utki::span<const char>()).empty(), "");
}

SUITE(cat, 4000, 0, "concatenation of 0..8 values of mixed types against streaming them one after another; non-trivial from two values on")
{
	auto& r = c.r;
	c.nt();
	auto s = gen_text(r);
	auto v = std::string_view(s).substr(0, r.below(s.size() + 1));
	int i = r.integer<int>();
	unsigned u = r.integer<unsigned>();
	long long l = r.integer<long long>();
	double d = double(r.integer<int>()) / 8;
	char ch = char(u8(r.below(256)));
	const char* lit = "literal";
	bool b = r.coin();
	auto ref = [](const auto&... a) {
		std::ostringstream o;
		((o << a), ...);
		return o.str();
	};
	CHECK_EQ("cat2", utki::cat(s, v), ref(s, v), "");
	CHECK_EQ("cat1", utki::cat(s), s, "");
	CHECK_EQ("cat3", utki::cat(i, "", u), ref(i, "", u), "");
	CHECK_EQ("cat-all", utki::cat(s, i, v, u, ch, l, lit, d, b), ref(s, i, v, u, ch, l, lit, d, b), "");
	CHECK_EQ("cat-many", utki::cat("", ch, ch, "x", s, s, i, i), ref("", ch, ch, "x", s, s, i, i), "");
}

SUITE(indentation, 1500, 0, "make_indentation of depths 0..300 and sizes 0..40; non-trivial when not empty")
{
	auto& r = c.r;
	unsigned depth = unsigned(r.size(300)), size = unsigned(r.below(41));
	c.nt(depth != 0);
	auto s = utki::make_indentation(depth, size);
	CHECK_EQ("indent", s, size == 0 ? std::string(depth, '\t') : std::string(size_t(depth) * size, ' '), "depth ", depth, " size ", size);
	CHECK_EQ("indent-tab", utki::make_indentation(depth), std::string(depth, '\t'), "");
}

#if defined(__SANITIZE_ADDRESS__)
#	define C08_SAN 1
#elif defined(__has_feature)
#	if __has_feature(address_sanitizer)
#		define C08_SAN 1
#	endif
#endif

SUITE(huge_indentation, 16, fixed | nofuzz | novg, "make_indentation whose product of depth and size exceeds 32 bits: it must not come back shorter (it cannot be allocated under the address space limit of the run); every case non-trivial")
{
	c.nt();
	c.distinct(c.index);
#ifndef C08_SAN
	unsigned depth = 1u << (16 + c.index);
	unsigned size = (1u << 31) + unsigned(c.index);
	bool threw = false;
	size_t n = 0;
	try {
		n = utki::make_indentation(depth, size).size();
	} catch (const std::bad_alloc&) {
		threw = true;
	} catch (const std::length_error&) {
		threw = true;
	}
	CHECK("indent-huge", threw || n == size_t(depth) * size, "depth ", depth, " size ", size, " gave ", n, " characters");
#endif
}
