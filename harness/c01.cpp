// C01: decoding and parsing arbitrary bytes is memory safe.
// Oracle: ASan/UBSan/valgrind on exactly sized heap buffers, the ctype argument-domain monitor, and "returns or throws a
// std::exception" (anything else, a hang included, is reported by the runtime or the driver).
#define VH_MAIN
#include "vh.hpp"

#include <utki/span.hpp>
#include <utki/base64.hpp>
#include <utki/deserializer.hpp>
#include <utki/string.hpp>
#include <utki/unicode.hpp>
#include <utki/utility.hpp>

using namespace vh;

// ---- monitor of the <cctype> functions' argument domain (EOF or 0..255; anything else is undefined behaviour)
static long ctype_calls = 0;
static long ctype_bad = 0;
static int ctype_bad_arg = 0;
static int dom(int c)
{
	++ctype_calls;
	if (c < -1 || c > 255) {
		++ctype_bad;
		ctype_bad_arg = c;
	}
	return c;
}
extern "C" {
int isspace(int c) noexcept { dom(c); return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) noexcept { dom(c); return c >= '0' && c <= '9'; }
int isupper(int c) noexcept { dom(c); return c >= 'A' && c <= 'Z'; }
int islower(int c) noexcept { dom(c); return c >= 'a' && c <= 'z'; }
int isalpha(int c) noexcept { dom(c); return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int isalnum(int c) noexcept { dom(c); return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9'); }
int isxdigit(int c) noexcept { dom(c); return (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f') || (c >= '0' && c <= '9'); }
int isprint(int c) noexcept { dom(c); return c >= 32 && c < 127; }
int ispunct(int c) noexcept { dom(c); return c > 32 && c < 127 && !((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9')); }
int iscntrl(int c) noexcept { dom(c); return (c >= 0 && c < 32) || c == 127; }
int tolower(int c) noexcept { dom(c); return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) noexcept { dom(c); return c >= 'a' && c <= 'z' ? c - 32 : c; }
}
static void check_ctype()
{
	auto bad = ctype_bad;
	ctype_bad = 0;
	CHECK("ctype-domain", bad == 0, "a <cctype> function was called with ", ctype_bad_arg, ", outside of EOF,0..255");
}

// runs a call which may return or throw std::exception; anything else propagates as a violation
template <typename F>
static void safe(F f)
{
	try {
		f();
		COUNT("calls.returned");
	} catch (const std::exception&) {
		COUNT("calls.threw");
	}
	check_ctype();
}

// every byte of a result has to be readable and initialised
static volatile u64 sink;
template <typename T>
static void touch(const T& v)
{
	u64 h = 0;
	for (auto e : v) {
		h = h * 31 + u64(e);
		if (h & 1) { // a decision on the value: valgrind sees uninitialised bytes
			h ^= 0x5555;
		}
	}
	sink = h;
}

static std::string hostile(ctx& c, size_t max)
{
	auto& r = c.r;
	size_t n = r.size(max);
	switch (r.below(8)) {
		case 0:
			return r.bytes_str(n);
		case 1:
			return r.text(n, "AZaz09+/=");
		case 2:
			return r.text(n, std::string_view("\x00\x7f\x80\xbf\xc0\xc1\xdf\xe0\xef\xf0\xf7\xf8\xfb\xfc\xfd\xfe\xff\x41", 18));
		case 3:
			return r.text(n, " \t\n\v\f\r,a\xa0\x85");
		case 4:
			return r.text(n, "0123456789abcdefxXbB+-.eEpPinfNaA ");
		case 5: { // valid UTF-8, then cut
			std::string s;
			while (s.size() < n) {
				auto ch = char32_t(r.below(6) == 0 ? r.below(0x7f) + 1 : (r.next() & 0x7fffffff) >> r.below(31));
				auto a = utki::to_utf8(ch ? ch : U'a');
				s += a.data();
			}
			s.resize(n);
			return s;
		}
		case 6: { // mostly plain text with one odd byte
			std::string s = r.text(n, "abc def,");
			if (n) {
				s[r.below(n)] = char(u8(r.below(256)));
			}
			return s;
		}
		default: { // a text whose end is a cut number or escape
			static const char* tails[] = {"0x", "0b", "0", "-", "+", "1e", "1e+", "1.", ".", "inf", "infin", "nan(", "0x1", "0b1", "00", "09", "\xf0\x9f", "\xe2", "\xfe", "\xff", "\xfe\x80\x80\x80\x80\x80\x80", "\xff\x80\x80\x80\x80\x80\x80\x80", "=", "==", "===", "A", "AA=", "A=", "AAAAA", "\xff\xff\xff\xff"};
			std::string s = r.text(r.below(6), " ab1,");
			return s + r.pick(tails);
		}
	}
}

SUITE(base64, 6000, 0, "hostile byte strings (random bytes, alphabet with misplaced padding, high bytes), exact heap buffer; non-trivial when not empty")
{
	auto s = hostile(c, 600);
	exact<char> e(s);
	c.nt(!s.empty());
	SAMPLE(s);
	note(esc(s));
	safe([&] {
		auto v = utki::base64_decode(e.view());
		touch(v);
		CHECK("base64-size", v.size() <= (s.size() + 3) / 4 * 3, "decoded ", v.size(), " bytes out of ", s.size(), " characters");
	});
}

SUITE(utf8_sized, 6000, 0, "hostile byte strings through the sized utf-8 entry points; non-trivial when not empty")
{
	auto s = hostile(c, 600);
	exact<char> e(s);
	exact<u8> e8(s.data(), s.size());
	c.nt(!s.empty());
	SAMPLE(s);
	note(esc(s));
	safe([&] {
		size_t n = 0;
		for (utki::utf8_iterator i(utki::span<const u8>(e8.data(), e8.size())); !i.is_end(); ++i) {
			CHECK("utf8-too-many", ++n <= s.size(), "more characters than bytes");
			sink = i.character();
		}
	});
	safe([&] { touch(utki::to_utf32(utki::span<const u8>(e8.data(), e8.size()))); });
	safe([&] { touch(utki::to_utf32(utki::span<const char>(e.data(), e.size()))); });
	safe([&] { touch(utki::to_utf32(e.view())); });
	safe([&] {
		utki::utf8_iterator i(e.view());
		auto j = i; // copies are independent
		touch(utki::to_utf32(j));
		touch(utki::to_utf32(i));
	});
}

SUITE(utf8_cstr, 6000, 0, "hostile strings without inner zeros through the null-terminated utf-8 entry points, buffer ends right after the terminator; non-trivial when not empty")
{
	auto s = hostile(c, 300);
	if (!c.r.chance(1, 8)) { // mostly the whole text, sometimes with zeros inside
		s.erase(std::remove(s.begin(), s.end(), '\0'), s.end());
	}
	vh::cstr z(s);
	c.nt(!s.empty());
	SAMPLE(s);
	note(esc(s));
	safe([&] {
		size_t n = 0;
		for (utki::utf8_iterator i(z.get()); !i.is_end(); ++i) {
			CHECK("utf8-too-many", ++n <= s.size(), "more characters than bytes");
		}
	});
	safe([&] { touch(utki::to_utf32(z.get())); });
	safe([&] {
		std::string t(s);
		t.shrink_to_fit();
		touch(utki::to_utf32(t));
	});
}

SUITE(to_utf8, 4000, 0, "arbitrary 32 bit character values and strings of them; non-trivial when a value is above 0x7f")
{
	auto& r = c.r;
	std::u32string s;
	size_t n = r.size(80);
	for (size_t i = 0; i != n; ++i) {
		s.push_back(char32_t(r.integer<u32>()));
		c.nt(s.back() > 0x7f);
	}
	c.nt(n != 0);
	SAMPLE("n=", n);
	safe([&] {
		for (auto ch : s) {
			auto a = utki::to_utf8(ch);
			auto z = std::find(a.begin(), a.end(), 0);
			CHECK("to-utf8-terminated", z != a.end(), "character ", u32(ch), " is not null-terminated");
			touch(std::string(a.data()));
		}
	});
	safe([&] { touch(utki::to_utf8(s)); });
}

template <typename T>
static void num(std::string_view v)
{
	note("read_number " + esc(v));
	safe([&] {
		utki::string_parser p(v);
		T t = p.template read_number<T>();
		sink = t != t || t < 0;
		CHECK("parser-suffix", p.size() <= v.size(), "view grew");
	});
}

SUITE(numbers, 6000, 0, "hostile texts through read_number<T> of every numeric type and from_chars in every format; non-trivial when not empty")
{
	auto s = hostile(c, 120);
	if (c.r.chance(1, 10)) { // very long mantissas and exponents take other paths
		s = c.r.text(c.r.size(2000), "0123456789") + (c.r.coin() ? "." : "") + c.r.text(c.r.size(2000), "0123456789") + (c.r.coin() ? "e" + c.r.text(c.r.below(12), "-0123456789") : "");
	}
	exact<char> e(s);
	c.nt(!s.empty());
	SAMPLE(s);
	auto v = e.view();
	num<char>(v);
	num<signed char>(v);
	num<unsigned char>(v);
	num<short>(v);
	num<unsigned short>(v);
	num<int>(v);
	num<unsigned>(v);
	num<long>(v);
	num<unsigned long>(v);
	num<long long>(v);
	num<unsigned long long>(v);
	num<float>(v);
	num<double>(v);
	num<long double>(v);
	for (auto f : {utki::chars_format::scientific, utki::chars_format::fixed, utki::chars_format::hex, utki::chars_format::general}) {
		note("from_chars " + std::to_string(int(f)) + " " + esc(s));
		safe([&] {
			float x = 0;
			auto q = utki::from_chars(v.data(), v.data() + v.size(), x, f);
			CHECK("from-chars-ptr", q.ptr >= v.data() && q.ptr <= v.data() + v.size(), "result pointer outside of the text");
		});
		safe([&] {
			double x = 0;
			auto q = utki::from_chars(v.data(), v.data() + v.size(), x, f);
			CHECK("from-chars-ptr", q.ptr >= v.data() && q.ptr <= v.data() + v.size(), "result pointer outside of the text");
		});
		safe([&] {
			long double x = 0;
			auto q = utki::from_chars(v.data(), v.data() + v.size(), x, f);
			CHECK("from-chars-ptr", q.ptr >= v.data() && q.ptr <= v.data() + v.size(), "result pointer outside of the text");
		});
	}
}

SUITE(parser, 5000, 0, "random sequences of string_parser calls over hostile texts; non-trivial when the text is not empty")
{
	auto& r = c.r;
	auto s = hostile(c, 300);
	exact<char> e(s);
	c.nt(!s.empty());
	SAMPLE(s);
	utki::string_parser p(e.view());
	size_t steps = r.range(1, 30);
	auto ch = [&]() { return s.empty() || r.chance(1, 3) ? char(u8(r.below(256))) : s[r.below(s.size())]; };
	for (size_t i = 0; i != steps; ++i) {
		auto op = r.below(15);
		auto a = ch();
		auto n = r.chance(1, 8) ? r.integer<size_t>() : r.below(s.size() + 2);
		auto set = r.bytes_str(r.below(4));
		if (!s.empty() && r.coin()) {
			set += a;
		}
		exact<char> es(set);
		note("op " + std::to_string(op) + " " + esc(p.get_view()));
		safe([&] {
			switch (op) {
				case 0: p.skip_whitespaces(); break;
				case 1: p.skip_whitespaces_and_comma(); break;
				case 2: p.skip_inclusive_until(a); break;
				case 3: sink = p.skip_inclusive_until_one_of(utki::span<const char>(es.data(), es.size())); break;
				case 4: touch(p.read_word()); break;
				case 5: touch(p.read_word_until(a)); break;
				case 6: sink = p.read_char(); break;
				case 7: sink = p.peek_char(); break;
				case 8: sink = p.peek_char(n); break;
				case 9: touch(p.read_chars(n)); break;
				case 10: touch(p.read_chars_until(a)); break;
				case 11: sink = p.read_number<int>(); break;
				case 12: sink = p.read_number<unsigned>(); break;
				case 13: sink = p.read_number<double>() > 0; break;
				default: sink = p.read_number<u8>(); break;
			}
		});
		auto v = p.get_view();
		CHECK("parser-view", v.empty() || (v.data() >= e.data() && v.data() + v.size() == e.data() + e.size()), "the unread view left the text");
	}
}

SUITE(text, 5000, 0, "hostile texts through split, trim, word_wrap, starts_with, ends_with; non-trivial when not empty")
{
	auto& r = c.r;
	auto s = hostile(c, 400);
	auto t = r.coin() ? hostile(c, 20) : (s.empty() ? s : s.substr(r.below(s.size())));
	exact<char> e(s), et(t);
	c.nt(!s.empty());
	SAMPLE(s);
	char d = s.empty() || r.chance(1, 4) ? char(u8(r.below(256))) : s[r.below(s.size())];
	auto v = e.view();
	note(esc(s));
	safe([&] { sink = utki::split(v, d).size(); });
	safe([&] { sink = utki::split(v).size(); });
	safe([&] { sink = utki::trim(v).size(); });
	safe([&] { sink = utki::trim_front(v).size(); });
	safe([&] { sink = utki::trim_back(v).size(); });
	safe([&] { sink = utki::starts_with(v, et.view()); });
	safe([&] { sink = utki::ends_with(v, et.view()); });
	safe([&] { sink = utki::ends_with(et.view(), v); });
	safe([&] { sink = utki::starts_with(et.view(), v); });
	unsigned w = r.chance(1, 6) ? r.integer<unsigned>() : unsigned(r.below(90));
	note("word_wrap " + std::to_string(w) + " " + esc(s));
	safe([&] {
		for (auto& l : utki::word_wrap(v, w)) {
			touch(l);
		}
	});
	auto z = s;
	z.erase(std::remove(z.begin(), z.end(), '\0'), z.end());
	vh::cstr cz(z);
	safe([&] { sink = utki::trim(cz.get()).size(); });
	safe([&] { sink = utki::trim_front(cz.get()).size(); });
	safe([&] { sink = utki::trim_back(cz.get()).size(); });
	safe([&] { sink = utki::split(cz.get(), d).size(); });
}

SUITE(binary, 5000, 0, "random sequences of deserializer reads with random and huge lengths on an exact buffer; non-trivial when the buffer is not empty")
{
	auto& r = c.r;
	auto v = r.bytes_vec(r.size(100));
	exact<u8> e(v.data(), v.size(), r.below(8));
	c.nt(!v.empty());
	utki::deserializer d(utki::span<const u8>(e.data(), e.size()));
	size_t steps = r.range(1, 30);
	for (size_t i = 0; i != steps; ++i) {
		auto op = r.below(12);
		auto n = r.chance(1, 4) ? r.integer<size_t>() : r.below(d.size() + 2);
		note("op " + std::to_string(op) + " n " + std::to_string(n) + " size " + std::to_string(d.size()));
		safe([&] {
			switch (op) {
				case 0: sink = d.read_uint8(); break;
				case 1: sink = d.read_uint16_le(); break;
				case 2: sink = d.read_uint32_le(); break;
				case 3: sink = d.read_uint64_le(); break;
				case 4: sink = d.read_uint16_be(); break;
				case 5: sink = d.read_uint32_be(); break;
				case 6: sink = d.read_uint64_be(); break;
				case 7: sink = d.read_float_le() > 0; break;
				case 8: sink = d.read_float_be() > 0; break;
				case 9: d.skip(n); break;
				case 10: touch(d.read_string(n)); break;
				default: touch(d.read_span(n)); break;
			}
		});
		CHECK("deser-size", d.size() <= v.size(), "the remaining size grew to ", d.size());
	}
}
