// C10: make_string produces the complete formatted text at any length.
// Oracle: glibc vsnprintf into a buffer of the exact size (measured by a first dry run).
#define VH_MAIN
#include "vh.hpp"

#include <cstdarg>

#include <utki/string.hpp>

using namespace vh;

static std::string ref(const char* f, ...)
{
	va_list a;
	va_start(a, f);
	int n = vsnprintf(nullptr, 0, f, a);
	va_end(a);
	std::vector<char> b(size_t(n) + 1);
	va_start(a, f);
	vsnprintf(b.data(), b.size(), f, a);
	va_end(a);
	return std::string(b.data(), size_t(n));
}

static std::string via_va(const char* f, ...)
{
	va_list a;
	va_start(a, f);
	try {
		auto s = utki::make_string_va_list(f, a);
		va_end(a);
		return s;
	} catch (...) {
		va_end(a);
		throw;
	}
}

// the va_list form where some arguments were consumed already: the rest has to be formatted
static std::string via_va_skip(int skip, const char* f, ...)
{
	va_list a;
	va_start(a, f);
	for (int i = 0; i != skip; ++i) {
		(void)va_arg(a, int);
	}
	auto s = utki::make_string_va_list(f, a);
	va_end(a);
	return s;
}

template <typename... A>
static void both(const char* f, A... a)
{
	note(str("format ", esc(f)));
	auto want = ref(f, a...);
	auto got = utki::make_string(f, a...);
	CHECK("make_string", got == want, "format ", esc(f), " got ", got, " (", got.size(), " chars) expected ", want, " (", want.size(), " chars)");
	auto got2 = via_va(f, a...);
	CHECK("make_string_va_list", got2 == want, "format ", esc(f), " got ", got2, " (", got2.size(), " chars) expected ", want, " (", want.size(), " chars)");
	auto sk = via_va_skip(2, f, 1, 2, a...);
	CHECK("va_list-remaining", sk == want, "format ", esc(f), " got ", sk, " expected ", want);
	CHECK("null-terminated", got.c_str()[got.size()] == 0 && got2.c_str()[got2.size()] == 0, "");
	if (want.size() >= 1024) {
		COUNT("results.over-1k");
	} else {
		COUNT("results.up-to-1k");
	}
}

SUITE(every_length, 5200, fixed, "result lengths 0..5199, one case per length, as one %s, as %*d and as literal text; every case non-trivial")
{
	c.nt();
	c.distinct(c.index);
	size_t n = size_t(c.index);
	std::string s(n, 'x');
	for (size_t i = 0; i != n; ++i) {
		s[i] = char('!' + (i * 7 + i / 93) % 93);
	}
	vh::cstr cs(s);
	both("%s", cs.get());
	if (n != 0) {
		both("%*d", int(n), -7);
	}
	std::string lit;
	for (char ch : s) {
		lit += ch == '%' ? '#' : ch;
	}
	both(lit.c_str());
	SAMPLE("length ", n);
}

SUITE(mixed, 9000, 0, "formats with several conversions of all kinds, lengths around 1 KiB and up to 100 KB, embedded null characters; non-trivial when the result is not empty")
{
	auto& r = c.r;
	c.nt();
	size_t a = r.size(r.chance(1, 20) ? 100000 : 1300), b = r.size(300);
	if (r.chance(1, 3)) { // total around the first-guess buffer
		a = 1024 - std::min<size_t>(b, 1000) - r.below(12) + r.below(8);
	}
	vh::cstr s1(r.text(a, "abcdefgh %")), s2(r.text(b, "XYZ "));
	int i = r.integer<int>();
	unsigned u = r.integer<unsigned>();
	long long ll = r.integer<long long>();
	unsigned long long ull = r.integer<unsigned long long>();
	double d = double(r.integer<int>()) * 1e-3;
	int w = int(r.size(1200)), p = int(r.size(1100));
	SAMPLE("strings ", a, " ", b, " width ", w, " precision ", p, " int ", i);
	both("%s%s", s1.get(), s2.get());
	both("%s|%d|%s|%u|%lld|%llx", s1.get(), i, s2.get(), u, ll, ull);
	both("%*d|%-*d|%0*d", w, i, w / 2, i, w / 3, i);
	both("%.*s|%.3s|%%|%c", p, s1.get(), s2.get(), 'q');
	both("%g|%.*f|%e|%a", d, p, d, d, d);
	both("%c%s%c%d%c", 0, s1.get(), 0, i, 0); // embedded nulls
	both("%d %d %d %d %d %d %d %d %s %g %g %g %g %g %g %g %g %g %d", 1, 2, 3, 4, 5, 6, 7, i, s1.get(), d, d, 1., 2., 3., 4., 5., 6., 7., i); // beyond the register save area
	both("%s", "");
	both("%s", s1.get());
	both("%d", i);
	both("%s\n", s1.get());
	both("%i%%", i);
	both("%u", u);
	both("%f", d);
	both("%c", int(r.below(256)));
	both("%x", u);
	both("");
	both("%p %hhx %hd %zu %Lg", (void*)(s1.get()), u & 0xff, i & 0x7fff, size_t(ull), (long double)(d));
	both("%ls|%lc", L"wide", wint_t('w'));
}

SUITE(huge, 24, fixed | novg, "results of 1 to 32 MiB; every case non-trivial")
{
	c.nt();
	c.distinct(c.index);
	int w = (1 << 20) + int(c.index * c.index) * 60000 + int(c.r.below(3));
	both("%*s", w, "end");
	both("%-*s|", w, "begin");
	std::string s(size_t(w) / 8, 'h');
	for (size_t i = 0; i < s.size(); i += 5) {
		s[i] = char('A' + i % 23);
	}
	both("%s", s.c_str());
}

SUITE(failing, 200, 0, "formats printf fails on (an invalid wide character in the C locale): an exception, not a partial text; every case non-trivial")
{
	c.nt();
	std::string s = c.r.text(c.r.size(2000), "ab");
	wint_t bad = wint_t(0x20000 + c.r.below(1000));
	CHECK_THROWS("failure-reported", std::exception, utki::make_string("%s%lc", s.c_str(), bad), "");
	CHECK_THROWS("failure-reported", std::exception, via_va("%s%lc", s.c_str(), bad), "");
	COUNT("failures");
}
