// C07: numbers survive the trip through text, in every base and locale.
// Oracle: own digit generator/grammar for integers, glibc strtof/strtod (C locale object) and libstdc++ from_chars for floats.
#define VH_MAIN
#include "vh.hpp"

#include <charconv>
#include <clocale>
#include <locale>

#include <utki/string.hpp>

using namespace vh;

// ---- locales: a C++ locale with hostile punctuation, and (when the driver could generate it) a comma-decimal C locale
struct hostile_punct : std::numpunct<char> {
	char do_decimal_point() const override { return ','; }
	char do_thousands_sep() const override { return '.'; }
	std::string do_grouping() const override { return "\3"; }
};
static locale_t c_loc = newlocale(LC_ALL_MASK, "C", nullptr);
struct locale_guard {
	std::locale old;
	locale_guard(unsigned mode)
	{
		old = std::locale();
		if (mode & 1) {
			std::locale::global(std::locale(std::locale::classic(), new hostile_punct));
		}
		if (mode & 2) {
			// the second one has a decimal comma as well, and more blanks
			if (setlocale(LC_ALL, (mode & 4) ? "xx_XX.ISO-8859-1" : "de_DE.UTF-8")) {
				COUNT("locale.de_DE or xx_XX");
			} else {
				COUNT("locale.de_DE or xx_XX-not-available");
			}
		}
	}
	~locale_guard()
	{
		std::locale::global(old);
		setlocale(LC_ALL, "C");
	}
};

static std::string digits(u64 v, unsigned base)
{
	std::string s;
	do {
		s.insert(s.begin(), "0123456789abcdef"[v % base]);
		v /= base;
	} while (v);
	return s;
}

static const char* tails[] = {"", " ", ",", ".", "-", "+", "\n", "g", "G", "z", "_", "\xff", ":5", "/", ";", " 5", "h1", "\t7"};

template <typename T>
static void read_expect(const char* key, const std::string& text, size_t lead, size_t consumed, T want)
{
	exact<char> e(text);
	note(str("read_number ", esc(text)));
	utki::string_parser p(e.view());
	T got = p.template read_number<T>();
	CHECK_EQ(key, got, want, "text ", esc(text), " size of type ", sizeof(T));
	CHECK("stops", p.size() == text.size() - lead - consumed && (p.empty() || p.get_view().data() == e.data() + lead + consumed), "text ", esc(text), " left unread ", p.get_view(), " size of type ", sizeof(T));
}

template <typename T>
static void integer_case(ctx& c, T v)
{
	auto& r = c.r;
	std::string lead = r.text(r.below(3), " \t\n\v\f\r");
	std::string tail = r.pick(tails);
	u64 mag = v < 0 ? u64(0) - u64((long long)(v)) : u64(v);
	// decimal
	{
		auto s = utki::to_string(v);
		CHECK_EQ("to-string-dec", s, (v < 0 ? "-" : "") + digits(mag, 10), "");
		CHECK_EQ("to-string-dec2", utki::to_string(v, utki::integer_base::dec), s, "");
		auto t = tail;
		read_expect<T>("dec", lead + s + t, lead.size(), s.size(), v);
	}
	static const std::pair<utki::integer_base, unsigned> bases[] = {{utki::integer_base::bin, 2}, {utki::integer_base::oct, 8}, {utki::integer_base::hex, 16}};
	for (auto [b, n] : bases) {
		auto s = utki::to_string(v, b);
		CHECK_EQ("to-int", unsigned(utki::to_int(b)), n, "");
		if constexpr (std::is_unsigned_v<T>) {
			auto want = std::string(n == 2 ? "0b" : n == 8 ? "0" : "0x") + digits(mag, n);
			CHECK_EQ("to-string-base", s, want, "base ", n);
			// what cannot belong to the number: in binary 2..9, in octal 8 and 9
			std::string t = n == 2 && r.coin() ? "2" : n == 8 && r.coin() ? "8" : tail;
			read_expect<T>("base", lead + s + t, lead.size(), s.size(), v);
			if (n == 16) {
				std::string up = s;
				for (auto& ch : up) {
					if (ch >= 'a' && ch <= 'f') {
						ch = char(ch - 32);
					}
				}
				read_expect<T>("hex-upper", lead + up + t, lead.size(), up.size(), v);
			}
		} else {
			CHECK_EQ("to-string-signed-base", s, (v < 0 ? "-" : "") + digits(mag, n), "base ", n);
		}
	}
	COUNT("integers");
}

template <typename T>
static T gen_int(ctx& c)
{
	if (c.r.chance(1, 3)) { // powers of the bases and neighbours
		static const unsigned bs[] = {2, 8, 10, 16};
		u64 b = c.r.pick(bs), v = 1;
		auto k = c.r.below(64);
		for (u64 i = 0; i != k && v <= u64(std::numeric_limits<T>::max()) / b; ++i) {
			v *= b;
		}
		v += c.r.below(3);
		v -= 1;
		T t = T(v);
		return std::is_signed_v<T> && c.r.coin() && t != std::numeric_limits<T>::min() ? T(-t) : t;
	}
	return c.r.integer<T>();
}

SUITE(integers, 5000, 0, "values of every built-in integer type in every base, with leading whitespace and trailing text, under C, comma-decimal and hostile C++ locales; every case non-trivial")
{
	c.nt();
	locale_guard g(unsigned(c.r.below(8)));
	integer_case(c, gen_int<signed char>(c));
	integer_case(c, gen_int<unsigned char>(c));
	integer_case(c, gen_int<char>(c));
	integer_case(c, gen_int<short>(c));
	integer_case(c, gen_int<unsigned short>(c));
	integer_case(c, gen_int<int>(c));
	auto u = gen_int<unsigned>(c);
	SAMPLE("unsigned ", u);
	integer_case(c, u);
	integer_case(c, gen_int<long>(c));
	integer_case(c, gen_int<unsigned long>(c));
	integer_case(c, gen_int<long long>(c));
	integer_case(c, gen_int<unsigned long long>(c));
}

SUITE(all16, 256, fixed, "all 16 and 8 bit values, signed and unsigned, in all bases; every case non-trivial")
{
	c.nt();
	c.distinct(c.index);
	for (unsigned lo = 0; lo != 256; ++lo) {
		auto v = u16((c.index << 8) | lo);
		integer_case<unsigned short>(c, v);
		integer_case<short>(c, short(v));
	}
	integer_case<unsigned char>(c, u8(c.index));
	integer_case<signed char>(c, (signed char)(c.index));
}

// ---- digit strings not produced by to_string: leading zeros, out of range
template <typename T>
static void digit_string(ctx& c)
{
	auto& r = c.r;
	constexpr bool uns = std::is_unsigned_v<T>;
	unsigned base = 10;
	if (uns) {
		static const unsigned bs[] = {2, 8, 10, 16};
		base = r.pick(bs);
	}
	size_t n = r.range(1, base == 2 ? 90 : 45);
	std::string d = r.text(r.chance(1, 3) ? r.below(60) : 0, "0") + r.text(n, std::string_view("0123456789abcdef", base));
	bool neg = !uns && r.coin();
	std::string pre = neg ? "-" : "";
	if (uns && base != 10) {
		pre = base == 2 ? "0b" : base == 8 ? "0" : "0x";
	}
	if (uns && base == 10 && d[0] == '0') {
		d[0] = '1'; // a leading zero would make it octal
	}
	unsigned __int128 val = 0;
	bool over = false;
	const unsigned __int128 lim = neg ? (unsigned __int128)(u64(std::numeric_limits<T>::max())) + 1 : (unsigned __int128)(u64(std::numeric_limits<T>::max()));
	for (char ch : d) {
		unsigned dv = ch <= '9' ? unsigned(ch - '0') : unsigned(ch - 'a' + 10);
		val = val * base + dv;
		if (val > lim) {
			over = true;
			val = lim + 1;
		}
	}
	T want = over ? T(0) : neg ? T(u64(0) - u64(val)) : T(u64(val));
	std::string tail = r.pick(tails);
	if (over) {
		COUNT("integers.out-of-range");
	}
	read_expect<T>(over ? "out-of-range" : "digits", pre + d + tail, 0, pre.size() + d.size(), want);
}

SUITE(digit_strings, 6000, 0, "digit strings of 1..150 digits with leading zeros in every base and type, in and out of range; every case non-trivial")
{
	c.nt();
	locale_guard g(unsigned(c.r.below(8)));
	digit_string<signed char>(c);
	digit_string<unsigned char>(c);
	digit_string<short>(c);
	digit_string<unsigned short>(c);
	digit_string<int>(c);
	digit_string<unsigned>(c);
	digit_string<long>(c);
	digit_string<unsigned long>(c);
	digit_string<long long>(c);
	digit_string<unsigned long long>(c);
}

template <typename T>
static void rejects(const std::string& t)
{
	exact<char> e(t);
	note(str("reject ", esc(t)));
	utki::string_parser p(e.view());
	CHECK_THROWS("rejects", std::invalid_argument, p.template read_number<T>(), "text ", esc(t), " size of type ", sizeof(T));
}

SUITE(not_numbers, 4000, 0, "texts which do not start with a number; non-trivial when not blank")
{
	auto& r = c.r;
	static const char* heads[] = {"", "x1", "a5", "g", "-", "--1", "- 1", "+", "e5", ",1", "_1", "\xff" "1", "/9", ":0", "-x", "-.", ".", ".e5", "abc", "'1", "$5", "b1", "-e1"};
	std::string blank = r.text(r.below(4), " \t\n");
	std::string head = r.pick(heads);
	std::string tail = r.coin() ? r.pick(tails) : "";
	if (head.empty()) {
		tail = r.coin() ? "g" : ""; // blank followed by e.g. " 5" would be a number
	}
	std::string t = blank + head + tail;
	// no tail begins with a digit, so a head like "-" cannot become a number
	c.nt(t.find_first_not_of(" \t\n") != std::string::npos);
	SAMPLE(t);
	locale_guard g(unsigned(r.below(8)));
	rejects<int>(t);
	rejects<unsigned>(t);
	rejects<short>(t);
	rejects<u8>(t);
	rejects<long long>(t);
	rejects<unsigned long long>(t);
	rejects<float>(t);
	rejects<double>(t);
}

// zero followed by something which only looks like a prefix
SUITE(bare_zero, 400, 0, "a zero followed by an incomplete prefix or other text reads as zero and stops right after the zero; every case non-trivial")
{
	auto& r = c.r;
	c.nt();
	static const char* t[] = {"", "x", "b", "xg", "x ", "b2", "b ", "bz", "X1", "B1", "z", " 5", ",", "-1", ".5", "a", "_7", "x-1"};
	std::string tail = r.pick(t);
	std::string lead = r.text(r.below(3), " \n");
	read_expect<unsigned>("zero", lead + "0" + tail, lead.size(), 1, 0u);
	read_expect<u8>("zero", lead + "0" + tail, lead.size(), 1, u8(0));
	read_expect<unsigned long long>("zero", lead + "0" + tail, lead.size(), 1, 0ull);
	read_expect<int>("zero", lead + "0" + tail, lead.size(), 1, 0);
}

// ---- floating point
template <typename T>
static u64 fb(T v)
{
	u64 b = 0;
	memcpy(&b, &v, sizeof(v));
	return b;
}

// length of the longest prefix which is a decimal floating point number; 0 when none
static size_t float_len(std::string_view s)
{
	size_t i = 0;
	auto dig = [&](size_t k) { return k < s.size() && s[k] >= '0' && s[k] <= '9'; };
	if (i < s.size() && s[i] == '-') {
		++i;
	}
	size_t nd = 0;
	while (dig(i)) {
		++i;
		++nd;
	}
	if (i < s.size() && s[i] == '.') {
		size_t k = i + 1;
		size_t f = 0;
		while (dig(k)) {
			++k;
			++f;
		}
		if (nd + f) {
			i = k;
			nd += f;
		}
	}
	if (nd == 0) {
		return 0;
	}
	if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
		size_t k = i + 1;
		if (k < s.size() && (s[k] == '+' || s[k] == '-')) {
			++k;
		}
		if (dig(k)) {
			while (dig(k)) {
				++k;
			}
			i = k;
		}
	}
	return i;
}

template <typename T>
static T ref_float(const std::string& s)
{
	if constexpr (std::is_same_v<T, float>) {
		return strtof_l(s.c_str(), nullptr, c_loc);
	} else {
		return strtod_l(s.c_str(), nullptr, c_loc);
	}
}

template <typename T>
static void float_case(const std::string& text)
{
	size_t lead = text.find_first_not_of(" \t\n\v\f\r");
	if (lead == std::string::npos) {
		lead = text.size();
	}
	size_t len = float_len(std::string_view(text).substr(lead));
	if (len == 0) {
		return;
	}
	auto num = text.substr(lead, len);
	T want = ref_float<T>(num);
	bool mant_zero = num.substr(0, num.find_first_of("eE")).find_first_of("123456789") == std::string::npos;
	bool oor = std::isinf(want) || (want == 0 && !mant_zero);
	exact<char> e(text);
	note(str("float ", esc(text)));
	{
		utki::string_parser p(e.view());
		T got = p.template read_number<T>();
		if (oor) {
			CHECK("float-out-of-range", got == 0, "text ", esc(text), " gave ", got);
			COUNT("floats.out-of-range");
		} else {
			CHECK("float-value", fb(got) == fb(want), "text ", esc(text), " gave ", got, " expected ", want, " size of type ", sizeof(T));
		}
		CHECK("float-stops", p.size() == text.size() - lead - len, "text ", esc(text), " left unread ", p.get_view(), " expected ", text.size() - lead - len, " characters");
	}
	if constexpr (std::is_same_v<T, double>) {
		utki::string_parser p(e.view());
		long double got = p.template read_number<long double>();
		CHECK("long-double", oor ? got == 0 : (fb(double(got)) == fb(want) && (long double)(double(got)) == got), "text ", esc(text), " gave ", got, " expected ", want);
		CHECK("float-stops", p.size() == text.size() - lead - len, "text ", esc(text));
	}
	// the from_chars of the library against the one of libstdc++
	static const std::pair<utki::chars_format, std::chars_format> fmts[] = {
		{utki::chars_format::general, std::chars_format::general}, {utki::chars_format::fixed, std::chars_format::fixed}, {utki::chars_format::scientific, std::chars_format::scientific}
	};
	auto b = e.data() + lead;
	auto en = e.data() + e.size();
	for (auto [f, sf] : fmts) {
		T x = 42, y = 42;
		auto q = utki::from_chars(b, en, x, f);
		auto w = std::from_chars((const char*)(b), (const char*)(en), y, sf);
		CHECK("from-chars-ec", q.ec == w.ec, "text ", esc(text), " format ", int(f), " got ", int(q.ec), " expected ", int(w.ec));
		CHECK("from-chars-ptr", q.ptr == w.ptr, "text ", esc(text), " format ", int(f), " consumed ", long(q.ptr - b), " expected ", long(w.ptr - b));
		if (w.ec == std::errc()) {
			CHECK("from-chars-value", fb(x) == fb(y), "text ", esc(text), " format ", int(f), " got ", x, " expected ", y);
		}
	}
	{ // the default format is the general one
		T x = 42, y = 42;
		auto q = utki::from_chars(b, en, x);
		auto w = utki::from_chars(b, en, y, utki::chars_format::general);
		CHECK("from-chars-default", q.ec == w.ec && q.ptr == w.ptr && (x == y || x != x), "text ", esc(text));
	}
	if constexpr (std::is_same_v<T, float>) {
		COUNT("floats");
	} else {
		COUNT("doubles");
	}
}

template <typename T, typename B>
static std::string gen_float_text(ctx& c)
{
	auto& r = c.r;
	char buf[2500];
	auto rnd = [&]() {
		B bits = B(r.next());
		if (r.chance(1, 6)) { // subnormal or tiny exponent
			bits &= ~(B(sizeof(T) == 4 ? 0x7f : 0x7fe) << (sizeof(T) == 4 ? 24 : 53));
		}
		T v;
		memcpy(&v, &bits, sizeof(v));
		if (!std::isfinite(v)) {
			v = T(r.below(100000)) / T(7);
		}
		return v;
	};
	switch (r.below(8)) {
		case 0: { // shortest
			T v = rnd();
			auto q = std::to_chars(buf, buf + sizeof(buf), v);
			return std::string(buf, q.ptr);
		}
		case 1: // many digits
			snprintf(buf, sizeof(buf), "%.*e", int(r.below(40)), double(rnd()));
			return buf;
		case 2: // exact decimal expansion of the midpoint between two neighbours: the hardest rounding decision
		{
			T v = rnd();
			T w = std::nextafter(v, std::numeric_limits<T>::max());
			if (!std::isfinite(w)) {
				w = v;
			}
			long double m = ((long double)(v) + (long double)(w)) / 2;
			snprintf(buf, sizeof(buf), "%.*Le", 1080, m);
			std::string s = buf;
			auto e = s.find('e');
			auto mant = s.substr(0, e);
			while (mant.back() == '0') {
				mant.pop_back();
			}
			switch (r.below(3)) {
				case 0: mant += "0000000000000000000001"; break; // just above
				case 1: // just below
					if (mant.back() > '0' && mant.back() <= '9') {
						mant.back() = char(mant.back() - 1);
						mant += "9999999";
					}
					break;
				default: break;
			}
			return mant + s.substr(e);
		}
		case 3: // fixed notation
			snprintf(buf, sizeof(buf), "%.*f", int(r.below(30)), double(r.integer<int>()) / double(r.below(1000) + 1));
			return buf;
		case 4: { // free shape
			std::string s = r.coin() ? "-" : "";
			s += r.text(r.below(25), "0123456789");
			if (r.coin()) {
				s += '.';
				s += r.text(r.below(25), "0123456789");
			}
			if (r.coin()) {
				s += r.coin() ? 'e' : 'E';
				static const char* sg[] = {"", "-", "+"};
				s += r.pick(sg);
				s += r.text(r.below(4), "0123456789");
			}
			return s;
		}
		case 5: // around overflow and underflow
			snprintf(buf, sizeof(buf), "%s%d.%de%d", r.coin() ? "-" : "", int(r.below(10)), int(r.below(1000000)), int(r.below(2)) ? int(r.range(30, 50)) * (sizeof(T) == 8 ? 8 : 1) : -int(r.range(35, 50)) * (sizeof(T) == 8 ? 8 : 1));
			return buf;
		case 6: { // very long
			std::string s = r.text(r.range(1, 900), "0123456789");
			if (r.coin()) {
				s.insert(r.below(s.size() + 1), ".");
			}
			return s + (r.coin() ? "e-" + std::to_string(r.below(1000)) : "");
		}
		default: { // integers and simple ones
			static const char* simple[] = {"0", "-0", "0.0", "1", "-1", "1.", ".5", "-.5", "10", "1e0", "1e1", "0.1", "0.2", "0.3", "1e22", "1e23", "9007199254740993", "16777217", "1e-45", "1e-46", "7e-46", "3.4028236e38", "3.4028235e38", "1.7976931348623159e308", "1.7976931348623157e308", "4.9e-324", "2.4e-324", "00001.50", "0e999999", "1e99999999999999999999", "1e-99999999999999999999", "123456789012345678901234567890"};
			return r.pick(simple);
		}
	}
}

SUITE(floats, 14000, 0, "decimal texts of floats and doubles: shortest forms, exact midpoints between neighbours and their neighbours, free shapes, overflow/underflow, very long, with trailing text, under several locales; non-trivial when a number was read")
{
	auto& r = c.r;
	std::string lead = r.text(r.below(3), " \t\n");
	std::string tail = r.pick(tails);
	static const char* ftails[] = {"e", "e+", "E-", "..", ".5.", "e5e", ",5", "f", "x1p3", "5,6"};
	if (r.chance(1, 4)) {
		tail = r.pick(ftails);
	}
	auto f = lead + gen_float_text<float, u32>(c) + tail;
	auto d = lead + gen_float_text<double, u64>(c) + tail;
	c.nt(float_len(std::string_view(d).substr(lead.size())) != 0);
	SAMPLE(d);
	locale_guard g(unsigned(r.below(8)));
	float_case<float>(f);
	float_case<double>(d);
	float_case<float>(d);
}
