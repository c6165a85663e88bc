// C25: version, math and container helpers obey their algebra.
// Oracle: naive references, exhaustively over boundary grids where small.
#define VH_MAIN
#include "vh.hpp"

#include <array>
#include <deque>
#include <list>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

#include <utki/math.hpp>
#include <utki/span.hpp>
#include <utki/type_traits.hpp>
#include <utki/utility.hpp>
#include <utki/variant.hpp>
#include <utki/version.hpp>

using namespace vh;

// ---------------------------------------------------------------- versions
namespace {
using vd = utki::version_duplet;

void check_versions(u16 a1, u16 a2, u16 b1, u16 b2)
{
	vd a{a1, a2}, b{b1, b2};
	bool less = a1 < b1 || (a1 == b1 && a2 < b2);
	CHECK_EQ("version-less", a < b, less, a1, ".", a2, " and ", b1, ".", b2);
	CHECK_EQ("version-ge", a >= b, !less, a1, ".", a2, " and ", b1, ".", b2);
	CHECK_EQ("version-packed", a.to_uint32_t(), u32(a1) * 65536u + a2);
	CHECK_EQ("version-packed-order", a < b, a.to_uint32_t() < b.to_uint32_t());
	std::ostringstream ss;
	ss << a << ' ' << b;
	CHECK_EQ("version-print", ss.str(), std::to_string(a1) + "." + std::to_string(a2) + " " + std::to_string(b1) + "." + std::to_string(b2));
	CHECK("version-unchanged", a.major == a1 && a.minor == a2 && b.major == b1 && b.minor == b2);
	COUNT("version pairs");
}
const u16 grid[] = {0, 1, 2, 9, 10, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535};
} // namespace

SUITE(versions, 4000, 0, "versions with different parts")
{
	auto a1 = c.r.integer<u16>();
	auto a2 = c.r.integer<u16>();
	auto b1 = c.r.coin() ? a1 : c.r.integer<u16>();
	auto b2 = c.r.chance(1, 3) ? a2 : c.r.integer<u16>();
	check_versions(a1, a2, b1, b2);
	c.nt(a1 != a2);
	SAMPLE(a1, ".", a2, " and ", b1, ".", b2);
}

SUITE(version_grid, 196, fixed | novg, "all pairs of versions over boundary values")
{
	auto n = std::size(grid);
	auto i = c.index / n, k = c.index % n;
	for (auto b1 : grid) {
		for (auto b2 : grid) {
			check_versions(grid[i], grid[k], b1, b2);
		}
	}
	constexpr vd cv{3, 65535};
	static_assert(cv.to_uint32_t() == 0x3ffffu, "packed in a constant expression");
	c.nt();
	c.distinct(c.index);
}

// ---------------------------------------------------------------- math
namespace {
template <typename T>
void int_math(ctx& c)
{
	T x = c.r.integer<T>();
	bool neg = std::is_signed_v<T> && (long long)(x) < 0;
	CHECK_EQ("sign", utki::sign(x), neg ? T(-1) : T(1), "of ", x);
	// powers, for values for which the result (and the promoted intermediate ones) fit
	for (int p = 2; p <= 6; ++p) {
		long double lim = std::pow((long double)(std::numeric_limits<T>::max()), 1.0L / p);
		auto bound = (long long)(lim);
		if (bound < 2) {
			bound = 1;
		}
		auto m = (long long)(c.r.below(u64(bound)));
		if (std::is_signed_v<T> && c.r.coin()) {
			m = -m;
		}
		T v = T(m);
		T exp = v;
		for (int i = 1; i != p; ++i) {
			exp = T(exp * v);
		}
		T got = T(0);
		switch (p) {
			case 2: got = utki::pow2(v); break;
			case 3: got = utki::pow3(v); break;
			case 4: got = utki::pow4(v); break;
			case 5: got = utki::pow5(v); break;
			default: got = utki::pow6(v); break;
		}
		CHECK_EQ("pow", got, exp, v, " to the power of ", p);
		COUNT("integer powers");
	}
	c.nt(x != 0);
	SAMPLE("sign of ", x);
}

template <typename T>
bool close(T a, T b, T tol)
{
	if (a == b) {
		return true;
	}
	return std::abs(a - b) <= tol * std::max(std::abs(a), std::abs(b));
}

template <typename T>
T random_real(rng& r)
{
	switch (r.below(6)) {
		case 0: return T(r.integer<int>());
		case 1: return T(0);
		case 2: return -T(0);
		case 3: return T(double(r.below(1000000)) / 1000 - 500);
		case 4: {
			int e = int(r.below(60)) - 30;
			double m = double(r.below(1000000) + 1) / 1000000;
			return T((r.coin() ? -1 : 1) * std::ldexp(m, e));
		}
		default: return T(int(r.below(721)) - 360);
	}
}

template <typename T>
void real_math(ctx& c)
{
	constexpr T eps = std::numeric_limits<T>::epsilon();
	T x = random_real<T>(c.r);
	CHECK_EQ("sign-real", utki::sign(x), x < 0 ? T(-1) : T(1), "of ", x);
	CHECK_EQ("sign-inf", utki::sign(std::numeric_limits<T>::infinity()), T(1));
	CHECK_EQ("sign-inf", utki::sign(-std::numeric_limits<T>::infinity()), T(-1));
	CHECK_EQ("sign-tiny", utki::sign(-std::numeric_limits<T>::denorm_min()), T(-1));
	CHECK_EQ("sign-tiny", utki::sign(std::numeric_limits<T>::denorm_min()), T(1));
	T p = x;
	T got[] = {utki::pow2(x), utki::pow3(x), utki::pow4(x), utki::pow5(x), utki::pow6(x)};
	for (int i = 0; i != 5; ++i) {
		p *= x;
		if (std::isfinite(p) && std::abs(p) > std::numeric_limits<T>::min() * 16) {
			CHECK("pow-real", close(got[i], p, 16 * eps), x, " to the power of ", i + 2, " is ", p, ", got ", got[i]);
		}
	}
	T rad = utki::deg_to_rad(x);
	T deg = utki::rad_to_deg(x);
	CHECK("deg-to-rad", close(rad, T((long double)(x) * 3.14159265358979323846264338327950288L / 180), 8 * eps), x, " degrees are ", rad);
	CHECK("rad-to-deg", close(deg, T((long double)(x) * 180 / 3.14159265358979323846264338327950288L), 8 * eps), x, " radians are ", deg);
	CHECK("deg-rad-deg", close(utki::rad_to_deg(rad), x, 16 * eps), x);
	CHECK("rad-deg-rad", close(utki::deg_to_rad(deg), x, 16 * eps), x);
	c.nt(x != 0);
	SAMPLE(x);
	COUNT("real numbers");
}
} // namespace

SUITE(math_int, 3000, 0, "non-zero number")
{
	switch (c.r.below(8)) {
		case 0: int_math<int8_t>(c); break;
		case 1: int_math<uint8_t>(c); break;
		case 2: int_math<int16_t>(c); break;
		case 3: int_math<uint16_t>(c); break;
		case 4: int_math<int32_t>(c); break;
		case 5: int_math<uint32_t>(c); break;
		case 6: int_math<int64_t>(c); break;
		default: int_math<uint64_t>(c); break;
	}
}
SUITE(math_real, 3000, 0, "non-zero number")
{
	if (c.r.coin()) {
		real_math<double>(c);
	} else {
		real_math<float>(c);
	}
}
SUITE(math_constants, 1, fixed, "constant expressions")
{
	static_assert(utki::sign(-5) == -1 && utki::sign(0) == 1 && utki::sign(7) == 1, "sign");
	static_assert(utki::pow2(3) == 9 && utki::pow3(-3) == -27 && utki::pow4(3) == 81 && utki::pow5(-3) == -243 && utki::pow6(3) == 729, "powers");
	CHECK("pi", std::abs(utki::pi - std::acos(-1.0)) < 1e-15);
	CHECK("two-pi", std::abs(utki::two_pi - 2 * std::acos(-1.0)) < 1e-15);
	CHECK("log-2", std::abs(utki::log_2 - std::log(2.0)) < 1e-15);
	CHECK_EQ("mm-per-inch", utki::mm_per_inch, 25.4);
	CHECK_EQ("kilobyte", utki::kilobyte, 1024);
	CHECK_EQ("cm-per-inch", utki::cm_per_inch, 2.54);
	CHECK("bits", utki::byte_bits == 8 && utki::nibble_bits == 4 && utki::byte_mask == 0xff && utki::lower_nibble_mask == 0xf && utki::upper_nibble_mask == 0xf0);
	const int masks[] = {utki::bit_0_mask, utki::bit_1_mask, utki::bit_2_mask, utki::bit_3_mask, utki::bit_4_mask, utki::bit_5_mask, utki::bit_6_mask, utki::bit_7_mask};
	for (int i = 0; i != 8; ++i) {
		CHECK_EQ("bit-mask", masks[i], 1 << i, "bit ", i);
	}
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
	CHECK("deprecated-constants", utki::num_bits_in_byte == 8 && utki::num_bits_in_nibble == 4 && utki::hundred_percent == 100);
#pragma GCC diagnostic pop
	utki::version_triplet triplet{{0x1234, 0xfedc}, 0x89abcdef};
	CHECK("triplet", triplet.duplet.major == 0x1234 && triplet.duplet.minor == 0xfedc && triplet.revision == 0x89abcdef);
	CHECK("half-turn", std::abs(utki::deg_to_rad(180.0) - std::acos(-1.0)) < 1e-15);
	c.nt();
	COUNT("constants");
}

// ---------------------------------------------------------------- maps and contains
SUITE(flip, 800, 0, "map with at least two entries")
{
	bool large = !c.r.from_bytes() && c.r.chance(1, 80);
	size_t n = large ? size_t(c.r.range(1000, 6000)) : c.r.size(200);
	auto spread = c.r.range(1, large ? 9000 : 300);
	std::map<int, std::string> m;
	for (size_t i = 0; i != n; ++i) {
		auto k = int(c.r.below(large ? 20000 : 1000)) - 500;
		auto v = c.r.below(spread);
		m[k] = "value " + std::to_string(v);
	}
	const auto m0 = m;
	std::set<std::string> values;
	for (auto& kv : m) {
		values.insert(kv.second);
	}
	auto check = [&](const auto& f, const char* what) {
		CHECK_EQ("flip-size", f.size(), values.size(), std::string(what));
		for (auto& kv : f) {
			CHECK("flip-value", values.count(kv.first) == 1, std::string(what));
			auto i = m0.find(kv.second);
			CHECK("flip-key", i != m0.end() && i->second == kv.first, std::string(what));
		}
	};
	switch (c.r.below(3)) {
		case 0: check(utki::flip_map(m), "default order"); break;
		case 1: {
			auto f = utki::flip_map<std::greater<std::string>>(m);
			check(f, "descending order");
			CHECK("flip-order", std::is_sorted(f.begin(), f.end(), [](auto& a, auto& b) { return a.first > b.first; }));
			break;
		}
		default: {
			std::map<int, std::string, std::greater<int>> g(m.begin(), m.end());
			check(utki::flip_map(g), "from descending order");
			break;
		}
	}
	CHECK("flip-source", m == m0);
	for (auto& kv : m) {
		std::pair<int, std::string> p(kv.first, kv.second);
		auto q = utki::flip_pair(p);
		static_assert(std::is_same_v<decltype(q), std::pair<std::string, int>>, "types are swapped");
		CHECK("flip-pair", q.first == kv.second && q.second == kv.first);
		break;
	}
	if (values.size() == m.size()) { // flipping twice gives the same map
		CHECK("flip-twice", utki::flip_map(utki::flip_map(m)) == m);
		COUNT("one to one maps");
	}
	c.nt(m.size() > 1);
	SAMPLE(m.size(), " entries, ", values.size(), " distinct values");
	COUNT_N("flipped entries", m.size());
}

SUITE(contains, 1500, 0, "non-empty container")
{
	size_t n = c.r.size(100);
	std::vector<int> v(n);
	for (auto& x : v) {
		x = int(c.r.below(150));
	}
	int x = int(c.r.below(150));
	if (n != 0 && c.r.chance(1, 3)) {
		x = c.r.coin() ? v.front() : v.back();
	}
	bool exp = false;
	for (auto e : v) {
		exp = exp || e == x;
	}
	bool got = false;
	auto kind = c.r.below(11);
	switch (kind) {
		case 0: got = utki::contains(v, x); break;
		case 1: got = utki::contains(std::list<int>(v.begin(), v.end()), x); break;
		case 2: got = utki::contains(std::deque<int>(v.begin(), v.end()), x); break;
		case 3: got = utki::contains(std::set<int>(v.begin(), v.end()), x); break;
		case 4: got = utki::contains(std::unordered_set<int>(v.begin(), v.end()), x); break;
		case 5: {
			std::map<int, int> m;
			for (auto e : v) {
				m[e] = x; // the value is everywhere, the key matters
			}
			got = utki::contains(m, x);
			break;
		}
		case 6: {
			std::unordered_map<int, int> m;
			for (auto e : v) {
				m[e] = x;
			}
			got = utki::contains(m, x);
			break;
		}
		case 7: {
			std::map<int, std::string, std::greater<int>> m;
			for (auto e : v) {
				m[e] = "";
			}
			got = utki::contains(m, x);
			break;
		}
		case 8: {
			std::vector<std::string> s;
			for (auto e : v) {
				s.push_back("string number " + std::to_string(e));
			}
			got = utki::contains(s, "string number " + std::to_string(x));
			break;
		}
		case 9: {
			std::string s;
			for (auto e : v) {
				s += char(e);
			}
			got = utki::contains(s, char(x));
			break;
		}
		default: {
			int a[5] = {};
			exp = false;
			for (size_t i = 0; i != 5; ++i) {
				a[i] = int(c.r.below(8));
				exp = exp || a[i] == x % 8;
			}
			got = utki::contains(a, x % 8);
			CHECK_EQ("contains-array", utki::contains(std::array<int, 3>{{a[0], a[1], a[2]}}, a[4]), a[0] == a[4] || a[1] == a[4] || a[2] == a[4]);
			break;
		}
	}
	CHECK_EQ("contains", got, exp, "container kind ", kind, " of ", n, " elements");
	if (exp) {
		COUNT("contained");
	} else {
		COUNT("not contained");
	}
	c.nt(n != 0);
	SAMPLE(x, " in ", v);
}

// ---------------------------------------------------------------- types
namespace {
template <size_t N>
void size_check()
{
	using U = typename utki::uint_size<N>::type;
	using S = typename utki::int_size<N>::type;
	constexpr size_t exp = N == 1 ? 1 : N == 2 ? 2 : N <= 4 ? 4 : 8;
	CHECK_EQ("uint-size", sizeof(U), exp, N, " bytes");
	CHECK_EQ("int-size", sizeof(S), exp, N, " bytes");
	CHECK("uint-signedness", std::is_unsigned_v<U> && std::is_integral_v<U>, N, " bytes");
	CHECK("int-signedness", std::is_signed_v<S> && std::is_integral_v<S>, N, " bytes");
	// all values of N bytes survive
	u64 m = N == 8 ? ~u64(0) : (u64(1) << (8 * N)) - 1;
	CHECK_EQ("uint-holds", u64(U(m)), m);
	long long lo = N == 8 ? std::numeric_limits<long long>::min() : -(1ll << (8 * N - 1));
	CHECK_EQ("int-holds", (long long)(S(lo)), lo);
	CHECK_EQ("int-holds", (long long)(S(-(lo + 1))), -(lo + 1));
	COUNT("type sizes");
}

struct mo { // neither copyable nor default constructible
	explicit mo(int) {}
	mo(const mo&) = delete;
};
} // namespace

SUITE(types, 1, fixed, "type level computations")
{
	size_check<1>();
	size_check<2>();
	size_check<3>();
	size_check<4>();
	size_check<5>();
	size_check<6>();
	size_check<7>();
	size_check<8>();

	using var = std::variant<int, std::string, double, const char*, char, std::vector<int>, bool, mo>;
	constexpr size_t idx[] = {
		utki::index_of_v<int, var>,
		utki::index_of_v<std::string, var>,
		utki::index_of_v<double, var>,
		utki::index_of_v<const char*, var>,
		utki::index_of_v<char, var>,
		utki::index_of_v<std::vector<int>, var>,
		utki::index_of_v<bool, var>,
		utki::index_of_v<mo, var>,
	};
	for (size_t i = 0; i != std::size(idx); ++i) {
		CHECK_EQ("index-of", idx[i], i);
	}
	CHECK_EQ("index-of-single", (utki::index_of_v<int, std::variant<int>>), size_t(0));
	CHECK_EQ("index-of-struct", (utki::index_of<bool, std::variant<int, bool>>::value), size_t(1));
	COUNT_N("variant alternatives", std::size(idx));

	static_assert(std::is_same_v<utki::offset_sequence_t<5, std::index_sequence<0, 1, 7>>, std::index_sequence<5, 6, 12>>, "offset_sequence");
	static_assert(std::is_same_v<utki::offset_sequence_t<0, std::make_index_sequence<4>>, std::index_sequence<0, 1, 2, 3>>, "offset_sequence");
	static_assert(std::is_same_v<utki::remove_const_reference_t<const std::string&>, std::string>, "remove_const_reference");
	static_assert(std::is_same_v<utki::remove_const_reference_t<int&&>, int>, "remove_const_reference");
	static_assert(std::is_same_v<utki::remove_const_pointer_t<const int*>, int>, "remove_const_pointer");
	static_assert(utki::is_specialization_of_v<std::vector, std::vector<int>> && !utki::is_specialization_of_v<std::list, std::vector<int>> && !utki::is_specialization_of_v<std::vector, int>, "is_specialization_of");
	enum unscoped { ua };
	enum class scoped { a };
	static_assert(utki::is_scoped_enum_v<scoped> && !utki::is_scoped_enum_v<unscoped> && !utki::is_scoped_enum_v<int>, "is_scoped_enum");
	enum wide : long long { wa = (1ll << 40) };
	enum narrow : signed char { na };
	enum flag : bool { fa };
	enum class scoped_wide : unsigned long long { a };
	enum class scoped_flag : bool { a };
	enum class scoped_char : char { a };
	struct holder {
		enum member { ma };
		enum class scoped_member : short { a };
		operator int() const { return 0; }
	};
	CHECK("unscoped-enums", !utki::is_scoped_enum_v<wide> && !utki::is_scoped_enum_v<narrow> && !utki::is_scoped_enum_v<flag> && !utki::is_scoped_enum_v<holder::member> && !utki::is_scoped_enum<unscoped>::value);
	CHECK("scoped-enums", utki::is_scoped_enum_v<scoped_wide> && utki::is_scoped_enum_v<scoped_flag> && utki::is_scoped_enum_v<scoped_char> && utki::is_scoped_enum_v<holder::scoped_member> && utki::is_scoped_enum<scoped>::value);
	CHECK("not-enums", !utki::is_scoped_enum_v<holder> && !utki::is_scoped_enum_v<void> && !utki::is_scoped_enum_v<unsigned char> && !utki::is_scoped_enum_v<scoped*> && !utki::is_scoped_enum_v<scoped&> && !utki::is_scoped_enum_v<double>);
	static_assert(std::is_same_v<utki::type_or_void_t<std::remove_const<int>>, int> && std::is_same_v<utki::type_or_void_t<int>, void>, "type_or_void");
	static_assert(utki::is_type_defined<std::remove_const<int>>::value && !utki::is_type_defined<std::string>::value, "is_type_defined");
	c.nt();
}

SUITE(visiting, 500, 0, "alternative other than the first")
{
	using var = std::variant<int, std::string, double, const char*, char, bool, std::vector<int>>;
	auto k = c.r.below(7);
	var v;
	switch (k) {
		case 0: v.emplace<int>(5); break;
		case 1: v.emplace<std::string>("s"); break;
		case 2: v.emplace<double>(1.5); break;
		case 3: v.emplace<const char*>("cs"); break;
		case 4: v.emplace<char>('c'); break;
		case 5: v.emplace<bool>(true); break;
		default: v.emplace<std::vector<int>>(3, 1); break;
	}
	int which = -1;
	std::visit(
		utki::overloaded{
			[&](auto) { which = 100; },
			[&](int x) { which = x == 5 ? 0 : -2; },
			[&](const std::string& s) { which = s == "s" ? 1 : -2; },
			[&](double d) { which = d == 1.5 ? 2 : -2; },
			[&](const char* s) { which = std::string_view(s) == "cs" ? 3 : -2; },
			[&](bool b) { which = b ? 5 : -2; },
		},
		v
	);
	CHECK_EQ("overloaded", which, k == 4 || k == 6 ? 100 : int(k));
	const auto o2 = utki::overloaded{[](int) { return 1; }, [](const std::vector<int>&) { return 2; }};
	CHECK_EQ("overloaded-two", o2(5), 1);
	CHECK_EQ("overloaded-two", o2(std::vector<int>()), 2);
	CHECK_EQ("overloaded-two", o2('c'), 1);
	// index_of agrees with index()
	size_t idx[] = {utki::index_of_v<int, var>, utki::index_of_v<std::string, var>, utki::index_of_v<double, var>, utki::index_of_v<const char*, var>, utki::index_of_v<char, var>, utki::index_of_v<bool, var>, utki::index_of_v<std::vector<int>, var>};
	CHECK_EQ("index", idx[k], v.index());
	c.nt(k != 0);
	SAMPLE("alternative ", k);
	COUNT("visits");
}
