// C11: span always denotes exactly the caller's elements.
// Oracle: a plain std::vector copy of the elements and the addresses of the source.
#define VH_MAIN
#include "vh.hpp"

#include <sstream>

#include <utki/span.hpp>

using namespace vh;

// checks everything about a span against address and contents
template <typename S, typename = void>
struct has_end_pointer : std::false_type {};
template <typename S>
struct has_end_pointer<S, std::void_t<decltype(std::declval<const S&>().end_pointer())>> : std::true_type {};

template <typename S, typename T>
static void denotes(S s, const T* p, const std::vector<std::remove_const_t<T>>& v, const char* what)
{
	std::string w = what;
	const size_t n = v.size();
	CHECK("size", s.size() == n, w, " size ", s.size(), " expected ", n);
	CHECK("size-bytes", s.size_bytes() == n * sizeof(T), w, " size_bytes ", s.size_bytes());
	CHECK("empty", s.empty() == (n == 0), w);
	if (n != 0) {
		CHECK("data", s.data() == p, w, " wrong address");
	}
	// forward
	{
		size_t i = 0;
		for (auto& e : s) {
			CHECK("iterate", i < n && &e == p + i && e == v[i], w, " element ", i);
			++i;
		}
		CHECK("iterate-count", i == n, w, " visited ", i, " of ", n);
		i = 0;
		for (auto b = s.cbegin(); b != s.cend(); ++b, ++i) {
			CHECK("citerate", i < n && &*b == p + i, w, " element ", i);
		}
		CHECK("citerate-count", i == n, w);
		CHECK("distance", size_t(s.end() - s.begin()) == n, w);
	}
	// backward
	{
		size_t i = n;
		for (auto b = s.rbegin(); b != s.rend(); ++b) {
			CHECK("reverse", i != 0 && &*b == p + (i - 1), w, " element ", i);
			--i;
		}
		CHECK("reverse-count", i == 0, w);
		i = n;
		for (auto b = s.crbegin(); b != s.crend(); ++b) {
			CHECK("creverse", i != 0 && &*b == p + (i - 1), w, " element ", i);
			--i;
		}
		CHECK("creverse-count", i == 0, w);
	}
	const S& cs = s;
	for (size_t i = 0; i < n; i += 1 + n / 50) {
		CHECK("index", &s[i] == p + i && &cs[i] == p + i, w, " element ", i);
		CHECK("at", &s.at(i) == p + i && &cs.at(i) == p + i, w, " element ", i);
	}
	if (n != 0) {
		CHECK("front", &s.front() == p && &cs.front() == p, w);
		CHECK("back", &s.back() == p + n - 1 && &cs.back() == p + n - 1, w);
		CHECK("at-last", &s.at(n - 1) == p + n - 1, w);
	}
	static const size_t beyond[] = {0, 1, 7, size_t(1) << 31, size_t(1) << 32, size_t(-1) / 2};
	const size_t past[] = {n, n + beyond[(n + w.size()) % std::size(beyond)], size_t(-1)};
	const size_t bad = past[(n ^ w.size()) % 3]; // one index per span: exceptions are slow under instrumentation
	CHECK_THROWS("at-out-of-range", std::out_of_range, s.at(bad), w, " index ", bad, " size ", n);
	CHECK_THROWS("at-out-of-range", std::out_of_range, cs.at(bad), w, " index ", bad, " size ", n);
	if constexpr (has_end_pointer<S>::value) { // deprecated
		CHECK("end-pointer", s.end_pointer() == s.data() + n && cs.end_pointer() == cs.data() + n, w);
	}
	auto mv = utki::make_vector(s);
	CHECK("make-vector", mv == v && (n == 0 || mv.data() != p), w);
	COUNT("spans");
}

template <typename T>
static void sources(ctx& c, std::vector<T> v)
{
	auto& r = c.r;
	auto n = v.size();
	exact<T> e(v.data(), n);
	T* p = e.data();
	utki::span<T> s(p, n);
	utki::span<const T> cs(p, n);
	denotes(s, p, v, "pointer+size");
	denotes(cs, (const T*)(p), v, "const pointer+size");
	denotes(utki::make_span(p, n), p, v, "make_span(p, n)");
	denotes(utki::span<const T>(s), (const T*)(p), v, "const span from span");
	utki::span<T> copy(s), moved(std::move(copy)), assigned;
	CHECK("default", assigned.size() == 0 && assigned.empty() && assigned.data() == nullptr && assigned.begin() == assigned.end(), "");
	denotes(moved, p, v, "moved");
	assigned = moved;
	denotes(assigned, p, v, "assigned");
	// vector
	auto vec = v;
	const auto& cvec = vec;
	denotes(utki::span<T>(vec), (T*)(vec.data()), v, "vector");
	denotes(utki::span<const T>(vec), (const T*)(vec.data()), v, "const span of vector");
	denotes(utki::span<const T>(cvec), (const T*)(vec.data()), v, "const vector");
	denotes(utki::make_span(vec), (T*)(vec.data()), v, "make_span(vector)");
	denotes(utki::make_span(cvec), (const T*)(vec.data()), v, "make_span(const vector)");
	// array
	std::array<T, 5> arr{};
	for (auto& x : arr) {
		x = T(r.next());
	}
	const auto& carr = arr;
	std::vector<T> av(arr.begin(), arr.end());
	denotes(utki::span<T>(arr), (T*)(arr.data()), av, "array");
	denotes(utki::span<const T>(arr), (const T*)(arr.data()), av, "const span of array");
	denotes(utki::span<const T>(carr), (const T*)(arr.data()), av, "const array");
	denotes(utki::make_span(arr), (T*)(arr.data()), av, "make_span(array)");
	denotes(utki::make_span(carr), (const T*)(arr.data()), av, "make_span(const array)");
	std::array<T, 0> a0{};
	denotes(utki::make_span(a0), (T*)(nullptr), {}, "empty array");
	denotes(utki::span<T>(a0), (T*)(nullptr), {}, "empty array");
	// initializer list
	[&](utki::span<const T> il) {
		std::vector<T> w{T(1), v.empty() ? T(2) : v[0], T(3)};
		CHECK("init-list", utki::make_vector(il) == w, "");
	}({T(1), v.empty() ? T(2) : v[0], T(3)});
	{
		std::initializer_list<T> il = {T(9), T(8)};
		denotes(utki::make_span(il), il.begin(), {T(9), T(8)}, "make_span(initializer_list)");
	}
	// writes reach the source
	if (n != 0) {
		size_t i = r.below(n);
		T x = T(r.next());
		utki::span<T> w(vec);
		switch (r.below(6)) {
			case 0: w[i] = x; break;
			case 1: w.at(i) = x; break;
			case 2: *(w.begin() + long(i)) = x; break;
			case 3: w.front() = x; i = 0; break;
			case 4: w.back() = x; i = n - 1; break;
			default: *(w.rbegin() + long(i)) = x; i = n - 1 - i; break;
		}
		auto want = v;
		want[i] = x;
		CHECK("write-through", vec == want, "element ", i);
	}
	// sub-ranges
	for (int k = 0; k != 6; ++k) {
		size_t off = k == 0 ? n : k == 1 ? 0 : r.below(n + 1);
		size_t cnt = k == 0 ? 0 : k == 1 ? n : r.below(n - off + 1);
		std::vector<T> w(v.begin() + long(off), v.begin() + long(off + cnt)), tail(v.begin() + long(off), v.end());
		denotes(s.subspan(off, cnt), p + off, w, "subspan(off, count)");
		denotes(s.subspan(off), p + off, tail, "subspan(off)");
		denotes(cs.subspan(off, cnt), (const T*)(p + off), w, "const subspan");
		CHECK("subspan-data", s.subspan(off).data() == p + off, "offset ", off);
	}
	// streaming
	if constexpr (std::is_integral_v<T> && sizeof(T) > 1) {
		std::ostringstream o, q;
		o << s;
		for (auto x : v) {
			q << x;
		}
		CHECK("stream", o.str() == q.str(), "");
	}
}

template <typename T>
static std::vector<T> gen(ctx& c, size_t max)
{
	std::vector<T> v(c.r.size(max));
	for (auto& x : v) {
		x = c.r.coin() ? T(c.r.below(3)) : c.r.integer<T>();
	}
	return v;
}

SUITE(integer_spans, 1000, 0, "spans over 1/2/4/8 byte elements from every source, sizes 0..600, with sub-ranges, out-of-range indices and writes; non-trivial when not empty")
{
	auto v = gen<int>(c, 600);
	c.nt(!v.empty());
	SAMPLE(v);
	sources<int>(c, v);
	sources<u8>(c, gen<u8>(c, 300));
	sources<long long>(c, gen<long long>(c, 70));
}

struct big {
	u64 a[5];
	int b;
	bool operator==(const big& o) const { return memcmp(a, o.a, sizeof(a)) == 0 && b == o.b; }
	bool operator<(const big& o) const { return a[0] < o.a[0]; }
};

SUITE(struct_spans, 600, 0, "spans over 48 byte structures; non-trivial when not empty")
{
	auto& r = c.r;
	std::vector<big> v(r.size(80));
	for (auto& x : v) {
		memset(&x, 0, sizeof(x));
		x.a[0] = r.next();
		x.b = int(r.below(100));
	}
	c.nt(!v.empty());
	auto n = v.size();
	exact<big> e(v.data(), n);
	utki::span<big> s(e.data(), n);
	denotes(s, e.data(), v, "struct");
	size_t off = r.below(n + 1);
	denotes(s.subspan(off), e.data() + off, std::vector<big>(v.begin() + long(off), v.end()), "struct subspan");
	CHECK("bytes", s.size_bytes() == n * sizeof(big), "");
}

template <typename C>
static void strings(ctx& c, std::basic_string<C> t, const char* what)
{
	std::vector<C> v(t.begin(), t.end());
	const auto& ct = t;
	std::basic_string_view<C> sv(t);
	denotes(utki::span<C>(t), (C*)(t.data()), v, what);
	denotes(utki::span<const C>(ct), (const C*)(t.data()), v, what);
	denotes(utki::span<const C>(sv), (const C*)(t.data()), v, what);
	denotes(utki::make_span(t), (C*)(t.data()), v, what);
	denotes(utki::make_span(ct), (const C*)(t.data()), v, what);
	denotes(utki::make_span(sv), (const C*)(t.data()), v, what);
}

SUITE(string_spans, 1000, 0, "spans of strings, views and C strings of char/wchar_t/char16_t/char32_t, with any characters (null included where sized); non-trivial when not empty")
{
	auto& r = c.r;
	auto t = r.bytes_str(r.size(400));
	c.nt(!t.empty());
	SAMPLE(t);
	strings<char>(c, t, "std::string");
	std::wstring w;
	std::u16string u16s;
	std::u32string u32s;
	for (char ch : t) {
		w += wchar_t(u8(ch)) * 257;
		u16s += char16_t(u8(ch)) * 200;
		u32s += char32_t(u8(ch)) * 70000;
	}
	strings<wchar_t>(c, w, "std::wstring");
	strings<char16_t>(c, u16s, "std::u16string");
	strings<char32_t>(c, u32s, "std::u32string");
	// null-terminated
	std::string z;
	for (char ch : t) {
		z += ch ? ch : 'x';
	}
	vh::cstr cs(z);
	std::vector<char> zv(z.begin(), z.end());
	denotes(utki::make_span(cs.get()), cs.get(), zv, "make_span(const char*)");
	denotes(utki::span<const char>(cs.get()), cs.get(), zv, "span(const char*)");
	denotes(utki::span<char>(const_cast<char*>(cs.get())), const_cast<char*>(cs.get()), zv, "span(char*)");
	{
		std::ostringstream o;
		o << utki::make_span(t);
		CHECK("stream-chars", o.str() == t, "");
	}
	// byte and char re-views
	std::vector<char> v(t.begin(), t.end());
	std::vector<u8> bv(t.begin(), t.end());
	exact<char> e(t);
	auto s = utki::make_span(e.data(), e.size());
	auto csp = utki::span<const char>(s);
	denotes(utki::to_uint8_t(s), reinterpret_cast<u8*>(e.data()), bv, "to_uint8_t");
	denotes(utki::to_uint8_t(csp), reinterpret_cast<const u8*>(e.data()), bv, "to_uint8_t const");
	denotes(utki::to_char(utki::to_uint8_t(s)), e.data(), v, "to_char");
	denotes(utki::to_char(utki::to_uint8_t(csp)), (const char*)(e.data()), v, "to_char const");
}

// ---- comparisons
template <typename A, typename B>
static void compare(const std::vector<A>& a, const std::vector<B>& b)
{
	exact<A> ea(a.data(), a.size());
	exact<B> eb(b.data(), b.size());
	utki::span<A> sa(ea.data(), ea.size());
	utki::span<const B> sb(eb.data(), eb.size());
	// definition, written out
	int cmp = 0;
	size_t i = 0;
	for (;; ++i) {
		if (i == a.size() || i == b.size()) {
			cmp = a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
			break;
		}
		if (a[i] < b[i]) {
			cmp = -1;
			break;
		}
		if (b[i] < a[i]) {
			cmp = 1;
			break;
		}
	}
	CHECK("deep-equals", utki::deep_equals(sa, sb) == (cmp == 0), "a ", a, " b ", b);
	CHECK("deep-not-equals", utki::deep_not_equals(sa, sb) == (cmp != 0), "a ", a, " b ", b);
	CHECK("deep-less", utki::deep_less_than(sa, sb) == (cmp < 0), "a ", a, " b ", b);
	CHECK("deep-greater", utki::deep_greater_than(sa, sb) == (cmp > 0), "a ", a, " b ", b);
	CHECK("deep-less-or-equals", utki::deep_less_or_equals(sa, sb) == (cmp <= 0), "a ", a, " b ", b);
	CHECK("deep-greater-or-equals", utki::deep_greater_or_equals(sa, sb) == (cmp >= 0), "a ", a, " b ", b);
	if (cmp < 0) {
		COUNT("compare.less");
	} else if (cmp > 0) {
		COUNT("compare.greater");
	} else {
		COUNT("compare.equal");
	}
}

SUITE(comparisons, 9000, 0, "pairs of sequences: equal, prefix of each other, differing in one place or at random, of same and different element types; non-trivial when not both empty")
{
	auto& r = c.r;
	auto a = gen<int>(c, 40);
	for (auto& x : a) {
		x = std::max(-1000000, std::min(1000000, x));
	}
	auto b = a;
	switch (r.below(5)) {
		case 0: break;
		case 1: b.resize(r.below(a.size() + 1)); break;
		case 2:
			if (!b.empty()) {
				r.pick(b) += r.coin() ? 1 : -1;
			}
			break;
		case 3: b.push_back(int(r.below(3))); break;
		default: b = gen<int>(c, 5); break;
	}
	c.nt(!a.empty() || !b.empty());
	SAMPLE("a ", a, " b ", b);
	for (auto& x : b) {
		x = std::max(-1000000, std::min(1000000, x));
	}
	compare<int, int>(a, b);
	compare<int, int>(b, a);
	compare<int, long>(a, std::vector<long>(b.begin(), b.end()));
	std::vector<unsigned char> ua, ub; // characters above 0x7f compare as the element type does
	std::vector<signed char> sa, sb;
	for (auto x : a) {
		ua.push_back(u8(x));
		sa.push_back((signed char)(x));
	}
	for (auto x : b) {
		ub.push_back(u8(x));
		sb.push_back((signed char)(x));
	}
	compare(ua, ub);
	compare(sa, sb);
}

// elements whose equality and order are their own: floating point with NaN, wide integers, strings
template <typename T>
static void partial(const std::vector<T>& a, const std::vector<T>& b)
{
	utki::span<const T> sa(a.data(), a.size()), sb(b.data(), b.size());
	bool eq = a.size() == b.size();
	for (size_t i = 0; eq && i != a.size(); ++i) {
		eq = a[i] == b[i];
	}
	auto less = [](const std::vector<T>& x, const std::vector<T>& y) {
		size_t i = 0;
		for (; i != x.size() && i != y.size(); ++i) {
			if (x[i] < y[i]) {
				return true;
			}
			if (y[i] < x[i]) {
				return false;
			}
		}
		return i == x.size() && i != y.size();
	};
	CHECK("deep-equals", utki::deep_equals(sa, sb) == eq, "a ", a, " b ", b);
	CHECK("deep-not-equals", utki::deep_not_equals(sa, sb) == !eq, "a ", a, " b ", b);
	CHECK("deep-less", utki::deep_less_than(sa, sb) == less(a, b), "a ", a, " b ", b);
	CHECK("deep-greater", utki::deep_greater_than(sa, sb) == less(b, a), "a ", a, " b ", b);
}

SUITE(element_comparisons, 4000, 0, "pairs of sequences of doubles (infinities, signed zeroes and NaN included), full range 32 and 64 bit integers and strings, compared by what the elements themselves say; non-trivial when not both empty")
{
	auto& r = c.r;
	size_t n = r.size(12), kind = r.below(4), how = r.below(4);
	auto go = [&](auto gen) {
		using T = decltype(gen());
		std::vector<T> a, b;
		for (size_t i = 0; i != n; ++i) {
			a.push_back(gen());
		}
		b = a;
		switch (how) {
			case 0:
				break;
			case 1:
				b.resize(r.below(n + 1));
				break;
			case 2:
				if (n != 0) {
					b[r.below(n)] = gen();
				}
				break;
			default:
				b.push_back(gen());
				break;
		}
		c.nt(!a.empty() || !b.empty());
		partial(a, b);
		partial(b, a);
		if constexpr (std::is_integral_v<T>) {
			compare(a, b);
			compare(b, a);
		}
	};
	switch (kind) {
		case 0:
			go([&]() {
				const double pool[] = {0.0, -0.0, 0.25, 0.5, -0.5, 1e300, -1e300, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
				return r.pick(pool);
			});
			COUNT("element.double");
			break;
		case 1:
			go([&]() { return r.integer<u32>(); });
			break;
		case 2:
			go([&]() { return r.integer<int64_t>(); });
			break;
		default:
			go([&]() { return r.text(r.below(4), std::string_view("ab\xff\0", 4)); });
			COUNT("element.string");
			break;
	}
}

// ---- more elements than fit 32 bits
template <typename T>
static void vast_case(ctx& c, const vast& m)
{
	auto& r = c.r;
	size_t n = vast::num_bytes / sizeof(T);
	T* p = m.as<T>();
	utki::span<T> s(p, n);
	auto is = [&](utki::span<const T> x, const T* d, size_t k, const char* what) {
		CHECK("vast", x.size() == k && x.data() == d && x.begin() == d && x.end() == d + k && x.size_bytes() == k * sizeof(T) && x.empty() == (k == 0), std::string(what), ": ", x.size(), " elements, ", x.size_bytes(), " bytes, expected ", k, " elements of ", sizeof(T));
	};
	is(s, p, n, "span");
	is(utki::make_span(p, n), p, n, "make_span");
	is(utki::span<const T>(s), p, n, "conversion");
	CHECK("vast-back", &s.back() == p + (n - 1) && &s.front() == p && s.data() + s.size() == p + n, "");
	CHECK("vast-reverse", s.rend() - s.rbegin() == std::ptrdiff_t(n) && &*s.rbegin() == p + (n - 1), "");
	for (size_t k = 0; k != 40; ++k) {
		size_t off = k == 0 ? 0 : r.chance(1, 3) ? r.below(1000) : r.coin() ? n - r.below(n / 256) : r.below(n + 1);
		is(s.subspan(off), p + off, n - off, "subspan");
		size_t cnt = r.coin() ? n - off : r.below(n - off + 1);
		is(s.subspan(off, cnt), p + off, cnt, "subspan with count");
		is(s.subspan(0, off), p, off, "subspan from the begin");
		if (off < n) {
			CHECK("vast-element", &s[off] == p + off && &s.at(off) == p + off && &utki::span<const T>(s).at(off) == p + off, off);
			CHECK("vast-overlaps", utki::overlaps(s, p + off) && !utki::overlaps(s.subspan(0, off), p + off), off);
		}
		CHECK_THROWS("vast-at", std::out_of_range, s.at(n + r.below(5)), n);
	}
	COUNT("vast spans");
}

SUITE(vast_spans, 8, fixed | nofuzz | novg, "spans over more than 4 GiB, of 1, 4, 8 and 48 byte elements; every case non-trivial")
{
	c.nt();
	vast m;
	if (!m.ok()) {
		return;
	}
	struct big {
		char x[48];
	};
	switch (c.index % 4) {
		case 0:
			vast_case<char>(c, m);
			break;
		case 1:
			vast_case<u32>(c, m);
			break;
		case 2:
			vast_case<u64>(c, m);
			break;
		default:
			vast_case<big>(c, m);
			break;
	}
}

// ---- overlaps
template <typename T>
static void overlap_case(ctx& c)
{
	auto& r = c.r;
	size_t n = r.size(60), before = r.range(1, 4), after = r.range(1, 4);
	std::vector<T> store(before + n + after);
	T* p = store.data() + before;
	utki::span<T> s(p, n);
	utki::span<const T> cs(p, n);
	for (size_t i = 0; i != store.size(); ++i) {
		bool in = i >= before && i < before + n;
		CHECK("overlaps", utki::overlaps(s, store.data() + i) == in, "address of element ", i, " span is [", before, ", ", before + n, ")");
		CHECK("overlaps-const", utki::overlaps(cs, store.data() + i) == in, "address of element ", i, " span is [", before, ", ", before + n, ")");
	}
	CHECK("overlaps-end", !utki::overlaps(s, store.data() + store.size()), "");
	CHECK("overlaps-null", !utki::overlaps(s, nullptr), "");
	if (n == 0) {
		COUNT("overlaps.empty");
	}
	utki::span<T> none;
	T x{};
	CHECK("overlaps-empty", !utki::overlaps(none, &x), "an empty span overlaps nothing");
	CHECK("overlaps-empty-null", !utki::overlaps(none, nullptr), "an empty span overlaps nothing");
}

SUITE(overlapping, 3000, 0, "overlaps() for all element addresses in and around spans of 0..60 elements and for default constructed ones; every case non-trivial")
{
	c.nt();
	overlap_case<int>(c);
	overlap_case<char>(c);
	overlap_case<big>(c);
}
