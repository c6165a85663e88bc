// C21: sort orders any range, at run time and compile time.
// Oracle: sortedness by the comparator, multiset of identities, unchanged surroundings, element lives.
#define VH_MAIN
#include "track.hpp"

#include <array>
#include <deque>

#include <utki/sort.hpp>

using namespace vh;
using tk::elem;

namespace {

std::vector<int> shape(rng& r, size_t max, std::string& name)
{
	size_t n = r.size(max);
	std::vector<int> v(n);
	switch (r.below(11)) {
		case 0:
			name = "sorted";
			for (size_t i = 0; i != n; ++i) {
				v[i] = int(i) - int(n / 2);
			}
			break;
		case 1:
			name = "reversed";
			for (size_t i = 0; i != n; ++i) {
				v[i] = int(n - i);
			}
			break;
		case 2: {
			name = "all equal";
			int x = r.integer<int>();
			std::fill(v.begin(), v.end(), x);
			break;
		}
		case 3: {
			name = "two values";
			for (auto& x : v) {
				x = int(r.below(2));
			}
			break;
		}
		case 4: {
			name = "few distinct";
			for (auto& x : v) {
				x = int(r.below(5)) - 2;
			}
			break;
		}
		case 5: {
			name = "organ pipe";
			for (size_t i = 0; i != n; ++i) {
				v[i] = int(std::min(i, n - i));
			}
			break;
		}
		case 6: {
			name = "saw";
			auto p = int(r.range(2, 9));
			for (size_t i = 0; i != n; ++i) {
				v[i] = int(i) % p;
			}
			break;
		}
		case 7: {
			name = "nearly sorted";
			for (size_t i = 0; i != n; ++i) {
				v[i] = int(i);
			}
			for (int k = 0; k != 3 && n != 0; ++k) {
				auto i = size_t(r.below(n));
				auto j = size_t(r.below(n));
				std::swap(v[i], v[j]);
			}
			break;
		}
		case 8: {
			name = "extremes";
			for (auto& x : v) {
				x = r.integer<int>();
			}
			break;
		}
		case 9: {
			name = "sorted with a small one at the end";
			for (size_t i = 0; i != n; ++i) {
				v[i] = int(i) + 1;
			}
			if (n != 0) {
				v[n - 1] = 0;
			}
			break;
		}
		default:
			name = "random";
			for (auto& x : v) {
				x = int(r.below(1000000));
			}
			break;
	}
	return v;
}

// a strict weak ordering chosen at run time; with class equivalences
struct order {
	int kind;
	static int fold(int v) { return v < 0 ? -(v + 1) : v; }
	bool operator()(int a, int b) const
	{
		switch (kind) {
			case 0: return a < b;
			case 1: return a > b;
			case 2: return (a & 7) < (b & 7);
			case 3: return fold(a) < fold(b); // -1 and 0 are equivalent
			case 4: return false; // everything is equivalent
			default: return (a & 1) != (b & 1) ? (a & 1) < (b & 1) : a > b;
		}
	}
};

template <typename It, typename Cmp>
void check_sorted(It b, It e, Cmp cmp, const std::string& what)
{
	if (b == e) {
		return;
	}
	size_t pos = 0;
	for (It n = b + 1; n != e; ++b, ++n, ++pos) {
		CHECK("sorted", !cmp(*n, *b), "positions ", pos, " and ", pos + 1, " are out of order; ", what);
	}
}

constexpr int guard_value = 0x5a5a5a5;

} // namespace

SUITE(ints, 1500, 0, "range with at least two elements")
{
	std::string name;
	auto v = shape(c.r, 700, name);
	auto in = v;
	size_t pre = c.r.below(3), post = c.r.below(3);
	order o{int(c.r.below(6))};
	c.nt(v.size() > 1);
	SAMPLE(name, " of ", v.size(), ", order ", o.kind, ", ", pre, " guards before and ", post, " after");
	std::vector<int> buf(pre, guard_value);
	buf.insert(buf.end(), v.begin(), v.end());
	buf.insert(buf.end(), post, guard_value);
	buf.shrink_to_fit();
	std::string what = name + " of " + std::to_string(v.size());
	vh::exact<int> ex(buf.data(), buf.size());
	int *b = nullptr, *e = nullptr;
	std::deque<int> dq(buf.begin(), buf.end());
	if (c.r.coin()) {
		b = ex.data() + pre;
		e = b + v.size();
		if (o.kind == 0 && c.r.coin()) {
			utki::sort(b, e); // the default comparator
			COUNT("default comparator");
		} else {
			utki::sort(b, e, o);
		}
		COUNT("pointer ranges");
	} else {
		utki::sort(dq.begin() + long(pre), dq.begin() + long(pre + v.size()), o);
		std::copy(dq.begin(), dq.end(), ex.data());
		b = ex.data() + pre;
		e = b + v.size();
		COUNT("deque ranges");
	}
	check_sorted(b, e, o, what);
	std::vector<int> out(b, e);
	std::sort(out.begin(), out.end());
	std::sort(in.begin(), in.end());
	CHECK("permutation", out == in, what);
	for (size_t i = 0; i != pre; ++i) {
		CHECK("outside-before", ex.data()[i] == guard_value, what);
	}
	for (size_t i = 0; i != post; ++i) {
		CHECK("outside-after", ex.data()[pre + v.size() + i] == guard_value, what);
	}
	COUNT_N("elements", v.size());
}

// objects with identity: none is lost, doubled, used after being moved from
SUITE(objects, 500, 0, "range with at least two elements")
{
	std::string name;
	auto v = shape(c.r, 150, name);
	order o{int(c.r.below(6))};
	c.nt(v.size() > 1);
	std::string what = name + " of " + std::to_string(v.size());
	SAMPLE(what, ", order ", o.kind);
	tk::ev().reset();
	{
		std::vector<elem> es;
		es.reserve(v.size() + 2);
		es.emplace_back(guard_value, -1);
		for (size_t i = 0; i != v.size(); ++i) {
			es.emplace_back(v[i], int(i));
		}
		es.emplace_back(guard_value, -2);
		utki::sort(es.begin() + 1, es.end() - 1, [&](const elem& a, const elem& b) {
			if (a.v == elem::moved_from || b.v == elem::moved_from) {
				tk::ev().err("compared a moved-from object");
			}
			return o(a.v, b.v);
		});
		check_sorted(es.begin() + 1, es.end() - 1, [&](const elem& a, const elem& b) { return o(a.v, b.v); }, what);
		std::vector<int> seen(v.size(), 0);
		for (size_t i = 1; i + 1 < es.size(); ++i) {
			CHECK("identity", es[i].tag >= 0 && size_t(es[i].tag) < v.size(), what);
			CHECK("intact", es[i].intact(), what);
			CHECK_EQ("value-travels", es[i].v, v[size_t(es[i].tag)], what);
			++seen[size_t(es[i].tag)];
		}
		for (auto s : seen) {
			CHECK_EQ("exactly-once", s, 1, what);
		}
		CHECK("outside-before", es.front().tag == -1 && es.front().intact(), what);
		CHECK("outside-after", es.back().tag == -2 && es.back().intact(), what);
		CHECK("life", tk::ev().errors == 0, std::string(tk::ev().first_error));
	}
	tk::all_gone("after sort");
	COUNT("object ranges");
}

// sizes beyond 16 bits
SUITE(large, 18, fixed | novg | nofuzz, "every case: tens of thousands of elements: random, ascending, descending, few distinct values, all equal, with the extreme values in the middle")
{
	size_t n = c.r.huge(1, 0) * (c.index % 3 == 2 ? 3 : 1);
	std::vector<u32> v(n);
	for (size_t i = 0; i != n; ++i) {
		auto& x = v[i];
		switch (c.index / 2) {
			default: x = u32(c.r.next()); break;
			case 3: x = u32(i); break;
			case 4: x = u32(n - i); break;
			case 5: x = u32(c.r.below(3)); break;
			case 6: x = 7; break;
			case 7: x = 1000 + u32(c.r.next()) % 1000000000; break;
			case 8: x = i > 2 && i + 2 < n ? 5 : u32(i % 10); break;
		}
	}
	if (c.index / 2 == 7) {
		v[n / 2] = c.index % 2 ? 0xffffffff : 0;
		v[n / 2 + 1] = c.index % 2 ? 0 : 0xffffffff;
	}
	auto in = v;
	if (c.index % 2) {
		utki::sort(v.begin(), v.end(), std::greater<u32>());
		std::sort(in.begin(), in.end(), std::greater<u32>());
	} else {
		utki::sort(v.begin(), v.end());
		std::sort(in.begin(), in.end());
	}
	CHECK("large", v == in, n, " elements");
	c.nt();
	COUNT_N("elements of large ranges", n);
}

// the value at every position is determined when the keys are distinct
SUITE(distinct_keys, 400, 0, "range with at least two elements")
{
	size_t n = c.r.size(300);
	std::vector<std::string> v(n);
	for (size_t i = 0; i != n; ++i) {
		v[i] = "key " + std::to_string(100000 + i) + " which is on the heap";
	}
	for (size_t i = n; i > 1; --i) {
		std::swap(v[i - 1], v[size_t(c.r.below(i))]);
	}
	auto in = v;
	bool desc = c.r.coin();
	if (desc) {
		utki::sort(v.begin(), v.end(), std::greater<std::string>());
		std::sort(in.begin(), in.end(), std::greater<std::string>());
	} else {
		utki::sort(v.begin(), v.end());
		std::sort(in.begin(), in.end());
	}
	CHECK_EQ("distinct", v, in);
	c.nt(n > 1);
	SAMPLE(n, " strings");
	COUNT("string ranges");
}

// all permutations (with repetitions) of up to 6 elements out of as many values
SUITE(all_small, 5461, fixed, "every array of up to 6 elements over 4 values")
{
	u64 k = c.index;
	size_t n = 0;
	u64 total = 1;
	while (k >= total) {
		k -= total;
		total *= 4;
		++n;
	}
	std::vector<int> v(n);
	for (auto& x : v) {
		x = int(k % 4);
		k /= 4;
	}
	auto in = v;
	for (int kind = 0; kind != 3; ++kind) {
		auto w = v;
		order o{kind};
		if (kind == 2) {
			utki::sort(w.data(), w.data() + w.size(), [](int a, int b) { return a / 2 < b / 2; });
			check_sorted(w.begin(), w.end(), [](int a, int b) { return a / 2 < b / 2; }, "small");
		} else {
			utki::sort(w.data(), w.data() + w.size(), o);
			check_sorted(w.begin(), w.end(), o, "small");
		}
		auto a = in;
		std::sort(a.begin(), a.end());
		std::sort(w.begin(), w.end());
		CHECK("permutation", a == w);
	}
	c.nt(n > 1);
	c.distinct(c.index);
	COUNT("small arrays");
}

// iterators which are not pointers into an array: proxies, segments, reversed
SUITE(proxies, 400, 0, "range with at least two different elements")
{
	auto& r = c.r;
	std::string name;
	auto v = shape(r, r.chance(1, 10) ? 700 : 90, name);
	SAMPLE(name, " of ", v.size());
	{ // dereferencing gives a proxy object
		std::vector<bool> b(v.size() + 2);
		size_t ones = 0;
		for (size_t i = 0; i != v.size(); ++i) {
			b[i + 1] = (v[i] & 1) != 0;
			ones += v[i] & 1;
		}
		bool lo = r.coin(), hi = r.coin();
		b.front() = lo;
		b.back() = hi;
		bool want_first = false;
		auto f = b.begin() + 1, l = b.end() - 1;
		switch (r.below(4)) {
			case 0: utki::sort(f, l); break;
			case 1: utki::sort(f, l, [](bool x, bool y) { return x < y; }); break;
			case 2:
				want_first = true;
				utki::sort(f, l, [](const auto& x, const auto& y) { return bool(y) < bool(x); });
				break;
			default:
				want_first = true;
				utki::sort(f, l, std::greater<bool>());
				break;
		}
		std::vector<bool> want;
		want.push_back(lo);
		want.insert(want.end(), want_first ? ones : v.size() - ones, want_first);
		want.insert(want.end(), want_first ? v.size() - ones : ones, !want_first);
		want.push_back(hi);
		CHECK("proxies", b == want, name, " of ", v.size(), " bits of which ", ones, " are set: ", std::count(b.begin() + 1, b.end() - 1, true), " are set afterwards");
		c.nt(ones != 0 && ones != v.size());
		COUNT_N("sorted bits", v.size());
	}
	order o{int(r.below(6))};
	auto same = [&](auto& x, const char* what) {
		std::vector<int> a(x.begin(), x.end()), b = v;
		std::sort(a.begin(), a.end());
		std::sort(b.begin(), b.end());
		CHECK("permutation", a == b, name, " ", what);
	};
	{
		std::deque<int> d(v.begin(), v.end());
		utki::sort(d.begin(), d.end(), o);
		check_sorted(d.begin(), d.end(), o, "deque");
		same(d, "deque");
	}
	{
		auto w = v;
		utki::sort(w.rbegin(), w.rend(), o);
		check_sorted(w.rbegin(), w.rend(), o, "reverse iterators");
		same(w, "reverse iterators");
	}
}

namespace {
// compile time: the generator makes arrays of many shapes
template <size_t N>
constexpr std::array<int, N> ct_make(unsigned seed, int kind)
{
	std::array<int, N> a{};
	unsigned s = seed;
	for (size_t i = 0; i != N; ++i) {
		s = s * 1664525u + 1013904223u;
		switch (kind) {
			case 0: a[i] = int(s >> 8) - (1 << 23); break;
			case 1: a[i] = int(s >> 30); break;
			case 2: a[i] = int(i); break;
			case 3: a[i] = int(N - i); break;
			default: a[i] = 7; break;
		}
	}
	return a;
}
template <size_t N>
constexpr std::array<int, N> ct_sorted(unsigned seed, int kind, bool desc)
{
	auto a = ct_make<N>(seed, kind);
	if (desc) {
		utki::sort(a.begin(), a.end(), [](const auto& x, const auto& y) { return x > y; });
	} else {
		utki::sort(a.begin(), a.end());
	}
	return a;
}
template <size_t N>
void ct_check(const std::array<int, N>& got, unsigned seed, int kind, bool desc)
{
	auto a = ct_make<N>(seed, kind);
	std::sort(a.begin(), a.end());
	if (desc) {
		std::reverse(a.begin(), a.end());
	}
	CHECK("compile-time", got == a, "N=", N, " kind=", kind, " descending=", desc);
	COUNT("constant expressions");
}
} // namespace

#define CT(N, seed, kind, desc) \
	{ \
		constexpr auto got = ct_sorted<N>(seed, kind, desc); \
		ct_check<N>(got, seed, kind, desc); \
	}
#define CT5(N, seed) \
	CT(N, seed, 0, false) CT(N, seed, 0, true) CT(N, seed, 1, false) CT(N, seed, 2, false) CT(N, seed, 3, true) CT(N, seed, 3, false) CT(N, seed, 4, false)

SUITE(compile_time, 1, fixed, "sorted in a constant expression")
{
	CT5(0, 1)
	CT5(1, 2)
	CT5(2, 3)
	CT5(3, 4)
	CT5(4, 5)
	CT5(7, 6)
	CT5(16, 7)
	CT5(17, 8)
	CT5(33, 9)
	CT5(64, 10)
	c.nt();
	// pairs by first, as the documentation's use case: a sorted static table
	constexpr auto table = []() {
		std::array<std::pair<int, int>, 6> t{{{5, 0}, {3, 1}, {9, 2}, {-1, 3}, {4, 4}, {0, 5}}};
		std::array<int, 6> order{0, 1, 2, 3, 4, 5};
		utki::sort(order.begin(), order.end(), [&](int a, int b) { return t[size_t(a)].first < t[size_t(b)].first; });
		return order;
	}();
	CHECK_EQ("compile-time-table", table, (std::array<int, 6>{3, 5, 1, 4, 0, 2}));
}
