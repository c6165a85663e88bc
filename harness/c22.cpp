// C22: views and enum iteration cover exactly the right elements.
// Oracle: the addresses and values of the elements visited, against plain index arithmetic over the source collections.
#define VH_MAIN
#include "vh.hpp"

#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>

#include <utki/enum_array.hpp>
#include <utki/enum_iterable.hpp>
#include <utki/span.hpp>
#include <utki/utility.hpp>
#include <utki/views.hpp>

using namespace vh;

namespace {

// ---------------------------------------------------------------- a collection with watched iterators of any category and difference type
template <typename Cat, typename Diff>
struct watched {
	std::vector<int> v;
	static std::string& error()
	{
		static std::string e;
		return e;
	}

	struct iterator {
		using iterator_category = Cat;
		using difference_type = Diff;
		using value_type = int;
		using reference = int&;
		using pointer = int*;

		std::vector<int>* v = nullptr;
		long long pos = 0;

		void at(long long p)
		{
			if (p < 0 || p > (long long)(v->size())) {
				if (error().empty()) {
					error() = "iterator moved to position " + std::to_string(p) + " of a collection of " + std::to_string(v->size());
				}
				p = std::max(0ll, std::min(p, (long long)(v->size())));
			}
			pos = p;
		}
		int& operator*() const
		{
			if (pos < 0 || pos >= (long long)(v->size())) {
				if (error().empty()) {
					error() = "dereferenced position " + std::to_string(pos) + " of a collection of " + std::to_string(v->size());
				}
				static int dummy = -1;
				return dummy;
			}
			return (*v)[size_t(pos)];
		}
		iterator& operator++()
		{
			at(pos + 1);
			return *this;
		}
		iterator operator++(int)
		{
			auto r = *this;
			at(pos + 1);
			return r;
		}
		iterator& operator--()
		{
			at(pos - 1);
			return *this;
		}
		iterator operator--(int)
		{
			auto r = *this;
			at(pos - 1);
			return r;
		}
		iterator& operator+=(Diff n)
		{
			at(pos + (long long)(n));
			return *this;
		}
		iterator& operator-=(Diff n)
		{
			at(pos - (long long)(n));
			return *this;
		}
		iterator operator+(Diff n) const
		{
			auto r = *this;
			r += n;
			return r;
		}
		iterator operator-(Diff n) const
		{
			auto r = *this;
			r -= n;
			return r;
		}
		Diff operator-(const iterator& o) const { return Diff(pos - o.pos); }
		bool operator==(const iterator& o) const { return pos == o.pos; }
		bool operator!=(const iterator& o) const { return pos != o.pos; }
		bool operator<(const iterator& o) const { return pos < o.pos; }
		int& operator[](Diff n) const { return *(*this + n); }
	};
	using const_iterator = iterator;
	using value_type = int;

	iterator begin() { return {&v, 0}; }
	iterator end() { return {&v, (long long)(v.size())}; }
	auto rbegin() { return std::reverse_iterator<iterator>(end()); }
	auto rend() { return std::reverse_iterator<iterator>(begin()); }
	size_t size() const { return v.size(); }
	void emplace_back(int x) { v.push_back(x); }
};

template <typename W>
void no_error(const char* what)
{
	if (!W::error().empty()) {
		auto e = W::error();
		W::error().clear();
		vh::fail("iterator-out-of-range", vh::str(std::string(what), ": ", e));
	}
}

size_t steps(rng& r, size_t diff_max, size_t limit)
{
	size_t n;
	switch (r.below(4)) {
		case 0: n = diff_max * size_t(r.range(0, 5)) + size_t(r.below(3)); break;
		case 1: {
			n = diff_max * size_t(r.range(1, 5)) - size_t(r.below(2));
			break;
		}
		default: n = size_t(r.below(limit + 1)); break;
	}
	return std::min(n, limit);
}

template <typename Cat, typename Diff>
void next_prev(ctx& c)
{
	using W = watched<Cat, Diff>;
	constexpr size_t dmax = size_t(std::numeric_limits<Diff>::max());
	W w;
	size_t n = dmax < 1000 ? steps(c.r, dmax, 700) : c.r.size(700);
	w.v.assign(n, 0);
	W::error().clear();
	size_t from = n == 0 ? 0 : (c.r.coin() ? 0 : size_t(c.r.below(n + 1)));
	size_t k = dmax < 1000 ? steps(c.r, dmax, n - from) : size_t(c.r.below(n - from + 1));
	typename W::iterator it{&w.v, (long long)(from)};
	auto res = utki::next(it, k);
	no_error<W>("next");
	CHECK_EQ("next", res.pos, (long long)(from + k), "from ", from, " by ", k, " of ", n, " difference type max ", dmax);
	CHECK_EQ("next-argument", it.pos, (long long)(from));
	COUNT("next");
	if (k > dmax) {
		COUNT("next beyond the difference type");
	}
	if constexpr (std::is_base_of_v<std::bidirectional_iterator_tag, Cat>) {
		size_t pos = from + k;
		size_t b = dmax < 1000 ? steps(c.r, dmax, pos) : size_t(c.r.below(pos + 1));
		auto p = utki::prev(res, b);
		no_error<W>("prev");
		CHECK_EQ("prev", p.pos, (long long)(pos - b), "from ", pos, " by ", b, " of ", n, " difference type max ", dmax);
		COUNT("prev");
		if (b > dmax) {
			COUNT("prev beyond the difference type");
		}
	}
	c.nt(k > 0);
	SAMPLE("from ", from, " by ", k, " of ", n, ", difference type max ", dmax);
}

// an iterator over the whole range of size_t, for steps which exceed the signed 64 bit difference type
struct giant {
	using iterator_category = std::random_access_iterator_tag;
	using difference_type = std::ptrdiff_t;
	using value_type = int;
	using reference = int&;
	using pointer = int*;
	unsigned __int128 pos = 0;
	giant& operator++()
	{
		++pos;
		return *this;
	}
	giant& operator--()
	{
		--pos;
		return *this;
	}
	giant& operator+=(difference_type d)
	{
		pos += (unsigned __int128)(__int128(d));
		return *this;
	}
	giant& operator-=(difference_type d)
	{
		pos -= (unsigned __int128)(__int128(d));
		return *this;
	}
	giant operator+(difference_type d) const
	{
		auto r = *this;
		return r += d;
	}
	difference_type operator-(const giant& o) const { return difference_type(pos - o.pos); }
	int& operator*() const
	{
		static int x;
		return x;
	}
	bool operator==(const giant& o) const { return pos == o.pos; }
	bool operator!=(const giant& o) const { return pos != o.pos; }
	bool operator<(const giant& o) const { return pos < o.pos; }
};

} // namespace

SUITE(next_i8_random, 400, 0, "moves by at least one step")
{
	next_prev<std::random_access_iterator_tag, int8_t>(c);
}
SUITE(next_i8_bidi, 400, 0, "moves by at least one step")
{
	next_prev<std::bidirectional_iterator_tag, int8_t>(c);
}
SUITE(next_i8_forward, 200, 0, "moves by at least one step")
{
	next_prev<std::forward_iterator_tag, int8_t>(c);
}
SUITE(next_i8_input, 200, 0, "moves by at least one step")
{
	next_prev<std::input_iterator_tag, int8_t>(c);
}
SUITE(next_i16, 100, 0, "moves by at least one step")
{
	next_prev<std::random_access_iterator_tag, int16_t>(c);
}
SUITE(next_long, 100, 0, "moves by at least one step")
{
	next_prev<std::bidirectional_iterator_tag, long>(c);
}

SUITE(next_giant, 200, 0, "steps beyond 2^62")
{
	giant g;
	g.pos = (unsigned __int128)(1) << 100;
	size_t n = c.r.integer<size_t>();
	auto a = utki::next(g, n);
	CHECK("next-giant", a.pos - g.pos == n, "by ", n);
	auto b = utki::prev(g, n);
	CHECK("prev-giant", g.pos - b.pos == n, "by ", n);
	c.nt(n > size_t(1) << 62);
	SAMPLE("by ", n);
	COUNT("giant steps");
}

// ---------------------------------------------------------------- zip
namespace {

struct thing {
	int v;
	explicit thing(int v = 0) :
		v(v)
	{}
	bool operator<(const thing& o) const { return v < o.v; }
};

int& val(int& x)
{
	return x;
}
const int& val(const int& x)
{
	return x;
}
int& val(thing& x)
{
	return x.v;
}
const int& val(const thing& x)
{
	return x.v;
}
int& val(std::pair<const int, int>& x)
{
	return x.second;
}
const int& val(const std::pair<const int, int>& x)
{
	return x.second;
}

template <typename C>
C make(size_t n, int base)
{
	C c;
	if constexpr (std::is_same_v<C, std::map<int, int>>) {
		for (size_t i = 0; i != n; ++i) {
			c[int(i)] = base + int(i);
		}
	} else if constexpr (std::is_same_v<C, std::set<int>>) {
		for (size_t i = 0; i != n; ++i) {
			c.insert(base + int(i));
		}
	} else {
		for (size_t i = 0; i != n; ++i) {
			c.emplace_back(base + int(i));
		}
	}
	return c;
}

template <typename C>
std::vector<const int*> addrs(C& c)
{
	std::vector<const int*> r;
	for (auto& e : c) {
		r.push_back(&val(e));
	}
	return r;
}

template <typename A, typename B>
void zip2(ctx& c)
{
	size_t na = c.r.huge(60, c.r.size(300)), nb = na > 300 || c.r.chance(1, 3) ? na : c.r.size(300);
	std::remove_const_t<A> a0 = make<std::remove_const_t<A>>(na, 0);
	std::remove_const_t<B> b0 = make<std::remove_const_t<B>>(nb, 100000);
	A& a = a0;
	B& b = b0;
	auto aa = addrs(a0), ab = addrs(b0);
	size_t n = std::min(na, nb);
	auto z = utki::views::zip(a, b);
	for (int pass = 0; pass != 2; ++pass) {
		size_t i = 0;
		for (auto t : z) {
			static_assert(std::tuple_size_v<decltype(t)> == 2, "two collections");
			CHECK("zip-too-many", i < n, "sizes ", na, " and ", nb);
			CHECK("zip-first", &val(std::get<0>(t)) == aa[i], "position ", i, " sizes ", na, " and ", nb);
			CHECK("zip-second", &val(std::get<1>(t)) == ab[i], "position ", i, " sizes ", na, " and ", nb);
			++i;
		}
		CHECK_EQ("zip-count", i, n, "sizes ", na, " and ", nb);
	}
	c.nt(n > 0 && na != nb);
	SAMPLE("zip of ", na, " and ", nb);
	COUNT_N("zipped tuples", n);
}

template <typename A>
constexpr bool writable = !std::is_const_v<A>;

} // namespace

using vi = std::vector<int>;
using w8f = watched<std::forward_iterator_tag, int8_t>;
using w8b = watched<std::bidirectional_iterator_tag, int8_t>;
using w8r = watched<std::random_access_iterator_tag, int8_t>;

SUITE(zip_pairs, 700, 0, "different non-zero sizes")
{
	w8f::error().clear();
	w8r::error().clear();
	switch (c.r.below(14)) {
		case 0: zip2<vi, vi>(c); break;
		case 1: zip2<vi, const std::list<int>>(c); break;
		case 2: zip2<const std::list<thing>, std::deque<int>>(c); break;
		case 3: zip2<std::map<int, int>, vi>(c); break;
		case 4: zip2<const vi, const std::map<int, int>>(c); break;
		case 5: zip2<const std::set<int>, std::list<thing>>(c); break;
		case 6: zip2<std::deque<thing>, const std::set<int>>(c); break;
		case 7: zip2<std::list<int>, vi>(c); break;
		case 8: zip2<w8f, vi>(c); break;
		case 9: zip2<std::list<int>, w8r>(c); break;
		case 10: zip2<w8r, w8f>(c); break;
		case 11: zip2<const std::deque<int>, const std::vector<thing>>(c); break;
		case 12: zip2<std::vector<thing>, std::list<int>>(c); break;
		default: zip2<const vi, const vi>(c); break;
	}
	no_error<w8f>("zip");
	no_error<w8r>("zip");
}

SUITE(zip_three, 400, 0, "different non-zero sizes")
{
	size_t na = c.r.size(150), nb = c.r.size(150), nc = c.r.size(150), nd = c.r.size(150);
	auto a = make<vi>(na, 0);
	auto b0 = make<std::list<int>>(nb, 1000);
	auto m = make<std::map<int, int>>(nc, 2000);
	auto d = make<std::deque<int>>(nd, 3000);
	const auto& b = b0;
	auto aa = addrs(a), ab = addrs(b), am = addrs(m), ad = addrs(d);
	size_t n = std::min(std::min(na, nb), nc), i = 0;
	if (c.r.coin()) {
		for (auto t : utki::views::zip(a, b, m)) {
			CHECK("zip-too-many", i < n);
			CHECK("zip3", &std::get<0>(t) == aa[i] && &std::get<1>(t) == ab[i] && &std::get<2>(t).second == am[i], "position ", i);
			std::get<0>(t) = -int(i) - 1;
			std::get<2>(t).second = int(i) * 7;
			++i;
		}
		CHECK_EQ("zip-count", i, n);
		// exactly the visited elements have changed
		for (size_t k = 0; k != na; ++k) {
			CHECK_EQ("zip-write", a[k], k < n ? -int(k) - 1 : int(k));
		}
		for (size_t k = 0; k != nc; ++k) {
			CHECK_EQ("zip-write-map", m[int(k)], k < n ? int(k) * 7 : 2000 + int(k));
		}
		COUNT("zip of three");
	} else {
		n = std::min(n, nd);
		for (auto [x, y, z, w] : utki::views::zip(d, b, a, m)) {
			CHECK("zip-too-many", i < n);
			CHECK("zip4", &x == ad[i] && &y == ab[i] && &z == aa[i] && &w.second == am[i], "position ", i);
			x += y;
			z = int(i) * 3;
			++i;
		}
		CHECK_EQ("zip-count", i, n);
		for (size_t k = 0; k != nd; ++k) {
			CHECK_EQ("zip-write", d[k], k < n ? 3000 + int(k) + 1000 + int(k) : 3000 + int(k));
		}
		for (size_t k = 0; k != na; ++k) {
			CHECK_EQ("zip-write", a[k], k < n ? int(k) * 3 : int(k));
		}
		COUNT("zip of four");
	}
	c.nt(n > 0);
	SAMPLE("sizes ", na, " ", nb, " ", nc, " ", nd);
}

SUITE(zip_one_and_self, 60, 0, "non-empty collection")
{
	auto a = make<vi>(c.r.size(100), 0);
	size_t i = 0;
	for (auto t : utki::views::zip(a)) {
		CHECK("zip1", i < a.size() && &std::get<0>(t) == &a[i]);
		++i;
	}
	CHECK_EQ("zip-count", i, a.size());
	i = 0;
	for (auto t : utki::views::zip(a, a)) {
		CHECK("zip-self", i < a.size() && &std::get<0>(t) == &a[i] && &std::get<1>(t) == &a[i]);
		++i;
	}
	CHECK_EQ("zip-count", i, a.size());
	std::array<int, 4> ar{{1, 2, 3, 4}};
	utki::span<int> sp(a.data(), a.size());
	i = 0;
	for (auto t : utki::views::zip(ar, sp)) {
		CHECK("zip-span", i < std::min(a.size(), size_t(4)) && &std::get<0>(t) == &ar[i] && &std::get<1>(t) == &a[i]);
		++i;
	}
	CHECK_EQ("zip-count", i, size_t(std::min(a.size(), size_t(4))));
	c.nt(!a.empty());
	COUNT("zip of one, self, array and span");
}

// ---------------------------------------------------------------- reverse and skip_front
namespace {
template <typename C>
void rev(ctx& c)
{
	size_t n = c.r.huge(60, c.r.size(300));
	std::remove_const_t<C> c0 = make<std::remove_const_t<C>>(n, 50);
	C& col = c0;
	auto ad = addrs(c0);
	size_t i = n;
	auto view = utki::views::reverse(col);
	for (auto& e : view) {
		CHECK("reverse-too-many", i > 0, "size ", n);
		--i;
		CHECK("reverse", &val(e) == ad[i], "position from the end ", n - i, " size ", n);
		if constexpr (!std::is_const_v<C> && !std::is_same_v<C, std::set<int>>) {
			val(e) += 7;
		}
	}
	CHECK_EQ("reverse-count", i, size_t(0), "size ", n);
	if constexpr (!std::is_const_v<C> && !std::is_same_v<C, std::set<int>>) {
		for (size_t k = 0; k != n; ++k) {
			CHECK_EQ("reverse-write", *ad[k], 57 + int(k));
		}
	}
	c.nt(n > 1);
	SAMPLE("reverse of ", n);
	COUNT_N("reversed elements", n);
}

template <size_t N, typename C>
void skip(ctx& c)
{
	size_t n = N + c.r.huge(60, c.r.size(300));
	std::remove_const_t<C> c0 = make<std::remove_const_t<C>>(n, 50);
	C& col = c0;
	auto ad = addrs(c0);
	size_t i = N;
	auto view = utki::skip_front<N>(col);
	for (auto& e : view) {
		CHECK("skip-too-many", i < n, "size ", n, " skipping ", N);
		CHECK("skip", &val(e) == ad[i], "position ", i, " size ", n, " skipping ", N);
		if constexpr (!std::is_const_v<C> && !std::is_same_v<C, std::set<int>>) {
			val(e) += 7;
		}
		++i;
	}
	CHECK_EQ("skip-count", i, n, "skipping ", N);
	if constexpr (!std::is_const_v<C> && !std::is_same_v<C, std::set<int>>) {
		for (size_t k = 0; k != n; ++k) {
			CHECK_EQ("skip-write", *ad[k], int(k) + (k < N ? 50 : 57));
		}
	}
	c.nt(N > 0 && n > N);
	SAMPLE("skip ", N, " of ", n);
	COUNT_N("elements after skipped ones", n - N);
}

template <typename C>
void skips(ctx& c)
{
	switch (c.r.below(7)) {
		case 0: skip<0, C>(c); break;
		case 1: skip<1, C>(c); break;
		case 2: skip<2, C>(c); break;
		case 3: skip<5, C>(c); break;
		case 4: skip<127, C>(c); break;
		case 5: skip<128, C>(c); break;
		default: skip<300, C>(c); break;
	}
}

// more than 16 bits can count
void skip_many(ctx& c)
{
	constexpr size_t n = 70000;
	std::vector<int> v(n + c.r.below(50));
	for (size_t i = 0; i != v.size(); ++i) {
		v[i] = int(i);
	}
	size_t i = n;
	for (auto& e : utki::skip_front<n>(v)) {
		CHECK("skip-many", i < v.size() && &e == &v[i], "position ", i);
		++i;
	}
	CHECK_EQ("skip-many", i, v.size());
	c.nt();
}
} // namespace

SUITE(reverse, 500, 0, "at least two elements")
{
	switch (c.r.below(9)) {
		case 0: rev<vi>(c); break;
		case 1: rev<const vi>(c); break;
		case 2: rev<std::list<int>>(c); break;
		case 3: rev<const std::list<thing>>(c); break;
		case 4: rev<std::map<int, int>>(c); break;
		case 5: rev<const std::set<int>>(c); break;
		case 6: rev<std::deque<thing>>(c); break;
		case 7:
			w8b::error().clear();
			rev<w8b>(c);
			no_error<w8b>("reverse");
			break;
		default: {
			int a[9] = {0, 1, 2, 3, 4, 5, 6, 7, 8};
			int i = 8;
			for (auto& e : utki::views::reverse(a)) {
				CHECK("reverse-array", i >= 0 && &e == &a[i]);
				--i;
			}
			CHECK_EQ("reverse-array", i, -1);
			std::string s = "hello";
			std::string t;
			for (char ch : utki::views::reverse(s)) {
				t += ch;
			}
			CHECK_EQ("reverse-string", t, std::string("olleh"));
			c.nt();
			COUNT("reversed arrays");
			break;
		}
	}
}

SUITE(skip_front, 500, 0, "some elements skipped and some left")
{
	switch (c.r.below(9)) {
		case 8: skip_many(c); break;
		case 0: skips<vi>(c); break;
		case 1: skips<const vi>(c); break;
		case 2: skips<std::list<int>>(c); break;
		case 3: skips<const std::list<thing>>(c); break;
		case 4: skips<std::map<int, int>>(c); break;
		case 5: skips<const std::set<int>>(c); break;
		case 6:
			w8r::error().clear();
			skips<w8r>(c);
			no_error<w8r>("skip_front");
			break;
		default:
			w8f::error().clear();
			skips<w8f>(c);
			no_error<w8f>("skip_front");
			break;
	}
}

// ---------------------------------------------------------------- views of collections which change after the view is made
namespace {
template <typename A>
void resize(rng& r, A& a, size_t n)
{
	switch (r.below(3)) {
		case 0: a.resize(n); break;
		case 1: a = A(n); break; // another storage
		default:
			while (a.size() > n) {
				a.pop_back();
			}
			while (a.size() < n) {
				a.push_back(typename A::value_type());
			}
			break;
	}
}

template <typename A, typename B>
void resized(ctx& c)
{
	auto& r = c.r;
	A a(r.size(40));
	B b(r.size(40));
	auto z = utki::views::zip(a, b);
	const auto& cb = b;
	auto z3 = utki::views::zip(a, cb, a);
	auto rv = utki::views::reverse(b);
	auto sk = utki::skip_front<2>(a);
	auto z0 = z; // a view can be copied
	bool changed = false;
	for (int pass = 0; pass != 4; ++pass) {
		auto aa = addrs(a), ab = addrs(b);
		size_t n = std::min(a.size(), b.size()), i = 0;
		note(vh::str("sizes ", a.size(), " and ", b.size()));
		for (auto t : pass % 2 ? z : z0) {
			CHECK("resized-zip", i < n && &std::get<0>(t) == aa[i] && &std::get<1>(t) == ab[i], "position ", i, " sizes ", a.size(), " ", b.size(), " pass ", pass);
			++i;
		}
		CHECK_EQ("resized-zip-count", i, n, "sizes ", a.size(), " ", b.size(), " pass ", pass);
		i = 0;
		for (auto t : z3) {
			CHECK("resized-zip", i < n && &std::get<0>(t) == aa[i] && &std::get<1>(t) == ab[i] && &std::get<2>(t) == aa[i], "position ", i);
			++i;
		}
		CHECK_EQ("resized-zip-count", i, n, "sizes ", a.size(), " ", b.size(), " pass ", pass);
		i = b.size();
		for (auto& e : rv) {
			CHECK("resized-reverse", i != 0 && &e == ab[i - 1], "position ", i, " of ", b.size());
			--i;
		}
		CHECK_EQ("resized-reverse", i, size_t(0), "size ", b.size());
		if (a.size() >= 2) {
			i = 2;
			for (auto& e : sk) {
				CHECK("resized-skip", i < a.size() && &e == aa[i], "position ", i, " of ", a.size());
				++i;
			}
			CHECK_EQ("resized-skip", i, a.size());
		}
		auto before = n;
		switch (r.below(4)) {
			case 0: resize(r, a, r.below(a.size() + 1)); break;
			case 1: resize(r, b, r.below(b.size() + 1)); break;
			case 2:
				resize(r, a, r.size(40));
				resize(r, b, r.size(40));
				break;
			default:
				resize(r, a, a.size() + r.below(20));
				resize(r, b, b.size() + r.below(20));
				break;
		}
		changed = changed || before != std::min(a.size(), b.size());
	}
	c.nt(changed);
	COUNT("views used after a change of size");
}
} // namespace

SUITE(resized_collections, 300, 0, "the size of the shortest one changes")
{
	switch (c.r.below(5)) {
		case 0: resized<vi, vi>(c); break;
		case 1: resized<std::list<int>, vi>(c); break;
		case 2: resized<std::deque<int>, std::list<int>>(c); break;
		case 3: resized<vi, std::deque<int>>(c); break;
		default: resized<std::list<int>, std::list<int>>(c); break;
	}
}

// collections without some of the usual methods, and with elements which are not objects
SUITE(other_collections, 200, 0, "more than three elements")
{
	auto& r = c.r;
	size_t n = r.range(3, 40);
	{
		int a[7] = {0, 1, 2, 3, 4, 5, 6};
		const int ca[3] = {0, 1, 2};
		int i = 3;
		for (auto& e : utki::skip_front<3>(a)) {
			CHECK("array", i < 7 && &e == &a[i], "position ", i);
			++i;
		}
		CHECK_EQ("array", i, 7);
		i = 1;
		for (auto& e : utki::skip_front<1>(ca)) {
			CHECK("array", i < 3 && &e == &ca[i], "position ", i);
			++i;
		}
		CHECK_EQ("array", i, 3);
		for ([[maybe_unused]] auto& e : utki::skip_front<3>(ca)) {
			CHECK("array", false, "an element after all of them are skipped");
		}
		for (auto& e : utki::skip_front<0>(a)) {
			++e;
			++i;
		}
		CHECK("array", i == 10 && a[6] == 7 && a[0] == 1);
	}
	{
		std::forward_list<int> l;
		for (size_t i = n; i != 0; --i) {
			l.push_front(int(i - 1));
		}
		size_t i = 3;
		for (auto& e : utki::skip_front<3>(l)) {
			CHECK("forward-list", e == int(i), "position ", i);
			++i;
		}
		CHECK_EQ("forward-list", i, n);
		const auto& cl = l;
		i = 0;
		for (auto& e : utki::skip_front<0>(cl)) {
			CHECK("forward-list", e == int(i), "position ", i);
			++i;
		}
		CHECK_EQ("forward-list", i, n);
	}
	{
		std::vector<bool> b(n);
		for (size_t i = 0; i != n; ++i) {
			b[i] = i % 3 == 0;
		}
		std::vector<int> v(r.range(1, 50));
		std::string s(n, '.');
		size_t i = 0, m = std::min(n, v.size());
		auto st = utki::make_span(s);
		std::array<int, 9> arr{};
		for (auto t : utki::views::zip(b, v, s)) {
			CHECK("zip-bits", i < m && std::get<0>(t) == (i % 3 == 0));
			std::get<0>(t) = i % 2 == 0;
			std::get<1>(t) = int(i) + 1;
			std::get<2>(t) = 'x';
			++i;
		}
		CHECK_EQ("zip-bits", i, m);
		for (size_t k = 0; k != n; ++k) {
			CHECK("zip-bits", b[k] == (k < m ? k % 2 == 0 : k % 3 == 0), "bit ", k, " of ", n, ", ", m, " visited");
			CHECK("zip-string", s[k] == (k < m ? 'x' : '.'), "character ", k);
		}
		i = 0;
		for (auto t : utki::views::zip(arr, st)) {
			CHECK("zip-span", &std::get<0>(t) == &arr[i] && &std::get<1>(t) == &s[i], "position ", i);
			++i;
		}
		size_t m9 = n < 9 ? n : 9; // std::min() would give a reference to a temporary
		CHECK_EQ("zip-span", i, m9);
		i = n;
		for (auto bit : utki::views::reverse(b)) {
			--i;
			CHECK("reverse-bits", bit == b[i], "position ", i);
		}
		CHECK_EQ("reverse-bits", i, size_t(0));
	}
	c.nt(n > 3);
	c.distinct(n);
}

// ---------------------------------------------------------------- enumerations
namespace {
template <size_t N, typename U = int>
struct en {
	enum class type : U {
		enum_size = N
	};
};

template <typename E>
constexpr size_t ct_count()
{
	size_t n = 0;
	bool good = true;
	for (auto e : utki::enum_iterable_v<E>) {
		good = good && size_t(e) == n;
		++n;
	}
	return good ? n : size_t(-1);
}

template <typename E>
constexpr bool ct_reverse()
{
	size_t n = size_t(E::enum_size);
	for (auto i = utki::enum_iterable_v<E>.rbegin(); i != utki::enum_iterable_v<E>.rend(); ++i) {
		--n;
		if (size_t(*i) != n) {
			return false;
		}
	}
	return n == 0;
}

template <typename E>
void enums(ctx& c)
{
	constexpr size_t n = size_t(E::enum_size);
	if constexpr (n < 1000) {
		static_assert(ct_reverse<E>(), "reverse enumeration in a constant expression");
		static_assert(ct_count<E>() == n, "enumeration in a constant expression");
	}
	const utki::enum_iterable<E>& en = utki::enum_iterable_v<E>;
	CHECK_EQ("enum-size", en.size(), n);
	size_t i = 0;
	for (E e : en) {
		CHECK("enum-too-many", i < n);
		CHECK_EQ("enum-order", size_t(e), i, "of ", n);
		++i;
	}
	CHECK_EQ("enum-count", i, n);
	i = 0;
	for (auto b = en.cbegin(); b != en.cend(); ++b, ++i) {
		CHECK("enum-too-many", i < n);
		CHECK_EQ("enum-order", size_t(*b), i, "of ", n);
	}
	CHECK_EQ("enum-count", i, n);

	i = n;
	for (auto b = en.crbegin(); b != en.crend(); ++b) {
		CHECK("enum-reverse-too-many", i > 0);
		--i;
		CHECK_EQ("enum-reverse", size_t(*b), i, "of ", n);
	}
	CHECK_EQ("enum-reverse-count", i, size_t(0));
	i = n;
	for (E e : utki::views::reverse(en)) {
		CHECK("enum-reverse-too-many", i > 0);
		--i;
		CHECK_EQ("enum-reverse", size_t(e), i, "of ", n);
	}
	CHECK_EQ("enum-reverse-count", i, size_t(0));

	// enum_array
	using A = utki::enum_array<int, E>;
	A a;
	static_assert(std::tuple_size<typename A::base_type>::value == n, "one element per enumerator");
	CHECK_EQ("enum-array-size", a.size(), n);
	std::vector<int> m(n);
	for (size_t k = 0; k != n; ++k) {
		a[E(k)] = int(k) * 3;
		m[k] = int(k) * 3;
	}
	const A& ca = a;
	for (size_t s = 0; s != 10; ++s) {
		auto k = size_t(c.r.below(n));
		int v = c.r.integer<int>();
		switch (c.r.below(3)) {
			case 0: a[E(k)] = v; break;
			case 1: a[k] = v; break;
			default: a.at(k) = v; break;
		}
		m[k] = v;
	}
	for (size_t k = 0; k != n; ++k) {
		CHECK_EQ("enum-array", a[E(k)], m[k], "enumerator ", k);
		CHECK("enum-array-address", &a[E(k)] == a.data() + k && &ca[E(k)] == a.data() + k && &a[k] == a.data() + k, "enumerator ", k);
	}
	i = 0;
	for (auto t : a.zip_with_enum()) {
		CHECK("zip-with-enum-too-many", i < n);
		CHECK("zip-with-enum", &std::get<0>(t) == a.data() + i, "position ", i, " of ", n);
		CHECK_EQ("zip-with-enum", size_t(std::get<1>(t)), i);
		std::get<0>(t) = int(i) + 5;
		++i;
	}
	CHECK_EQ("zip-with-enum-count", i, n);
	i = 0;
	for (auto t : ca.zip_with_enum()) {
		CHECK("zip-with-enum-too-many", i < n);
		CHECK("zip-with-enum-const", &std::get<0>(t) == a.data() + i && size_t(std::get<1>(t)) == i, "position ", i, " of ", n);
		CHECK_EQ("zip-with-enum-write", std::get<0>(t), int(i) + 5);
		++i;
	}
	CHECK_EQ("zip-with-enum-count", i, n);

	// enumerators zipped with a collection of another size
	auto other = make<std::list<int>>(c.r.below(2 * n + 1), 9);
	i = 0;
	auto oi = other.begin();
	for (auto t : utki::views::zip(other, en)) {
		CHECK("zip-enum", i < std::min(n, other.size()) && &std::get<0>(t) == &*oi && size_t(std::get<1>(t)) == i, "position ", i);
		++i;
		++oi;
	}
	CHECK_EQ("zip-enum-count", i, size_t(std::min(n, other.size())));
	i = 0;
	for (auto t : utki::views::zip(en, other)) {
		CHECK("zip-enum", i < std::min(n, other.size()) && size_t(std::get<0>(t)) == i, "position ", i);
		++i;
	}
	CHECK_EQ("zip-enum-count", i, size_t(std::min(n, other.size())));
	c.nt();
	SAMPLE(n, " enumerators");
	COUNT_N("enumerators", n);
}
} // namespace

SUITE(enum_iteration, 300, 0, "every enumeration")
{
	switch (c.r.below(11)) {
		case 0: enums<en<1>::type>(c); break;
		case 1: enums<en<2, uint8_t>::type>(c); break;
		case 2: enums<en<3, int8_t>::type>(c); break;
		case 3: enums<en<10, uint64_t>::type>(c); break;
		case 4: enums<en<126, int8_t>::type>(c); break;
		case 5: enums<en<127, int8_t>::type>(c); break;
		case 6: enums<en<127, uint8_t>::type>(c); break;
		case 7: enums<en<128, uint8_t>::type>(c); break;
		case 8: enums<en<200, uint8_t>::type>(c); break;
		case 9: enums<en<255, uint8_t>::type>(c); break;
		default: enums<en<300, int16_t>::type>(c); break;
	}
}

SUITE(large_enums, 3, fixed | nofuzz | novg, "enumerations of 32767, 40000 and 70000 enumerators; every case non-trivial")
{
	c.distinct(c.index);
	switch (c.index) {
		case 0: enums<en<32767, int16_t>::type>(c); break;
		case 1: enums<en<40000, uint16_t>::type>(c); break;
		default: enums<en<70000>::type>(c); break;
	}
}
