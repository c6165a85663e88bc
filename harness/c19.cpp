// C19: linq queries compute the right elements and respect the source.
// Oracle: naive references over recorded (value, tag) pairs; copies, moves and lives of the elements are observed events.
#define VH_MAIN
#include "track.hpp"

#include <array>
#include <deque>
#include <list>
#include <set>

#include <utki/linq.hpp>

using namespace vh;
using tk::elem;

namespace {

using rec = std::pair<int, int>; // value, tag

template <typename C>
std::vector<rec> recs(const C& c)
{
	std::vector<rec> r;
	for (const elem& e : c) {
		r.emplace_back(e.v, e.tag);
	}
	return r;
}

std::string text(const std::vector<rec>& v)
{
	std::string s;
	for (auto& r : v) {
		s += std::to_string(r.first) + "#" + std::to_string(r.second) + " ";
	}
	return s;
}

void check_recs(const char* key, const std::vector<rec>& got, const std::vector<rec>& exp)
{
	CHECK(key, got == exp, "got ", text(got), ", expected ", text(exp));
}

std::vector<rec> gen(rng& r, size_t max, bool unique)
{
	size_t n = r.huge(1000, r.size(max));
	if (n <= max && !r.from_bytes() && r.chance(1, 60)) {
		n = size_t(r.range(200, 4200));
	}
	int spread = unique ? 0 : int(r.range(1, 40));
	std::vector<rec> v;
	v.reserve(n);
	for (size_t i = 0; i != n; ++i) {
		v.emplace_back(unique ? 0 : int(r.below(u64(spread))) - spread / 2, int(i) + 1000);
	}
	if (unique) {
		for (size_t i = 0; i != n; ++i) {
			v[i].first = int(i) - int(n / 3);
		}
		for (size_t i = n; i > 1; --i) {
			std::swap(v[i - 1].first, v[size_t(r.below(i))].first);
		}
	} else {
		switch (r.below(4)) {
			case 0: std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); break;
			case 1: std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first > b.first; }); break;
			default: break;
		}
	}
	return v;
}

template <typename C>
C build(const std::vector<rec>& v)
{
	C c;
	for (auto& r : v) {
		c.emplace_back(r.first, r.second);
	}
	return c;
}

template <typename C>
void check_intact(const char* key, const C& c, const std::vector<rec>& exp)
{
	check_recs(key, recs(c), exp);
	for (const elem& e : c) {
		CHECK(key, e.intact(), "an element has lost its contents");
	}
}

// what a select function may look like
struct pred {
	int kind, a;
	bool operator()(int v) const
	{
		switch (kind) {
			case 0: return v < a;
			case 1: return ((v % 3) + 3) % 3 == ((a % 3) + 3) % 3;
			case 2: return true;
			case 3: return false;
			default: return v == a || v == a + 1;
		}
	}
};
pred gen_pred(rng& r)
{
	pred p;
	p.kind = int(r.below(5));
	p.a = int(r.below(40)) - 20;
	return p;
}

std::vector<rec> ref_where(const std::vector<rec>& in, pred p)
{
	std::vector<rec> r;
	for (auto& x : in) {
		if (p(x.first)) {
			r.push_back(x);
		}
	}
	return r;
}

int key_of(int v, int m)
{
	return ((v % m) + m) % m;
}

void check_permutation(const std::vector<rec>& in, const std::vector<rec>& out)
{
	auto a = in, b = out;
	std::sort(a.begin(), a.end());
	std::sort(b.begin(), b.end());
	CHECK("order-by-permutation", a == b, "in ", text(in), ", out ", text(out));
}

template <typename R>
void check_groups(const std::vector<rec>& in, const R& groups, int m)
{
	std::map<int, std::vector<rec>> exp;
	for (auto& x : in) {
		exp[key_of(x.first, m)].push_back(x);
	}
	std::map<int, std::vector<rec>> got;
	for (auto& g : groups) {
		got[g.first] = recs(g.second);
		for (const elem& e : g.second) {
			CHECK("group-by-intact", e.intact());
		}
	}
	CHECK_EQ("group-by-keys", got.size(), exp.size());
	CHECK("group-by", got == exp, "source ", text(in), " by key mod ", m);
}

// one operation over a source of type C
template <typename C>
void one(ctx& c, bool rvalue)
{
	auto in = gen(c.r, 300, false);
	unsigned op = unsigned(c.r.below(8));
	auto p = gen_pred(c.r);
	int m = int(c.r.range(1, 9));
	c.nt(in.size() > 1);
	SAMPLE(rvalue ? std::string("rvalue") : std::string("lvalue"), " source of ", in.size(), ", operation ", op, ", predicate ", p.kind, " ", p.a);
	tk::ev().reset();
	{
		C src = build<C>(in);
		auto copies0 = tk::ev().copies();
		// runs q on the source as lvalue, const lvalue or rvalue
		bool as_const = c.r.coin();
		auto on = [&](auto q) {
			if (rvalue) {
				q(utki::linq(std::move(src)));
			} else if (as_const) {
				q(utki::linq(static_cast<const C&>(src)));
			} else {
				q(utki::linq(src));
			}
		};
		switch (op) {
			case 0: { // select to a value, one argument, by const reference
				std::vector<int> seen;
				on([&](auto q) {
					auto res = q.select([&](const elem& e) {
									seen.push_back(e.tag);
									return std::to_string(e.v) + "/" + std::to_string(e.tag);
								}).get();
					CHECK_EQ("select-size", res.size(), in.size());
					for (size_t i = 0; i != in.size(); ++i) {
						CHECK_EQ("select", res[i], std::to_string(in[i].first) + "/" + std::to_string(in[i].second), "position ", i);
					}
					CHECK_EQ("select-calls", seen.size(), in.size());
					for (size_t i = 0; i != in.size(); ++i) {
						CHECK_EQ("select-order", seen[i], in[i].second);
					}
				});
				COUNT("select one argument");
				break;
			}
			case 1: { // two arguments
				on([&](auto q) {
					std::vector<std::pair<int, size_t>> res = q.select([](const elem& e, size_t i) { return std::make_pair(e.tag, i); }).get();
					CHECK_EQ("select-size", res.size(), in.size());
					for (size_t i = 0; i != in.size(); ++i) {
						CHECK_EQ("select-two", res[i].first, in[i].second);
						CHECK_EQ("select-position", res[i].second, i);
					}
				});
				COUNT("select two arguments");
				break;
			}
			case 2: { // the function takes the element by value
				on([&](auto q) {
					std::vector<elem> res = q.select([](elem e) {
												 e.v += 5;
												 *e.heap += 5;
												 return e;
											 }).get();
					auto exp = in;
					for (auto& x : exp) {
						x.first += 5;
					}
					check_intact("select-by-value", res, exp);
				});
				COUNT("select by value");
				break;
			}
			case 3: { // by value and position
				on([&](auto q) {
					std::vector<elem> res = q.select([](elem e, size_t i) {
												 e.v = int(i) * 2;
												 *e.heap = int(i) * 2;
												 return e;
											 }).get();
					auto exp = in;
					for (size_t i = 0; i != exp.size(); ++i) {
						exp[i].first = int(i) * 2;
					}
					check_intact("select-by-value-and-position", res, exp);
				});
				COUNT("select by value and position");
				break;
			}
			case 4:
			case 5: {
				on([&](auto q) {
					auto res = q.where([&](const elem& e) { return p(e.v); }).get();
					static_assert(std::is_same_v<decltype(res), C>, "where keeps the collection type");
					check_intact("where", res, ref_where(in, p));
				});
				COUNT("where");
				break;
			}
			case 6: {
				on([&](auto q) {
					auto res = q.group_by([&](const elem& e) { return key_of(e.v, m); }).get();
					check_groups(in, res, m);
				});
				COUNT("group_by");
				break;
			}
			default: {
				// std::list cannot be sorted in place
				auto f = [&](auto q) {
					auto res = q.order_by([](const elem& e) -> const int& { return e.v; }).get();
					auto got = recs(res);
					for (size_t i = 1; i < got.size(); ++i) {
						CHECK("order-by-sorted", got[i - 1].first <= got[i].first, "position ", i, " of ", text(got));
					}
					check_permutation(in, got);
					for (const elem& e : res) {
						CHECK("order-by-intact", e.intact());
					}
				};
				if constexpr (std::is_same_v<C, std::list<elem>>) {
					rvalue = false;
					f(utki::linq(src));
				} else {
					on(f);
				}
				COUNT("order_by");
				break;
			}
		}
		if (rvalue) {
			COUNT("rvalue sources");
			CHECK_EQ("rvalue-copies", tk::ev().copies(), copies0, "elements of an rvalue source were copied by operation ", op);
		} else {
			COUNT("lvalue sources");
			check_intact("lvalue-source-modified", src, in);
		}
		CHECK("use-of-moved-from", tk::ev().errors == 0, std::string(tk::ev().first_error));
	}
	tk::all_gone("after the query");
}

} // namespace

SUITE(vector_lvalue, 700, 0, "source with at least two elements")
{
	one<std::vector<elem>>(c, false);
}
SUITE(vector_rvalue, 700, 0, "source with at least two elements")
{
	one<std::vector<elem>>(c, true);
}
SUITE(deque_lvalue, 250, 0, "source with at least two elements")
{
	one<std::deque<elem>>(c, false);
}
SUITE(deque_rvalue, 250, 0, "source with at least two elements")
{
	one<std::deque<elem>>(c, true);
}
SUITE(list_lvalue, 250, 0, "source with at least two elements")
{
	one<std::list<elem>>(c, false);
}
SUITE(list_rvalue, 250, 0, "source with at least two elements")
{
	one<std::list<elem>>(c, true);
}

// chains of operations: where, order_by by value and select, in any order
SUITE(chains, 900, 0, "chain of at least two operations over at least two elements")
{
	auto in = gen(c.r, 120, true); // unique values, so the order after order_by is known
	bool rvalue = c.r.coin();
	size_t n = c.r.range(1, 6);
	std::string desc;
	tk::ev().reset();
	{
		auto src = build<std::vector<elem>>(in);
		auto copies0 = tk::ev().copies();
		long allowed = 0;
		auto exp = in;
		auto first = [&]() {
			if (rvalue) {
				return utki::linq(std::move(src)).where([](const elem&) { return true; });
			}
			allowed = long(in.size()); // the first operation over an lvalue source copies each element once
			return utki::linq(src).where([](const elem&) { return true; });
		};
		auto q = first();
		for (size_t i = 0; i != n; ++i) {
			switch (c.r.below(5)) {
				case 0:
				case 1: {
					auto p = gen_pred(c.r);
					desc += "where" + std::to_string(p.kind) + " ";
					q = q.where([&](const elem& e) { return p(e.v); });
					exp = ref_where(exp, p);
					COUNT("chained where");
					break;
				}
				case 2: {
					desc += "order ";
					q = q.order_by([](const elem& e) -> const int& { return e.v; });
					std::sort(exp.begin(), exp.end());
					COUNT("chained order_by");
					break;
				}
				case 3: {
					desc += "select ";
					q = q.select([](elem e) {
						e.v = -e.v;
						*e.heap = e.v;
						return e;
					});
					for (auto& x : exp) {
						x.first = -x.first;
					}
					COUNT("chained select");
					break;
				}
				default: {
					desc += "select-i ";
					q = q.select([](elem e, size_t i) {
						e.tag += int(i);
						return e;
					});
					for (size_t k = 0; k != exp.size(); ++k) {
						exp[k].second += int(k);
					}
					COUNT("chained select with position");
					break;
				}
			}
		}
		c.nt(n > 1 && in.size() > 1);
		SAMPLE(in.size(), rvalue ? std::string(" rvalue") : std::string(" lvalue"), " elements: ", desc);
		if (c.r.chance(1, 3)) {
			int m = int(c.r.range(1, 7));
			auto g = q.group_by([&](const elem& e) { return key_of(e.v, m); });
			if (c.r.coin()) {
				check_groups(exp, g.get(), m);
			} else {
				std::map<int, std::vector<rec>> groups;
				for (auto& x : exp) {
					groups[key_of(x.first, m)].push_back(x);
				}
				auto it = groups.begin();
				auto res = g.select([&](const auto& kv) { return std::make_pair(kv.first, recs(kv.second)); }).get();
				CHECK_EQ("group-select-size", res.size(), groups.size(), desc);
				for (auto& kv : res) {
					CHECK("group-select", kv.first == it->first && kv.second == it->second, desc);
					++it;
				}
			}
			COUNT("chained group_by");
		} else {
			auto res = q.get();
			check_intact("chain", res, exp);
		}
		CHECK("chain-copies", tk::ev().copies() - copies0 <= allowed, "copies ", tk::ev().copies() - copies0, " allowed ", allowed, " chain ", desc);
		if (!rvalue) {
			check_intact("lvalue-source-modified", src, in);
		}
		CHECK("use-of-moved-from", tk::ev().errors == 0, std::string(tk::ev().first_error), " ", desc);
	}
	tk::all_gone("after the chain");
}

// maps, sets, arrays and strings as sources; predicates which take their argument by value
SUITE(other_sources, 500, 0, "source with at least two elements")
{
	auto in = gen(c.r, 60, false);
	auto p = gen_pred(c.r);
	c.nt(in.size() > 1);
	std::map<int, std::string> m;
	std::set<std::string> st;
	std::vector<std::string> vs;
	for (auto& x : in) {
		m[x.first] = "a long enough string to be on the heap " + std::to_string(x.second);
		st.insert("a long enough string to be on the heap " + std::to_string(x.first));
		vs.push_back("a long enough string to be on the heap " + std::to_string(x.first));
	}
	const auto m0 = m;
	const auto st0 = st;
	const auto vs0 = vs;
	std::map<int, std::string> exp;
	for (auto& kv : m0) {
		if (p(kv.first)) {
			exp.insert(kv);
		}
	}
	auto last = [](const std::string& s) { return atoi(s.c_str() + s.rfind(' ') + 1); };
	std::vector<std::string> expv;
	for (auto& s : vs0) {
		if (p(last(s))) {
			expv.push_back(s);
		}
	}
	bool rv = c.r.coin();
	switch (c.r.below(6)) {
		case 0: {
			auto f = [&](const std::pair<const int, std::string>& e) { return p(e.first); };
			auto res = rv ? utki::linq(std::move(m)).where(f).get() : utki::linq(m).where(f).get();
			CHECK("where-map", res == exp);
			if (!rv) {
				CHECK("lvalue-source-modified", m == m0);
			}
			COUNT("map where");
			break;
		}
		case 1: {
			auto f = [&](const std::pair<const int, std::string>& e, size_t i) { return std::make_pair(i, e.second + "!" + std::to_string(e.first)); };
			auto res = rv ? utki::linq(std::move(m)).select(f).get() : utki::linq(m).select(f).get();
			CHECK_EQ("select-size", res.size(), m0.size());
			size_t i = 0;
			for (auto& kv : m0) {
				CHECK_EQ("select-map", res[i].second, kv.second + "!" + std::to_string(kv.first));
				CHECK_EQ("select-map-position", res[i].first, i);
				++i;
			}
			if (!rv) {
				CHECK("lvalue-source-modified", m == m0);
			}
			COUNT("map select");
			break;
		}
		case 2: {
			auto f = [&](const std::string& s) { return p(last(s)); };
			auto res = rv ? utki::linq(std::move(st)).where(f).get() : utki::linq(st).where(f).get();
			std::set<std::string> e;
			for (auto& s : st0) {
				if (f(s)) {
					e.insert(s);
				}
			}
			CHECK("where-set", res == e);
			if (!rv) {
				CHECK("lvalue-source-modified", st == st0);
			}
			COUNT("set where");
			break;
		}
		case 3: { // predicates taking the element by value
			auto f = [&](std::string s) { return p(last(s)); };
			auto res = rv ? utki::linq(std::move(vs)).where(f).get() : utki::linq(vs).where(f).get();
			CHECK_EQ("where-by-value", res, expv);
			if (!rv) {
				CHECK("lvalue-source-modified", vs == vs0);
			}
			COUNT("where by value");
			break;
		}
		case 4: { // group by a computed string, by value
			auto f = [&](std::string s) { return s.substr(s.size() - 1); };
			auto res = rv ? utki::linq(std::move(vs)).group_by(f).get() : utki::linq(vs).group_by(f).get();
			std::map<std::string, std::vector<std::string>> e;
			for (auto& s : vs0) {
				e[s.substr(s.size() - 1)].push_back(s);
			}
			CHECK("group-by-string", res == e);
			if (!rv) {
				CHECK("lvalue-source-modified", vs == vs0);
			}
			COUNT("group_by by value");
			break;
		}
		default: { // an array
			std::array<std::string, 5> a;
			for (size_t i = 0; i != a.size(); ++i) {
				a[i] = std::to_string(c.r.below(5)) + " a long enough string to be on the heap";
			}
			const auto a0 = a;
			if (c.r.coin()) {
				auto res = rv ? utki::linq(std::move(a)).select([](std::string s) { return s + "?"; }).get()
							  : utki::linq(a).select([](std::string s) { return s + "?"; }).get();
				CHECK_EQ("select-size", res.size(), size_t(5));
				for (size_t i = 0; i != 5; ++i) {
					CHECK_EQ("select-array", res[i], a0[i] + "?");
				}
			} else {
				auto e = a0;
				std::sort(e.begin(), e.end());
				auto f = [](const std::string& s) -> const std::string& { return s; };
				std::vector<std::string> res;
				if (rv) {
					auto x = utki::linq(std::move(a)).order_by(f).get();
					res.assign(x.begin(), x.end());
				} else {
					auto x = utki::linq(a).order_by(f).get();
					res.assign(x.begin(), x.end());
				}
				CHECK("order-by-array", std::equal(res.begin(), res.end(), e.begin(), e.end()));
			}
			if (!rv) {
				CHECK("lvalue-source-modified", a == a0);
			}
			COUNT("array");
			break;
		}
	}
}

// elements which cannot be copied at all
SUITE(move_only, 300, 0, "source with at least two elements")
{
	struct mo {
		std::unique_ptr<int> p;
		int k;
		explicit mo(int k) :
			p(new int(k)),
			k(k)
		{}
	};
	auto in = gen(c.r, 60, true);
	auto pr = gen_pred(c.r);
	c.nt(in.size() > 1);
	std::vector<mo> v;
	for (auto& x : in) {
		v.emplace_back(x.first);
	}
	auto exp = ref_where(in, pr);
	std::sort(exp.begin(), exp.end());
	auto res = utki::linq(std::move(v))
				   .where([&](const mo& e) { return pr(e.k); })
				   .order_by([](const mo& e) -> const int& { return e.k; })
				   .select([](mo e) { return e; })
				   .get();
	CHECK_EQ("move-only-size", res.size(), exp.size());
	for (size_t i = 0; i != res.size(); ++i) {
		CHECK("move-only", res[i].p && *res[i].p == exp[i].first && res[i].k == exp[i].first, "position ", i);
	}
	COUNT("move-only chains");
}

// an untouched aggregator gives the source itself
SUITE(get_source, 60, 0, "non-empty source")
{
	auto in = gen(c.r, 20, false);
	c.nt(!in.empty());
	tk::ev().reset();
	{
		auto src = build<std::vector<elem>>(in);
		auto copies0 = tk::ev().copies();
		{
			auto q = utki::linq(src);
			const auto& g = q.get();
			check_recs("get", recs(g), in);
		}
		check_intact("lvalue-source-modified", src, in);
		auto res = utki::linq(std::move(src)).get();
		check_intact("get-rvalue", res, in);
		CHECK_EQ("rvalue-copies", tk::ev().copies(), copies0);
		COUNT("get");
	}
	tk::all_gone("after get");
}
