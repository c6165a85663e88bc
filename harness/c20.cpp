// C20: flags behaves as a set over its enumeration.
// Oracle: a vector<bool> per object, operated on element by element; after every operation all live objects are compared.
#define VH_MAIN
#include "vh.hpp"

#include <iomanip>
#include <sstream>

#include <utki/flags.hpp>

using namespace vh;

namespace {

template <size_t N, typename U = int>
struct en {
	enum class type : U {
		enum_size = N
	};
};

enum class small { a, b, c, enum_size };

using model = std::vector<bool>;

template <typename E>
void compare(const utki::flags<E>& f, const model& m, const std::string& what)
{
	size_t n = m.size();
	CHECK_EQ("size", f.size(), n, std::string(what));
	bool all = true, none = true;
	std::string text;
	for (size_t i = 0; i != n; ++i) {
		CHECK_EQ("get", f.get(E(i)), bool(m[i]), "enumerator ", i, " of ", n, " after ", std::string(what));
		CHECK_EQ("index-const", bool(f[E(i)]), bool(m[i]), "enumerator ", i, " of ", n, " after ", std::string(what));
		all = all && m[i];
		none = none && !m[i];
		text.insert(text.begin(), m[i] ? '1' : '0');
	}
	CHECK_EQ("is-set", f.is_set(), all, text, " after ", std::string(what));
	CHECK_EQ("is-clear", f.is_clear(), none, text, " after ", std::string(what));
}

template <typename E>
utki::flags<E> by_list(const std::vector<size_t>& l)
{
	switch (l.size()) {
		case 0: return utki::flags<E>(std::initializer_list<E>{});
		case 1: return utki::flags<E>({E(l[0])});
		case 2: return utki::flags<E>{E(l[0]), E(l[1])};
		case 3: return utki::make_flags({E(l[0]), E(l[1]), E(l[2])});
		case 4: return utki::flags<E>{E(l[0]), E(l[1]), E(l[2]), E(l[3])};
		default: return utki::make_flags<E>({E(l[0]), E(l[1]), E(l[2]), E(l[3]), E(l[4])});
	}
}

template <typename E>
void run(ctx& c)
{
	constexpr size_t n = size_t(E::enum_size);
	using F = utki::flags<E>;
	struct obj {
		F f;
		model m;
	};
	std::vector<obj> v;
	auto& r = c.r;
	auto idx = [&]() -> size_t {
		switch (r.below(4)) {
			case 0: return 0;
			case 1: return n - 1;
			default: return size_t(r.below(n));
		}
	};
	auto random_obj = [&]() {
		obj o{F(), model(n, false)};
		switch (r.below(5)) {
			case 0: break;
			case 1: {
				bool b = r.coin();
				o = {F(b), model(n, b)};
				break;
			}
			case 2: {
				auto i = idx();
				o.f = F(E(i));
				o.m[i] = true;
				break;
			}
			case 3: {
				std::vector<size_t> l(r.below(6));
				for (auto& x : l) {
					x = idx();
					o.m[x] = true;
				}
				o.f = by_list<E>(l);
				break;
			}
			default: {
				auto i = idx();
				auto k = idx();
				o.f = E(i) | E(k);
				o.m[i] = true;
				o.m[k] = true;
				COUNT("enumerator | enumerator");
				break;
			}
		}
		return o;
	};
	size_t num_obj = r.range(2, 4);
	for (size_t i = 0; i != num_obj; ++i) {
		v.push_back(random_obj());
		compare(v.back().f, v.back().m, "construction");
	}
	size_t steps = r.range(3, 25);
	std::string desc;
	for (size_t s = 0; s != steps; ++s) {
		auto ia = size_t(r.below(v.size()));
		auto ib = size_t(r.below(v.size())); // may be the same object
		auto& a = v[ia];
		auto& b = v[ib];
		auto e = idx();
		bool val = r.coin();
		std::string op;
		F* ret = nullptr; // what a modifier has returned
		switch (r.below(20)) {
			case 0:
				op = "set(flag, value)";
				ret = &a.f.set(E(e), val);
				a.m[e] = val;
				break;
			case 1:
				op = "set(flag)";
				ret = &a.f.set(E(e));
				a.m[e] = true;
				break;
			case 2:
				op = "clear(flag)";
				ret = &a.f.clear(E(e));
				a.m[e] = false;
				break;
			case 3:
				op = "set(bool)";
				ret = &a.f.set(val);
				a.m.assign(n, val);
				break;
			case 4:
				op = "clear()";
				ret = &a.f.clear();
				a.m.assign(n, false);
				break;
			case 5:
				op = "invert()";
				ret = &a.f.invert();
				a.m.flip();
				break;
			case 6:
				op = "[]=";
				a.f[E(e)] = val;
				a.m[e] = val;
				break;
			case 7: {
				op = "[]=[]";
				auto e2 = idx();
				a.f[E(e)] = b.f[E(e2)];
				a.m[e] = bool(b.m[e2]);
				break;
			}
			case 8: {
				op = "&=";
				ret = &(a.f &= b.f);
				for (size_t i = 0; i != n; ++i) {
					a.m[i] = a.m[i] && b.m[i];
				}
				break;
			}
			case 9: {
				op = "|=";
				ret = &(a.f |= b.f);
				for (size_t i = 0; i != n; ++i) {
					a.m[i] = a.m[i] || b.m[i];
				}
				break;
			}
			case 10: {
				op = "^=";
				ret = &(a.f ^= b.f);
				for (size_t i = 0; i != n; ++i) {
					a.m[i] = a.m[i] != b.m[i];
				}
				break;
			}
			case 11:
			case 12:
			case 13: { // non-assigning operators; the result becomes a new object
				obj o{F(), model(n)};
				auto k = r.below(8);
				const F& fa = a.f;
				const F& fb = b.f;
				switch (k) {
					case 0: o.f = fa & fb; break;
					case 1: o.f = fa | fb; break;
					case 2: o.f = fa ^ fb; break;
					case 3: o.f = ~fa; break;
					case 4: o.f = fa | E(e); break;
					case 5: o.f = fa & E(e); break;
					case 6: o.f = fa ^ E(e); break;
					default: o.f = fa; break;
				}
				for (size_t i = 0; i != n; ++i) {
					bool x = a.m[i], y = b.m[i], z = i == e;
					switch (k) {
						case 0: o.m[i] = x && y; break;
						case 1: o.m[i] = x || y; break;
						case 2: o.m[i] = x != y; break;
						case 3: o.m[i] = !x; break;
						case 4: o.m[i] = x || z; break;
						case 5: o.m[i] = x && z; break;
						case 6: o.m[i] = x != z; break;
						default: o.m[i] = x; break;
					}
				}
				static const char* const names[] = {"&", "|", "^", "~", "| enumerator", "& enumerator", "^ enumerator", "copy"};
				op = names[k];
				if (v.size() < 6) {
					v.push_back(std::move(o));
				} else {
					auto t = size_t(r.below(v.size()));
					v[t] = std::move(o);
				}
				break;
			}
			case 14: {
				op = "set().clear().invert() chain";
				a.f.set(E(e)).invert().clear(E(e)).set(E(0), val);
				a.m[e] = true;
				a.m.flip();
				a.m[e] = false;
				a.m[0] = val;
				break;
			}
			case 15: {
				op = "|= enumerator";
				ret = &(a.f |= E(e));
				a.m[e] = true;
				break;
			}
			case 16: {
				op = "&= enumerator";
				ret = &(a.f &= E(e));
				for (size_t i = 0; i != n; ++i) {
					a.m[i] = a.m[i] && i == e;
				}
				break;
			}
			case 17: {
				op = "^= enumerator";
				ret = &(a.f ^= E(e));
				a.m[e] = !a.m[e];
				break;
			}
			case 18: {
				op = "assign enumerator";
				a.f = E(e);
				a.m.assign(n, false);
				a.m[e] = true;
				break;
			}
			default: {
				op = "print";
				std::stringstream ss;
				ss << a.f << ';' << b.f;
				std::string exp;
				for (size_t i = n; i != 0; --i) {
					exp += a.m[i - 1] ? '1' : '0';
				}
				exp += ';';
				for (size_t i = n; i != 0; --i) {
					exp += b.m[i - 1] ? '1' : '0';
				}
				CHECK_EQ("print", ss.str(), exp);
				COUNT("printed");
				break;
			}
		}
		if (ret) {
			CHECK("returns-itself", ret == &a.f, op);
		}
		desc += op + " ";
		COUNT("operations");
		for (size_t i = 0; i != v.size(); ++i) {
			compare(v[i].f, v[i].m, op);
		}
		auto& x = v[size_t(r.below(v.size()))];
		for (auto& y : v) {
			const F &fx = x.f, &fy = y.f;
			CHECK_EQ("equal", fx == fy, x.m == y.m, op);
			CHECK_EQ("not-equal", fx != fy, x.m != y.m, op);
		}
	}
	c.nt();
	SAMPLE(n, " enumerators: ", desc);
	COUNT_N("enumerators covered", n);
}

} // namespace

#define FLAGS_SUITE(name, cases, n, u) \
	SUITE(name, cases, 0, "every program") \
	{ \
		run<en<n, u>::type>(c); \
	}

SUITE(small_enum, 400, 0, "every program")
{
	run<small>(c);
}
FLAGS_SUITE(n1, 150, 1, int)
FLAGS_SUITE(n2, 150, 2, uint8_t)
FLAGS_SUITE(n7, 150, 7, int8_t)
FLAGS_SUITE(n8, 150, 8, unsigned)
FLAGS_SUITE(n9, 150, 9, uint16_t)
FLAGS_SUITE(n16, 150, 16, int16_t)
FLAGS_SUITE(n31, 100, 31, int)
FLAGS_SUITE(n32, 100, 32, int64_t)
FLAGS_SUITE(n33, 100, 33, uint8_t)
FLAGS_SUITE(n63, 100, 63, uint32_t)
FLAGS_SUITE(n64, 150, 64, int)
FLAGS_SUITE(n65, 150, 65, int8_t)
FLAGS_SUITE(n127, 60, 127, int8_t)
FLAGS_SUITE(n128, 60, 128, uint8_t)
FLAGS_SUITE(n200, 60, 200, uint8_t)
FLAGS_SUITE(n300, 40, 300, uint16_t)

// every subset pair of a small enumeration
SUITE(all_pairs, 256, fixed, "every pair of subsets of 4 enumerators")
{
	using E = en<4>::type;
	using F = utki::flags<E>;
	unsigned a = unsigned(c.index % 16), b = unsigned(c.index / 16 % 16);
	auto make = [](unsigned m) {
		F f;
		for (unsigned i = 0; i != 4; ++i) {
			if (m >> i & 1) {
				f.set(E(i));
			}
		}
		return f;
	};
	auto bits = [](const F& f) {
		unsigned m = 0;
		for (unsigned i = 0; i != 4; ++i) {
			m |= unsigned(f.get(E(i))) << i;
		}
		return m;
	};
	const F fa = make(a), fb = make(b);
	CHECK_EQ("and", bits(fa & fb), a & b);
	CHECK_EQ("or", bits(fa | fb), a | b);
	CHECK_EQ("xor", bits(fa ^ fb), a ^ b);
	CHECK_EQ("not", bits(~fa), ~a & 15u);
	CHECK_EQ("eq", fa == fb, a == b);
	CHECK_EQ("ne", fa != fb, a != b);
	CHECK_EQ("operands", bits(fa), a);
	CHECK_EQ("operands", bits(fb), b);
	c.nt();
	c.distinct(c.index);
	COUNT("pairs of subsets");
}
