// C23: exception descriptions show the whole nested chain, safely.
// Oracle: the text built from the recorded chain (dynamic type names taken from the thrown objects when they are caught);
// the exception being handled and the number of uncaught ones are observed before and after every conversion.
#define VH_MAIN
#include "vh.hpp"

#include <cxxabi.h>

#include <utki/debug.hpp>
#include <utki/exception.hpp>
#include <utki/string.hpp>

using namespace vh;

namespace {

std::string readable(const std::type_info& t)
{
	int st = 0;
	std::unique_ptr<char, void (*)(void*)> p(abi::__cxa_demangle(t.name(), nullptr, nullptr, &st), &free);
	return st == 0 ? std::string(p.get()) : std::string(t.name());
}

struct plain_utki : utki::exception {
	std::string msg;
	explicit plain_utki(std::string s) :
		msg(std::move(s))
	{}
	const char* what() const noexcept override { return msg.c_str(); }
};
struct own_std : std::exception {
	std::string msg;
	explicit own_std(std::string s) :
		msg(std::move(s))
	{}
	const char* what() const noexcept override { return msg.c_str(); }
};
struct own_nested : std::runtime_error, std::nested_exception { // nests whatever is being handled when it is made
	explicit own_nested(const std::string& s) :
		std::runtime_error(s)
	{}
};
struct non_std {
	int x = 5;
};
struct virt_base {
	virtual ~virt_base() = default;
};
struct non_std_poly : virt_base {};
template <typename T>
struct templ_error : std::logic_error {
	using std::logic_error::logic_error;
};

enum kind { k_runtime, k_out_of_range, k_own, k_templ, k_utki, k_non_std, k_non_std_poly, k_int, k_cstr, num_kinds };
enum nesting { n_std, n_utki, n_own };

struct level {
	int kind = 0;
	int nesting = 0; // how it nests the next one
	std::string msg;
	// recorded from the real object
	std::string name;
	bool is_std = false;
	bool is_utki = false; // derived from utki::exception
	bool stacked = false;
	std::string nesting_name; // of a stacked one
	bool has_nested = false;
};

template <typename F>
void with_object(int kind, const std::string& msg, F f)
{
	switch (kind) {
		case k_runtime: f(std::runtime_error(msg)); break;
		case k_out_of_range: f(std::out_of_range(msg)); break;
		case k_own: f(own_std(msg)); break;
		case k_templ: f(templ_error<std::map<int, std::string>>(msg)); break;
		case k_utki: f(plain_utki(msg)); break;
		case k_non_std: f(non_std()); break;
		default: f(non_std_poly()); break;
	}
}

// throws the chain: levels[i] nests levels[i + 1]
[[noreturn]] void throw_chain(std::vector<level>& l, size_t i);

void record(level& l)
{
	try {
		throw;
	} catch (std::exception& e) {
		l.name = readable(typeid(e));
		l.is_std = true;
		l.is_utki = dynamic_cast<utki::exception*>(&e) != nullptr;
	} catch (...) {
		l.name = readable(*abi::__cxa_current_exception_type());
	}
}

void throw_level(std::vector<level>& l, size_t i)
{
	auto& x = l[i];
	if (i + 1 == l.size()) {
		if (x.kind == k_int) {
			throw 13;
		}
		if (x.kind == k_cstr) {
			throw "text";
		}
		with_object(x.kind, x.msg, [](auto o) { throw o; });
	}
	try {
		throw_chain(l, i + 1);
	} catch (...) {
		x.has_nested = true;
		if (x.nesting == n_own) {
			throw own_nested(x.msg);
		}
		with_object(x.kind, x.msg, [&](auto o) {
			using O = decltype(o);
			if constexpr (std::is_base_of_v<std::exception, O>) {
				if (x.nesting == n_utki) {
					x.stacked = true;
					x.nesting_name = readable(typeid(O));
					utki::throw_with_nested(std::move(o));
				}
			}
			std::throw_with_nested(std::move(o));
		});
	}
}

void throw_chain(std::vector<level>& l, size_t i)
{
	try {
		throw_level(l, i);
	} catch (...) {
		record(l[i]);
		throw;
	}
	abort();
}

using levels = std::vector<level>;
std::string ref_std(const levels& l, size_t i, const std::string& ind);
std::string ref_cur(const levels& l, size_t i, const std::string& ind);
std::string ref_stacked(const levels& l, size_t i, const std::string& ind);

std::string ref_what(const levels& l, size_t i)
{
	return l[i].stacked ? "exception stack:\n" + ref_stacked(l, i, "- ") : l[i].msg;
}
std::string ref_any(const levels& l, size_t i, const std::string& ind)
{
	return l[i].is_std ? ref_std(l, i, ind) : ref_cur(l, i, ind);
}
std::string ref_std(const levels& l, size_t i, const std::string& ind)
{
	auto s = ind + l[i].name + ": " + ref_what(l, i);
	if (l[i].has_nested && !l[i].stacked) { // a stacked one shows its chain through what()
		s += "\n" + ref_any(l, i + 1, ind);
	}
	return s;
}
std::string ref_cur(const levels& l, size_t i, const std::string& ind)
{
	auto s = ind + l[i].name;
	if (l[i].has_nested && !l[i].stacked) {
		s += "\n" + ref_any(l, i + 1, ind);
	}
	return s;
}
std::string ref_stacked(const levels& l, size_t i, const std::string& ind)
{
	auto s = ind + l[i].nesting_name + ": " + l[i].msg + "\n";
	return s + (l[i + 1].stacked ? ref_stacked(l, i + 1, ind) : ref_any(l, i + 1, ind));
}

levels gen(rng& r, bool mix_all)
{
	size_t n = r.chance(1, 12) ? r.range(20, 60) : r.chance(1, 150) ? r.range(257, 400) : r.range(1, 7);
	levels l(n);
	for (size_t i = 0; i != n; ++i) {
		bool last = i + 1 == n;
		l[i].kind = int(r.below(last ? u64(num_kinds) : u64(k_int)));
		l[i].nesting = mix_all ? int(r.below(3)) : int(n_utki);
		if (!mix_all && !last) {
			l[i].kind = int(r.below(k_non_std)); // utki::throw_with_nested takes std::exception only
		}
		static const char* const msgs[] = {"", "m", "some error: with a colon", "two\nlines", "100%s %n {}", "a long message which certainly does not fit into the small string buffer of std::string"};
		if (l[i].nesting == n_own && !last) {
			l[i].kind = k_runtime;
		}
		l[i].msg = r.coin() ? std::string(r.pick(msgs)) : "message " + std::to_string(i);
		if (n < 8 && !r.from_bytes() && r.chance(1, 120)) {
			l[i].msg = r.text(size_t(r.range(1000, 200000)), "abc \n%s") + "the end";
			COUNT("long messages");
		}
	}
	return l;
}

std::string chain_text(const levels& l)
{
	std::string s;
	for (auto& x : l) {
		s += x.name + (x.has_nested ? " > " : "");
	}
	return s;
}

struct guard { // the state of exception handling must be the same afterwards
	std::exception_ptr cur = std::current_exception();
	int uncaught = std::uncaught_exceptions();
	void check(const char* what) const
	{
		CHECK("current-exception-changed", cur == std::current_exception(), std::string(what));
		CHECK_EQ("uncaught-changed", std::uncaught_exceptions(), uncaught, std::string(what));
	}
};

const char* const indents[] = {"", " ", "  ", "\t", "- ", "  * ", "a rather long indentation which is on the heap: "};

void check_conversions(ctx& c, levels& l)
{
	std::string ind = c.r.pick(indents);
	bool handled_outside = c.r.coin();
	auto body = [&]() {
		std::exception_ptr p;
		try {
			throw_chain(l, 0);
		} catch (...) {
			p = std::current_exception();
			guard g;
			auto s = utki::current_exception_to_string(ind);
			if (l[0].is_std) {
				CHECK("current-prefix", s.substr(0, ind.size() + l[0].name.size()) == ind + l[0].name, "got ", s);
			} else {
				CHECK_EQ("current", s, ref_cur(l, 0, ind), chain_text(l));
			}
			g.check("current_exception_to_string");
			COUNT("current exception conversions");
			try {
				throw;
			} catch (std::exception& e) {
				guard g2;
				const std::exception& ce = e;
				CHECK_EQ("to-string", utki::to_string(ce, ind), ref_std(l, 0, ind), chain_text(l));
				g2.check("to_string");
				CHECK_EQ("to-string-default", utki::to_string(ce), ref_std(l, 0, ""), chain_text(l));
				CHECK_EQ("to-string-again", utki::to_string(ce, ind), ref_std(l, 0, ind), chain_text(l));
				CHECK_EQ("what", std::string(e.what()), ref_what(l, 0), chain_text(l));
				const char* w1 = e.what();
				std::string t1 = w1;
				const char* w2 = e.what();
				CHECK_EQ("what-repeat", std::string(w2), t1);
				CHECK_EQ("what-earlier-pointer", std::string(w1), t1);
				g2.check("what");
				COUNT("std::exception conversions");
			} catch (...) {
			}
			try {
				throw;
			} catch (utki::exception& e) {
				guard g2;
				auto exp = l[0].stacked ? ref_stacked(l, 0, ind) : ref_std(l, 0, ind);
				const utki::exception& ce = e;
				CHECK_EQ("member-to-string", ce.to_string(ind), exp, chain_text(l));
				g2.check("exception::to_string");
				CHECK_EQ("member-to-string-again", ce.to_string(ind), exp, chain_text(l));
				CHECK_EQ("member-to-string-default", ce.to_string(), l[0].stacked ? ref_stacked(l, 0, "") : ref_std(l, 0, ""), chain_text(l));
				COUNT("utki::exception conversions");
			} catch (...) {
			}
			g.check("all conversions");
		}
		// the same object, later, kept alive by the pointer only
		if (c.r.coin()) {
			try {
				std::rethrow_exception(p);
			} catch (std::exception& e) {
				CHECK_EQ("rethrown", utki::to_string(e, ind), ref_std(l, 0, ind), chain_text(l));
				CHECK_EQ("rethrown-what", std::string(e.what()), ref_what(l, 0), chain_text(l));
				COUNT("rethrown");
			} catch (...) {
				if (!l[0].is_std) {
					CHECK_EQ("rethrown-current", utki::current_exception_to_string(ind), ref_cur(l, 0, ind), chain_text(l));
				}
			}
		}
	};
	if (handled_outside) { // while another exception is being handled
		try {
			throw std::string("outer");
		} catch (std::string& s) {
			guard g;
			body();
			g.check("inside a handler");
			CHECK_EQ("handled-exception", s, std::string("outer"));
			try {
				throw;
			} catch (std::string& s2) {
				CHECK("handled-exception", &s2 == &s);
			}
			COUNT("conversions inside a handler");
		}
	} else {
		body();
	}
	COUNT_N("levels", l.size());
	c.nt(l.size() > 1);
	c.distinct(hash_bytes(l[0].name.data(), l[0].name.size()));
	SAMPLE(chain_text(l), " indentation ", ind);
}

} // namespace

SUITE(mixed_chains, 500, 0, "at least one nested exception")
{
	auto l = gen(c.r, true);
	check_conversions(c, l);
}

SUITE(stacked_chains, 250, 0, "at least one nested exception")
{
	auto l = gen(c.r, false);
	check_conversions(c, l);
}

// exceptions which could have a nested one but have none
SUITE(nothing_nested, 60, 0, "conversion of a nesting exception with nothing nested")
{
	std::string ind = c.r.pick(indents);
	note("exception without nested one");
	switch (c.r.below(6)) {
		case 5: {
#ifndef DEBUG // asserted in debug builds
			try {
				utki::throw_with_nested(std::runtime_error("alone"));
			} catch (utki::exception& e) {
				CHECK_EQ("null-stacked", e.to_string(ind), ind + "std::runtime_error: alone");
				CHECK_EQ("null-stacked-what", std::string(e.what()), std::string("exception stack:\n- std::runtime_error: alone"));
			}
#endif
			break;
		}
		case 0: {
			own_nested e("alone");
			CHECK_EQ("null-nested", utki::to_string(e, ind), ind + readable(typeid(e)) + ": alone");
			break;
		}
		case 1: {
			try {
				std::throw_with_nested(std::runtime_error("alone"));
			} catch (std::exception& e) {
				CHECK_EQ("null-nested", utki::to_string(e, ind), ind + readable(typeid(e)) + ": alone");
			}
			break;
		}
		case 2: {
			try {
				std::throw_with_nested(non_std());
			} catch (...) {
				CHECK_EQ("null-nested-current", utki::current_exception_to_string(ind), ind + readable(*abi::__cxa_current_exception_type()));
			}
			break;
		}
		case 3: { // deeper in the chain
			std::exception_ptr bare;
			std::string name;
			try {
				std::throw_with_nested(std::runtime_error("alone"));
			} catch (std::exception& e) {
				bare = std::current_exception();
				name = readable(typeid(e));
			}
			try {
				try {
					std::rethrow_exception(bare);
				} catch (...) {
					utki::throw_with_nested(std::logic_error("outer"));
				}
			} catch (utki::exception& e) {
				CHECK_EQ("null-nested-deep", e.to_string(ind), ind + "std::logic_error: outer\n" + ind + name + ": alone");
			}
			break;
		}
		default: {
			try {
				std::throw_with_nested(plain_utki("alone"));
			} catch (utki::exception& e) {
				CHECK_EQ("null-nested-utki", e.to_string(ind), ind + readable(typeid(e)) + ": alone");
			}
			break;
		}
	}
	c.nt();
	COUNT("nothing nested");
}

// no exception at all
SUITE(no_current, 5, 0, "the call is refused")
{
	std::string ind = c.r.pick(indents);
	CHECK_THROWS("no-current", std::logic_error, (void)utki::current_exception_to_string(ind));
	CHECK("no-current-state", std::current_exception() == nullptr);
	c.nt();
	COUNT("no current exception");
}

// conversions made by destructors while the stack is being unwound
SUITE(unwinding, 150, 0, "conversion during stack unwinding")
{
	auto l = gen(c.r, true);
	std::string ind = c.r.pick(indents);
	std::string got, exp;
	int before = -1, after = -1;
	bool is_std = false;
	struct at_exit {
		std::function<void()> f;
		~at_exit()
		{
			f();
		}
	};
	int caught = 0;
	try {
		at_exit x{[&]() {
			before = std::uncaught_exceptions();
			try {
				throw_chain(l, 0);
			} catch (std::exception& e) {
				is_std = true;
				got = utki::to_string(e, ind);
			} catch (...) {
				got = utki::current_exception_to_string(ind);
			}
			after = std::uncaught_exceptions();
		}};
		throw 42;
	} catch (int i) {
		caught = i;
	}
	exp = is_std ? ref_std(l, 0, ind) : ref_cur(l, 0, ind);
	CHECK_EQ("unwinding-caught", caught, 42);
	CHECK_EQ("unwinding", got, exp, chain_text(l));
	CHECK_EQ("unwinding-uncaught", after, before);
	c.nt(before == 1);
	COUNT("conversions while unwinding");
}

// copies of a stacked exception are as good as the original
SUITE(copies, 100, 0, "copied stacked exception")
{
	levels l = gen(c.r, false);
	if (l.size() < 2) {
		l.push_back(l[0]);
	}
	l[0].kind = k_runtime;
	if (l[0].nesting != n_utki) {
		l[0].nesting = n_utki;
	}
	for (size_t i = 0; i + 1 < l.size(); ++i) {
		if (l[i].kind >= k_non_std) {
			l[i].kind = k_own;
		}
	}
	bool before = c.r.coin();
	std::unique_ptr<utki::stacked_exception<std::runtime_error>> copy;
	try {
		throw_chain(l, 0);
	} catch (utki::stacked_exception<std::runtime_error>& e) {
		if (before) {
			CHECK_EQ("what", std::string(e.what()), ref_what(l, 0));
		}
		copy = std::make_unique<utki::stacked_exception<std::runtime_error>>(e);
		CHECK_EQ("copy-what", std::string(copy->what()), ref_what(l, 0));
	}
	CHECK_EQ("copy-what", std::string(copy->what()), ref_what(l, 0));
	CHECK_EQ("copy-to-string", copy->to_string(" "), ref_stacked(l, 0, " "));
	c.nt();
	COUNT("copies");
}

// readable type names on their own
namespace {
template <typename... T>
struct pack {};
template <size_t N, typename T>
struct wrap : wrap<N - 1, pack<T, T>> {};
template <typename T>
struct wrap<0, T> {};
} // namespace

SUITE(type_names, 3, fixed, "every type has a readable name")
{
	struct local {};
	auto lambda = [](int a) { return a; };
	const std::pair<const std::type_info*, const char*> known[] = {
		{&typeid(int), "int"},
		{&typeid(unsigned char), "unsigned char"},
		{&typeid(long long), "long long"},
		{&typeid(std::nullptr_t), "decltype(nullptr)"},
		{&typeid(const char*), "char const*"},
		{&typeid(int (*)(double)), "int (*)(double)"},
		{&typeid(std::logic_error), "std::logic_error"},
		{&typeid(utki::exception), "utki::exception"},
		{&typeid(non_std), "(anonymous namespace)::non_std"},
		{&typeid(pack<int, pack<>, char[3]>), "(anonymous namespace)::pack<int, (anonymous namespace)::pack<>, char [3]>"},
		{&typeid(virt_base&), "(anonymous namespace)::virt_base"},
	};
	for (auto& k : known) {
		CHECK_EQ("known-name", utki::demangle(*k.first), std::string(k.second));
	}
	wrap<12, pack<std::string, non_std>> deep; // names of many kilobytes
	std::runtime_error err("x");
	const std::exception& poly = err;
	const std::type_info* others[] = {
		&typeid(local), &typeid(lambda), &typeid(deep), &typeid(pack<wrap<4, int>>), &typeid(std::map<std::string, std::vector<own_std>>), &typeid(poly), &typeid(int virt_base::*),
		&typeid(void (virt_base::*)(int) const), &typeid(templ_error<std::string>), &typeid(void), &typeid(wchar_t), &typeid(long double), &typeid(char32_t),
	};
	for (auto t : others) {
		CHECK_EQ("readable-name", utki::demangle(*t), readable(*t));
	}
	c.nt();
	c.distinct(c.index);
	COUNT_N("type names", sizeof(known) / sizeof(known[0]) + sizeof(others) / sizeof(others[0]));
}
