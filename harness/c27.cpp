// C27: results do not depend on language standard, debug mode or optimisation.
// The same seeded workload over all functional areas is run by every build configuration; vh::out() folds each result (and each
// exception) into a per-case digest, and the digests recorded by the configurations are compared offline (check.py).
#define VH_MAIN
#include "vh.hpp"

#include <array>
#include <deque>
#include <list>
#include <set>
#include <sstream>

#include <utki/base64.hpp>
#include <utki/deserializer.hpp>
#include <utki/enum_array.hpp>
#include <utki/exception.hpp>
#include <utki/flags.hpp>
#include <utki/linq.hpp>
#include <utki/math.hpp>
#include <utki/shared_ref.hpp>
#include <utki/signal.hpp>
#include <utki/sort.hpp>
#include <utki/span.hpp>
#include <utki/string.hpp>
#include <utki/tree.hpp>
#include <utki/unicode.hpp>
#include <utki/unique_ref.hpp>
#include <utki/utility.hpp>
#include <utki/variant.hpp>
#include <utki/version.hpp>
#include <utki/views.hpp>

using namespace vh;

namespace {

#ifndef C27_OWN_REC
// records the result of f or which exception it threw
template <typename F>
void rec(const char* what, F f)
{
	try {
		vh::out(what, f());
	} catch (const vh::case_failed&) {
		throw;
	} catch (const std::invalid_argument& e) {
		vh::out(what, std::string("std::invalid_argument ") + e.what());
		COUNT("exceptions");
	} catch (const std::out_of_range& e) {
		vh::out(what, std::string("std::out_of_range ") + e.what());
		COUNT("exceptions");
	} catch (const std::logic_error& e) {
		vh::out(what, std::string("std::logic_error ") + e.what());
		COUNT("exceptions");
	} catch (const std::exception& e) {
		vh::out(what, std::string(typeid(e).name()) + " " + e.what());
		COUNT("exceptions");
	} catch (...) {
		vh::out(what, std::string("unknown exception"));
		COUNT("exceptions");
	}
	COUNT("results");
}
#endif

std::string random_text(rng& r, size_t max)
{
	auto n = r.size(max);
	switch (r.below(5)) {
		case 0: return r.text(n, "ab ,");
		case 1: return r.text(n, "word \t\n\r\v\f");
		case 2: return r.bytes_str(n);
		case 3: return r.text(n, "0123456789.-+eExX abc,");
		default: return r.text(n, "abcdefghijklmnopqrstuvwxyz     ");
	}
}

std::vector<std::string> strs(std::initializer_list<std::string_view> l)
{
	return std::vector<std::string>(l.begin(), l.end());
}

} // namespace

SUITE(strings, 800, 0, "non-empty text")
{
	auto t = random_text(c.r, 200);
	auto u = random_text(c.r, 6);
	static const char delims[] = {' ', ',', 'a', '\n', char(0xe9)};
	char d = c.r.pick(delims);
	auto width = unsigned(c.r.range(1, 30));
	auto depth = unsigned(c.r.below(9));
	auto size = unsigned(c.r.below(9));
	auto num = c.r.integer<int>();
	SAMPLE(t, " ", u, " width ", width);
	c.nt(!t.empty());
	rec("split", [&]() { return utki::split(std::string_view(t)); });
	rec("split-delim", [&]() { return utki::split(std::string_view(t), d); });
	rec("split-cstr", [&]() { return utki::split(t.c_str(), d); });
	rec("join", [&]() { return utki::join(utki::split(std::string_view(t), d), d); });
	rec("wrap", [&]() { return utki::word_wrap(t, width); });
	rec("trim", [&]() { return strs({utki::trim(t), utki::trim_front(t), utki::trim_back(t), utki::trim(t.c_str())}); });
	rec("starts", [&]() { return utki::starts_with(t, u); });
	rec("ends", [&]() { return utki::ends_with(t, u); });
	auto cut = t.substr(t.size() - std::min(t.size(), size_t(size)));
	rec("ends-own", [&]() { return utki::ends_with(t, cut); });
	rec("starts-own", [&]() { return utki::starts_with(t, std::string_view(t).substr(0, std::min(t.size(), size_t(size)))); });
	rec("indent", [&]() { return utki::make_indentation(depth, size); });
	rec("cat", [&]() { return utki::cat(t, num, ' ', u, 2.5, true); });
	rec("make-string", [&]() { return utki::make_string("%d %s %5u|%-6x|%c", num, u.c_str(), width, depth, 'z'); });
	rec("make-string-span", [&]() { return utki::make_string(utki::make_span(t)); });
}

SUITE(parsing, 800, 0, "non-empty text")
{
	auto t = random_text(c.r, 80);
	auto n = c.r.range(1, 8);
	SAMPLE(t);
	c.nt(!t.empty());
	utki::string_parser p(t);
	for (size_t i = 0; i != n; ++i) {
		auto k = c.r.below(14);
		auto m = c.r.below(10);
		switch (k) {
			case 0: rec("ws", [&]() { p.skip_whitespaces(); return p.size(); }); break;
			case 1: rec("ws-comma", [&]() { p.skip_whitespaces_and_comma(); return p.size(); }); break;
			case 2: rec("until", [&]() { p.skip_inclusive_until('a'); return p.size(); }); break;
			case 3: rec("until-one-of", [&]() { std::array<char, 3> cs{{'a', '1', ' '}}; return p.skip_inclusive_until_one_of(utki::make_span(cs)); }); break;
			case 4: rec("word", [&]() { return std::string(p.read_word()); }); break;
			case 5: rec("word-until", [&]() { return std::string(p.read_word_until(',')); }); break;
			case 6: rec("int", [&]() { return p.read_number<int>(); }); break;
			case 7: rec("u8", [&]() { return unsigned(p.read_number<uint8_t>()); }); break;
			case 8: rec("i64", [&]() { return p.read_number<int64_t>(); }); break;
			case 9: rec("float", [&]() { return p.read_number<float>(); }); break;
			case 10: rec("double", [&]() { return p.read_number<double>(); }); break;
			case 11: rec("char", [&]() { return p.read_char(); }); break;
			case 12: rec("peek", [&]() { return p.peek_char(m); }); break;
			default: rec("chars", [&]() { return std::string(p.read_chars(m)); }); break;
		}
		rec("left", [&]() { return std::string(p.get_view()); });
	}
}

SUITE(numbers, 1200, 0, "every number")
{
	auto i8 = c.r.integer<int8_t>();
	auto u16v = c.r.integer<uint16_t>();
	auto i32 = c.r.integer<int32_t>();
	auto u64v = c.r.integer<uint64_t>();
	c.nt();
	SAMPLE(i8, " ", u16v, " ", i32, " ", u64v);
	static const utki::integer_base bases[] = {utki::integer_base::bin, utki::integer_base::oct, utki::integer_base::dec, utki::integer_base::hex};
	for (auto b : bases) {
		rec("to-string", [&]() { return utki::to_string(i8, b) + " " + utki::to_string(u16v, b) + " " + utki::to_string(i32, b) + " " + utki::to_string(u64v, b); });
	}
	rec("parse", [&]() { return utki::string_parser(utki::to_string(u64v, utki::integer_base::hex)).read_number<uint64_t>(); });
	// decimal texts of reals
	std::string s;
	if (c.r.coin()) {
		s += '-';
	}
	auto il = c.r.range(1, 20);
	s += c.r.text(il, "0123456789");
	if (c.r.coin()) {
		s += '.';
		auto fl = c.r.below(25);
		s += c.r.text(fl, "0123456789");
	}
	if (c.r.coin()) {
		s += c.r.coin() ? "e" : "E";
		auto e = int(c.r.below(90)) - 45;
		s += std::to_string(e);
	}
	auto conv = [&](auto v) {
		auto r = utki::from_chars(s.data(), s.data() + s.size(), v);
		vh::out("from-chars-ec", int(r.ec));
		vh::out("from-chars-end", r.ptr - s.data());
		return v;
	};
	rec("from-chars-float", [&]() { return conv(float(0)); });
	rec("from-chars-double", [&]() { return conv(double(0)); });
	rec("sign", [&]() { return utki::sign(i32); });
	auto small = int(c.r.below(60)) - 30;
	rec("powers", [&]() { return utki::pow2(small) + utki::pow3(small) + utki::pow4(small) + utki::pow5(small) + utki::pow6(small); });
	rec("version", [&]() {
		std::ostringstream ss;
		utki::version_duplet a{u16v, uint16_t(u64v)}, b{uint16_t(i32), u16v};
		ss << a << (a < b) << (a >= b) << a.to_uint32_t();
		return ss.str();
	});
}

SUITE(unicode, 700, 0, "non-empty text")
{
	std::u32string u;
	auto n = c.r.size(60);
	for (size_t i = 0; i != n; ++i) {
		switch (c.r.below(4)) {
			case 0: u += char32_t(1 + c.r.below(0x7f)); break;
			case 1: u += char32_t(0x80 + c.r.below(0x700)); break;
			case 2: u += char32_t(0x800 + c.r.below(0xd000 - 0x800)); break;
			default: u += char32_t(0x10000 + c.r.below(0x100000)); break;
		}
	}
	c.nt(n != 0);
	SAMPLE(n, " characters");
	rec("to-utf8", [&]() { return utki::to_utf8(u); });
	auto s = utki::to_utf8(u);
	rec("to-utf32", [&]() { return utki::to_utf32(std::string_view(s)); });
	// damaged text
	auto k = c.r.below(5);
	for (size_t i = 0; i != k && !s.empty(); ++i) {
		auto pos = size_t(c.r.below(s.size()));
		s[pos] = char(u8(1 + c.r.below(255)));
	}
	if (!s.empty() && c.r.coin()) {
		s.pop_back();
	}
	rec("to-utf32-damaged", [&]() { return utki::to_utf32(std::string_view(s)); });
	rec("to-utf32-cstr", [&]() { return utki::to_utf32(s.c_str()); });
	rec("iterate", [&]() {
		std::u32string r;
		for (utki::utf8_iterator i((std::string_view(s))); !i.is_end(); ++i) {
			r += i.character();
		}
		return r;
	});
}

SUITE(bytes, 800, 0, "non-empty data")
{
	auto d = c.r.bytes_vec(c.r.size(120));
	auto n = c.r.size(100);
	auto b64 = c.r.text(n, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/");
	if (c.r.coin()) {
		b64 += "=";
	}
	c.nt(!d.empty());
	SAMPLE(d.size(), " bytes, base64 ", b64);
	rec("base64", [&]() { return utki::base64_decode(b64); });
	utki::deserializer ds(utki::make_span(d));
	auto steps = c.r.range(1, 10);
	for (size_t i = 0; i != steps; ++i) {
		auto k = c.r.below(11);
		auto m = c.r.below(20);
		switch (k) {
			case 0: rec("u8", [&]() { return ds.read_uint8(); }); break;
			case 1: rec("u16le", [&]() { return ds.read_uint16_le(); }); break;
			case 2: rec("u32le", [&]() { return ds.read_uint32_le(); }); break;
			case 3: rec("u64le", [&]() { return ds.read_uint64_le(); }); break;
			case 4: rec("u16be", [&]() { return ds.read_uint16_be(); }); break;
			case 5: rec("u32be", [&]() { return ds.read_uint32_be(); }); break;
			case 6: rec("u64be", [&]() { return ds.read_uint64_be(); }); break;
			case 7: rec("fle", [&]() { return ds.read_float_le(); }); break;
			case 8: rec("string", [&]() { return std::string(ds.read_string(m)); }); break;
			case 9: rec("span", [&]() { auto s = ds.read_span(m); return std::vector<u8>(s.begin(), s.end()); }); break;
			default: rec("skip", [&]() { ds.skip(m); return 1; }); break;
		}
		rec("left", [&]() { return ds.size(); });
	}
	auto v = c.r.integer<uint64_t>();
	rec("serialize", [&]() {
		std::array<u8, 32> b{};
		auto p = utki::serialize_le(v, b.data());
		p = utki::serialize_be(v, p);
		p = utki::serialize_le(uint32_t(v), p);
		p = utki::serialize_be(uint16_t(v), p);
		p = utki::serialize_float_le(float(int32_t(v)), p);
		vh::out("end", p - b.data());
		return b;
	});
}

SUITE(spans, 600, 0, "at least two elements")
{
	auto v = c.r.bytes_vec(c.r.size(60));
	auto w = v;
	if (!w.empty() && c.r.coin()) {
		auto pos = size_t(c.r.below(w.size()));
		auto val = u8(c.r.below(256));
		w[pos] = val;
	}
	if (c.r.chance(1, 4)) {
		w.push_back(3);
	}
	auto a = utki::make_span(v);
	auto b = utki::make_span(w);
	c.nt(v.size() > 1);
	SAMPLE(v.size(), " bytes");
	auto off = size_t(c.r.below(v.size() + 1));
	auto cnt = size_t(c.r.below(v.size() - off + 1));
	rec("subspan", [&]() { auto s = a.subspan(off, cnt); return std::vector<u8>(s.begin(), s.end()); });
	rec("subspan-rest", [&]() { auto s = a.subspan(off); return std::vector<u8>(s.begin(), s.end()); });
	rec("compare", [&]() {
		return int(utki::deep_equals(a, b)) | int(utki::deep_less_than(a, b)) << 1 | int(utki::deep_greater_than(a, b)) << 2 | int(utki::deep_not_equals(a, b)) << 3 |
			int(utki::deep_less_or_equals(a, b)) << 4 | int(utki::deep_greater_or_equals(a, b)) << 5;
	});
	rec("overlaps", [&]() { return utki::overlaps(a.subspan(0, off), a.data() + off / 2); });
	rec("reverse", [&]() { return std::vector<u8>(a.rbegin(), a.rend()); });
	rec("string", [&]() { return utki::make_string(utki::span<const u8>(a)); });
	rec("vector", [&]() { return utki::make_vector(a); });
}

SUITE(containers, 500, 0, "at least two elements")
{
	// distinct keys
	auto n = c.r.size(80);
	std::vector<int> k(n);
	for (size_t i = 0; i != n; ++i) {
		k[i] = int(i) * 7 - 100;
	}
	for (size_t i = n; i > 1; --i) {
		std::swap(k[i - 1], k[size_t(c.r.below(i))]);
	}
	c.nt(n > 1);
	SAMPLE(n, " keys");
	rec("sort", [&]() { auto v = k; utki::sort(v.begin(), v.end()); return v; });
	rec("sort-desc", [&]() { auto v = k; utki::sort(v.begin(), v.end(), [](int a, int b) { return a > b; }); return v; });
	std::vector<std::string> s;
	for (auto x : k) {
		s.push_back("key " + std::to_string(x));
	}
	rec("linq", [&]() {
		return utki::linq(s)
			.where([](const std::string& e) { return e.size() % 2 == 0; })
			.order_by([](const std::string& e) -> const std::string& { return e; })
			.select([](std::string e, size_t i) { return e + std::to_string(i); })
			.get();
	});
	rec("linq-group", [&]() {
		std::vector<std::string> r;
		for (auto& g : utki::linq(s).group_by([](const std::string& e) { return e.size(); }).get()) {
			r.push_back(std::to_string(g.first));
			r.insert(r.end(), g.second.begin(), g.second.end());
		}
		return r;
	});
	rec("zip", [&]() {
		std::vector<int> r;
		std::list<int> l(k.begin(), k.end());
		l.push_front(5);
		for (auto t : utki::views::zip(l, k)) {
			r.push_back(std::get<0>(t) * 3 + std::get<1>(t));
		}
		for (auto x : utki::views::reverse(l)) {
			r.push_back(x);
		}
		for (auto x : utki::skip_front<1>(l)) {
			r.push_back(x);
		}
		return r;
	});
	rec("flip", [&]() {
		std::map<int, int> m;
		for (auto x : k) {
			m[x] = x % 5;
		}
		std::vector<int> r;
		for (auto& kv : utki::flip_map(m)) {
			r.push_back(kv.first);
		}
		return r;
	});
	rec("contains", [&]() { return utki::contains(k, 5); });
	rec("next", [&]() { std::list<int> l(k.begin(), k.end()); l.push_back(1); return *utki::next(l.begin(), n / 2) + *utki::prev(l.end(), n / 3 + 1); });
}

namespace {
enum class en : uint8_t { a, b, c, d, e, f, g, h, i, j, enum_size };
using tr = utki::tree<int>;

void fill(rng& r, tr::container_type& v, int depth, int& next)
{
	auto n = r.below(4);
	for (size_t i = 0; i != n; ++i) {
		v.emplace_back(next++);
		if (depth < 4) {
			fill(r, v.back().children, depth + 1, next);
		}
	}
}
void flat(const tr::container_type& v, std::vector<int>& out)
{
	out.push_back(-1);
	for (auto& t : v) {
		out.push_back(t.value);
		flat(t.children, out);
	}
	out.push_back(-2);
}
} // namespace

SUITE(trees, 300, 0, "at least two nodes")
{
	tr::container_type roots;
	int next = 0;
	fill(c.r, roots, 0, next);
	c.nt(next > 1);
	SAMPLE(next, " nodes");
	auto t = utki::make_traversal(roots);
	rec("walk", [&]() {
		std::vector<int> v;
		for (auto i = t.begin(); i != t.end(); ++i) {
			v.push_back(i->value);
			v.push_back(int(i.depth()));
		}
		return v;
	});
	rec("walk-back", [&]() {
		std::vector<int> v;
		for (auto i = t.rbegin(); i != t.rend(); ++i) {
			v.push_back(i->value);
		}
		return v;
	});
	std::vector<std::vector<size_t>> idx;
	for (auto i = t.begin(); i != t.end(); ++i) {
		idx.push_back(utki::make_vector(utki::make_span(i.index())));
	}
	rec("indices", [&]() {
		std::vector<size_t> v;
		for (auto& i : idx) {
			v.insert(v.end(), i.begin(), i.end());
			v.push_back(1000);
		}
		return v;
	});
	if (!idx.empty()) {
		auto& at = idx[size_t(c.r.below(idx.size()))];
		rec("is-valid", [&]() { return t.is_valid(utki::make_span(at)); });
		rec("node", [&]() { return t[utki::make_span(at)].value; });
		rec("insert", [&]() {
			auto i = t.insert(t.make_iterator(utki::make_span(at)), tr(777));
			return i->value;
		});
		rec("erase", [&]() {
			auto i = t.erase(t.make_iterator(utki::make_span(at)));
			vh::out("erase-end", i == t.end());
			return 1;
		});
		rec("after", [&]() { std::vector<int> v; flat(roots, v); return v; });
	}
}

SUITE(sets, 300, 0, "every case")
{
	using F = utki::flags<en>;
	F a, b;
	for (int i = 0; i != 10; ++i) {
		if (c.r.coin()) {
			a.set(en(i));
		}
		if (c.r.coin()) {
			b.set(en(i));
		}
	}
	c.nt();
	rec("flags", [&]() {
		std::ostringstream ss;
		ss << a << ' ' << b << ' ' << (a & b) << ' ' << (a | b) << ' ' << (a ^ b) << ' ' << ~a << ' ' << (a == b) << (a != b) << a.is_clear() << b.is_set() << (en::c | en::j)
		   << F(true);
		return ss.str();
	});
	rec("enum-array", [&]() {
		utki::enum_array<int, en> ar{};
		for (auto t : ar.zip_with_enum()) {
			std::get<0>(t) = int(std::get<1>(t)) * (a.get(std::get<1>(t)) ? 3 : 5);
		}
		return std::vector<int>(ar.begin(), ar.end());
	});
}

namespace {
struct odd {};
[[noreturn]] void chain(const std::vector<int>& l, size_t i)
{
	auto msg = "message " + std::to_string(i);
	if (i + 1 == l.size()) {
		switch (l[i] % 3) {
			case 0: throw std::runtime_error(msg);
			case 1: throw odd();
			default: throw std::out_of_range(msg);
		}
	}
	try {
		chain(l, i + 1);
	} catch (...) {
		switch (l[i]) {
			case 0: utki::throw_with_nested(std::runtime_error(msg)); break;
			case 1: utki::throw_with_nested(std::logic_error(msg)); break;
			case 2: std::throw_with_nested(std::invalid_argument(msg)); break;
			default: std::throw_with_nested(odd()); break;
		}
	}
	abort();
}
} // namespace

SUITE(exceptions, 200, 0, "nested exceptions")
{
	std::vector<int> l(c.r.range(1, 6));
	for (auto& x : l) {
		x = int(c.r.below(4));
	}
	c.nt(l.size() > 1);
	try {
		chain(l, 0);
	} catch (std::exception& e) {
		rec("to-string", [&]() { return utki::to_string(e, "  "); });
		rec("what", [&]() { return std::string(e.what()); });
	} catch (...) {
		rec("current", [&]() { return utki::current_exception_to_string("* "); });
	}
	rec("current-none", [&]() { return utki::current_exception_to_string(); });
}

SUITE(objects, 150, 0, "every case")
{
	c.nt();
	utki::signal<int, std::string> sig;
	std::string log;
	auto n = c.r.below(5);
	std::vector<decltype(sig.connect(std::function<void(int, std::string)>()))> ids;
	for (size_t i = 0; i != n; ++i) {
		ids.push_back(sig.connect([&log, i](int a, std::string b) { log += std::to_string(i) + b + std::to_string(a); }));
	}
	auto drop = c.r.below(6);
	if (drop < n) {
		sig.disconnect(ids[drop]);
	}
	sig.emit(int(n), "x");
	rec("signal", [&]() { return log; });
	for (size_t i = 0; i != n; ++i) {
		// the signal must be empty when it is destroyed
		if (i != drop) {
			sig.disconnect(ids[i]);
		}
	}
	rec("refs", [&]() {
		auto r = utki::make_shared<std::string>("text");
		auto u = utki::make_unique<std::string>("other");
		auto q = r;
		q.get() += "!";
		return r.get() + u.get();
	});
	rec("scope", [&]() {
		std::string s;
		{
			utki::scope_exit a([&]() { s += "a"; });
			utki::scope_exit b([&]() { s += "b"; });
			if (n % 2 == 0) {
				b.release();
			}
		}
		return s;
	});
}
