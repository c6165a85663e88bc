// more work items after those of c27.cpp (used by c28.cpp and c32_unit.cpp)
#include <utki/debug.hpp>
#include <utki/enum_iterable.hpp>
#include <utki/log.hpp>
#include <utki/singleton.hpp>
#include <utki/time.hpp>
#include <utki/type_traits.hpp>

SUITE(more, 0, 0, "")
{
	auto& r = c.r;
	std::string t = r.text(r.size(6000), "abcdefghijklmnopqrstuvwxyz");
	auto n = r.integer<int>();
	rec("long-make-string", [&]() { return utki::make_string("%s %d %s", t.c_str(), n, t.c_str()); });
	rec("wide-make-string", [&]() { return utki::make_string("%*d", int(1000 + r.below(60)), n); });
	rec("demangle", [&]() { return utki::demangle(typeid(std::map<int, work_item>)); });
	rec("demangle-int", [&]() { return utki::demangle(typeid(int)); });
	rec("no-number", [&]() { return utki::string_parser("x" + t).read_number<int>(); });
	rec("ticks", [&]() {
		auto a = utki::get_ticks_ms(), b = utki::get_ticks_ms();
		return b - a < 0x80000000u;
	});
	rec("asserts", [&]() {
		int runs = 0;
		utki::assert_always(true, [&](std::ostream&) { ++runs; }, SL);
		utki::assert(true, [&](std::ostream&) { ++runs; }, SL);
		utki::assert([&]() { return ++runs != 0; }, SL);
		ASSERT(n == n)
		return runs;
	});
	rec("overload", [&]() {
		std::variant<int, std::string> v = t;
		return std::visit(utki::overloaded{[](int) { return std::string("int"); }, [](const std::string& s) { return s; }}, v);
	});
	rec("unwinding", [&]() {
		std::string log;
		try {
			utki::scope_exit a([&]() { log += "a"; });
			utki::scope_exit b([&]() { throw std::runtime_error("in action"); });
			throw std::logic_error("x");
		} catch (const std::logic_error& e) {
			log += e.what();
		}
		return log;
	});
	rec("enumerators", [&]() {
		int s = 0;
		for (auto e : utki::enum_iterable_v<en>) {
			s = s * 3 + int(e);
		}
		return s;
	});
	rec("logged", [&]() {
		bool called = false;
		utki::log_debug([&](std::ostream&) { called = true; });
		(void)called;
		return 1;
	});
}


// small parameters, all of them (the random ones may miss some in few runs)
SUITE(edges, 0, 0, "")
{
	for (unsigned i = 0; i != 4; ++i) {
		rec("indentations", [&]() { return utki::make_indentation(i) + "|" + utki::make_indentation(i, 0) + "|" + utki::make_indentation(3, i) + "|" + utki::make_indentation(i, 2); });
		rec("rotations", [&]() { return utki::make_string("%.*s", int(i), "abc") + utki::cat(i, "x", i); });
	}
	std::string spaces = "\t\n\v\f\r ,;x";
	for (char ch : spaces) {
		auto t = std::string("ab") + ch + "cd" + ch + ch + "12" + ch;
		rec("splits", [&]() { return utki::split(std::string_view(t)); });
		rec("splits-by", [&]() { return utki::join(utki::split(std::string_view(t), ch), ch); });
		rec("trims", [&]() { return std::string(utki::trim(std::string_view(ch + t))) + "|" + std::string(utki::trim_back(std::string_view(t))) + "|" + std::string(utki::trim_front(std::string_view(ch + t))); });
		rec("words", [&]() {
			utki::string_parser p(t);
			auto r = std::string(p.read_word());
			p.skip_whitespaces_and_comma();
			r += "|" + std::string(p.read_word_until(ch));
			p.skip_whitespaces();
			return r + "|" + std::string(p.get_view());
		});
	}
	for (unsigned v : {0u, 1u, 9u, 10u, 255u, 4000000000u}) {
		for (auto b : {utki::integer_base::bin, utki::integer_base::oct, utki::integer_base::dec, utki::integer_base::hex}) {
			rec("bases", [&]() { return utki::to_string(v, b); });
		}
		for (auto t : {"0x", "0b", "0", ""}) {
			rec("prefixes", [&]() { return utki::string_parser(t + std::to_string(v % 8)).read_number<unsigned>(); });
		}
	}
	for (auto t : {"0", "-0.0", "1.5", "1e10", ".5", "-7.25e-3", "1e40", "1e-60", "nan", "", "-"}) {
		rec("reals", [&]() { return utki::string_parser(t).read_number<float>(); });
		rec("doubles", [&]() { return utki::string_parser(t).read_number<double>(); });
	}
	for (auto t : {"", "QQ", "QUI", "QUJD", "QUJD+/", "QQ==", "QUI=", "////", "Q"}) {
		rec("alphabet", [&]() { return utki::base64_decode(std::string_view(t)); });
	}
	rec("alphabet-whole", [&]() { return utki::base64_decode("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"); });
	for (auto u : {U'\1', U'\x7f', U'\x80', U'\x7ff', U'\x800', U'\xffff', U'\x10000', U'\x1fffff', U'\x200000', U'\x3ffffff', U'\x4000000', U'\x7fffffff'}) {
		rec("lengths", [&]() { return std::string(utki::to_utf8(u).data()); });
		rec("backs", [&]() { return utki::to_utf32(std::string_view(utki::to_utf8(std::u32string(3, u)))); });
	}
	for (int i = -3; i != 4; ++i) {
		rec("signs", [&]() { return utki::sign(i) * 1000 + utki::pow2(i) + utki::pow3(i) + utki::pow4(i); });
		rec("angles", [&]() { return utki::deg_to_rad(double(i) * 90) + utki::rad_to_deg(double(i)); });
	}
	for (unsigned w = 0; w != 6; ++w) {
		rec("wraps", [&]() { return utki::word_wrap("a bc def ghij", w); });
	}
}
