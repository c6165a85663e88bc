// C31: the configuration macros of config.hpp tell the truth about the platform, compiler and language standard.
// The translation units c31_probe.cpp, one per platform of tools/platforms.py, registered what they saw before main().
#define VH_MAIN
#include "vh.hpp"

#include <sys/utsname.h>

#include <utki/config.hpp>

#include "c31_probe.h"

namespace {
c31_probe*& head()
{
	static c31_probe* h = nullptr;
	return h;
}

std::vector<c31_probe*> probes()
{
	std::vector<c31_probe*> r;
	for (auto p = head(); p; p = p->next) {
		r.push_back(p);
	}
	std::sort(r.begin(), r.end(), [](auto a, auto b) {
		return std::string_view(a->name) < b->name;
	});
	return r;
}

bool built_by_gcc()
{
	return std::string_view(VH_CONFIG).substr(0, 3) == "gcc";
}

// what is true for the machine and the compiler, found out without the header; {value, other allowed value}
std::pair<long, long> real(std::string_view name, const c31_probe& p)
{
	static const auto system = [] {
		utsname u{};
		uname(&u);
		return std::pair<std::string, std::string>(u.sysname, u.machine);
	}();
	auto only = [](long v) {
		return std::make_pair(v, v);
	};
	if (name == "CFG_OS") {
		return only(system.first == "Linux" ? CFG_OS_LINUX : CFG_OS_UNKNOWN);
	}
	if (name == "CFG_OS_NAME") {
		return only(CFG_OS_NAME_UNKNOWN);
	}
	if (name == "CFG_COMPILER") {
		return only(built_by_gcc() ? CFG_COMPILER_GCC : CFG_COMPILER_CLANG);
	}
	if (name == "CFG_COMPILER_VERSION") {
		if (!built_by_gcc()) {
			return only(c31_undefined);
		}
		unsigned a = 0, b = 0, c = 0;
		std::sscanf(__VERSION__, "%u.%u.%u", &a, &b, &c);
		return only(long(a * 10000 + b * 100 + c));
	}
	if (name == "CFG_CPP") {
		return only(p.cplusplus >= 202002L ? 20 : p.cplusplus >= 201703L ? 17 : p.cplusplus >= 201402L ? 14 : p.cplusplus >= 201103L ? 11 : 3);
	}
	if (name == "CFG_CPU") {
		return {system.second == "x86_64" ? CFG_CPU_X86_64 : CFG_CPU_UNKNOWN, built_by_gcc() ? CFG_CPU_X86_64 : CFG_CPU_UNKNOWN};
	}
	if (name == "CFG_CPU_BITS") {
		return {long(sizeof(void*) * 8), built_by_gcc() ? long(sizeof(void*) * 8) : 0};
	}
	if (name == "CFG_ENDIANNESS") {
		vh::u32 v = 0x01020304;
		vh::u8 b[4];
		std::memcpy(b, &v, 4);
		return only(b[0] == 4 && b[3] == 1 ? CFG_ENDIANNESS_LITTLE : b[0] == 1 && b[3] == 4 ? CFG_ENDIANNESS_BIG : CFG_ENDIANNESS_UNKNOWN);
	}
	vh::fail("harness", vh::str("no real value of ", name));
	return {};
}
} // namespace

void c31_register(c31_probe* p)
{
	p->next = head();
	head() = p;
}

SUITE(platforms, 160, vh::fixed | vh::nofuzz, "one case per platform (set of predefined macros) for which a translation unit evaluated config.hpp; non-trivial when a value other than the real machine's was expected")
{
	auto ps = probes();
	CHECK("harness", ps.size() > 80 && ps.size() <= 160, ps.size(), " probes");
	if (c.index >= ps.size()) {
		return;
	}
	auto& p = *ps[c.index];
	vh::note(p.name);
	size_t simulated = 0;
	for (int i = 0; i != p.num_values; ++i) {
		const auto& v = p.values[i];
		if (v.expected == c31_any) {
			continue;
		}
		std::pair<long, long> want(v.expected, v.expected);
		if (v.expected == c31_real || v.expected == c31_real_or_unknown) {
			want = real(v.name, p);
			if (v.expected == c31_real_or_unknown) {
				want.second = 0;
			}
		} else if (v.expected != c31_undefined) {
			++simulated;
		}
		CHECK("value", v.got == want.first || v.got == want.second, "platform ", p.name, ": ", v.name, " is ", v.got, ", expected ", want.first, " or ", want.second);
		COUNT("macro values");
	}
	c.distinct(c.index);
	c.nt(simulated != 0 || std::string_view(p.name) == "real");
	SAMPLE("platform ", p.name, " __cplusplus ", p.cplusplus);
}

SUITE(constants, 1, vh::fixed | vh::nofuzz, "the constants which name values are distinct, so that comparing a macro with them has one answer")
{
	auto distinct = [](const char* what, std::vector<long> v) {
		auto n = v.size();
		std::sort(v.begin(), v.end());
		v.erase(std::unique(v.begin(), v.end()), v.end());
		CHECK_EQ("distinct", v.size(), n, what);
		CHECK("defined", std::find(v.begin(), v.end(), 0) != v.end(), what, ": an undefined macro (0) has to mean unknown");
	};
	distinct("OS", {CFG_OS_UNKNOWN, CFG_OS_LINUX, CFG_OS_WINDOWS, CFG_OS_MACOSX, CFG_OS_UNIX});
	distinct("OS name", {CFG_OS_NAME_UNKNOWN, CFG_OS_NAME_MACOSX, CFG_OS_NAME_IOS, CFG_OS_NAME_ANDROID, CFG_OS_NAME_SOLARIS, CFG_OS_NAME_FREEBSD, CFG_OS_NAME_EMSCRIPTEN});
	distinct("compiler", {CFG_COMPILER_UNKNOWN, CFG_COMPILER_GCC, CFG_COMPILER_MSVC, CFG_COMPILER_CLANG});
	distinct("cpu", {CFG_CPU_UNKNOWN, CFG_CPU_X86, CFG_CPU_X86_64, CFG_CPU_ARM, CFG_CPU_WASM});
	distinct("endianness", {CFG_ENDIANNESS_UNKNOWN, CFG_ENDIANNESS_LITTLE, CFG_ENDIANNESS_BIG});
	c.nt(true);
}
