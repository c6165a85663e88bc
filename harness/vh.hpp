// vh.hpp -- the monitor runtime shared by all harnesses.
//
// A harness registers suites.  A suite is run for many cases; each case draws everything it needs from a PRNG which is
// seeded by (VERIF_SEED, suite name, case index) only, so any case can be re-run alone.  The body drives the real utki code
// and an oracle observes the results; a refuted oracle is recorded as a violation (key, case, description).
// With -DVH_FUZZ the same suites become a libFuzzer target: the PRNG is then driven by the fuzzer's bytes.
#pragma once

#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_set>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace vh {

using u8 = uint8_t;
using u16 = uint16_t;
using u32 = uint32_t;
using u64 = uint64_t;

inline u64 mix(u64 x)
{
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}

inline u64 hash_bytes(const void* p, size_t n, u64 h = 0xcbf29ce484222325ull)
{
	auto b = static_cast<const u8*>(p);
	for (size_t i = 0; i != n; ++i) {
		h = (h ^ b[i]) * 0x100000001b3ull;
	}
	return mix(h ^ n);
}

// ---------------------------------------------------------------- printing of values
inline std::string esc(std::string_view s, size_t max = 200)
{
	std::string r = "\"";
	for (size_t i = 0; i != s.size(); ++i) {
		if (i == max) {
			char b[40];
			snprintf(b, sizeof(b), "\"...(%zu bytes)", s.size());
			return r + b;
		}
		u8 c = u8(s[i]);
		if (c == '"' || c == '\\') {
			r += '\\';
			r += char(c);
		} else if (c >= 0x20 && c < 0x7f) {
			r += char(c);
		} else {
			char b[8];
			snprintf(b, sizeof(b), "\\x%02x", c);
			r += b;
		}
	}
	return r + "\"";
}

template <typename T, typename = void>
struct is_range : std::false_type {};
template <typename T>
struct is_range<T, std::void_t<decltype(std::declval<const T&>().begin()), decltype(std::declval<const T&>().end())>> :
	std::true_type {};

template <typename T>
std::string show(const T& v)
{
	if constexpr (std::is_same_v<T, bool>) {
		return v ? "true" : "false";
	} else if constexpr (std::is_same_v<T, char>) {
		return esc(std::string_view(&v, 1));
	} else if constexpr (std::is_enum_v<T>) {
		return show(std::underlying_type_t<T>(v));
	} else if constexpr (std::is_integral_v<T>) {
		if constexpr (std::is_signed_v<T>) {
			return std::to_string((long long)(v));
		} else {
			return std::to_string((unsigned long long)(v));
		}
	} else if constexpr (std::is_floating_point_v<T>) {
		char b[64];
		snprintf(b, sizeof(b), "%La", (long double)(v));
		return b;
	} else if constexpr (std::is_same_v<std::decay_t<T>, const char*> || std::is_same_v<std::decay_t<T>, char*>) {
		return esc(v);
	} else if constexpr (std::is_convertible_v<const T&, std::string_view>) {
		return esc(std::string_view(v));
	} else if constexpr (std::is_pointer_v<T>) {
		char b[32];
		snprintf(b, sizeof(b), "%p", (const void*)(v));
		return b;
	} else if constexpr (is_range<T>::value) {
		std::string r = "[";
		size_t n = 0;
		for (const auto& e : v) {
			if (n != 0) {
				r += ", ";
			}
			if (n++ == 40) {
				r += "...";
				break;
			}
			r += show(e);
		}
		return r + "]";
	} else {
		return "?";
	}
}

inline void cat_to(std::string&) {}

template <typename T, typename... R>
void cat_to(std::string& s, const T& a, const R&... r)
{
	if constexpr (std::is_array_v<T> || std::is_same_v<T, std::string>) {
		s += a; // literals and prepared strings go in as they are
	} else {
		s += show(a);
	}
	cat_to(s, r...);
}

template <typename... A>
std::string str(const A&... a)
{
	std::string s;
	cat_to(s, a...);
	return s;
}

inline std::string json_str(std::string_view s)
{
	std::string r = "\"";
	for (char ch : s) {
		u8 c = u8(ch);
		if (c == '"' || c == '\\') {
			r += '\\';
			r += ch;
		} else if (c >= 0x20 && c < 0x7f) {
			r += ch;
		} else {
			char b[8];
			snprintf(b, sizeof(b), "\\u%04x", c);
			r += b;
		}
	}
	return r + "\"";
}

// ---------------------------------------------------------------- random choices
class rng
{
	u64 s = 0;
	const u8* bytes = nullptr;
	size_t num_bytes = 0;
	bool byte_driven = false;

	u64 raw(unsigned nb)
	{
		if (this->byte_driven) {
			u64 v = 0;
			for (unsigned i = 0; i != nb && this->num_bytes != 0; ++i) {
				v = (v << 8) | *this->bytes;
				++this->bytes;
				--this->num_bytes;
			}
			return v;
		}
		this->s += 0x9e3779b97f4a7c15ull;
		u64 z = this->s;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}

public:
	u64 trail = 0; // hash of all choices made: identifies the case

	explicit rng(u64 seed) :
		s(seed)
	{}
	rng(const u8* d, size_t n) :
		bytes(d),
		num_bytes(n),
		byte_driven(true)
	{}

	bool from_bytes() const { return this->byte_driven; }

	bool exhausted() const { return this->byte_driven && this->num_bytes == 0; }

	u64 below(u64 n)
	{
		if (n <= 1) {
			return 0;
		}
		unsigned nb = n <= 0x100 ? 1 : n <= 0x10000 ? 2 : n <= 0x100000000ull ? 4 : 8;
		u64 v = this->raw(nb);
		if (!this->byte_driven) {
			v ^= v >> 32;
		}
		v %= n;
		this->trail = (this->trail ^ v) * 0x9e3779b97f4a7c15ull + 1;
		return v;
	}
	u64 next()
	{
		u64 v = this->raw(8);
		this->trail = (this->trail ^ v) * 0x9e3779b97f4a7c15ull + 1;
		return v;
	}
	size_t range(size_t lo, size_t hi) { return lo + size_t(this->below(hi - lo + 1)); } // inclusive
	bool chance(unsigned num, unsigned den) { return this->below(den) < num; }
	bool coin() { return this->below(2) == 1; }

	template <typename C>
	auto& pick(C& c)
	{
		return c[size_t(this->below(std::size(c)))];
	}

	// a size which likes boundaries: powers of two, their neighbours, small numbers
	size_t size(size_t max)
	{
		static const u32 pool[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537};
		size_t v;
		switch (this->below(4)) {
			case 0:
				v = pool[this->below(std::size(pool))];
				break;
			case 1:
				v = size_t(this->below(max < 12 ? max + 1 : 12));
				break;
			case 2:
				v = size_t(this->below(max < 80 ? max + 1 : 80));
				break;
			default:
				v = size_t(this->below(u64(max) + 1));
				break;
		}
		return v <= max ? v : v % (max + 1);
	}

	// once in a while a size beyond the range of 16 bits, else the given one
	size_t huge(unsigned one_in, size_t otherwise)
	{
		if (this->byte_driven || !this->chance(1, one_in)) {
			return otherwise;
		}
		return 65530 + size_t(this->below(this->coin() ? 12 : 30000));
	}

	// an integer which likes boundaries of T and of bit positions
	template <typename T>
	T integer()
	{
		using U = std::make_unsigned_t<T>;
		constexpr unsigned bits = sizeof(T) * 8;
		switch (this->below(7)) {
			case 0: {
				static const long long pool[] = {0, 1, -1, 2, -2, 7, 8, 9, 10, 15, 16, 99, 100, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, 65535, 65536, 2147483647ll, 2147483648ll, -2147483648ll, 4294967295ll, 4294967296ll};
				return T(pool[this->below(std::size(pool))]);
			}
			case 1:
				return std::numeric_limits<T>::max() - T(this->below(3));
			case 2:
				return T(std::numeric_limits<T>::min() + T(this->below(3)));
			case 3: { // a power of two and neighbours
				U v = U(U(1) << this->below(bits));
				return T(U(v + U(this->below(3)) - U(1)));
			}
			case 4: // random width
				return T(U(this->next()) >> this->below(bits));
			case 5: { // one byte set
				return T(U(U(this->below(256)) << (8 * this->below(sizeof(T)))));
			}
			default:
				return T(this->next());
		}
	}

	std::string text(size_t n, std::string_view alphabet)
	{
		std::string s(n, ' ');
		for (auto& c : s) {
			c = alphabet[size_t(this->below(alphabet.size()))];
		}
		return s;
	}
	std::string bytes_str(size_t n)
	{
		std::string s(n, ' ');
		for (auto& c : s) {
			c = char(u8(this->below(256)));
		}
		return s;
	}
	std::vector<u8> bytes_vec(size_t n)
	{
		std::vector<u8> s(n);
		for (auto& c : s) {
			c = u8(this->below(256));
		}
		return s;
	}
};

// ---------------------------------------------------------------- run state
struct crumb { // memory mapped: survives a crash of the process
	u64 magic;
	u64 progress;
	u64 case_index;
	char suite[48];
	char note[256];
};

struct case_failed {}; // aborts a case after a violation; not derived from std::exception

struct suite_def;

struct ctx {
	rng& r;
	const suite_def& s;
	u64 index;
	bool nontrivial = false;
	u64 extra_hash = 0;

	void nt(bool v = true) { this->nontrivial = this->nontrivial || v; }
	void distinct(u64 h) { this->extra_hash = mix(this->extra_hash ^ h); }
};

struct suite_def {
	const char* name;
	u64 cases; // number of cases at scale 1
	unsigned flags;
	void (*body)(ctx&);
	const char* rule;
};

enum : unsigned {
	fuzzable = 0,
	nofuzz = 1, // uses threads, processes, clocks
	fixed = 2, // the number of cases does not scale (enumerations)
	noisy = 4, // the interesting thing is not in the PRNG choices: count every non-trivial case as distinct by extra_hash only
	novg = 8, // not run under valgrind
};

struct state {
	std::vector<suite_def> suites;
	crumb* cr = nullptr;
	int out_fd = -1;
	int digest_fd = -1;
	unsigned violations = 0;
	bool trace = false;
	std::map<std::string, u64> counters;
	const ctx* cur = nullptr;
	std::vector<std::string> samples;
	std::string cur_sample;
	u64 digest = 0;
	u64 checks = 0;
};

inline state& st()
{
	static state* s = new state; // never destroyed: used until the very end
	return *s;
}

inline void out_line(const std::string& l)
{
	std::string s = l + "\n";
	int fd = st().out_fd >= 0 ? st().out_fd : 2;
	size_t done = 0;
	while (done < s.size()) {
		auto n = ::write(fd, s.data() + done, s.size() - done);
		if (n <= 0) {
			break;
		}
		done += size_t(n);
	}
}

struct reg {
	reg(const char* name, u64 cases, unsigned flags, void (*body)(ctx&), const char* rule)
	{
		st().suites.push_back(suite_def{name, cases, flags, body, rule});
	}
};

#define SUITE(name, cases, flags, rule) \
	static void suite_##name(vh::ctx& c); \
	static vh::reg reg_##name(#name, cases, flags, &suite_##name, rule); \
	static void suite_##name([[maybe_unused]] vh::ctx& c)

inline void report(const std::string& key, const std::string& msg)
{
	auto& s = st();
	++s.violations;
	std::string l = "{\"violation\":" + json_str(key) + ",\"suite\":" + json_str(s.cur ? s.cur->s.name : "?") +
		",\"case\":" + std::to_string(s.cur ? s.cur->index : 0) + ",\"msg\":" + json_str(std::string_view(msg).substr(0, 3000)) + "}";
	out_line(l);
}

[[noreturn]] inline void fail(const std::string& key, const std::string& msg)
{
	report(key, msg);
	throw case_failed();
}

#define CHECK(key, cond, ...) \
	do { \
		++vh::st().checks; \
		if (!(cond)) { \
			vh::fail(key, vh::str(#cond " is false; ", ##__VA_ARGS__)); \
		} \
	} while (false)

#define CHECK_EQ(key, a, b, ...) \
	do { \
		++vh::st().checks; \
		const auto& vh_a = (a); \
		const auto& vh_b = (b); \
		if (!(vh_a == vh_b)) { \
			vh::fail(key, vh::str(#a " != " #b ": got ", vh_a, ", expected ", vh_b, "; ", ##__VA_ARGS__)); \
		} \
	} while (false)

// expects that the statement throws exactly (or something derived from) type
#define CHECK_THROWS(key, type, stmt, ...) \
	do { \
		++vh::st().checks; \
		int vh_res = 0; \
		try { \
			stmt; \
		} catch (const type&) { \
			vh_res = 1; \
		} catch (const vh::case_failed&) { \
			throw; \
		} catch (...) { \
			vh_res = 2; \
		} \
		if (vh_res != 1) { \
			vh::fail(key, vh::str(#stmt, vh_res == 0 ? std::string(" did not throw ") : std::string(" threw something else than "), #type "; ", ##__VA_ARGS__)); \
		} \
	} while (false)

inline void count(const char* name, u64 n = 1)
{
	st().counters[name] += n;
}

#define COUNT(name) \
	do { \
		static vh::u64& vh_cnt = vh::st().counters[name]; \
		++vh_cnt; \
	} while (false)

#define COUNT_N(name, n) \
	do { \
		static vh::u64& vh_cnt = vh::st().counters[name]; \
		vh_cnt += vh::u64(n); \
	} while (false)

// a written-out case for the evidence file (kept for the first few non-trivial cases of each suite)
inline bool want_sample()
{
	return st().cur && st().cur->index < 3;
}
#define SAMPLE(...) \
	do { \
		if (vh::want_sample()) { \
			vh::st().cur_sample = vh::str(__VA_ARGS__); \
		} \
	} while (false)

// for crashes: what was the case doing
inline void note(const std::string& s)
{
	if (st().cr) {
		auto n = std::min(s.size(), sizeof(st().cr->note) - 1);
		memcpy(st().cr->note, s.data(), n);
		st().cr->note[n] = 0;
	}
}
inline void progress()
{
	if (st().cr) {
		__atomic_fetch_add(&st().cr->progress, 1, __ATOMIC_RELAXED);
	}
}

// digest of results, for the comparison of configurations (or of threads)
#ifdef VH_THREAD_DIGEST
inline u64& digest()
{
	static thread_local u64 d = 0;
	return d;
}
#else
inline u64& digest() { return st().digest; }
#endif

template <typename T>
void out(const char* what, const T& v)
{
	if constexpr (std::is_convertible_v<const T&, std::string_view>) {
		std::string_view sv(v);
		digest() = hash_bytes(sv.data(), sv.size(), mix(digest()));
	} else if constexpr (std::is_floating_point_v<T>) {
		double d = double(v);
		u64 b = 0;
		if (d != d) {
			b = 0x7ff8dead;
		} else {
			memcpy(&b, &d, 8);
		}
		digest() = mix(digest() ^ mix(b));
	} else if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) {
		digest() = mix(digest() ^ mix(u64(v)));
	} else {
		for (const auto& e : v) {
			out("", e);
		}
		digest() = mix(digest() ^ 0x55);
	}
	if (st().trace && *what) {
		out_line("{\"trace\":" + json_str(what) + ",\"value\":" + json_str(show(v)) + ",\"digest\":" + std::to_string(digest()) + "}");
	}
}

// an exactly sized heap copy of data (out-of-bounds accesses on either side hit a redzone), optionally misaligned:
// in the misaligned form the right end is still exact
template <typename T = char>
class exact
{
	std::unique_ptr<T[]> p;
	size_t off;
	size_t n;

public:
	template <typename D>
	exact(const D* d, size_t n, size_t off = 0) :
		p(new T[n + off]),
		off(off),
		n(n)
	{
		static_assert(sizeof(D) == sizeof(T), "");
		if (n != 0) {
			memcpy(static_cast<void*>(p.get() + off), d, n * sizeof(T));
		}
	}
	exact(std::string_view s) :
		exact(s.data(), s.size())
	{}
	T* data() const { return p.get() + off; }
	size_t size() const { return n; }
	std::string_view view() const { return std::string_view(reinterpret_cast<const char*>(data()), n); }
};

// more than 4 GiB of zeroes, of which only the touched pages take memory
class vast
{
	void* p;

public:
	static constexpr size_t num_bytes = (size_t(1) << 32) + (size_t(1) << 24);
	vast() :
		p(mmap(nullptr, num_bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0))
	{}
	vast(const vast&) = delete;
	vast& operator=(const vast&) = delete;
	~vast()
	{
		if (this->ok()) {
			munmap(p, num_bytes);
		}
	}
	bool ok() const { return p != MAP_FAILED; } // else there is no such address space here
	template <typename T>
	T* as() const
	{
		return static_cast<T*>(p);
	}
};

// a heap allocated, exactly sized, null-terminated string
class cstr
{
	std::unique_ptr<char[]> p;

public:
	explicit cstr(const std::string& s) :
		p(new char[s.size() + 1])
	{
		memcpy(p.get(), s.c_str(), s.size() + 1);
	}
	const char* get() const { return p.get(); }
};

// ---------------------------------------------------------------- objects with tracked life
// Every live object is registered by address; a double construction/destruction, use after destruction or leak is seen.
struct life {
	long constructed = 0, copied = 0, moved = 0, destroyed = 0;
	long alive() const { return constructed + copied + moved - destroyed; }
};

inline bool run_case(const suite_def& s, u64 index, rng& r, std::unordered_set<u64>* distinct, u64& nontrivial)
{
	auto& t = st();
	ctx c{r, s, index};
	t.cur = &c;
	t.cur_sample.clear();
	t.digest = mix(index);
	if (t.cr) {
		t.cr->case_index = index;
		t.cr->note[0] = 0;
		__atomic_fetch_add(&t.cr->progress, 1, __ATOMIC_RELAXED);
	}
	bool ok = false;
	try {
		s.body(c);
		ok = true;
	} catch (const case_failed&) {
	} catch (const std::exception& e) {
		report("unexpected-exception", str("a call that has to succeed threw ", std::string(typeid(e).name()), ": ", std::string(e.what())));
	} catch (...) {
		report("unexpected-exception", "a call that has to succeed threw a non-std exception");
	}
	if (c.nontrivial) {
		++nontrivial;
		if (distinct) {
			u64 h = mix(hash_bytes(s.name, strlen(s.name)) ^ ((s.flags & noisy) ? c.extra_hash : (r.trail ^ c.extra_hash)));
			if (distinct->size() < 4000000) {
				distinct->insert(h);
			}
		}
		if (!t.cur_sample.empty()) {
			t.samples.push_back(str(std::string(s.name), "#", index, ": ", t.cur_sample));
		}
	}
	if (t.digest_fd >= 0) {
		u64 d[2] = {hash_bytes(s.name, strlen(s.name)) ^ index, t.digest};
		if (::write(t.digest_fd, d, sizeof(d)) != ssize_t(sizeof(d))) {
			abort();
		}
	}
	t.cur = nullptr;
	return ok;
}

inline void init()
{
	auto& t = st();
	if (auto p = getenv("VH_OUT")) {
		t.out_fd = ::open(p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
	}
	if (auto p = getenv("VH_CRUMB")) {
		int fd = ::open(p, O_RDWR | O_CREAT | O_CLOEXEC, 0644);
		if (fd >= 0 && ::ftruncate(fd, sizeof(crumb)) == 0) {
			auto m = ::mmap(nullptr, sizeof(crumb), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			if (m != MAP_FAILED) {
				t.cr = static_cast<crumb*>(m);
				t.cr->magic = 0x76686372756d6221ull;
			}
		}
		if (fd >= 0) {
			::close(fd);
		}
	}
	if (auto p = getenv("VH_DIGEST")) {
		t.digest_fd = ::open(p, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
	}
	t.trace = getenv("VH_TRACE") != nullptr;
}

inline u64 env_u64(const char* n, u64 def)
{
	auto p = getenv(n);
	return p && *p ? strtoull(p, nullptr, 10) : def;
}

} // namespace vh

#ifdef VH_FUZZ
#	ifdef VH_MAIN
extern "C" int LLVMFuzzerInitialize(int*, char***)
{
	vh::init();
	return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n)
{
	static std::vector<const vh::suite_def*> fz = [] {
		std::vector<const vh::suite_def*> v;
		for (auto& s : vh::st().suites) {
			if (!(s.flags & vh::nofuzz)) {
				v.push_back(&s);
			}
		}
		return v;
	}();
	if (n < 2 || fz.empty()) {
		return 0;
	}
	const auto& s = *fz[d[0] % fz.size()];
	if (vh::st().cr) {
		strncpy(vh::st().cr->suite, s.name, sizeof(vh::crumb::suite) - 1);
	}
	vh::rng r(d + 1, n - 1);
	vh::u64 nt = 0;
	if (!vh::run_case(s, 1u << 30, r, nullptr, nt)) {
		fprintf(stderr, "VH-FUZZ-VIOLATION\n");
		abort();
	}
	return 0;
}
#	endif
#else
#	ifdef VH_MAIN
int main()
{
	using namespace vh;
	init();
	auto& t = st();
	const u64 seed = env_u64("VERIF_SEED", 1);
	const char* scale_s = getenv("VH_SCALE");
	const double scale = scale_s ? atof(scale_s) : 1.0;
	const bool vg = getenv("VH_VALGRIND") != nullptr;
	const char* only = getenv("VH_SUITE");
	const bool one = getenv("VH_CASE") != nullptr;
	const u64 one_case = env_u64("VH_CASE", 0);
	// VH_SKIP="suite:case,suite:case": cases known to crash (known findings)
	std::vector<std::string> skip;
	if (auto p = getenv("VH_SKIP")) {
		std::string cur;
		for (; ; ++p) {
			if (*p == ',' || *p == 0) {
				if (!cur.empty()) {
					skip.push_back(cur);
				}
				cur.clear();
				if (*p == 0) {
					break;
				}
			} else {
				cur += *p;
			}
		}
	}
	u64 total = 0, total_nt = 0, total_distinct = 0;
	std::string per_suite;
	for (auto& s : t.suites) {
		if (only && strcmp(only, s.name) != 0) {
			continue;
		}
		if (vg && (s.flags & novg)) {
			continue;
		}
		if (t.cr) {
			memset(t.cr->suite, 0, sizeof(t.cr->suite));
			strncpy(t.cr->suite, s.name, sizeof(t.cr->suite) - 1);
		}
		u64 n = (s.flags & fixed) && !vg ? s.cases : u64(double(s.cases) * scale + 0.5);
		if (n == 0) {
			n = 1;
		}
		if ((s.flags & fixed) && n > s.cases) {
			n = s.cases;
		}
		std::unordered_set<u64> distinct;
		u64 nt = 0, ran = 0;
		unsigned before = t.violations;
		auto exec = [&](u64 i) {
			for (auto& k : skip) {
				if (k == std::string(s.name) + ":" + std::to_string(i)) {
					return;
				}
			}
			rng r(mix(mix(seed) ^ mix(i + 1) ^ hash_bytes(s.name, strlen(s.name))));
			run_case(s, i, r, &distinct, nt);
			++ran;
		};
		if (one) {
			exec(one_case);
		} else {
			for (u64 i = 0; i != n && t.violations < before + 5 && t.violations < 25; ++i) {
				exec(i);
			}
		}
		total += ran;
		total_nt += nt;
		total_distinct += distinct.size();
		if (!per_suite.empty()) {
			per_suite += ",";
		}
		per_suite += json_str(s.name) + ":{\"cases\":" + std::to_string(ran) + ",\"nontrivial\":" + std::to_string(nt) +
			",\"distinct_nontrivial\":" + std::to_string(distinct.size()) + ",\"rule\":" + json_str(s.rule) + "}";
	}
	std::string cnt;
	for (auto& kv : t.counters) {
		if (!cnt.empty()) {
			cnt += ",";
		}
		cnt += json_str(kv.first) + ":" + std::to_string(kv.second);
	}
	std::string smp;
	for (auto& x : t.samples) {
		if (!smp.empty()) {
			smp += ",";
		}
		smp += json_str(std::string_view(x).substr(0, 400));
	}
	out_line("{\"summary\":{\"evaluations\":" + std::to_string(total) + ",\"nontrivial\":" + std::to_string(total_nt) + ",\"distinct_nontrivial\":" + std::to_string(total_distinct) +
		",\"checks\":" + std::to_string(t.checks) + ",\"violations\":" + std::to_string(t.violations) + ",\"suites\":{" + per_suite + "},\"counters\":{" + cnt + "},\"samples\":[" + smp + "]}}");
	return t.violations == 0 ? 0 : 3;
}
#	endif
#endif
