// C30: misuse of the objects stops a debug build at an assertion; correct use never does.
// Every misuse runs in a child process; the monitor observes how it ended and what it wrote to stderr.  Correct uses of the same
// objects right at the boundary run in the monitored process itself, where an abort would be reported (in release builds too).
#define VH_MAIN
#include "vh.hpp"

#include <list>

#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>

#include <utki/debug.hpp>
#include <utki/enum_array.hpp>
#include <utki/enum_iterable.hpp>
#include <utki/exception.hpp>
#include <utki/flags.hpp>
#include <utki/shared_ref.hpp>
#include <utki/signal.hpp>
#include <utki/singleton.hpp>
#include <utki/span.hpp>
#include <utki/tree.hpp>
#include <utki/unique_ref.hpp>
#include <utki/views.hpp>

using namespace vh;

namespace {

#ifdef DEBUG
constexpr bool debug = true;
#else
constexpr bool debug = false;
#endif

struct outcome {
	int status = 0;
	std::string err;
};

template <typename F>
outcome in_child(F&& f)
{
	int p[2];
	if (::pipe(p) != 0) {
		throw std::bad_alloc();
	}
	pid_t pid = ::fork();
	if (pid < 0) {
		::close(p[0]);
		::close(p[1]);
		throw std::bad_alloc();
	}
	if (pid == 0) {
		rlimit nocore{0, 0};
		::setrlimit(RLIMIT_CORE, &nocore);
		::signal(SIGABRT, SIG_DFL);
		::alarm(60);
		::dup2(p[1], 2);
		::close(p[0]);
		::close(p[1]);
		try {
			f();
		} catch (...) {
			::_exit(99);
		}
		::_exit(42);
	}
	::close(p[1]);
	outcome o;
	char b[4096];
	for (;;) {
		auto n = ::read(p[0], b, sizeof(b));
		if (n <= 0) {
			break;
		}
		o.err.append(b, size_t(n));
	}
	::close(p[0]);
	::waitpid(pid, &o.status, 0);
	progress();
	return o;
}

volatile u64 sink; // results go here, so that no access is removed

// <file>:<line>: error: assertion failed...
bool is_assertion(const std::string& s)
{
	auto nl = s.find('\n');
	auto line = s.substr(0, nl);
	auto e = line.find(": assertion failed");
	if (e == std::string::npos) {
		return false;
	}
	auto err = line.rfind(": ", e - 1);
	if (err == std::string::npos || err == 0) {
		return false;
	}
	auto colon = line.rfind(':', err - 1);
	if (colon == std::string::npos || colon == 0 || colon + 1 == err) {
		return false;
	}
	return std::all_of(line.begin() + long(colon) + 1, line.begin() + long(err), [](char ch) { return '0' <= ch && ch <= '9'; });
}

// runs the misuse in a child (debug builds only)
template <typename F>
void stopped(ctx& c, const std::string& what, F&& misuse)
{
	c.nt();
	if constexpr (debug) {
		note(what);
		auto o = in_child(std::forward<F>(misuse));
		COUNT("misuses watched");
		++st().checks;
		bool aborted = WIFSIGNALED(o.status) && WTERMSIG(o.status) == SIGABRT;
		if (!aborted || !is_assertion(o.err)) {
			std::string how = WIFEXITED(o.status)
				? (WEXITSTATUS(o.status) == 42 ? std::string("went on")
						: WEXITSTATUS(o.status) == 99 ? std::string("threw an exception")
													  : "exit code " + std::to_string(WEXITSTATUS(o.status)))
				: "signal " + std::to_string(WTERMSIG(o.status));
			fail("not-stopped", str(what, " was not stopped by an assertion: ", how, ", stderr ", esc(o.err, 1500)));
		}
	}
}

template <size_t N, typename U>
struct en {
	enum class type : U {
		enum_size = N
	};
};

u64 beyond(rng& r, u64 n, u64 max)
{
	switch (r.below(5)) {
		case 0: return n;
		case 1: return std::min(max, n + 1);
		case 2: return max;
		case 3: return std::min(max, (n + 63) / 64 * 64); // behind the storage
		default: return n + r.below(max - n) + (max > n ? 1 : 0) - (max > n ? 1 : 0);
	}
}

u64 within(rng& r, u64 n)
{
	switch (r.below(3)) {
		case 0: return 0;
		case 1: return n - 1;
		default: return r.below(n);
	}
}

template <size_t N, typename U>
void flags_case(ctx& c)
{
	using E = typename en<N, U>::type;
	auto& r = c.r;
	utki::flags<E> f(r.coin());
	auto k = E(within(r, N)); // correct uses
	f.set(k, true);
	CHECK("flags", f.get(k), "flag ", size_t(k), " of ", N);
	f.clear(k);
	CHECK("flags", !f.get(k), "flag ", size_t(k), " of ", N);
	COUNT_N("correct uses", 3);

	u64 i = beyond(r, N, u64(std::numeric_limits<U>::max()));
	auto e = E(i);
	auto op = r.below(4);
	static const char* const names[] = {"get", "set", "set(false)", "clear"};
	auto what = str("flags of ", N, " flags: ", std::string(names[op]), " of flag ", i);
	SAMPLE(what);
	stopped(c, what, [&]() {
		switch (op) {
			case 0: sink = f.get(e); break;
			case 1: f.set(e); break;
			case 2: f.set(e, false); break;
			default: f.clear(e); break;
		}
		sink = f.is_set();
	});
}

template <size_t N, typename U>
void array_case(ctx& c)
{
	using E = typename en<N, U>::type;
	auto& r = c.r;
	auto a = std::make_unique<utki::enum_array<u32, E>>(); // exactly sized block
	auto& ca = std::as_const(*a);
	for (size_t i = 0; i != N; ++i) {
		(*a)[E(i)] = u32(i * 3 + 1);
	}
	auto k = within(r, N);
	CHECK_EQ("enum-array", ca[E(k)], u32(k * 3 + 1), "element ", k, " of ", N);
	COUNT_N("correct uses", N + 1);

	u64 i = beyond(r, N, u64(std::numeric_limits<U>::max()));
	bool neg = std::is_signed_v<U> && r.chance(1, 4);
	auto e = neg ? E(U(-1) - U(r.below(100))) : E(i);
	bool konst = r.coin();
	auto what = str("enum_array of ", N, " elements: ", konst ? std::string("const ") : std::string(), "operator[] of ", (long long)(e));
	SAMPLE(what);
	stopped(c, what, [&]() {
		if (konst) {
			sink = ca[e];
		} else {
			(*a)[e] = 1;
		}
	});
}

} // namespace

SUITE(flags_index, 60, nofuzz, "flags: get/set/clear of an enumerator at or beyond enum_size (up to the largest value of the underlying type, at and behind the last storage word), after correct uses at the boundary")
{
	switch (c.r.below(8)) {
		case 0: flags_case<1, u8>(c); break;
		case 1: flags_case<5, int>(c); break;
		case 2: flags_case<63, u16>(c); break;
		case 3: flags_case<64, u32>(c); break;
		case 4: flags_case<65, int>(c); break;
		case 5: flags_case<128, u64>(c); break;
		case 6: flags_case<200, u8>(c); break;
		default: flags_case<254, u8>(c); break;
	}
}

SUITE(enum_array_index, 60, nofuzz, "enum_array: const and non-const operator[] with an enumerator at or beyond the size, or negative, after correct uses of all elements")
{
	switch (c.r.below(6)) {
		case 0: array_case<1, int>(c); break;
		case 1: array_case<3, u8>(c); break;
		case 2: array_case<64, signed char>(c); break;
		case 3: array_case<100, u32>(c); break;
		case 4: array_case<127, signed char>(c); break;
		default: array_case<255, u16>(c); break;
	}
}

// ------------------------------------------------------------------------------------------------ references
namespace {
struct base {
	u64 v;
	base(u64 v) :
		v(v)
	{}
	virtual ~base() = default;
	bool operator==(const base& b) const { return this->v == b.v; }
	bool operator<(const base& b) const { return this->v < b.v; }
};
struct derived : base {
	u64 w = 7;
	using base::base;
};
} // namespace

SUITE(shared_ref_null, 50, nofuzz, "shared_ref: construction from a null pointer and every access through a moved-from reference; the moved-to reference, copies and conversions keep working")
{
	auto& r = c.r;
	u64 v = r.next();
	auto a = utki::make_shared<derived>(v);
	auto other = utki::make_shared<derived>(r.next());
	auto b = std::move(a);
	CHECK_EQ("shared-ref", b.get().v, v, "moved-to reference");
	utki::shared_ref<base> conv = b;
	utki::shared_ref<const base> conv2 = b;
	CHECK("shared-ref", &conv.get() == &b.get() && &conv2.get() == &b.get(), "conversions");
	COUNT_N("correct uses", 3);
	auto op = r.below(9);
	static const char* const names[] = {
		"construction from a null std::shared_ptr", "construction from a null std::shared_ptr to const", "get() of a moved-from reference", "conversion of a moved-from reference to T&",
		"conversion of a moved-from reference to a base reference", "conversion of a moved-from reference to a const reference", "comparison with a moved-from reference",
		"comparison of a moved-from reference with an object", "construction from the pointer of a moved-from reference"};
	SAMPLE(std::string(names[op]));
	stopped(c, names[op], [&]() {
		switch (op) {
			case 0: {
				utki::shared_ref<derived> x{std::shared_ptr<derived>()};
				sink = 1;
				break;
			}
			case 1: {
				utki::shared_ref<const base> x{std::shared_ptr<const base>()};
				sink = 1;
				break;
			}
			case 2: sink = a.get().v; break;
			case 3: {
				derived& d = a;
				sink = d.v;
				break;
			}
			case 4: {
				utki::shared_ref<base> x = a;
				sink = 1;
				break;
			}
			case 5: {
				utki::shared_ref<const derived> x = a;
				sink = 1;
				break;
			}
			case 6: sink = (v & 1) ? (a == other) : (other == a); break;
			case 7: sink = (v & 1) ? (a == b.get()) : (a < b.get()); break;
			default: {
				utki::shared_ref<derived> x(a.to_shared_ptr());
				sink = 1;
				break;
			}
		}
	});
}

SUITE(unique_ref_null, 50, nofuzz, "unique_ref: construction from a null pointer and every access through a moved-from reference; the moved-to reference keeps working")
{
	auto& r = c.r;
	u64 v = r.next();
	auto a = utki::make_unique<derived>(v);
	auto other = utki::make_unique<derived>(r.next());
	bool to_ptr = r.coin();
	std::unique_ptr<derived> p;
	std::optional<utki::unique_ref<derived>> b;
	if (to_ptr) {
		p = std::move(a).to_unique_ptr();
		CHECK_EQ("unique-ref", p->v, v, "pointer");
	} else {
		b.emplace(std::move(a));
		CHECK_EQ("unique-ref", b.value().get().v, v, "moved-to reference");
	}
	utki::unique_ref<base> conv = utki::make_unique<derived>(v);
	CHECK_EQ("unique-ref", conv.get().v, v, "converted reference");
	COUNT_N("correct uses", 2);
	auto op = r.below(7);
	static const char* const names[] = {
		"construction from a null std::unique_ptr", "construction from a null std::unique_ptr to const", "get() of a moved-from unique_ref", "conversion of a moved-from unique_ref to T&",
		"conversion of a moved-from unique_ref to a base reference", "comparison with a moved-from unique_ref", "comparison of a moved-from unique_ref with an object"};
	SAMPLE(std::string(names[op]), to_ptr ? std::string(" (made a std::unique_ptr)") : std::string());
	stopped(c, names[op], [&]() {
		switch (op) {
			case 0: {
				utki::unique_ref<derived> x{std::unique_ptr<derived>()};
				sink = 1;
				break;
			}
			case 1: {
				utki::unique_ref<const base> x{std::unique_ptr<const base>()};
				sink = 1;
				break;
			}
			case 2: sink = a.get().v; break;
			case 3: {
				derived& d = a;
				sink = d.v;
				break;
			}
			case 4: {
				utki::unique_ref<base> x = std::move(a);
				sink = 1;
				break;
			}
			case 5: sink = (v & 1) ? (a == other) : (other == a); break;
			default: sink = (v & 1) ? (a == conv.get().v) : (a < static_cast<derived&>(conv.get())); break;
		}
	});
}

// ------------------------------------------------------------------------------------------------ signal, singleton
SUITE(signal_connected, 40, nofuzz, "signal: destruction with 1..20 connections left after a random connect/disconnect/emit history; destruction of a signal all of whose connections are gone (or which never had any)")
{
	auto& r = c.r;
	unsigned calls = 0;
	auto n = r.range(1, 20);
	auto make = [&](bool all_gone, size_t leave) {
		using S = utki::signal<int>;
		auto s = std::make_unique<S>();
		std::vector<S::connection> cs;
		for (u64 i = 0; i != n; ++i) {
			cs.push_back(s->connect([&calls](int) { ++calls; }));
		}
		s->emit(1);
		while (!cs.empty() && (all_gone || cs.size() > leave)) {
			auto i = size_t(calls) % cs.size();
			s->disconnect(cs[i]);
			cs.erase(cs.begin() + long(i));
			++calls;
		}
		return s;
	};
	{
		auto s = make(true, 0);
		CHECK("signal", s->empty(), "all disconnected");
		s.reset();
		utki::signal<int, std::string> never;
		CHECK("signal", never.empty(), "nothing connected");
		COUNT_N("correct uses", 2);
	}
	auto leave = size_t(r.range(1, n));
	auto what = str("destruction of a signal which has ", leave, " of ", n, " connections left");
	SAMPLE(what);
	stopped(c, what, [&]() {
		auto s = make(false, leave);
		s.reset();
	});
}

namespace {
struct failure {};
template <int n>
struct one : utki::singleton<one<n>> {
	u64 v;
	one(u64 v, bool fail) :
		v(v)
	{
		if (fail) {
			throw failure();
		}
	}
};
struct intr : utki::intrusive_singleton<intr> {
	friend class utki::intrusive_singleton<intr>;
	static utki::intrusive_singleton<intr>::instance_type instance;
	u64 v;
	intr(u64 v, bool fail) :
		v(v)
	{
		if (fail) {
			throw failure();
		}
	}
};
utki::intrusive_singleton<intr>::instance_type intr::instance;

template <typename T>
void single_case(ctx& c, const char* kind)
{
	auto& r = c.r;
	auto hist = r.below(4); // nothing so far, created and destroyed, failed to construct, both
	auto v = r.next();
	if (hist == 1 || hist == 3) {
		T x(v, false);
		CHECK("singleton", T::is_created() && &T::inst() == &x && T::inst().v == v, "while alive");
		COUNT("correct uses");
	}
	if (hist >= 2) {
		try {
			T x(v, true);
		} catch (failure&) {
		}
	}
	CHECK("singleton", !T::is_created(), "not created");
	static const char* const hs[] = {"never created", "destroyed", "failed to construct", "destroyed and failed to construct"};
	auto what = str("inst() of ", kind, " singleton which is ", std::string(hs[hist]));
	SAMPLE(what);
	stopped(c, what, [&]() {
		auto& i = T::inst();
		sink = u64(reinterpret_cast<uintptr_t>(&i));
	});
}
} // namespace

SUITE(singleton_absent, 30, nofuzz, "singleton: inst() before creation, after destruction and after a failed construction, of plain and intrusive singletons")
{
	switch (c.r.below(3)) {
		case 0: single_case<one<0>>(c, "a plain"); break;
		case 1: single_case<one<1>>(c, "another plain"); break;
		default: single_case<intr>(c, "an intrusive"); break;
	}
}

// ------------------------------------------------------------------------------------------------ trees
namespace {
using tree = utki::tree<u32>;
void grow(rng& r, tree::container_type& l, unsigned depth, u32& id)
{
	auto n = r.below(depth == 0 ? 1 : 4);
	for (u64 i = 0; i != n; ++i) {
		l.emplace_back(id++);
	}
	for (auto& t : l) {
		if (r.coin() && depth != 0) {
			grow(r, t.children, depth - 1, id);
		}
	}
}

template <typename It>
void iterate(ctx& c, const std::string& what, It begin, It end, size_t total)
{
	auto& r = c.r;
	// correct: the whole way there and back
	size_t n = 0;
	auto i = begin;
	for (; i != end; ++i) {
		++n;
	}
	CHECK_EQ("traversal", n, total, std::string(what));
	for (; i != begin; --i) {
		--n;
	}
	CHECK_EQ("traversal", n, size_t(0), std::string(what));
	COUNT("correct uses");
	auto op = r.below(4);
	static const char* const names[] = {"++ of the end iterator", "repeated -- of the begin iterator", "++ of a default constructed iterator", "-- of a default constructed iterator"};
	auto text = str(what, ": ", std::string(names[op]));
	SAMPLE(text);
	bool there = r.coin(); // reached by steps
	if (total == 0) {
		COUNT("empty forests");
	}
	stopped(c, text, [&]() {
		switch (op) {
			case 0: {
				auto x = there ? begin : end;
				while (x != end) {
					++x;
				}
				++x;
				sink = x == end;
				break;
			}
			case 1: {
				auto x = begin;
				--x; // becomes an iterator which points nowhere
				--x;
				sink = x == end;
				break;
			}
			case 2: {
				It x;
				++x;
				sink = x == end;
				break;
			}
			default: {
				It x;
				--x;
				sink = x == end;
				break;
			}
		}
	});
}

size_t count_all(const tree::container_type& l)
{
	size_t n = 0;
	for (auto& t : l) {
		n += 1 + count_all(t.children);
	}
	return n;
}
} // namespace

SUITE(traversal_ends, 60, nofuzz, "traversal: ++ at the end, -- before the begin and steps of default constructed iterators, const and non-const, for random forests including empty ones; walking to the end and back is never stopped")
{
	auto& r = c.r;
	tree::container_type l;
	u32 id = 0;
	if (!r.chance(1, 6)) {
		grow(r, l, 4, id);
	}
	auto n = count_all(l);
	auto what = str("forest of ", n, " nodes, ", l.size(), " roots");
	if (r.coin()) {
		auto tr = utki::make_traversal(l);
		if (r.coin()) {
			iterate(c, what, tr.begin(), tr.end(), n);
		} else {
			iterate(c, what + ", const iterators", tr.cbegin(), tr.cend(), n);
		}
	} else {
		const auto& cl = l;
		auto tr = utki::make_traversal(cl);
		iterate(c, what + ", const forest", tr.begin(), tr.end(), n);
	}
}

SUITE(traversal_index, 60, nofuzz, "traversal: operator[] with a path which leaves the forest at a random level (one beyond the last child, far beyond, below a leaf) or is empty; valid paths give the node")
{
	auto& r = c.r;
	tree::container_type l;
	u32 id = 0;
	grow(r, l, 4, id);
	// a random valid path
	std::vector<size_t> path;
	auto* cur = &l;
	while (!cur->empty() && !(path.size() != 0 && r.chance(1, 4))) {
		auto i = size_t(within(r, cur->size()));
		path.push_back(i);
		cur = &(*cur)[i].children;
	}
	auto tr = utki::make_traversal(l);
	const auto& cl = l;
	auto ctr = utki::make_traversal(cl);
	const auto& konst = tr;
	if (!path.empty()) {
		auto* node = &l[path[0]];
		for (size_t i = 1; i != path.size(); ++i) {
			node = &node->children[path[i]];
		}
		CHECK("traversal-index", &tr[path] == node && &ctr[path] == node && &konst[path] == node, "valid path");
		COUNT_N("correct uses", 3);
	}
	auto bad = path;
	if (bad.empty() || r.coin()) {
		// below or beside the last level
		bad.push_back(cur->size() + (r.coin() ? 0 : r.below(1000)));
		if (r.chance(1, 3)) {
			bad.push_back(0);
		}
	} else if (r.chance(1, 4)) {
		bad.clear();
	} else {
		auto lvl = size_t(r.below(bad.size()));
		auto* lst = &l;
		for (size_t i = 0; i != lvl; ++i) {
			lst = &(*lst)[bad[i]].children;
		}
		bad[lvl] = r.coin() ? lst->size() : r.coin() ? size_t(-1) : lst->size() + size_t(r.below(1000));
	}
	std::string p;
	for (auto i : bad) {
		p += " " + std::to_string(i);
	}
	auto op = r.below(4);
	auto what = str("operator[] of a forest with ", l.size(), " roots, path", std::string(p));
	SAMPLE(what);
	stopped(c, what, [&]() {
		switch (op) {
			case 0: sink = u64(reinterpret_cast<uintptr_t>(&tr[bad])); break;
			case 1: sink = u64(reinterpret_cast<uintptr_t>(&ctr[bad])); break;
			case 2: sink = u64(reinterpret_cast<uintptr_t>(&konst[bad])); break;
			default: sink = u64(reinterpret_cast<uintptr_t>(&tr[utki::make_span(bad)])); break;
		}
	});
}

// ------------------------------------------------------------------------------------------------ spans, views, exceptions
namespace {
template <typename T>
void span_case(ctx& c)
{
	auto& r = c.r;
	size_t n = r.chance(1, 4) ? 0 : r.size(40);
	auto buf = std::unique_ptr<T[]>(new T[n == 0 ? 1 : n]);
	for (size_t i = 0; i != n; ++i) {
		buf[i] = T(i + 1);
	}
	utki::span<T> s(buf.get(), n);
	utki::span<const T> cs(buf.get(), n);
	const auto& konst = s;
	if (n != 0) {
		auto i = size_t(within(r, n));
		CHECK("span", &s[i] == &buf[i] && &konst[i] == &buf[i] && &cs[i] == &buf[i] && &s.front() == &buf[0] && &konst.back() == &buf[n - 1], "size ", n);
		COUNT_N("correct uses", 5);
	}
	{
		auto off = size_t(r.below(n + 1));
		auto cnt = size_t(r.below(n - off + 1));
		auto x = s.subspan(off, cnt);
		CHECK("span", x.data() == s.data() + off && x.size() == cnt, "subspan(", off, ", ", cnt, ") of ", n);
		auto y = s.subspan(off);
		CHECK("span", y.data() == s.data() + off && y.size() == n - off, "subspan(", off, ") of ", n);
		COUNT_N("correct uses", 2);
	}
	auto far = [&](u64 from, u64 max) {
		switch (r.below(4)) {
			case 0: return from;
			case 1: return max;
			case 2: return max / sizeof(T) - r.below(100);
			default: return from + r.below(1000);
		}
	};
	auto op = r.below(n == 0 ? 8 : 6);
	if (op < 4) {
		auto i = size_t(far(n, std::numeric_limits<size_t>::max()));
		bool on_const = op & 1;
		auto what = str("span of ", n, ": operator[](", i, ")", on_const ? std::string(" const") : std::string());
		SAMPLE(what);
		stopped(c, what, [&]() {
			sink = u64(reinterpret_cast<uintptr_t>(on_const ? &konst[i] : op == 0 ? &s[i] : &cs[i]));
		});
	} else if (op < 6) {
		// offset or offset + count beyond the end
		size_t off = 0, cnt = 0;
		if (op == 4) {
			off = size_t(far(n + 1, std::numeric_limits<size_t>::max()));
			cnt = r.coin() ? 0 : r.coin() ? std::numeric_limits<size_t>::max() : size_t(r.below(10));
		} else {
			off = size_t(r.below(n + 1));
			cnt = size_t(far(n - off + 1, std::numeric_limits<size_t>::max() - 1));
		}
		auto what = str("span of ", n, ": subspan(", off, ", ", cnt, ")");
		SAMPLE(what);
		stopped(c, what, [&]() {
			auto x = r.coin() ? s.subspan(off, cnt) : s.subspan(off, cnt);
			sink = x.size();
		});
	} else {
		auto which = r.below(4);
		static const char* const names[] = {"front()", "back()", "front() const", "back() const"};
		auto what = str("empty span: ", std::string(names[which]));
		SAMPLE(what);
		stopped(c, what, [&]() {
			const void* p = nullptr;
			switch (which) {
				case 0: p = &s.front(); break;
				case 1: p = &s.back(); break;
				case 2: p = &konst.front(); break;
				default: p = &konst.back(); break;
			}
			sink = u64(reinterpret_cast<uintptr_t>(p));
		});
	}
}
} // namespace

SUITE(span_bounds, 90, nofuzz, "span: operator[] at or beyond the size, front/back of an empty span, subspan with an offset or count beyond the end (up to the largest values), for elements of 1..16 bytes")
{
	struct big {
		u64 a, b;
		big(u64 a = 0) :
			a(a),
			b(a)
		{}
	};
	switch (c.r.below(4)) {
		case 0: span_case<u8>(c); break;
		case 1: span_case<u32>(c); break;
		case 2: span_case<big>(c); break;
		default: span_case<double>(c); break;
	}
}

namespace {
template <size_t k, typename L>
void skip_case(ctx& c, const char* kind)
{
	auto& r = c.r;
	L enough;
	auto extra = r.below(3);
	for (u64 i = 0; i != k + extra; ++i) {
		enough.push_back(u32(i));
	}
	size_t n = 0;
	for (auto& x : utki::skip_front<k>(enough)) {
		CHECK_EQ("skip-front", x, u32(k + n), "visited element");
		++n;
	}
	CHECK_EQ("skip-front", n, size_t(extra), "number of visited elements");
	COUNT("correct uses");
	L shorter;
	auto m = r.coin() ? k - 1 : r.below(k);
	for (u64 i = 0; i != m; ++i) {
		shorter.push_back(u32(i));
	}
	auto what = str("skip_front<", k, "> of ", std::string(kind), " of ", m, " elements");
	SAMPLE(what);
	stopped(c, what, [&]() {
		auto v = utki::skip_front<k>(shorter);
		auto i = v.begin();
		sink = i == v.end();
	});
}
struct ex : std::exception {};
} // namespace

SUITE(skip_front_short, 30, nofuzz, "skip_front<N>: collections shorter than N (by one, by several, empty); collections of exactly N and more elements are never stopped")
{
	switch (c.r.below(5)) {
		case 0: skip_case<1, std::vector<u32>>(c, "a vector"); break;
		case 1: skip_case<3, std::vector<u32>>(c, "a vector"); break;
		case 2: skip_case<2, std::list<u32>>(c, "a list"); break;
		case 3: skip_case<17, std::list<u32>>(c, "a list"); break;
		default: skip_case<300, std::vector<u32>>(c, "a vector"); break;
	}
}

SUITE(nested_outside, 16, nofuzz, "throw_with_nested outside of any catch block (also after an exception has been handled); inside of one, at any depth, it is never stopped")
{
	auto& r = c.r;
	auto depth = r.range(1, 4);
	// correct
	size_t got = 0;
	try {
		try {
			throw ex();
		} catch (...) {
			utki::throw_with_nested(std::runtime_error("outer"));
		}
	} catch (std::exception& e) {
		got = std::string(e.what()).size();
	}
	CHECK("nested", got != 0, "text of the nesting exception");
	COUNT("correct uses");
	auto what = str("throw_with_nested after ", depth - 1, " handled exceptions");
	SAMPLE(what);
	stopped(c, what, [&]() {
		for (u64 i = 1; i < depth; ++i) {
			try {
				throw ex();
			} catch (...) {
			}
		}
		utki::throw_with_nested(std::runtime_error("text"));
	});
}
