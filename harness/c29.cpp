// C29: failing memory allocations and throwing user code neither leak nor corrupt.
// The global operator new is replaced by one which counts, tracks the live blocks and fails on demand; the element type `fragile`
// (and user functions calling user_event()) counts its operations and throws on demand. Every operation is run undisturbed to learn
// how many such events it has, and then once for each of them with exactly that one failing. Monitored: the exception which comes
// out, the blocks and elements alive afterwards, the state of what the operation worked on, and the result of the undisturbed
// operation afterwards.
#define VH_MAIN
#include "vh.hpp"

#include <list>
#include <map>
#include <new>
#include <set>

// ---------------------------------------------------------------- the monitored allocator
namespace inj {
constexpr size_t table_size = size_t(1) << 14;
void* table[table_size]; // open addressing; live blocks allocated while tracking
constexpr uintptr_t tomb = 1;
size_t live = 0, used = 0;
bool tracking = false;
bool overflow = false;
long allocs = 0; // since the tracking was switched on
long fail_at = -1;
bool fired = false;
long events = 0; // user code events
long throw_at = -1;

size_t slot(void* p) { return size_t((uintptr_t(p) >> 4) * 0x9e3779b97f4a7c15ull >> 44) & (table_size - 1); }

void add(void* p)
{
	if (used > table_size * 3 / 4) {
		overflow = true;
		return;
	}
	auto i = slot(p);
	while (table[i] && uintptr_t(table[i]) != tomb) {
		i = (i + 1) & (table_size - 1);
	}
	if (!table[i]) {
		++used;
	}
	table[i] = p;
	++live;
}
void del(void* p)
{
	if (live == 0) {
		return;
	}
	auto i = slot(p);
	while (table[i]) {
		if (table[i] == p) {
			table[i] = reinterpret_cast<void*>(tomb);
			--live;
			return;
		}
		i = (i + 1) & (table_size - 1);
	}
}
void reset()
{
	if (used != 0) {
		std::fill(std::begin(table), std::end(table), nullptr);
	}
	live = used = 0;
}
void* allocate(size_t n, size_t align)
{
	if (tracking) {
		++allocs;
		if (allocs == fail_at) {
			fired = true;
			return nullptr;
		}
	}
	void* p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
	if (p && tracking) {
		add(p);
	}
	return p;
}
void release(void* p)
{
	if (p) {
		del(p);
		free(p);
	}
}
} // namespace inj

void* operator new(size_t n)
{
	if (auto p = inj::allocate(n, 1)) {
		return p;
	}
	throw std::bad_alloc();
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return inj::allocate(n, 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return inj::allocate(n, 1); }
void* operator new(size_t n, std::align_val_t a)
{
	if (auto p = inj::allocate(n, size_t(a))) {
		return p;
	}
	throw std::bad_alloc();
}
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { inj::release(p); }
void operator delete[](void* p) noexcept { inj::release(p); }
void operator delete(void* p, size_t) noexcept { inj::release(p); }
void operator delete[](void* p, size_t) noexcept { inj::release(p); }
void operator delete(void* p, std::align_val_t) noexcept { inj::release(p); }
void operator delete[](void* p, std::align_val_t) noexcept { inj::release(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { inj::release(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { inj::release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { inj::release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { inj::release(p); }

// ---------------------------------------------------------------- user code which throws on demand
namespace {
struct boom {
	long at;
};

void user_event()
{
	if (inj::tracking) {
		++inj::events;
		if (inj::events == inj::throw_at) {
			inj::fired = true;
			throw boom{inj::events};
		}
	}
}

struct fragile {
	static inline long live = 0;
	static inline long errors = 0;
	int v;
	unsigned magic = 0xf4a917e;
	fragile(int v = 0) :
		v(v)
	{
		user_event();
		++live;
	}
	fragile(const fragile& o) :
		v(o.v)
	{
		o.check();
		user_event();
		++live;
	}
	fragile(fragile&& o) noexcept :
		v(o.v)
	{
		o.check();
		o.v = -1;
		++live;
	}
	fragile& operator=(const fragile& o)
	{
		check();
		o.check();
		user_event();
		v = o.v;
		return *this;
	}
	fragile& operator=(fragile&& o) noexcept
	{
		check();
		o.check();
		v = o.v;
		if (this != &o) {
			o.v = -1;
		}
		return *this;
	}
	~fragile()
	{
		check();
		magic = 0xdead;
		--live;
	}
	void check() const
	{
		if (magic != 0xf4a917e) {
			++errors;
		}
	}
	bool operator==(const fragile& o) const
	{
		check();
		o.check();
		user_event();
		return v == o.v;
	}
	bool operator!=(const fragile& o) const { return !(*this == o); }
	bool operator<(const fragile& o) const
	{
		check();
		o.check();
		user_event();
		return v < o.v;
	}
	operator vh::u64() const { return vh::u64(v); }
};

enum attack_flags : unsigned {
	any_result = 1, // a standard stream is between: it takes exceptions and goes bad
	keeps_memory = 2, // a container which outlives the operation may have a bigger capacity afterwards
};

struct outcome {
	enum kind_t { returned, bad_alloc, user, other } kind = returned;
	long at = 0;
	std::string what;
	vh::u64 digest = 0;
};

template <typename F>
outcome run(F& f)
{
	outcome o;
	auto before = vh::digest();
	inj::events = inj::allocs = 0;
	inj::fired = false;
	inj::tracking = true;
	try {
		if constexpr (std::is_void_v<decltype(f())>) {
			f();
			inj::tracking = false;
		} else {
			auto r = f();
			inj::tracking = false;
			vh::digest() = 0;
			vh::out("", r);
			o.digest = vh::digest();
		}
	} catch (const std::bad_alloc&) {
		inj::tracking = false;
		o.kind = outcome::bad_alloc;
	} catch (const boom& b) {
		inj::tracking = false;
		o.kind = outcome::user;
		o.at = b.at;
	} catch (const vh::case_failed&) {
		inj::tracking = false;
		throw;
	} catch (const std::exception& e) {
		inj::tracking = false;
		o.kind = outcome::other;
		o.what = typeid(e).name(); // the text may have come through a stream
	} catch (...) {
		inj::tracking = false;
		o.kind = outcome::other;
	}
	inj::tracking = false;
	inj::fail_at = inj::throw_at = -1;
	vh::digest() = before;
	return o;
}

template <typename F>
outcome run_checked(const char* what, const char* how, F& f, unsigned flags)
{
	inj::reset();
	auto elems = fragile::live;
	auto fail_at = inj::fail_at, throw_at = inj::throw_at;
	auto o = run(f);
	if (inj::live != 0 && !(flags & keeps_memory)) {
		// something may have been made once and for all: a leak comes again
		auto allocs = inj::allocs, events = inj::events;
		auto fired = inj::fired;
		inj::reset();
		inj::fail_at = fail_at;
		inj::throw_at = throw_at;
		run(f);
		CHECK("leak-memory", inj::live == 0, what, ": ", inj::live, " blocks are still allocated after the operation, ", how);
		inj::allocs = allocs;
		inj::events = events;
		inj::fired = fired;
	}
	CHECK("table", !inj::overflow, "");
	CHECK("leak-elements", fragile::live == elems, what, ": ", fragile::live - elems, " elements more are alive after the operation, ", how);
	CHECK("dead-element", fragile::errors == 0, what, ": an object was used outside of its life, ", how);
	return o;
}

// state() tells what must be the same after a failed operation as before
template <typename F, typename S, typename = decltype(std::declval<S&>()())>
void attack(const char* what, F f, S state, unsigned flags = 0)
{
	run(f); // whatever is made once and for all is made here
	auto clean = run_checked(what, "undisturbed", f, flags);
	auto allocs = inj::allocs, events = inj::events;
	auto again = run_checked(what, "undisturbed", f, flags);
	const bool repeatable = clean.kind == again.kind && clean.digest == again.digest && allocs == inj::allocs && events == inj::events && clean.at == again.at && clean.what == again.what;
	for (int kind = 0; kind != 2; ++kind) {
		const long n = kind == 0 ? allocs : events;
		const long step = n > 60 ? n / 45 : 1;
		for (long k = 1; k <= n; k += k < 20 ? 1 : step) {
			vh::progress();
			auto before = state();
			(kind == 0 ? inj::fail_at : inj::throw_at) = k;
			char how[80];
			snprintf(how, sizeof(how), kind == 0 ? "allocation %ld of %ld fails" : "user code operation %ld of %ld throws", k, n);
			auto o = run_checked(what, how, f, flags);
			if (!inj::fired) {
				CHECK("deterministic", !repeatable, what, ": ", std::string(how), " was never reached");
				continue;
			}
			if (kind == 0) {
				COUNT("failed allocations");
			} else {
				COUNT("user exceptions");
			}
			const std::string s = kind == 0 ? "allocation" : "user";
			switch (o.kind) {
				case outcome::returned:
					if (!(flags & any_result) && repeatable) {
						CHECK(vh::str("returned-", s), o.kind == clean.kind && o.digest == clean.digest, what, ": returns another result when ", std::string(how));
						COUNT("recovered");
					}
					break;
				case outcome::bad_alloc:
					CHECK(vh::str("exception-", s), kind == 0, what, ": std::bad_alloc when ", std::string(how));
					break;
				case outcome::user:
					CHECK(vh::str("exception-", s), kind == 1 && o.at == k, what, ": user exception ", o.at, " when ", std::string(how));
					break;
				default:
					CHECK(vh::str("exception-", s), !repeatable || (clean.kind == outcome::other && o.what == clean.what), what, ": exception ", vh::show(o.what), " when ", std::string(how));
					break;
			}
			CHECK(vh::str("state-", s), state() == before, what, ": state changed from ", before, " to ", state(), " although ", std::string(how));
			if (repeatable) {
				auto r = run_checked(what, "undisturbed again", f, flags);
				CHECK(vh::str("afterwards-", s), r.kind == clean.kind && r.digest == clean.digest && r.what == clean.what, what, ": gives another result after ", std::string(how));
			}
		}
	}
	COUNT("operations");
	if (!repeatable) {
		COUNT("operations with changing results");
	}
}

template <typename F>
void attack(const char* what, F f, unsigned flags)
{
	attack(
		what,
		f,
		[]() { return std::string(); },
		flags
	);
}

template <typename F>
void attack(const char* what, F f)
{
	attack(what, f, 0u);
}

template <typename F>
void rec(const char* what, F f)
{
	static const std::set<std::string_view> once = {"insert", "erase"};
	static const std::set<std::string_view> streams = {"cat", "join", "flags", "version", "to-utf8", "to-string", "current"};
	if (once.count(what)) {
		f();
		return;
	}
	attack(what, f, streams.count(what) ? unsigned(any_result) : 0u);
}
} // namespace

// all the functional areas of C27: here the operations run with failing allocations
#define C27_OWN_REC
#undef VH_MAIN
#include "c27.cpp"

#include <utki/log.hpp>
#include <utki/shared.hpp>
#include <utki/singleton.hpp>

namespace {
using fvec = std::vector<fragile>;

fvec elements(rng& r, size_t max)
{
	fvec v;
	auto n = r.size(max);
	v.reserve(n);
	for (size_t i = 0; i != n; ++i) {
		v.emplace_back(int(r.below(50)));
	}
	return v;
}
template <typename C>
std::string dump(const C& c)
{
	std::string s;
	for (const auto& e : c) {
		s += std::to_string(e.v) + ' ';
	}
	return s;
}
std::vector<int> ints(const fvec& v)
{
	std::vector<int> r;
	for (auto& e : v) {
		r.push_back(e.v);
	}
	return r;
}
} // namespace

SUITE(queries, 300, nofuzz | novg, "linq pipelines over an lvalue and over an rvalue, sort and views with elements and functions which throw; non-trivial with at least two elements")
{
	auto& r = c.r;
	auto src = elements(r, 24);
	c.nt(src.size() > 1);
	SAMPLE(dump(src));
	auto state = [&]() { return dump(src); };
	auto copy = [&]() {
		// not under attack
		inj::tracking = false;
		auto v = std::make_unique<fvec>(src);
		inj::tracking = true;
		return v;
	};
	(void)copy;
	attack("select", [&]() { return ints(utki::linq(src).select([](fragile e) { user_event(); return fragile(e.v + 1); }).get()); }, state);
	attack("select-index", [&]() { return utki::linq(src).select([](const fragile& e, size_t i) { user_event(); return e.v + int(i); }).get(); }, state);
	attack("where", [&]() { return ints(utki::linq(src).where([](const fragile& e) { user_event(); return e.v % 2 == 0; }).get()); }, state);
	attack("order-by", [&]() { return ints(utki::linq(src).order_by([](const fragile& e) -> const fragile& { user_event(); return e; }).get()); }, state);
	attack("group-by", [&]() {
		std::vector<int> v;
		for (auto& g : utki::linq(src).group_by([](const fragile& e) { user_event(); return e.v % 3; }).get()) {
			v.push_back(g.first);
			auto i = ints(g.second);
			v.insert(v.end(), i.begin(), i.end());
		}
		return v;
	}, state);
	attack("pipeline", [&]() {
		return ints(utki::linq(fvec(src))
						.where([](const fragile& e) { user_event(); return e.v % 3 != 0; })
						.order_by([](const fragile& e) -> const int& { user_event(); return e.v; })
						.select([](fragile&& e) { user_event(); return std::move(e); })
						.get());
	}, state);
	attack("pipeline-map", [&]() {
		std::map<int, fragile> m;
		for (auto& e : src) {
			m.emplace(e.v, e);
		}
		return utki::linq(std::move(m))
			.where([](const std::pair<const int, fragile>& p) { user_event(); return p.first % 2 == 0; })
			.select([](std::pair<const int, fragile> p) { user_event(); return p.second.v; })
			.get();
	}, state);
	attack("sort", [&]() { auto v = src; utki::sort(v.begin(), v.end()); return ints(v); }, state);
	attack("sort-cmp", [&]() { auto v = src; utki::sort(v.begin(), v.end(), [](const fragile& a, const fragile& b) { user_event(); return a.v > b.v; }); return ints(v); }, state);
	attack("zip", [&]() {
		std::vector<int> v;
		for (auto t : utki::views::zip(src, src)) {
			fragile a = std::get<0>(t), b = std::get<1>(t);
			v.push_back(a.v * 3 + b.v);
		}
		return v;
	}, state);
	attack("reverse", [&]() {
		std::vector<int> v;
		auto own = src;
		for (auto& e : utki::views::reverse(own)) {
			v.push_back(e.v);
		}
		return v;
	}, state);
	fragile x(7);
	attack("contains", [&]() { return utki::contains(src, x); }, state);
	attack("make-vector", [&]() { return ints(utki::make_vector(utki::make_span(src))); }, state);
	attack("deep-equals", [&]() { auto v = src; return utki::deep_equals(utki::make_span(src), utki::make_span(v)); }, state);
	attack("deep-less", [&]() { auto v = src; return utki::deep_less_than(utki::make_span(src), utki::make_span(v)); }, state);
	attack("flip", [&]() {
		std::map<int, fragile> m;
		int i = 0;
		for (auto& e : src) {
			m.emplace(i++, e);
		}
		std::vector<int> v;
		for (auto& p : utki::flip_map(m)) {
			v.push_back(p.first.v * 100 + p.second);
		}
		return v;
	}, state);
	attack("join", [&]() { return utki::join(std::list<std::string>{"long enough to be allocated, certainly", "b", dump(src)}, ' '); }, state, any_result);
}

namespace {
using ftree = utki::tree<fragile>;

void fill(rng& r, ftree::container_type& v, int depth, int& next)
{
	auto n = r.below(4);
	v.reserve(n + r.below(2));
	for (size_t i = 0; i != n; ++i) {
		v.emplace_back(fragile(next++));
		if (depth < 3) {
			fill(r, v.back().children, depth + 1, next);
		}
	}
}
void show_forest(const ftree::container_type& v, std::string& s)
{
	s += '(';
	for (auto& t : v) {
		s += std::to_string(t.value.v) + ' ';
		show_forest(t.children, s);
	}
	s += ')';
}
std::string show_forest(const ftree::container_type& v)
{
	std::string s;
	show_forest(v, s);
	return s;
}
} // namespace

SUITE(forests, 300, nofuzz | novg, "copying, building, walking and changing forests of throwing elements: a failed change leaves the forest as it was; non-trivial with at least two nodes")
{
	auto& r = c.r;
	ftree::container_type roots;
	int next = 0;
	fill(r, roots, 0, next);
	c.nt(next > 1);
	SAMPLE(show_forest(roots));
	auto state = [&]() { return show_forest(roots); };
	attack("copy", [&]() { auto copy = roots; return show_forest(copy); }, state);
	attack("copy-assign", [&]() {
		ftree a(fragile(5), roots), b(fragile(6));
		b = a;
		return show_forest(b.children);
	}, state);
	attack("build", [&]() {
		ftree t(fragile(1), {ftree(fragile(2)), ftree({ftree(fragile(3)), ftree(fragile(4))}), ftree(roots)});
		return show_forest(t.children);
	}, state);
	attack("walk", [&]() {
		auto t = utki::make_traversal(roots);
		std::vector<int> v;
		for (auto i = t.begin(); i != t.end(); ++i) {
			v.push_back(i->value.v);
			for (auto x : i.index()) {
				v.push_back(int(x));
			}
		}
		for (auto i = t.crbegin(); i != t.crend(); ++i) {
			v.push_back(i->value.v);
		}
		return v;
	}, state);
	std::vector<std::vector<size_t>> idx;
	{
		auto t = utki::make_traversal(roots);
		for (auto i = t.begin(); i != t.end(); ++i) {
			idx.push_back(i.index());
		}
	}
	if (!idx.empty()) {
		auto& at = idx[size_t(r.below(idx.size()))];
		const auto kind = r.below(4);
		const bool shrink = r.coin();
		const ftree node(fragile(1000), {ftree(fragile(1001)), ftree(fragile(1002))});
		auto t = utki::make_traversal(roots);
		attack("find", [&]() { return t[at].value.v + t.make_const_iterator(at)->value.v + int(t.is_valid(at)); }, state);
		// the change is undone after it was made, so that it can be repeated
		attack("insert", [&]() {
			if (shrink) {
				std::vector<size_t> up(at.begin(), std::prev(at.end()));
				(up.empty() ? roots : t[up].children).shrink_to_fit(); // a reallocation is needed
			}
			auto i = t.make_iterator(at);
			auto j = kind == 0 ? t.insert(i, node) : kind == 1 ? t.insert_after(i, node) : kind == 2 ? t.insert(i, ftree(node)) : t.insert_after(i, ftree(node));
			inj::tracking = false;
			auto now = show_forest(roots);
			t.erase(j);
			return now;
		}, state, keeps_memory);
	}
}

SUITE(callbacks, 200, nofuzz | novg, "signals with throwing and with hard to copy callbacks and arguments: a failed connect leaves the signal as it was; every case non-trivial")
{
	auto& r = c.r;
	c.nt();
	utki::signal<fragile> sig;
	std::vector<int> log;
	log.reserve(1000);
	std::vector<utki::signal<fragile>::connection> conns;
	utki::scope_exit drop([&]() {
		for (auto& x : conns) {
			sig.disconnect(x);
		}
	});
	auto n = r.below(5);
	for (size_t i = 0; i != n; ++i) {
		conns.push_back(sig.connect([&log, i](fragile e) { user_event(); log.push_back(int(i) * 100 + e.v); }));
	}
	auto state = [&]() {
		log.clear();
		sig.emit(fragile(3));
		auto s = show(log) + std::to_string(sig.size());
		log.clear();
		return s;
	};
	std::string payload(r.range(0, 60), 'x');
	attack("connect", [&]() {
		fragile f(9);
		auto k = sig.connect([f, payload, &log](const fragile& e) { log.push_back(e.v + f.v + int(payload.size())); });
		inj::tracking = false;
		sig.emit(fragile(2));
		auto res = log;
		log.clear();
		sig.disconnect(k);
		return res;
	}, state);
	attack("emit", [&]() { log.clear(); sig.emit(fragile(4)); return log; }, state);
	fragile arg(11);
	attack("emit-lvalue", [&]() { log.clear(); sig.emit(arg); return log; }, [&]() { return state() + std::to_string(arg.v); });
}

namespace {
struct two : fragile {
	fragile a;
	std::unique_ptr<int> p;
	std::string s;
	two(int x, const std::string& t) :
		fragile(x),
		a(x + 1),
		p(new int(x)),
		s(t + t)
	{
		user_event();
	}
};
struct kept : utki::shared {
	fragile a;
	std::string s;
	kept(int x, const std::string& t) :
		a(x),
		s(t + t)
	{
		user_event();
	}
};
struct unlucky : utki::singleton<unlucky> {
	fragile a;
	std::string s;
	unlucky(int x, const std::string& t) :
		a(x),
		s(t + t)
	{
		user_event();
	}
};
class unlucky_intrusive : public utki::intrusive_singleton<unlucky_intrusive>
{
	friend class utki::intrusive_singleton<unlucky_intrusive>;
	static inline instance_type instance;

public:
	fragile a;
	std::string s;
	unlucky_intrusive(int x, const std::string& t) :
		a(x),
		s(t + t)
	{
		user_event();
	}
};
enum class letter { a, b, c, d, e, enum_size };
} // namespace

SUITE(construction, 300, nofuzz | novg, "objects whose construction fails: references, shared objects, singletons, arrays, scope guards; every case non-trivial")
{
	auto& r = c.r;
	c.nt();
	auto x = int(r.below(100));
	auto text = r.text(r.range(0, 40), "abc ");
	SAMPLE(x, " ", show(text));
	attack("make-shared", [&]() { auto p = utki::make_shared<two>(x, text); return p.get().s + std::to_string(p.get().a.v); });
	attack("make-unique", [&]() { auto p = utki::make_unique<two>(x, text); return p.get().s; });
	attack("shared", [&]() {
		auto p = utki::make_shared<kept>(x, text);
		auto q = utki::make_shared_from(p.get());
		auto w = utki::make_weak_from(p.get());
		return q.get().s + (w.lock() == p.to_shared_ptr() ? "1" : "0");
	});
	auto keep = utki::make_shared<two>(x, text);
	attack("replace", [&]() {
		auto p = keep;
		p = utki::make_shared<two>(x + 5, text);
		return p.get().v;
	}, [&]() { return std::to_string(keep.get().v) + " " + std::to_string(keep.to_shared_ptr().use_count()); });
	attack("singleton", [&]() { unlucky u(x, text); return std::string(unlucky::inst().s); }, []() { return std::to_string(unlucky::is_created()); });
	attack("intrusive-singleton", [&]() { unlucky_intrusive u(x, text); return std::string(unlucky_intrusive::inst().s); }, []() { return std::to_string(unlucky_intrusive::is_created()); });
	CHECK("singleton-gone", !unlucky::is_created() && !unlucky_intrusive::is_created(), "");
	attack("singleton-twice", [&]() {
		unlucky u(x, text);
		try {
			unlucky v(x + 1, text);
		} catch (const std::logic_error&) {
			return unlucky::inst().a.v; // the first one is still the instance
		}
		return -1;
	});
	attack("enum-array", [&]() {
		utki::enum_array<fragile, letter> a{};
		a[letter::c] = fragile(x);
		auto b = a;
		a[letter::a] = b[letter::c];
		return ints(fvec(a.begin(), a.end()));
	});
	int ran = 0;
	attack("scope-exit", [&]() {
		ran = 0;
		fragile f(x);
		{
			utki::scope_exit guard([f, &ran, text]() { ran += f.v + int(text.size()); });
		}
		return ran;
	});
	attack("scope-exit-unwinding", [&]() {
		ran = 0;
		utki::scope_exit guard([&]() { ran += 1; });
		fragile f(x);
		std::string s = text + text + text;
		return s;
	});
	attack("print", [&]() { utki::cat(fragile(x).v, text); return 1; }, unsigned(any_result));
	attack("demangle", [&]() { return utki::demangle(typeid(std::map<std::string, fragile>)); });
	attack("overloaded", [&]() {
		std::variant<int, fragile> v = fragile(x);
		auto o = utki::overloaded{[](int) { return 0; }, [](const fragile& f) { fragile g = f; return g.v; }};
		return std::visit(o, v);
	});
	attack("nested", [&]() {
		try {
			try {
				fragile f(x);
				throw std::runtime_error(text);
			} catch (const std::runtime_error&) {
				utki::throw_with_nested(std::logic_error("outer " + text));
			}
		} catch (const std::logic_error& e) {
			return std::string(e.what()).substr(0, 0);
		}
		return std::string("?");
	});
}

SUITE(long_texts, 200, nofuzz | novg, "texts of several thousand characters, up to more than 64k, through everything which makes strings; non-trivial over 1023 characters")
{
	auto& r = c.r;
	auto n = r.huge(40, r.size(6000));
	c.nt(n > 1023);
	auto t = r.text(n, "abcdefghijklmnopqrstuvwxyz    \n");
	auto b64 = r.text(n, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/");
	SAMPLE(n, " characters");
	attack("make-string", [&]() { return utki::make_string("<%s>", t.c_str()); });
	attack("make-string-width", [&]() { return utki::make_string("%*d", int(n), 5); });
	attack("make-string-span", [&]() { return utki::make_string(utki::make_span(t)); });
	attack("split", [&]() { return utki::split(std::string_view(t)).size(); });
	attack("split-line", [&]() { return utki::split(std::string_view(t), '\n').size(); });
	attack("wrap", [&]() { return utki::word_wrap(t, 40).size(); });
	attack("indent", [&]() { return utki::make_indentation(unsigned(n), unsigned(1 + n % 3)); });
	attack("base64", [&]() { return utki::base64_decode(b64); });
	attack("to-utf32", [&]() { return utki::to_utf32(std::string_view(t)); });
	attack("make-vector", [&]() { return utki::make_vector(utki::make_span(t)); });
	attack("to-utf8", [&]() { return utki::to_utf8(utki::to_utf32(std::string_view(t))); }, unsigned(any_result));
	attack("cat", [&]() { return utki::cat(t, n, t); }, unsigned(any_result));
	attack("stacked", [&]() {
		try {
			try {
				throw std::runtime_error(t);
			} catch (const std::runtime_error&) {
				utki::throw_with_nested(std::logic_error(t));
			}
		} catch (const std::exception& e) {
			return std::string(e.what());
		}
		return std::string();
	}, unsigned(any_result));
}
