// C14: reference smart pointers own exactly the object they refer to.
// Oracle: a monitor of constructor/destructor events per object, a model of strong handles per object, addresses and use counts.
#define VH_MAIN
#include "vh.hpp"

#include <atomic>
#include <functional>
#include <thread>
#include <variant>

#include <utki/destructable.hpp>
#include <utki/shared.hpp>
#include <utki/shared_ref.hpp>
#include <utki/unique_ref.hpp>

using namespace vh;

namespace {
struct object_log {
	std::atomic<int> ctor{0}, dtor{0};
	const void* addr = nullptr; // of the most derived object
};
constexpr size_t max_objects = 4096;
object_log* logs = new object_log[max_objects];
size_t next_object = 0;

struct tracked {
	size_t id;
	u64 payload;
	tracked(size_t id) :
		id(id),
		payload(mix(id))
	{
		++logs[id].ctor;
	}
	tracked(const tracked&) = delete;
	virtual ~tracked()
	{
		payload = 0xdead;
		++logs[id].dtor;
	}
};

// diamond over a virtual utki::shared, with non-zero offsets between the bases
struct left : virtual utki::shared {
	u64 l = 0x1111;
	virtual ~left() = default;
	virtual u64 id_l() const = 0;
};
struct right : virtual utki::shared {
	u64 r = 0x2222;
	virtual ~right() = default;
	virtual u64 id_r() const = 0;
};
struct diamond : left, right, tracked {
	diamond(size_t id) :
		tracked(id)
	{
		logs[id].addr = this;
	}
	~diamond() override = default;
	u64 id_l() const override { return id; }
	u64 id_r() const override { return id; }
};
struct left_only : left, tracked {
	left_only(size_t id) :
		tracked(id)
	{
		logs[id].addr = this;
	}
	~left_only() override = default;
	u64 id_l() const override { return id; }
};
struct unrelated {
	virtual ~unrelated() = default;
};

using handle_v = std::variant<
	std::monostate,
	utki::shared_ref<diamond>,
	utki::shared_ref<const diamond>,
	utki::shared_ref<left>,
	utki::shared_ref<const left>,
	utki::shared_ref<right>,
	utki::shared_ref<utki::shared>,
	utki::shared_ref<left_only>,
	std::shared_ptr<diamond>,
	std::shared_ptr<const diamond>,
	std::shared_ptr<left>,
	std::shared_ptr<const left>,
	std::weak_ptr<diamond>,
	std::weak_ptr<const diamond>,
	std::weak_ptr<left>,
	std::weak_ptr<const left>,
	std::weak_ptr<right>>;

struct handle {
	handle_v v;
	size_t obj = size_t(-1);
	bool strong = false;
	handle() = default;
	template <typename T>
	handle(T&& t, size_t o, bool s) :
		v(std::forward<T>(t)),
		obj(o),
		strong(s)
	{}
};

template <typename T>
struct is_ref : std::false_type {};
template <typename T>
struct is_ref<utki::shared_ref<T>> : std::true_type {};
template <typename T>
struct is_sptr : std::false_type {};
template <typename T>
struct is_sptr<std::shared_ptr<T>> : std::true_type {};
template <typename T>
struct is_wptr : std::false_type {};
template <typename T>
struct is_wptr<std::weak_ptr<T>> : std::true_type {};

const void* most_derived(const utki::shared& s)
{
	return dynamic_cast<const void*>(&s);
}
} // namespace

static void verify(const std::vector<handle>& hs, const std::vector<size_t>& objs, const std::string& log)
{
	std::map<size_t, long> strong;
	for (auto& h : hs) {
		if (h.strong) {
			++strong[h.obj];
		}
	}
	for (auto o : objs) {
		int c = logs[o].ctor, d = logs[o].dtor;
		CHECK("constructed-once", c == 1, "object ", o, " constructed ", c, " times; ", log);
		bool alive = strong.count(o) != 0;
		CHECK("alive-while-owned", !alive || d == 0, "object ", o, " was destroyed while owned; ", log);
		CHECK("destroyed-with-last", alive || d == 1, "object ", o, " destroyed ", d, " times after its last reference went; ", log);
	}
	for (auto& h : hs) {
		std::visit(
			[&](auto& x) {
				using X = std::decay_t<decltype(x)>;
				if constexpr (is_ref<X>::value) {
					CHECK("denotes", most_derived(x.get()) == logs[h.obj].addr, "reference to object ", h.obj, " denotes something else; ", log);
					CHECK("ptr-denotes", &x.get() == x.to_shared_ptr().get(), log);
					CHECK("use-count", x.to_shared_ptr().use_count() == strong[h.obj], "use count ", x.to_shared_ptr().use_count(), " expected ", strong[h.obj], "; ", log);
				} else if constexpr (is_sptr<X>::value) {
					CHECK("sptr-denotes", x && most_derived(*x) == logs[h.obj].addr, "shared_ptr to object ", h.obj, "; ", log);
					CHECK("sptr-use-count", x.use_count() == strong[h.obj], "use count ", x.use_count(), " expected ", strong[h.obj], "; ", log);
				} else if constexpr (is_wptr<X>::value) {
					CHECK("weak", x.expired() == (strong.count(h.obj) == 0), "weak pointer to object ", h.obj, "; ", log);
					CHECK("weak-count", x.use_count() == (strong.count(h.obj) ? strong[h.obj] : 0), log);
					if (auto p = x.lock()) {
						CHECK("weak-denotes", most_derived(*p) == logs[h.obj].addr, log);
					}
				}
			},
			h.v
		);
	}
}

// all ways to get a new handle out of an existing one
template <typename X>
static bool derive(rng& r, const X& x, size_t obj, bool is_diamond, std::vector<handle>& out, std::string& log)
{
	if constexpr (is_ref<X>::value) {
		using T = std::remove_reference_t<decltype(x.get())>;
		switch (r.below(8)) {
			case 0: {
				X y(x);
				log += " copy";
				out.emplace_back(y, obj, true);
				out.back().v = y; // assignment, too
				return true;
			}
			case 1: // up-casts
				if constexpr (std::is_same_v<T, diamond>) {
					switch (r.below(4)) {
						case 0: out.emplace_back(utki::shared_ref<left>(x), obj, true); break;
						case 1: out.emplace_back(utki::shared_ref<right>(x), obj, true); break;
						case 2: out.emplace_back(utki::shared_ref<utki::shared>(x), obj, true); break;
						default: out.emplace_back(utki::shared_ref<const diamond>(x), obj, true); break;
					}
				} else if constexpr (std::is_same_v<T, left_only>) {
					out.emplace_back(utki::shared_ref<left>(x), obj, true);
				} else if constexpr (std::is_same_v<T, left>) {
					if (r.coin()) {
						out.emplace_back(utki::shared_ref<const left>(x), obj, true);
					} else {
						out.emplace_back(utki::shared_ref<utki::shared>(x), obj, true);
					}
				} else if constexpr (std::is_same_v<T, const diamond>) {
					out.emplace_back(utki::shared_ref<const left>(x), obj, true);
				} else if constexpr (std::is_same_v<T, right>) {
					out.emplace_back(utki::shared_ref<utki::shared>(x), obj, true);
				} else {
					return false;
				}
				log += " upcast";
				return true;
			case 2: // shared_ptr
				if constexpr (std::is_same_v<T, diamond> || std::is_same_v<T, left>) {
					if (r.coin()) {
						const std::shared_ptr<T>& p = x;
						out.emplace_back(p, obj, true);
					} else if (r.coin()) {
						std::shared_ptr<const T> p = x;
						out.emplace_back(p, obj, true);
					} else {
						out.emplace_back(x.to_shared_ptr(), obj, true);
					}
					log += " to-shared_ptr";
					return true;
				}
				return false;
			case 3: // weak_ptr
				if constexpr (std::is_same_v<T, diamond> || std::is_same_v<T, left>) {
					switch (r.below(3)) {
						case 0: {
							std::weak_ptr<T> w = x;
							out.emplace_back(w, obj, false);
							break;
						}
						case 1: {
							std::weak_ptr<const T> w = x;
							out.emplace_back(w, obj, false);
							break;
						}
						default: out.emplace_back(utki::make_weak(x), obj, false); break;
					}
					log += " to-weak_ptr";
					return true;
				}
				return false;
			case 4: // shared_from
				if constexpr (!std::is_const_v<T> && !std::is_same_v<T, utki::shared>) {
					if constexpr (std::is_same_v<T, left_only>) {
						out.emplace_back(utki::make_shared_from(x.get()), obj, true);
					} else {
						if (r.coin()) {
							out.emplace_back(utki::make_shared_from(x.get()), obj, true);
						} else {
							out.emplace_back(utki::make_weak_from(x.get()), obj, false);
						}
					}
					log += " make_*_from";
					return true;
				}
				return false;
			case 5:
			case 6: // dynamic casts, right and wrong
			{
				auto cast = [&](auto* dst, bool good) {
					using D = std::remove_pointer_t<decltype(dst)>;
					if (good) {
						out.emplace_back(utki::dynamic_reference_cast<D>(x), obj, true);
						log += " dyncast";
						COUNT("casts.good");
					} else {
						CHECK_THROWS("bad-cast", std::bad_cast, utki::dynamic_reference_cast<D>(x), log);
						log += " bad-dyncast";
						COUNT("casts.bad");
					}
				};
				if constexpr (std::is_const_v<T>) {
					if constexpr (std::is_same_v<T, const left>) {
						cast((const diamond*)nullptr, is_diamond);
						return true;
					}
					return false;
				} else {
					switch (r.below(5)) {
						case 0: cast((diamond*)nullptr, is_diamond); break;
						case 1: cast((right*)nullptr, is_diamond); break;
						case 2: cast((left*)nullptr, true); break;
						case 3:
							CHECK_THROWS("bad-cast", std::bad_cast, utki::dynamic_reference_cast<unrelated>(x), log);
							log += " bad-dyncast";
							break;
						default: cast((left_only*)nullptr, !is_diamond); break;
					}
					return true;
				}
			}
			default: {
				X a(x);
				X b(std::move(a)); // a is moved-from now: only destruction follows
				out.emplace_back(std::move(b), obj, true);
				log += " move";
				return true;
			}
		}
	} else if constexpr (is_sptr<X>::value) {
		using T = typename X::element_type;
		if (r.coin()) {
			out.emplace_back(utki::shared_ref<T>(x), obj, true);
			log += " from-shared_ptr";
			return true;
		}
		if constexpr (std::is_same_v<T, diamond> || std::is_same_v<T, left>) {
			out.emplace_back(utki::make_weak(x), obj, false);
			log += " make_weak(ptr)";
			return true;
		}
		return false;
	} else if constexpr (is_wptr<X>::value) {
		auto p = x.lock();
		if (!p) {
			return false;
		}
		using T = typename X::element_type;
		out.emplace_back(utki::shared_ref<T>(std::move(p)), obj, true);
		log += " lock";
		return true;
	} else {
		return false;
	}
}

SUITE(histories, 6000, 0, "random histories of up to 60 creations, copies, moves, up-casts, conversions, dynamic casts (good and bad), make_*_from and releases over up to 24 handles and several objects of a virtual diamond; non-trivial when at least two objects died in the history")
{
	auto& r = c.r;
	next_object = 0;
	for (size_t i = 0; i != 64; ++i) {
		logs[i].ctor = 0;
		logs[i].dtor = 0;
		logs[i].addr = nullptr;
	}
	std::vector<handle> hs;
	std::vector<size_t> objs;
	std::vector<bool> dia;
	std::string log;
	size_t steps = r.range(5, 60);
	for (size_t s = 0; s != steps; ++s) {
		if (log.size() > 220) {
			log.erase(0, log.size() - 220);
		}
		note(log);
		auto op = r.below(10);
		if (hs.empty() || (op == 0 && objs.size() < 60)) {
			size_t id = next_object++;
			objs.push_back(id);
			bool d = r.chance(2, 3);
			dia.push_back(d);
			if (d) {
				hs.emplace_back(utki::make_shared<diamond>(id), id, true);
			} else {
				hs.emplace_back(utki::make_shared<left_only>(id), id, true);
			}
			log += str(" new", id);
		} else if (op <= 2 || hs.size() > 24) { // release
			size_t i = r.below(hs.size());
			log += str(" drop", hs[i].obj);
			switch (r.below(3)) {
				case 0: // swap with the last, pop
					std::swap(hs[i], hs.back());
					hs.pop_back();
					break;
				case 1:
					hs.erase(hs.begin() + long(i)); // shifts the following handles: chain of move assignments
					break;
				default:
					hs[i] = handle(); // overwritten
					std::swap(hs[i], hs.back());
					hs.pop_back();
					break;
			}
		} else if (op == 3 && hs.size() >= 2) { // assignment between handles of the same type
			size_t i = r.below(hs.size()), j = r.below(hs.size());
			if (hs[i].v.index() == hs[j].v.index()) {
				log += str(" assign", hs[i].obj, "=", hs[j].obj);
				std::visit(
					[&](auto& a) {
						using X = std::decay_t<decltype(a)>;
						a = std::get<X>(hs[j].v);
					},
					hs[i].v
				);
				hs[i].obj = hs[j].obj;
				hs[i].strong = hs[j].strong;
			}
		} else {
			size_t i = r.below(hs.size());
			size_t o = hs[i].obj;
			log += str(" ", o, ":");
			std::vector<handle> out;
			std::visit([&](auto& x) { derive(r, x, o, dia[o], out, log); }, hs[i].v);
			for (auto& h : out) {
				hs.push_back(std::move(h));
			}
		}
		verify(hs, objs, log);
	}
	size_t died = 0;
	for (auto o : objs) {
		died += size_t(logs[o].dtor.load());
	}
	c.nt(died >= 2);
	SAMPLE(log);
	while (!hs.empty()) {
		size_t i = r.below(hs.size());
		log += str(" drop", hs[i].obj);
		hs.erase(hs.begin() + long(i));
		verify(hs, objs, log);
	}
	COUNT_N("objects", objs.size());
	COUNT_N("history.steps", steps);
}

// ---- construction: arguments are forwarded, failures leak nothing
namespace {
struct args_probe : tracked {
	std::unique_ptr<int> moved;
	int& ref;
	const std::string* cstr;
	args_probe(size_t id, std::unique_ptr<int> m, int& ref, const std::string& s, bool fail) :
		tracked(id),
		moved(std::move(m)),
		ref(ref),
		cstr(&s)
	{
		if (fail) {
			throw std::runtime_error("constructor failed");
		}
	}
};
struct ordered {
	int v;
	bool operator<(const ordered& o) const { return v < o.v; }
	bool operator==(const ordered& o) const { return v == o.v; }
};
// values which are not equal to themselves, and an order which is no total order
struct partial_value {
	double v;
	bool operator<(const partial_value& o) const { return v < o.v; }
	bool operator==(const partial_value& o) const { return v == o.v; }
};
struct esft : std::enable_shared_from_this<esft>, tracked {
	esft(size_t id) :
		tracked(id)
	{}
};
struct dbase : utki::destructable {
	int* counter;
	dbase(int* c) :
		counter(c)
	{}
	~dbase() override { ++*counter; }
};
} // namespace

SUITE(creation, 2000, 0, "make_shared/make_unique with move-only, reference and const arguments, failing constructors, comparisons, std::enable_shared_from_this objects, destructable; every case non-trivial")
{
	auto& r = c.r;
	c.nt();
	for (size_t i = 0; i != 8; ++i) {
		logs[i].ctor = 0;
		logs[i].dtor = 0;
	}
	int x = int(r.below(1000));
	const std::string s = "arg";
	{
		auto a = utki::make_shared<args_probe>(size_t(0), std::make_unique<int>(x), x, s, false);
		CHECK("args", *a.get().moved == x && &a.get().ref == &x && a.get().cstr == &s, "");
		auto b = utki::make_unique<args_probe>(size_t(1), std::make_unique<int>(x + 1), x, s, false);
		CHECK("args-unique", *b.get().moved == x + 1 && &b.get().ref == &x && b.get().cstr == &s, "");
		CHECK_THROWS("ctor-throws", std::runtime_error, utki::make_shared<args_probe>(size_t(2), std::make_unique<int>(x), x, s, true), "");
		CHECK_THROWS("ctor-throws", std::runtime_error, utki::make_unique<args_probe>(size_t(3), std::make_unique<int>(x), x, s, true), "");
		CHECK("failed-clean", logs[2].ctor == 1 && logs[2].dtor == 1 && logs[3].ctor == 1 && logs[3].dtor == 1, "");
		CHECK("alive", logs[0].dtor == 0 && logs[1].dtor == 0, "");
		args_probe& ra = a;
		CHECK("conversion", &ra == &a.get(), "");
		args_probe& rb = b;
		CHECK("conversion-unique", &rb == &b.get(), "");
	}
	CHECK("destroyed", logs[0].dtor == 1 && logs[1].dtor == 1, "");
	{
		auto a = utki::make_shared<esft>(size_t(4));
		auto b = utki::make_shared_from(a.get());
		auto w = utki::make_weak_from(a.get());
		CHECK("esft", &b.get() == &a.get() && w.lock().get() == &a.get(), "");
		CHECK("esft-count", a.to_shared_ptr().use_count() == 2, "");
	}
	CHECK("esft-destroyed", logs[4].ctor == 1 && logs[4].dtor == 1, "");
	int p = int(r.below(4)), q = int(r.below(4));
	auto a = utki::make_shared<ordered>(ordered{p});
	auto b = utki::make_shared<ordered>(ordered{q});
	CHECK("compare", (a == b) == (p == q) && (a == b.get()) == (p == q) && (a < b.get()) == (p < q), "");
	auto ua = utki::make_unique<ordered>(ordered{p});
	auto ub = utki::make_unique<ordered>(ordered{q});
	CHECK("compare-unique", (ua == ub) == (p == q) && (ua == ub.get()) == (p == q) && (ua < ub.get()) == (p < q), "");
	{ // the comparison is the one of the objects, whatever it says
		const double vals[] = {std::numeric_limits<double>::quiet_NaN(), 0, -0.0, std::numeric_limits<double>::infinity(), 1};
		double x = vals[r.below(5)], y = vals[r.below(5)];
		auto l = utki::make_shared<partial_value>(partial_value{x});
		auto m = r.coin() ? l : utki::make_shared<partial_value>(partial_value{y});
		double ly = m.get().v;
		CHECK("compare-partial", (l == m) == (x == ly) && (l == m.get()) == (x == ly) && (l < m.get()) == (x < ly) && (l == l) == (x == x), x, " ", ly);
		auto ul = utki::make_unique<partial_value>(partial_value{x});
		auto um = utki::make_unique<partial_value>(partial_value{y});
		CHECK("compare-partial-unique", (ul == um) == (x == y) && (ul == um.get()) == (x == y) && (ul < um.get()) == (x < y) && (ul == ul) == (x == x), x, " ", y);
	}
	int destroyed = 0;
	{
		std::unique_ptr<utki::destructable> d(new dbase(&destroyed));
	}
	CHECK("destructable", destroyed == 1, "");
	{
		auto d = utki::make_unique<dbase>(&destroyed);
		utki::unique_ref<utki::destructable> e(std::move(d));
		CHECK("destructable-alive", destroyed == 1, "");
	}
	CHECK("destructable-ref", destroyed == 2, "");
}

SUITE(crowd, 3, fixed | novg | nofuzz, "70000 references of five kinds to one object; each counts, the object goes with the last")
{
	c.nt();
	next_object = 0;
	logs[0].ctor = 0;
	logs[0].dtor = 0;
	std::weak_ptr<diamond> watch;
	{
		std::vector<utki::shared_ref<left>> a;
		std::vector<utki::shared_ref<const diamond>> b;
		std::vector<utki::shared_ref<right>> d;
		std::vector<utki::shared_ref<diamond>> e;
		std::vector<std::shared_ptr<diamond>> f;
		{
			auto o = utki::make_shared<diamond>(size_t(0));
			watch = utki::make_weak(o);
			const utki::shared_ref<left> as_left(o);
			long n = 2;
			for (size_t i = 0; i != 70000; ++i, ++n) {
				switch ((i + c.index) % 5) {
					case 0:
						a.push_back(as_left);
						break;
					case 1:
						b.emplace_back(o);
						break;
					case 2:
						d.push_back(utki::dynamic_reference_cast<right>(as_left));
						break;
					case 3:
						e.push_back(utki::dynamic_reference_cast<diamond>(as_left));
						break;
					default:
						f.push_back(utki::make_shared_from(o.get()).to_shared_ptr());
						break;
				}
				CHECK("crowd-count", o.to_shared_ptr().use_count() == n + 1, "after reference ", i, ": ", o.to_shared_ptr().use_count(), " expected ", n + 1);
			}
		}
		auto left_over = [&](size_t n) {
			CHECK("crowd-left", logs[0].dtor == 0 && watch.use_count() == long(n), watch.use_count(), " owners, expected ", n);
		};
		size_t n = a.size() + b.size() + d.size() + e.size() + f.size();
		left_over(n);
		auto drop = [&](auto& v, size_t keep) {
			while (v.size() > keep) {
				v.pop_back();
				left_over(--n);
			}
		};
		drop(a, 1);
		drop(f, 0);
		drop(b, 1);
		drop(d, 1);
		drop(e, 1);
		CHECK("crowd-same", &a[0].get() == static_cast<left*>(&e[0].get()) && &b[0].get() == &e[0].get() && &d[0].get() == static_cast<right*>(&e[0].get()), "");
		switch (c.index) {
			case 0:
				drop(a, 0);
				drop(b, 0);
				drop(d, 0);
				break;
			case 1:
				drop(e, 0);
				drop(d, 0);
				drop(a, 0);
				break;
			default:
				drop(e, 0);
				drop(b, 0);
				drop(a, 0);
				break;
		}
		CHECK("crowd-last", logs[0].dtor == 0, "");
	}
	CHECK("crowd-destroyed", logs[0].ctor == 1 && logs[0].dtor == 1 && watch.expired(), "");
}

// ---- unique_ref histories
namespace {
struct ubase {
	u64 pad = 7;
	virtual ~ubase() = default;
	virtual size_t uid() const = 0;
};
struct uother {
	u64 pad = 8;
	virtual ~uother() = default;
};
struct uobj : uother, ubase, tracked {
	uobj(size_t id) :
		tracked(id)
	{
		logs[id].addr = this;
	}
	size_t uid() const override { return id; }
};
} // namespace

SUITE(unique_histories, 1500, 0, "random histories of unique_ref: creation, moves, up-casts, conversion to unique_ptr and back, assignment, release; non-trivial when at least two objects died")
{
	auto& r = c.r;
	for (size_t i = 0; i != 64; ++i) {
		logs[i].ctor = 0;
		logs[i].dtor = 0;
	}
	size_t n = 0;
	std::vector<std::pair<utki::unique_ref<uobj>, size_t>> a;
	std::vector<std::pair<utki::unique_ref<ubase>, size_t>> b;
	std::vector<std::pair<std::unique_ptr<uobj>, size_t>> p;
	auto verify_u = [&]() {
		std::vector<int> owned(n, 0);
		for (auto& h : a) {
			CHECK("unique-denotes", static_cast<const void*>(&h.first.get()) == logs[h.second].addr && h.first.get().id == h.second, "");
			++owned[h.second];
		}
		for (auto& h : b) {
			CHECK("unique-base-denotes", dynamic_cast<const void*>(&h.first.get()) == logs[h.second].addr && h.first.get().uid() == h.second, "");
			++owned[h.second];
		}
		for (auto& h : p) {
			CHECK("unique-ptr-denotes", h.first && h.first->id == h.second, "");
			++owned[h.second];
		}
		for (size_t i = 0; i != n; ++i) {
			CHECK("unique-once", logs[i].ctor == 1 && logs[i].dtor == 1 - owned[i], "object ", i, " owned ", owned[i], " destroyed ", logs[i].dtor.load());
		}
	};
	size_t steps = r.range(3, 40);
	for (size_t s = 0; s != steps; ++s) {
		switch (r.below(8)) {
			case 0:
			case 1:
				if (n < 60) {
					a.emplace_back(utki::make_unique<uobj>(n), n);
					++n;
				}
				break;
			case 2:
				if (!a.empty()) {
					auto i = r.below(a.size());
					b.emplace_back(std::move(a[i].first), a[i].second);
					a.erase(a.begin() + long(i));
				}
				break;
			case 3:
				if (!a.empty()) {
					auto i = r.below(a.size());
					p.emplace_back(std::move(a[i].first).to_unique_ptr(), a[i].second);
					a.erase(a.begin() + long(i));
				}
				break;
			case 4:
				if (!p.empty()) {
					auto i = r.below(p.size());
					a.emplace_back(utki::unique_ref<uobj>(std::move(p[i].first)), p[i].second);
					p.erase(p.begin() + long(i));
				}
				break;
			case 5:
				if (a.size() >= 2) { // move assignment destroys the target's object
					auto i = r.below(a.size()), j = r.below(a.size());
					if (i != j) {
						a[i].first = std::move(a[j].first);
						a[i].second = a[j].second;
						a.erase(a.begin() + long(j));
					}
				}
				break;
			case 6:
				if (!b.empty()) {
					b.erase(b.begin() + long(r.below(b.size())));
				}
				break;
			default:
				if (!a.empty()) {
					a.erase(a.begin() + long(r.below(a.size())));
				}
				break;
		}
		verify_u();
	}
	size_t died = 0;
	for (size_t i = 0; i != n; ++i) {
		died += size_t(logs[i].dtor.load());
	}
	c.nt(died >= 2);
	a.clear();
	b.clear();
	p.clear();
	verify_u();
	COUNT_N("unique.objects", n);
}

// ---- threads
SUITE(threads, 60, nofuzz | noisy, "2..6 threads copy, cast, convert and drop references to shared objects at the same time; each object is destroyed exactly once, after its last user; distinct by the order of object deaths and the threads that caused them")
{
	auto& r = c.r;
	size_t nt = r.range(2, 6), no = r.range(1, 6);
	u64 seed = r.next();
	for (size_t i = 0; i != 64; ++i) {
		logs[i].ctor = 0;
		logs[i].dtor = 0;
	}
	std::vector<std::vector<utki::shared_ref<diamond>>> start(nt);
	std::vector<std::weak_ptr<diamond>> weak;
	for (size_t o = 0; o != no; ++o) {
		auto d = utki::make_shared<diamond>(o);
		weak.push_back(d);
		for (size_t t = 0; t != nt; ++t) {
			start[t].push_back(d);
		}
	}
	std::atomic<size_t> ready{0};
	std::atomic<u64> bad{0}, order{0}, used{0};
	std::vector<std::thread> ths;
	for (size_t t = 0; t != nt; ++t) {
		ths.emplace_back([&, t, mine = std::move(start[t])]() mutable {
			rng tr(mix(seed + t));
			std::vector<utki::shared_ref<left>> ls;
			std::vector<utki::shared_ref<const diamond>> cs;
			++ready;
			while (ready != nt) {
				std::this_thread::yield();
			}
			u64 n = 0;
			for (size_t k = 0; k != 200; ++k) {
				size_t o = tr.below(no);
				switch (tr.below(8)) {
					case 0:
						if (o < mine.size()) {
							ls.emplace_back(mine[o]);
						}
						break;
					case 1:
						if (!ls.empty()) {
							cs.emplace_back(utki::dynamic_reference_cast<diamond>(ls.back()));
						}
						break;
					case 2:
						if (!ls.empty()) {
							ls.pop_back();
						}
						break;
					case 3:
						if (!cs.empty()) {
							cs.erase(cs.begin());
						}
						break;
					case 4:
						if (!ls.empty()) {
							ls.push_back(utki::make_shared_from(ls.front().get()));
						}
						break;
					case 5:
						if (auto p = weak[o].lock()) {
							utki::shared_ref<diamond> x(p);
							if (x.get().payload != mix(o)) {
								++bad;
							}
							auto w = utki::make_weak_from(static_cast<right&>(x.get()));
							if (w.expired()) {
								++bad;
							}
						}
						break;
					case 6:
						if (!mine.empty() && tr.chance(1, 20)) {
							mine.pop_back();
						}
						break;
					default:
						if (!mine.empty()) {
							auto cp = mine.back();
							mine.back() = std::move(cp);
						}
						break;
				}
				for (auto& x : ls) {
					if (x.get().l != 0x1111 || logs[x.get().id_l()].dtor != 0) {
						++bad;
					}
					++n;
				}
				for (auto& x : cs) {
					if (x.get().payload != mix(x.get().id)) {
						++bad;
					}
					++n;
				}
				if (tr.chance(1, 30)) {
					std::this_thread::yield();
				}
			}
			used += n;
			auto dead = [&]() {
				u64 h = 0;
				for (size_t o = 0; o != no; ++o) {
					h = h * 2 + u64(logs[o].dtor.load());
				}
				return h;
			};
			auto b0 = dead();
			mine.clear();
			ls.clear();
			cs.clear();
			auto b1 = dead();
			u64 old = order.load();
			while (!order.compare_exchange_weak(old, mix(old ^ (t << 32) ^ b0 ^ (b1 << 16)))) {
			}
		});
	}
	for (auto& t : ths) {
		t.join();
	}
	c.nt(used != 0);
	c.distinct(mix(order.load() ^ c.index));
	COUNT_N("threads.uses", used.load());
	CHECK("thread-uses", bad == 0, "object found destroyed or damaged while referenced, ", bad.load(), " times");
	for (size_t o = 0; o != no; ++o) {
		CHECK("thread-once", logs[o].ctor == 1 && logs[o].dtor == 1 && weak[o].expired(), "object ", o, " destroyed ", logs[o].dtor.load(), " times");
	}
}
