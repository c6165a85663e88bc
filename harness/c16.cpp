// C16: at most one singleton instance, tracked through its whole life.
// Oracle: a model of which instance of which class is alive; events of constructors/destructors.
#define VH_MAIN
#include "vh.hpp"

#include <optional>

#include <utki/singleton.hpp>

using namespace vh;

namespace {
struct body { // tracked payload
	static long alive[16];
	int cls;
	u64 magic;
	std::unique_ptr<u64> heap;
	body(int cls, u64 m) :
		cls(cls),
		magic(m),
		heap(new u64(m))
	{
		++alive[cls];
	}
	~body() { --alive[cls]; }
	bool intact() const { return heap && *heap == magic; }
};
long body::alive[16];

struct failure {};

enum class how { ok, fail_body, fail_member };

struct failing_member {
	failing_member(how h)
	{
		if (h == how::fail_member) {
			throw failure();
		}
	}
};

// several plain singletons
template <int n>
struct plain : utki::singleton<plain<n>> {
	body b;
	failing_member m;
	plain(u64 magic, how h) :
		b(n, magic),
		m(h)
	{
		in_life();
		if (h == how::fail_body) {
			throw failure();
		}
	}
	~plain() override { in_life(); }
	void in_life()
	{
		if (!plain::is_created() || &plain::inst() != this) {
			++body::alive[15]; // recorded; checked by the monitor
		}
	}
	static constexpr int cls = n;
};

// intrusive: the instance variable lives in the class itself
struct intrusive : utki::intrusive_singleton<intrusive> {
	friend class utki::intrusive_singleton<intrusive>;
	static utki::intrusive_singleton<intrusive>::instance_type instance;
	body b;
	intrusive(u64 magic, how h) :
		b(4, magic)
	{
		if (h != how::ok) {
			throw failure();
		}
	}
	static constexpr int cls = 4;
};
utki::intrusive_singleton<intrusive>::instance_type intrusive::instance;

// intrusive with another instance owner, and not the first base
struct other_base {
	u64 pad[3] = {1, 2, 3};
	virtual ~other_base() = default;
};
struct owned;
struct owner;
struct owned : other_base, utki::intrusive_singleton<owned, owner> {
	using utki::intrusive_singleton<owned, owner>::instance_type;
	body b;
	owned(u64 magic, how h) :
		b(5, magic)
	{
		if (h != how::ok) {
			throw failure();
		}
	}
	static constexpr int cls = 5;
};
struct owner {
	static owned::instance_type instance;
};
owned::instance_type owner::instance;

// a base class which is the singleton, and a derived application
struct app : other_base, utki::singleton<app> {
	body b;
	app(u64 magic) :
		b(6, magic)
	{}
	virtual int kind() const { return 0; }
	static constexpr int cls = 6;
};
struct my_app : app {
	my_app(u64 magic, how h) :
		app(magic)
	{
		if (h != how::ok) {
			throw failure();
		}
	}
	int kind() const override { return 1; }
	static constexpr int cls = 6;
};

// one slot per class: the model
struct slot_base {
	virtual ~slot_base() = default;
	virtual void create(rng& r, u64 magic, std::string& log) = 0;
	virtual void destroy(std::string& log) = 0;
	virtual void check(const std::string& log) = 0;
	virtual bool alive() const = 0;
};

template <typename T, typename Root = T>
struct slot : slot_base {
	std::optional<T> in_place;
	std::unique_ptr<T> heap;
	u64 magic = 0;
	T* cur() { return in_place ? &*in_place : heap.get(); }
	bool alive() const override { return bool(in_place) || bool(heap); }

	template <typename F>
	int attempt(F f)
	{
		try {
			f();
			return 0;
		} catch (const std::logic_error&) {
			return 1;
		} catch (const failure&) {
			return 2;
		} catch (const case_failed&) {
			throw;
		} catch (...) {
			return 3;
		}
	}

	void create(rng& r, u64 m, std::string& log) override
	{
		auto h = r.chance(1, 4) ? (r.coin() ? how::fail_body : how::fail_member) : how::ok;
		bool was = alive();
		int res;
		if (was) {
			log += str(" second", T::cls);
			switch (r.below(3)) {
				case 0: res = attempt([&]() { T second(m, h); }); break;
				case 1: res = attempt([&]() { std::unique_ptr<T> second(new T(m, h)); }); break;
				default: res = attempt([&]() { std::optional<T> second; second.emplace(m, h); }); break;
			}
			CHECK("second-rejected", res == 1, log, " creating a second instance gave ", res == 0 ? std::string("no exception") : std::string("another exception"));
			COUNT("second-instances.rejected");
			return;
		}
		log += str(" create", T::cls, h == how::ok ? std::string("") : std::string("-failing"));
		if (r.coin()) {
			res = attempt([&]() { in_place.emplace(m, h); });
		} else {
			res = attempt([&]() { heap.reset(new T(m, h)); });
		}
		bool should_fail = h == how::fail_body || (h == how::fail_member && res == 2);
		CHECK("create", res == (should_fail ? 2 : 0), log, " result ", res);
		if (res == 0) {
			magic = m;
			COUNT("instances.created");
		} else {
			COUNT("instances.failed-constructor");
		}
	}
	void destroy(std::string& log) override
	{
		if (!alive()) {
			return;
		}
		log += str(" destroy", T::cls);
		in_place.reset();
		heap.reset();
		COUNT("instances.destroyed");
	}
	void check(const std::string& log) override
	{
		CHECK("is-created", Root::is_created() == alive(), log, " class ", T::cls, ": is_created() is ", Root::is_created(), " alive ", alive());
		CHECK("objects", body::alive[T::cls] == (alive() ? 1 : 0), log, " class ", T::cls, ": ", body::alive[T::cls], " objects exist");
		CHECK("inst-in-life", body::alive[15] == 0, log, " inst() inside constructor or destructor is not the object");
		if (alive()) {
			CHECK("inst", &Root::inst() == static_cast<Root*>(cur()), log, " class ", T::cls, ": inst() is not the instance");
			CHECK("usable", Root::inst().b.intact() && Root::inst().b.magic == magic, log, " class ", T::cls, ": instance damaged");
		}
	}
};
} // namespace

SUITE(histories, 6000, 0, "random histories of creation (in place, heap), second creation, failing constructors, access and destruction over 8 singleton classes of different kinds, nested with stack instances; non-trivial when a second creation was rejected or an instance re-created")
{
	auto& r = c.r;
	std::string log;
	std::vector<std::unique_ptr<slot_base>> s;
	s.push_back(std::make_unique<slot<plain<0>>>());
	s.push_back(std::make_unique<slot<plain<1>>>());
	s.push_back(std::make_unique<slot<plain<2>>>());
	s.push_back(std::make_unique<slot<plain<3>>>());
	s.push_back(std::make_unique<slot<intrusive>>());
	s.push_back(std::make_unique<slot<owned>>());
	s.push_back(std::make_unique<slot<my_app, app>>());
	size_t steps = r.range(2, 40);
	size_t second = 0, again = 0;
	std::vector<int> created(s.size(), 0);
	for (size_t k = 0; k != steps; ++k) {
		if (log.size() > 200) {
			log = "..." + log.substr(log.size() - 180);
		}
		note(log);
		size_t i = r.below(s.size());
		bool was = s[i]->alive();
		if (r.chance(3, 5)) {
			s[i]->create(r, r.next(), log);
			second += was;
			if (!was && s[i]->alive() && created[i]++) {
				++again;
			}
		} else {
			s[i]->destroy(log);
		}
		for (auto& x : s) {
			x->check(log);
		}
	}
	c.nt(second || again);
	COUNT_N("instances.re-created", again);
	SAMPLE(log);
	while (!s.empty()) {
		size_t i = r.below(s.size());
		s[i]->destroy(log);
		for (auto& x : s) {
			x->check(log);
		}
		s.erase(s.begin() + long(i));
	}
}

SUITE(stack_scopes, 1500, 0, "instances in nested scopes left normally and by exceptions; every case non-trivial")
{
	auto& r = c.r;
	c.nt();
	using S = plain<1>;
	size_t rounds = r.range(1, 5);
	for (size_t k = 0; k != rounds; ++k) {
		CHECK("none-before", !S::is_created(), "");
		bool thrown = r.coin();
		try {
			S s(k, how::ok);
			CHECK("created", S::is_created() && &S::inst() == &s, "");
			CHECK_THROWS("second", std::logic_error, S(k, how::ok), "");
			CHECK("still", S::is_created() && &S::inst() == &s && s.b.intact(), "");
			{
				plain<2> t(k, how::ok);
				CHECK("other", plain<2>::is_created() && &plain<2>::inst() == &t && &S::inst() == &s, "");
			}
			CHECK("other-gone", !plain<2>::is_created() && S::is_created(), "");
			if (thrown) {
				throw failure();
			}
		} catch (const failure&) {
		}
		CHECK("none-after", !S::is_created() && body::alive[1] == 0, "");
	}
}
