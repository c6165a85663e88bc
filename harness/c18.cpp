// C18: scope_exit runs its action exactly once, unless released.
// Oracle: the same random program of nested scopes is run for real and interpreted by a model; both logs have to be equal.
#define VH_MAIN
#include "vh.hpp"

#include <utki/utility.hpp>

using namespace vh;

namespace {
struct boom : std::runtime_error {
	boom() :
		std::runtime_error("boom")
	{}
};
struct odd {}; // not a std::exception

struct scope {
	int id = 0;
	int action = 0; // 0 plain, 1 throws std, 2 throws non-std, 3 contains a scope itself, 4 empty function, 5 catches inside
	int release = 0; // 0 no, 1 before children, 2 after children, 3 twice
	bool call_released = false;
	int exit = 0; // 0 normal, 1 throw, 2 early return before the children
	bool catches = false; // catches what its children throw
	std::vector<scope> ch;
};

void gen(rng& r, scope& s, int depth, int& next)
{
	s.id = next++;
	s.action = int(r.below(6));
	s.release = r.chance(1, 3) ? int(r.range(1, 3)) : 0;
	s.call_released = r.coin();
	s.exit = r.chance(1, 3) ? int(r.range(1, 2)) : 0;
	s.catches = r.coin();
	if (depth < 5) {
		s.ch.resize(r.below(4));
		for (auto& x : s.ch) {
			gen(r, x, depth + 1, next);
		}
	}
}

std::vector<int> real, model;
long captured = 0; // live captured objects
struct capture {
	capture() { ++captured; }
	capture(const capture&) { ++captured; }
	capture(capture&&) noexcept { ++captured; }
	~capture() { --captured; }
};

void act(const scope& s, std::vector<int>& log)
{
	switch (s.action) {
		case 3: {
			utki::scope_exit inner([&]() { log.push_back(-s.id); });
			log.push_back(s.id);
			break;
		}
		case 5:
			try {
				utki::scope_exit inner([&]() { log.push_back(-s.id - 100000); });
				log.push_back(s.id);
				throw boom();
			} catch (const boom&) {
			}
			break;
		default: log.push_back(s.id); break;
	}
	if (s.action == 1) {
		throw boom();
	}
	if (s.action == 2) {
		throw odd();
	}
}
void act_model(const scope& s, std::vector<int>& log)
{
	if (s.action == 4) {
		return;
	}
	log.push_back(s.id);
	if (s.action == 3) {
		log.push_back(-s.id);
	}
	if (s.action == 5) {
		log.push_back(-s.id - 100000);
	}
}

void use_released(const scope& s, std::function<void()> f)
{
	// handed back, callable
	if (s.action == 4) {
		CHECK("released-empty", !f, "releasing an empty action gave a function");
		return;
	}
	CHECK("released-callable", bool(f), "release() gave an empty function");
	if (s.call_released) {
		try {
			f();
		} catch (const boom&) {
			real.push_back(7000000);
		} catch (const odd&) {
			real.push_back(8000000);
		}
	}
}
void use_released_model(const scope& s)
{
	if (s.action != 4 && s.call_released) {
		act_model(s, model);
		if (s.action == 1) {
			model.push_back(7000000);
		}
		if (s.action == 2) {
			model.push_back(8000000);
		}
	}
}

void run(const scope& s)
{
	capture cap;
	utki::scope_exit se(s.action == 4 ? std::function<void()>() : std::function<void()>([&s, cap]() { act(s, real); }));
	if (s.release == 1 || s.release == 3) {
		use_released(s, se.release());
		if (s.release == 3) {
			auto again = se.release();
			CHECK("second-release-empty", !again, "a second release() gave a function again");
		}
	}
	if (s.exit == 2) {
		real.push_back(1000000 + s.id);
		return;
	}
	for (auto& x : s.ch) {
		if (s.catches) {
			try {
				run(x);
			} catch (const boom&) {
				real.push_back(2000000 + s.id);
			}
		} else {
			run(x);
		}
	}
	if (s.release == 2) {
		use_released(s, se.release());
	}
	real.push_back(3000000 + s.id);
	if (s.exit == 1) {
		throw boom();
	}
}

// returns true when an exception leaves the scope
bool sim(const scope& s)
{
	bool armed = true;
	auto leave = [&](bool ex) {
		if (armed) {
			act_model(s, model);
		}
		return ex;
	};
	if (s.release == 1 || s.release == 3) {
		armed = false;
		use_released_model(s);
	}
	if (s.exit == 2) {
		model.push_back(1000000 + s.id);
		return leave(false);
	}
	for (auto& x : s.ch) {
		if (sim(x)) {
			if (s.catches) {
				model.push_back(2000000 + s.id);
			} else {
				return leave(true);
			}
		}
	}
	if (s.release == 2) {
		armed = false;
		use_released_model(s);
	}
	model.push_back(3000000 + s.id);
	return leave(s.exit == 1);
}
} // namespace

SUITE(programs, 4000, 0, "random programs of nested scopes (depth up to 6) with plain, throwing (std and other), nesting, empty actions, releases before/after/twice, exits by fall-through, return and exception; non-trivial when an action ran during unwinding or after a release")
{
	auto& r = c.r;
	scope root;
	int next = 1;
	gen(r, root, 0, next);
	real.clear();
	model.clear();
	captured = 0;
	bool ex = false;
	try {
		run(root);
	} catch (const boom&) {
		ex = true;
	}
	bool want_ex = sim(root);
	CHECK("exception", ex == want_ex, "exception left the program: ", ex, " expected ", want_ex);
	CHECK("sequence", real == model, "observed ", real, " expected ", model);
	CHECK("captured-destroyed", captured == 0, captured, " captured objects still alive");
	c.nt(want_ex || model.size() > 3);
	COUNT_N("actions.run", real.size());
	if (want_ex) {
		COUNT("programs.unwound");
	}
	SAMPLE(real);
}

SUITE(heap_and_early_death, 1500, 0, "scope_exit objects living on the heap, destroyed in random order, some released: each action runs exactly once, at its object's end; every case non-trivial")
{
	auto& r = c.r;
	c.nt();
	size_t n = r.range(1, 12);
	std::vector<int> ran(n, 0);
	std::vector<std::unique_ptr<utki::scope_exit>> v;
	std::vector<bool> released(n, false);
	std::vector<std::function<void()>> fs(n);
	for (size_t i = 0; i != n; ++i) {
		v.push_back(std::make_unique<utki::scope_exit>([&ran, i]() { ++ran[i]; }));
	}
	for (size_t k = 0; k != n * 3; ++k) {
		size_t i = r.below(n);
		auto before = ran;
		switch (r.below(3)) {
			case 0:
				if (v[i]) {
					bool was = released[i];
					auto f = v[i]->release();
					CHECK("release", bool(f) == !was, "object ", i, " released before: ", was);
					if (f) {
						fs[i] = std::move(f);
					}
					released[i] = true;
				}
				CHECK("release-runs-nothing", ran == before, "");
				break;
			case 1:
				if (v[i]) {
					v[i].reset();
					before[i] += released[i] ? 0 : 1;
				}
				CHECK("runs-at-end", ran == before, "object ", i, " released ", bool(released[i]), " runs ", ran);
				break;
			default:
				if (fs[i]) {
					fs[i]();
					++before[i];
				}
				CHECK("released-works", ran == before, "");
				break;
		}
	}
}
