// C15: signal delivers every emission to every connected callback, in order, with unchanged arguments.
// Oracle: a list model of the connections; the callbacks record what they received.
#define VH_MAIN
#include "vh.hpp"

#include <utki/signal.hpp>

#include "track.hpp"

using namespace vh;

namespace {
struct call {
	size_t conn;
	std::string args;
	const void* addr;
	bool operator==(const call& o) const { return conn == o.conn && args == o.args && addr == o.addr; }
};
std::vector<call> calls;

std::string shown(int v) { return std::to_string(v); }
std::string shown(const std::string& s) { return esc(s); }
std::string shown(const std::vector<int>& v) { return str(v); }
std::string shown(const std::shared_ptr<int>& v) { return v ? std::to_string(*v) : "null"; }
std::string shown(const std::unique_ptr<int>& v) { return v ? std::to_string(*v) : "null"; }
std::string shown(const tk::elem& e) { return e.v == tk::elem::moved_from ? "moved-from" : e.intact() ? std::to_string(e.v) : "damaged"; }
std::string shown(const std::string* s) { return s ? esc(*s) : "null"; }
} // namespace

// drives one signal type.  gen makes the emitted values; want renders them; emit_it performs the emission
template <typename Sig, typename MakeCb, typename Emit>
static void drive(ctx& c, const char* what, MakeCb make_cb, Emit emit_it, size_t max_conns = 12)
{
	auto& r = c.r;
	std::string w = what;
	struct conn {
		size_t id;
		typename Sig::connection k;
	};
	Sig sig;
	std::vector<conn> model;
	size_t next = 0, emitted = 0, delivered = 0;
	CHECK("initially-empty", sig.empty() && sig.size() == 0, w);
	size_t steps = r.range(2, 30);
	std::string log = w + ":";
	auto verify_size = [&]() {
		CHECK("size", sig.size() == model.size() && sig.empty() == model.empty(), log, " size ", sig.size(), " expected ", model.size());
	};
	for (size_t s = 0; s != steps; ++s) {
		auto op = r.below(6);
		if (log.size() > 200) {
			log = w + ": ..." + log.substr(log.size() - 150);
		}
		note(log);
		if (op < 2 && model.size() < max_conns) {
			size_t id = next++;
			log += str(" connect", id);
			model.push_back({id, sig.connect(make_cb(id))});
		} else if (op == 2 && !model.empty()) {
			size_t i = r.below(model.size());
			log += str(" disconnect", model[i].id);
			sig.disconnect(model[i].k);
			model.erase(model.begin() + long(i));
		} else {
			calls.clear();
			log += " emit";
			auto [args, addr] = emit_it(sig, r);
			++emitted;
			CHECK("each-once", calls.size() == model.size(), log, " callbacks called ", calls.size(), " times, connected ", model.size());
			for (size_t i = 0; i != model.size(); ++i) {
				CHECK("order", calls[i].conn == model[i].id, log, " call ", i, " went to ", calls[i].conn, " expected ", model[i].id);
				CHECK("args", calls[i].args == args, log, " callback ", calls[i].conn, " (position ", i, ") received ", std::string(calls[i].args), " emitted ", std::string(args));
				if (addr) {
					CHECK("same-object", calls[i].addr == addr, log, " callback ", calls[i].conn, " did not get the emitted object itself");
				}
				++delivered;
			}
		}
		verify_size();
	}
	c.nt(emitted != 0 && delivered > 1);
	COUNT_N("emissions", emitted);
	COUNT_N("deliveries", delivered);
	while (!model.empty()) {
		size_t i = r.below(model.size());
		sig.disconnect(model[i].k);
		model.erase(model.begin() + long(i));
		verify_size();
	}
	SAMPLE(log);
}

using ret = std::pair<std::string, const void*>;

SUITE(no_arguments, 1500, 0, "histories of connect/disconnect/emit on signals without arguments; non-trivial when more than one delivery was observed")
{
	using S = utki::signal<>;
	drive<S>(
		c, "signal<>", [](size_t id) { return [id]() { calls.push_back({id, "", nullptr}); }; },
		[](S& s, rng&) {
			s.emit();
			return ret("", nullptr);
		}
	);
}

SUITE(values, 1500, 0, "histories on signals of int, std::string, vector and shared_ptr passed by value, to callbacks taking them by value (and changing their copy) and by const reference; non-trivial when more than one delivery was observed")
{
	using S = utki::signal<int, std::string, std::vector<int>, std::shared_ptr<int>>;
	auto use = [](int a, const std::string& b, const std::vector<int>& v, const std::shared_ptr<int>& p) { return shown(a) + "|" + shown(b) + "|" + shown(v) + "|" + shown(p); };
	drive<S>(
		c, "signal<int, string, vector, shared_ptr>",
		[use](size_t id) -> S::callback_type {
			switch (id % 3) {
				case 0:
					return [=](int a, std::string b, std::vector<int> v, std::shared_ptr<int> p) {
						calls.push_back({id, use(a, b, v, p), nullptr});
						a = 0; // its own copies
						b += "changed";
						v.clear();
						p.reset();
					};
				case 1:
					return [=](int a, const std::string& b, const std::vector<int>& v, const std::shared_ptr<int>& p) { calls.push_back({id, use(a, b, v, p), nullptr}); };
				default:
					return [=](int a, std::string&& b, std::vector<int> v, std::shared_ptr<int> p) {
						calls.push_back({id, use(a, b, v, p), nullptr});
						std::string stolen(std::move(b));
						auto q = std::move(v);
					};
			}
		},
		[use](S& s, rng& r) {
			int a = r.integer<int>();
			auto b = r.text(r.size(60), "abcdefghijklmnop");
			std::vector<int> v(r.below(6));
			for (auto& x : v) {
				x = int(r.below(100));
			}
			auto p = r.coin() ? std::make_shared<int>(int(r.below(100))) : nullptr;
			auto want = use(a, b, v, p);
			if (r.coin()) {
				s.emit(a, b, v, p);
				CHECK("emitted-untouched", use(a, b, v, p) == want, "the emitter's lvalues changed");
			} else {
				s.emit(a, std::move(b), std::move(v), std::move(p));
			}
			return ret(want, nullptr);
		}
	);
}

SUITE(references, 1500, 0, "histories on signals with non-const, const and pointer parameters: every callback gets the emitter's own object; non-trivial when more than one delivery was observed")
{
	using S = utki::signal<std::string&, const std::vector<int>&, const std::string*>;
	static const std::string other = "other";
	drive<S>(
		c, "signal<string&, const vector&, const string*>",
		[](size_t id) {
			return [id](std::string& s, const std::vector<int>& v, const std::string* p) {
				s[0] = char(s[0] + 1); // visible to everybody after
				calls.push_back({id, shown(v) + shown(p), &s});
			};
		},
		[](S& s, rng& r) {
			std::string x(1, 'A');
			std::vector<int> v(r.below(5), 3);
			size_t n = s.size();
			s.emit(x, v, &other);
			CHECK("ref-changes", x[0] == char('A' + n), "the emitter's object was changed ", int(x[0] - 'A'), " times by ", n, " callbacks");
			return ret(shown(v) + shown(&other), &x);
		}
	);
	using C = utki::signal<const tk::elem&>;
	tk::ev().reset();
	drive<C>(
		c, "signal<const elem&>", [](size_t id) { return [id](const tk::elem& e) { calls.push_back({id, shown(e), &e}); }; },
		[](C& s, rng& r) {
			tk::elem e(int(r.below(1000)));
			auto before = tk::ev().copies();
			s.emit(e);
			CHECK("const-ref-not-copied", tk::ev().copies() == before, "an object passed by reference was copied");
			return ret(shown(e), &e);
		}
	);
	tk::all_gone("const reference");
}

SUITE(tracked_values, 1500, 0, "histories on a signal of a tracked, move-sensitive type by value; non-trivial when more than one delivery was observed")
{
	tk::ev().reset();
	using S = utki::signal<tk::elem, int>;
	drive<S>(
		c, "signal<elem, int>",
		[](size_t id) -> S::callback_type {
			if (id % 2) {
				return [id](tk::elem e, int i) {
					calls.push_back({id, shown(e) + shown(i), nullptr});
					tk::elem stolen(std::move(e));
				};
			}
			return [id](const tk::elem& e, int i) { calls.push_back({id, shown(e) + shown(i), nullptr}); };
		},
		[](S& s, rng& r) {
			tk::elem e(int(r.below(1000)));
			int i = int(r.below(10));
			auto want = shown(e) + shown(i);
			if (r.coin()) {
				s.emit(e, i);
				CHECK("emitted-untouched", shown(e) + shown(i) == want, "the emitter's lvalue changed");
			} else {
				s.emit(std::move(e), i);
			}
			return ret(want, nullptr);
		}
	);
	tk::all_gone("tracked");
}

SUITE(move_only, 500, 0, "a signal of a move-only argument with at most one callback; non-trivial when more than one delivery was observed")
{
	using S = utki::signal<std::unique_ptr<int>>;
	drive<S>(
		c, "signal<unique_ptr>", [](size_t id) { return [id](std::unique_ptr<int> p) { calls.push_back({id, shown(p), nullptr}); }; },
		[](S& s, rng& r) {
			int v = int(r.below(1000));
			s.emit(std::make_unique<int>(v));
			return ret(std::to_string(v), nullptr);
		},
		1
	);
}

SUITE(rvalue_references, 300, 0, "a signal of an rvalue reference with at most one callback, which gets the emitter's object and may take its value; non-trivial when more than one delivery was observed")
{
	using S = utki::signal<std::string&&, const int>;
	drive<S>(
		c, "signal<string&&, const int>",
		[](size_t id) {
			return [id](std::string&& p, int k) {
				calls.push_back({id, shown(p) + shown(k), &p});
				if (id % 2) {
					std::string taken(std::move(p));
				}
			};
		},
		[](S& s, rng& r) {
			std::string v = r.text(r.size(50), "abcdefgh");
			int k = int(r.below(100));
			auto want = shown(v) + shown(k);
			s.emit(std::move(v), k);
			return ret(want, &v);
		},
		1
	);
}

SUITE(nested, 400, 0, "a callback emits the same or another signal, and a callback of one signal connects to another one: all deliveries happen once; every case non-trivial")
{
	auto& r = c.r;
	c.nt();
	utki::signal<int> a, b;
	std::vector<std::string> got;
	size_t n = r.range(1, 6);
	size_t which = r.below(n);
	std::vector<utki::signal<int>::connection> ca, cb;
	int depth = int(r.below(3));
	for (size_t i = 0; i != n; ++i) {
		ca.push_back(a.connect([&, i](int d) {
			got.push_back(str("a", i, "/", d));
			if (i == which && d > 0) {
				a.emit(d - 1);
			}
			b.emit(d);
		}));
		cb.push_back(b.connect([&, i](int d) { got.push_back(str("b", i, "/", d)); }));
	}
	std::vector<std::string> want;
	struct ref {
		static void go(std::vector<std::string>& want, size_t n, size_t which, int d)
		{
			for (size_t i = 0; i != n; ++i) {
				want.push_back(str("a", i, "/", d));
				if (i == which && d > 0) {
					go(want, n, which, d - 1);
				}
				for (size_t j = 0; j != n; ++j) {
					want.push_back(str("b", j, "/", d));
				}
			}
		}
	};
	ref::go(want, n, which, depth);
	a.emit(depth);
	CHECK_EQ("nested", got, want, "");
	for (size_t i = 0; i != n; ++i) {
		a.disconnect(ca[i]);
		b.disconnect(cb[n - 1 - i]);
	}
	CHECK("empty-at-end", a.empty() && b.empty(), "");
}

SUITE(many, 20, fixed, "hundreds of connections, disconnected in random order with an emission after each; every case non-trivial")
{
	auto& r = c.r;
	c.nt();
	c.distinct(c.index);
	utki::signal<size_t&> s;
	std::vector<std::pair<size_t, utki::signal<size_t&>::connection>> k;
	std::vector<size_t> got;
	size_t n = 20 + 15 * c.index;
	for (size_t i = 0; i != n; ++i) {
		k.emplace_back(i, s.connect([&got, i](size_t& x) {
			got.push_back(i);
			++x;
		}));
	}
	while (true) {
		got.clear();
		size_t cnt = 0;
		s.emit(cnt);
		std::vector<size_t> want;
		for (auto& x : k) {
			want.push_back(x.first);
		}
		CHECK_EQ("many", got, want, "");
		CHECK("count", cnt == k.size() && s.size() == k.size(), "");
		if (k.empty()) {
			break;
		}
		size_t i = r.below(k.size());
		s.disconnect(k[i].second);
		k.erase(k.begin() + long(i));
	}
}

SUITE(throwing, 400, 0, "a callback throws: the exception reaches the emitter, the connections and later emissions are not affected; every case non-trivial")
{
	auto& r = c.r;
	c.nt();
	struct oops {
		size_t who;
	};
	struct std_oops : std::runtime_error {
		size_t who;
		explicit std_oops(size_t w) :
			std::runtime_error("oops"),
			who(w)
		{}
	};
	auto how = r.below(5);
	utki::signal<int, const std::string&> s;
	std::vector<utki::signal<int, const std::string&>::connection> k;
	std::vector<size_t> got;
	size_t n = r.range(1, 8);
	std::vector<bool> thrower(n), connected(n, true);
	for (size_t i = 0; i != n; ++i) {
		thrower[i] = r.chance(1, 3);
		k.push_back(s.connect([&, i](int v, const std::string& t) {
			CHECK("argument", std::to_string(v) == t, t);
			got.push_back(i);
			if (thrower[i]) {
				switch (how) {
					case 0:
						throw oops{i};
					case 1:
						throw std_oops(i);
					case 2:
						throw std::bad_function_call();
					case 3:
						throw std::out_of_range(std::to_string(i));
					default:
						throw i;
				}
			}
		}));
	}
	for (int round = 0; round != 6; ++round) {
		got.clear();
		std::vector<size_t> want;
		long who = -1, caught = -1;
		for (size_t i = 0; i != n && who < 0; ++i) {
			if (connected[i]) {
				want.push_back(i);
				if (thrower[i]) {
					who = long(i);
				}
			}
		}
		try {
			s.emit(round, std::to_string(round));
		} catch (const oops& o) {
			caught = how == 0 ? long(o.who) : -2;
		} catch (const std_oops& o) {
			caught = how == 1 ? long(o.who) : -2;
		} catch (const std::bad_function_call&) {
			caught = how == 2 ? who : -2;
		} catch (const std::out_of_range& e) {
			caught = how == 3 ? std::stol(e.what()) : -2;
		} catch (size_t i) {
			caught = how == 4 ? long(i) : -2;
		}
		CHECK_EQ("exception-passes", caught, who, "");
		CHECK_EQ("called-until-exception", got, want, "");
		size_t i = r.below(n);
		if (r.coin()) {
			thrower[i] = !thrower[i];
		} else if (connected[i]) {
			s.disconnect(k[i]);
			connected[i] = false;
		}
		CHECK_EQ("size", s.size(), size_t(std::count(connected.begin(), connected.end(), true)), "");
	}
	for (size_t i = 0; i != n; ++i) {
		if (connected[i]) {
			s.disconnect(k[i]);
		}
	}
	CHECK("empty-at-end", s.empty(), "");
	COUNT("emissions with throwing callbacks");
}

SUITE(callback_lifetime, 400, 0, "what a callback owns is kept while it is connected and released by its disconnection; every case non-trivial")
{
	auto& r = c.r;
	c.nt();
	size_t n = r.range(1, 10);
	std::vector<std::shared_ptr<size_t>> own;
	std::vector<bool> connected(n, true);
	size_t sum = 0;
	utki::signal<> s;
	std::vector<utki::signal<>::connection> k;
	for (size_t i = 0; i != n; ++i) {
		own.push_back(std::make_shared<size_t>(i + 1));
		k.push_back(s.connect([&sum, p = own.back()]() { sum += *p; }));
	}
	for (int step = 0; step != 12; ++step) {
		size_t i = r.below(n);
		if (connected[i]) {
			s.disconnect(k[i]);
			connected[i] = false;
		} else if (r.coin()) {
			k[i] = s.connect([&sum, p = own[i]]() { sum += *p; });
			connected[i] = true;
		}
		sum = 0;
		s.emit();
		size_t want = 0;
		for (size_t j = 0; j != n; ++j) {
			CHECK_EQ("owned-by-callback", own[j].use_count(), connected[j] ? 2 : 1, "callback ", j);
			want += connected[j] ? j + 1 : 0;
		}
		CHECK_EQ("sum", sum, want, "");
	}
	for (size_t j = 0; j != n; ++j) {
		if (connected[j]) {
			s.disconnect(k[j]);
		}
		CHECK_EQ("released-at-end", own[j].use_count(), 1, "callback ", j);
	}
}

SUITE(stateful, 400, 0, "callbacks with a state of their own: it is kept from emission to emission, and the connected callback is the one which runs; every case non-trivial")
{
	auto& r = c.r;
	c.nt();
	size_t n = r.range(1, 8);
	utki::signal<int> s;
	std::vector<utki::signal<int>::connection> k;
	std::vector<std::vector<int>> seen(n);
	std::vector<const void*> where(n);
	bool moved = false;
	for (size_t i = 0; i != n; ++i) {
		k.push_back(s.connect([&seen, &where, &moved, i, calls = int(i) * 1000, sum = 0, self = size_t(0)](int x) mutable {
			++calls;
			sum += x;
			seen[i] = {calls, sum};
			// the same object from the first call on
			moved |= where[i] && where[i] != &self;
			where[i] = &self;
		}));
	}
	std::vector<int> calls(n), sums(n);
	std::vector<bool> connected(n, true);
	for (int step = 0; step != 10; ++step) {
		if (r.chance(1, 5)) {
			size_t i = r.below(n);
			if (connected[i]) {
				s.disconnect(k[i]);
				connected[i] = false;
			}
		}
		int x = int(r.below(100));
		s.emit(x);
		for (size_t i = 0; i != n; ++i) {
			if (connected[i]) {
				++calls[i];
				sums[i] += x;
			}
			if (calls[i] != 0) {
				CHECK("state", seen[i].size() == 2 && seen[i][0] == int(i) * 1000 + calls[i] && seen[i][1] == sums[i], "callback ", i, " after ", calls[i], " calls: ", seen[i]);
			}
		}
	}
	CHECK("same-object", !moved, "a callback ran as another object than before");
	for (size_t i = 0; i != n; ++i) {
		if (connected[i]) {
			s.disconnect(k[i]);
		}
	}
}

SUITE(crowd, 1, fixed | novg | nofuzz, "70000 connections")
{
	c.nt();
	utki::signal<size_t&> s;
	std::vector<utki::signal<size_t&>::connection> k;
	const size_t n = 70000;
	size_t wrong = 0;
	for (size_t i = 0; i != n; ++i) {
		k.push_back(s.connect([&wrong, i](size_t& x) { wrong += x++ != i; }));
		CHECK("crowd-size", s.size() == i + 1 && !s.empty(), "after ", i + 1, " connections: ", s.size(), " empty ", s.empty());
	}
	size_t cnt = 0;
	s.emit(cnt);
	CHECK("crowd", cnt == n && wrong == 0 && s.size() == n && !s.empty(), cnt, " calls, ", wrong, " out of order, size ", s.size());
	for (size_t i = 0; i + 4500 < n; ++i) {
		s.disconnect(k[i]);
	}
	cnt = n - 4500;
	wrong = 0;
	s.emit(cnt);
	CHECK("crowd-left", cnt == n && wrong == 0 && s.size() == 4500 && !s.empty(), cnt, " ", wrong, " ", s.size());
	for (size_t i = n - 4500; i != n; ++i) {
		s.disconnect(k[i]);
		CHECK("crowd-size", s.size() == n - 1 - i && s.empty() == (i == n - 1), "with ", n - 1 - i, " connections: ", s.size(), " empty ", s.empty());
	}
	CHECK("empty-at-end", s.empty() && s.size() == 0, "");
}
