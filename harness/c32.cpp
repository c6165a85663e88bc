// C32: the library works as part of any program: from several translation units and a shared object, before main() and after it.
// c32_unit.cpp is compiled several times (different order of includes) into this program, and once into a shared object which is
// linked to it; a translation unit per public header includes just that header.
#define VH_MAIN
#include "c32_unit.h"

#include <set>

namespace c32 {
root_service::instance_type root_service::instance;
lasting_root::instance_type lasting_root::instance;

std::vector<unit*>& units()
{
	static auto u = new std::vector<unit*>; // never destroyed
	return *u;
}

vh::u64 early_seed(size_t i)
{
	return vh::mix(vh::mix(vh::env_u64("VERIF_SEED", 1)) ^ vh::mix(i + 77));
}
} // namespace c32

using namespace vh;
using namespace c32;

SUITE(before_main, 24, fixed | nofuzz, "the workload of all functional areas (that of C27) run by initialisers of static objects in every translation unit, before main(), against the same run now; every case non-trivial")
{
	auto& us = units();
	CHECK("harness", us.size() == 4, us.size(), " units");
	for (auto u : us) {
		CHECK("harness", u->early_done, "unit ", u->number);
		u64 d = 0;
		for (size_t i = 0; i != u->num_items(); ++i) {
			d = mix(d ^ u->work(i, mix(early_seed(c.index) ^ i)));
			COUNT("items run");
		}
		CHECK_EQ("before-main", u->early[c.index], d, "results of unit ", u->number, " before main() differ from the ones in main()");
		CHECK_EQ("units-agree", u->early[c.index], us.front()->early[c.index], "results before main() of unit ", u->number, " differ from the ones of unit ", us.front()->number);
	}
	c.distinct(c.index);
	c.nt(true);
}

SUITE(lasting_singletons, 1, fixed | nofuzz, "singletons living in static objects (global, function-local, owned by a static pointer, intrusive), created before main() or in it, seen from every unit; destroyed after main()")
{
	auto& us = units();
	for (auto u : us) {
		if (u->start) {
			u->start();
		}
	}
	auto a = us.front()->addresses();
	for (auto u : us) {
		auto b = u->addresses();
		for (size_t i = 2; i != 7; ++i) {
			CHECK("one-object", a[i] && b[i] == a[i], "unit ", u->number, " sees another lasting singleton ", i);
		}
		COUNT_N("lasting singletons seen", 5);
	}
	CHECK("value", lasting<0>::inst().value == 1000 && lasting<1>::inst().value == 1001 && lasting<2>::inst().value == 1002 && lasting<3>::inst().value == 1003 && lasting_root::inst().value == 2000);
	c.nt(true);
}

SUITE(units_agree, 400, nofuzz, "one functional area's workload run by every translation unit; every case non-trivial")
{
	auto& r = c.r;
	auto& us = units();
	auto item = size_t(r.below(us.front()->num_items()));
	auto seed = r.next();
	auto want = us.front()->work(item, seed);
	for (auto u : us) {
		CHECK_EQ("units-agree", u->work(item, seed), want, u->item_name(item), " in unit ", u->number, " differs from unit ", us.front()->number);
	}
	c.nt(true);
	COUNT_N("items run", us.size());
	SAMPLE(std::string(us.front()->item_name(item)), " seed ", seed);
}

SUITE(layouts, 1, fixed | nofuzz, "sizes and alignments of the library's classes in every translation unit")
{
	auto& us = units();
	auto want = us.front()->layouts();
	for (auto u : us) {
		auto got = u->layouts();
		CHECK_EQ("harness", got.size(), want.size());
		for (size_t i = 0; i != got.size(); ++i) {
			CHECK_EQ("layout", got[i].second, want[i].second, want[i].first, " (size and alignment) in unit ", u->number);
			COUNT("layouts");
		}
	}
	c.nt(true);
}

SUITE(across_units, 1500, nofuzz, "a random history of operations on objects which travel between translation units (singletons, parsers, signals, references, exceptions, trees ...), each operation run by a random unit, against the same history run by one unit; non-trivial when at least two units took part")
{
	auto& r = c.r;
	auto& us = units();
	auto text = r.text(r.size(60), "ab 12\n\t3-.,") + "h\xc3\xa4" + r.text(r.size(20), "xyz 7");
	auto bytes = r.bytes_vec(r.size(60));
	struct step {
		int op;
		int arg;
		size_t who;
	};
	std::vector<step> steps(r.range(2, 60));
	std::set<size_t> took_part;
	bool alive = false;
	for (auto& s : steps) {
		s.op = int(r.below(num_operations));
		if (s.op == 0) {
			alive = true;
		} else if (s.op == 1) {
			alive = false;
		} else if (s.op == 2 && !alive) {
			s.op = 0; // a second creation, so there has to be a first one
			alive = true;
		}
		s.arg = int(r.below(1000));
		s.who = size_t(r.below(us.size()));
		took_part.insert(s.who);
	}
	std::vector<std::string> want;
	{
		world w(text, bytes);
		for (const auto& s : steps) {
			want.push_back(us.front()->operation(w, s.op, s.arg));
		}
	}
	world w(text, bytes);
	size_t i = 0;
	for (const auto& s : steps) {
		note(str("operation ", s.op, " by unit ", us[s.who]->number));
		auto got = us[s.who]->operation(w, s.op, s.arg);
		CHECK_EQ("across-units", got, want[i], "operation ", s.op, "(", s.arg, ") step ", i, " run by unit ", us[s.who]->number, " ", us.front()->number, " is reference");
		++i;
		auto a = us.front()->addresses();
		for (auto u : us) {
			CHECK("one-object", u->addresses()[0] == a[0] && u->addresses()[1] == a[1], "unit ", u->number, " sees another singleton than unit ", us.front()->number, " after operation ", s.op);
		}
		COUNT("operations across units");
	}
	c.nt(took_part.size() > 1);
	SAMPLE(steps.size(), " operations by ", took_part.size(), " units: ", want);
}
