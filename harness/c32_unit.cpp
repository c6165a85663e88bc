// One of several translation units of C32's program (-DUNIT=number).  The units differ in the order of their includes.
#if UNIT == 0
#	include <cassert>
#	include <utki/base64.hpp>
#	include <utki/config.hpp>
#	include <utki/debug.hpp>
#	include <utki/deserializer.hpp>
#	include <utki/destructable.hpp>
#	include <utki/enum_array.hpp>
#	include <utki/enum_iterable.hpp>
#	include <utki/exception.hpp>
#	include <utki/flags.hpp>
#	include <utki/linq.hpp>
#	include <utki/log.hpp>
#	include <utki/macros.hpp>
#	include <utki/math.hpp>
#	include <utki/shared.hpp>
#	include <utki/shared_ref.hpp>
#	include <utki/signal.hpp>
#	include <utki/singleton.hpp>
#	include <utki/sort.hpp>
#	include <utki/span.hpp>
#	include <utki/spin_lock.hpp>
#	include <utki/string.hpp>
#	include <utki/time.hpp>
#	include <utki/tree.hpp>
#	include <utki/type_traits.hpp>
#	include <utki/unicode.hpp>
#	include <utki/unique_ref.hpp>
#	include <utki/utility.hpp>
#	include <utki/variant.hpp>
#	include <utki/version.hpp>
#	include <utki/views.hpp>
#elif UNIT == 1
#	include <utki/views.hpp>
#	include <utki/version.hpp>
#	include <utki/variant.hpp>
#	include <utki/utility.hpp>
#	include <utki/unique_ref.hpp>
#	include <utki/unicode.hpp>
#	include <utki/type_traits.hpp>
#	include <utki/tree.hpp>
#	include <utki/time.hpp>
#	include <utki/string.hpp>
#	include <utki/spin_lock.hpp>
#	include <utki/span.hpp>
#	include <utki/sort.hpp>
#	include <utki/singleton.hpp>
#	include <utki/signal.hpp>
#	include <utki/shared_ref.hpp>
#	include <utki/shared.hpp>
#	include <utki/math.hpp>
#	include <utki/macros.hpp>
#	include <utki/log.hpp>
#	include <utki/linq.hpp>
#	include <utki/flags.hpp>
#	include <utki/exception.hpp>
#	include <utki/enum_iterable.hpp>
#	include <utki/enum_array.hpp>
#	include <utki/destructable.hpp>
#	include <utki/deserializer.hpp>
#	include <utki/debug.hpp>
#	include <utki/config.hpp>
#	include <utki/base64.hpp>
#elif UNIT == 2
#	include <utki/tree.hpp>
#	include <utki/flags.hpp>
#	include <utki/unicode.hpp>
#	include <utki/log.hpp>
#	include <utki/unique_ref.hpp>
#	include <utki/linq.hpp>
#	include <utki/enum_array.hpp>
#	include <utki/deserializer.hpp>
#	include <utki/signal.hpp>
#	include <utki/singleton.hpp>
#	include <utki/util.hpp>
#	include <utki/types.hpp>
#endif

#ifndef VH_THREAD_DIGEST
#	error "all units of the program have to be compiled with -DVH_THREAD_DIGEST"
#endif
#include "vh.hpp"

#include <array>
#include <deque>
#include <list>
#include <set>
#include <sstream>

namespace {
struct work_item {
	const char* name;
	void (*body)(vh::ctx&);
};
std::vector<work_item>& work()
{
	static auto w = new std::vector<work_item>; // never destroyed
	return *w;
}
struct work_reg {
	work_reg(const char* name, void (*body)(vh::ctx&)) { work().push_back({name, body}); }
};
} // namespace

#undef SUITE
#undef COUNT
#undef COUNT_N
#undef SAMPLE
#define SUITE(name, cases, flags, rule) \
	static void work_##name(vh::ctx& c); \
	static work_reg reg_##name(#name, &work_##name); \
	static void work_##name([[maybe_unused]] vh::ctx& c)
#define COUNT(...) ((void)0)
#define COUNT_N(...) ((void)0)
#define SAMPLE(...) ((void)0)
#include "c27.cpp"
#include "more.inc"

#include <utki/destructable.hpp>
#include <utki/spin_lock.hpp>

#include "c32_unit.h"

namespace {

u64 run_item(size_t what, u64 seed)
{
	auto before = digest();
	digest() = 0;
	rng r(seed);
	suite_def s{work()[what].name, 0, 0, nullptr, ""};
	ctx c{r, s, 0};
	work()[what].body(c);
	auto d = digest();
	digest() = before;
	return d;
}

std::vector<std::pair<std::string, size_t>> layouts()
{
	std::vector<std::pair<std::string, size_t>> r;
#define LAYOUT(...) r.emplace_back(#__VA_ARGS__, sizeof(__VA_ARGS__) * 1000 + alignof(__VA_ARGS__))
	LAYOUT(utki::deserializer);
	LAYOUT(utki::string_parser);
	LAYOUT(utki::utf8_iterator);
	LAYOUT(utki::exception);
	LAYOUT(utki::stacked_exception<c32::own_error>);
	LAYOUT(utki::span<int>);
	LAYOUT(utki::span<const uint8_t>);
	LAYOUT(utki::signal<int, const std::string&>);
	LAYOUT(utki::shared_ref<c32::base>);
	LAYOUT(utki::unique_ref<c32::base>);
	LAYOUT(utki::flags<c32::color>);
	LAYOUT(utki::enum_array<int, c32::color>);
	LAYOUT(utki::tree<int>);
	LAYOUT(utki::traversal<std::vector<utki::tree<int>>>);
	LAYOUT(utki::version_duplet);
	LAYOUT(utki::version_triplet);
	LAYOUT(utki::destructable);
	LAYOUT(utki::shared);
	LAYOUT(utki::spin_lock);
	LAYOUT(utki::scope_exit);
	LAYOUT(c32::service);
	LAYOUT(c32::root_service);
#undef LAYOUT
	return r;
}

std::vector<const void*> addresses()
{
	std::vector<const void*> r;
	r.push_back(c32::service::is_created() ? &c32::service::inst() : nullptr);
	r.push_back(c32::root_service::is_created() ? &c32::root_service::inst() : nullptr);
	r.push_back(&c32::lasting<0>::inst());
	r.push_back(&c32::lasting<1>::inst());
	r.push_back(c32::lasting<2>::is_created() ? &c32::lasting<2>::inst() : nullptr);
	r.push_back(&c32::lasting<3>::inst());
	r.push_back(&c32::lasting_root::inst());
	r.push_back(&typeid(utki::exception));
	return r;
}

std::string operation(c32::world& w, int op, int arg)
{
	using c32::color;
	auto col = color(arg % 3);
	switch (op) {
		case 0:
			if (!c32::service::is_created()) {
				w.s = std::make_unique<c32::service>(arg);
			}
			return str("service ", c32::service::inst().value);
		case 1:
			w.s.reset();
			return str("no service ", c32::service::is_created());
		case 2:
			try {
				c32::service again(arg);
				again.value = 0;
				w.left.push_back(-1);
				return "another service";
			} catch (const std::logic_error&) {
				return str("rejected ", c32::service::inst().value);
			}
		case 3:
			if (!c32::root_service::is_created()) {
				w.rs = std::make_unique<c32::root_service>(arg);
			}
			return str("root service ", c32::root_service::inst().value);
		case 4:
			w.rs.reset();
			return str("no root service ", c32::root_service::is_created());
		case 5:
			try {
				auto t = w.parser.read_word();
				w.parser.skip_whitespaces();
				return std::string(t);
			} catch (const std::invalid_argument&) {
				return "nothing to read";
			}
		case 6:
			try {
				return str(w.parser.read_number<int>(), " rest ", w.parser.size());
			} catch (const std::invalid_argument&) {
				return "no number";
			}
		case 7:
			try {
				return str(w.des.size() % 2 ? w.des.read_uint16_le() : w.des.read_uint32_be(), " rest ", w.des.size());
			} catch (const std::invalid_argument&) {
				return "no bytes";
			}
		case 8:
			if (w.chars.is_end()) {
				return "end of text";
			}
			{
				auto c = u32(w.chars.character());
				++w.chars;
				return str("character ", c);
			}
		case 9: {
			auto& heard = w.heard;
			w.connections.push_back(w.sig.connect([arg, &heard](int a, const std::string& s) {
				heard.push_back(str(arg, a, s));
			}));
			return str("connection ", w.connections.back() == w.connections.front());
		}
		case 10: {
			auto before = w.heard.size();
			w.sig.emit(arg, w.text);
			auto n = w.heard.size() - before;
			std::string all;
			for (size_t i = before; i != w.heard.size(); ++i) {
				all += w.heard[i];
			}
			return str("heard ", n, " ", all);
		}
		case 11:
			if (w.connections.empty()) {
				return "no connection";
			}
			{
				auto i = size_t(arg) % w.connections.size();
				w.sig.disconnect(w.connections[i]);
				w.connections.erase(w.connections.begin() + long(i));
				return str("left ", w.connections.size());
			}
		case 12:
			w.refs.push_back(arg % 2 ? utki::make_shared<c32::base>(arg) : utki::shared_ref<c32::base>(utki::make_shared<c32::derived>(arg)));
			return str("ref ", w.refs.back().get().twice());
		case 13:
			if (w.refs.empty()) {
				return "no ref";
			}
			{
				auto& f = w.refs[size_t(arg) % w.refs.size()];
				auto copy = f;
				return str(copy.to_shared_ptr() == f.to_shared_ptr(), copy.get().twice(), dynamic_cast<c32::derived*>(&copy.get()) != nullptr, " uses ", copy.to_shared_ptr().use_count() - 1);
			}
		case 14:
			w.owned.push_back(utki::make_unique<c32::derived>(arg));
			return str("owned ", w.owned.back().get().twice());
		case 15:
			if (w.owned.empty()) {
				return "nothing owned";
			}
			{
				auto last = std::move(w.owned.back());
				w.owned.pop_back();
				return str("released ", last.get().twice());
			}
		case 16:
			w.flags.set(col, arg % 2 == 0);
			return str(w.flags);
		case 17:
			w.per_color[col] += arg;
			return str(w.per_color[color::red], " ", w.per_color[color::green], " ", w.per_color[color::blue]);
		case 18: {
			utki::traversal<decltype(w.forest.children)> tr(w.forest.children);
			if (w.forest.children.empty() || arg % 3 == 0) {
				w.forest.children.emplace_back(arg);
			} else {
				size_t n = 0;
				for ([[maybe_unused]] auto& t : tr) {
					++n;
				}
				auto i = tr.begin();
				for (size_t k = size_t(arg) % n; k != 0; --k) {
					++i;
				}
				i->children.emplace_back(arg);
			}
			std::string all;
			for (auto& t : tr) {
				all += str(t.value, ",");
			}
			return all;
		}
		case 19:
			try {
				switch (arg % 4) {
					case 0: throw c32::own_error("own");
					case 1: throw std::runtime_error("std");
					case 2: throw arg;
					default:
						try {
							throw std::logic_error("inner");
						} catch (...) {
							utki::throw_with_nested(c32::own_error("outer"));
						}
				}
			} catch (...) {
				w.problem = std::current_exception();
			}
			return "problem kept";
		case 20:
			if (!w.problem) {
				return "no problem";
			}
			try {
				std::rethrow_exception(w.problem);
			} catch (const c32::own_error& e) {
				return str("own error ", utki::to_string(static_cast<const std::exception&>(e)));
			} catch (const std::exception& e) {
				return str("std exception ", utki::to_string(static_cast<const std::exception&>(e)));
			} catch (...) {
				return utki::current_exception_to_string();
			}
		case 21: {
			auto guard = std::make_unique<utki::scope_exit>([&w, arg]() {
				w.left.push_back(arg);
			});
			if (arg % 2) {
				guard->release();
			}
			guard.reset();
			return str("left ", w.left.size());
		}
		case 22: {
			utki::version_duplet a{uint16_t(arg), 1};
			utki::version_duplet b{1, uint16_t(arg / 2)};
			return str(a < b, b < a, b.to_uint32_t());
		}
		default: {
			auto s = utki::make_span(w.bytes);
			auto sub = s.subspan(size_t(arg) % (s.size() + 1));
			return str(sub.size(), utki::make_string(utki::to_char(sub)).size(), utki::demangle(typeid(c32::world)));
		}
	}
}

std::vector<size_t> quick_items() // those which are run at start and at exit
{
	std::vector<size_t> r;
	for (size_t i = 0; i != work().size(); ++i) {
		r.push_back(i);
	}
	return r;
}

u64 all_items(u64 seed)
{
	u64 d = 0;
	for (auto i : quick_items()) {
		d = mix(d ^ run_item(i, mix(seed ^ i)));
	}
	return d;
}

#if UNIT == 0
c32::lasting<0> lasting_global;
std::unique_ptr<c32::lasting<1>> lasting_owned = std::make_unique<c32::lasting<1>>();
std::unique_ptr<c32::lasting<2>> lasting_owned_later; // made in main(), see below
c32::lasting<3>& lasting_local()
{
	static c32::lasting<3> x;
	return x;
}
c32::lasting_root lasting_intrusive;
#endif

// the same with classes which no other unit knows, so that nothing of them is initialised earlier than the objects
template <int N>
class own_lasting : public utki::singleton<own_lasting<N>>
{
public:
	int value = 3000 + N;
	~own_lasting() { this->value = -1; }
};
own_lasting<0> own_global;
std::unique_ptr<own_lasting<1>> own_owned = std::make_unique<own_lasting<1>>();
std::unique_ptr<own_lasting<2>> own_owned_later;
own_lasting<3>& own_local()
{
	static own_lasting<3> x;
	return x;
}

// runs the workload before main() and after it
struct early_bird {
	c32::unit u;
	early_bird()
	{
		this->u.number = UNIT;
		vh::init(); // so that a crash is attributed
		if (auto k = vh::st().cr) {
			std::strcpy(k->suite, "before_main");
			k->case_index = UNIT;
		}
		this->u.num_items = [] {
			return work().size();
		};
		this->u.item_name = [](size_t i) {
			return work()[i].name;
		};
		this->u.work = &run_item;
		this->u.layouts = &layouts;
		this->u.addresses = &addresses;
		this->u.operation = &operation;
		for (size_t i = 0; i != std::size(this->u.early); ++i) {
			this->u.early[i] = all_items(c32::early_seed(i));
		}
		this->u.early_done = true;
		own_local();
#if UNIT == 0
		lasting_local();
#endif
		this->u.start = [] {
#if UNIT == 0
			if (!lasting_owned_later) {
				lasting_owned_later = std::make_unique<c32::lasting<2>>();
			}
#endif
			if (!own_owned_later) {
				own_owned_later = std::make_unique<own_lasting<2>>();
			}
		};
		c32::units().push_back(&this->u);
	}
	~early_bird()
	{
		if (auto k = vh::st().cr) {
			std::strcpy(k->suite, "after_main");
			k->case_index = UNIT;
		}
		bool own_ok = own_lasting<0>::is_created() && own_lasting<0>::inst().value == 3000 && own_lasting<1>::is_created() && own_lasting<1>::inst().value == 3001 && own_lasting<2>::is_created() == (own_owned_later != nullptr) &&
			own_lasting<3>::is_created() && own_lasting<3>::inst().value == 3003;
		if (!own_ok) {
			fprintf(stderr, "after main(): a singleton living in a static object is lost: assertion failed\n");
			abort();
		}
#if UNIT == 0
		bool ok = c32::lasting<0>::is_created() && c32::lasting<0>::inst().value == 1000 && c32::lasting<1>::is_created() && c32::lasting<1>::inst().value == 1001 && c32::lasting<2>::is_created() == (lasting_owned_later != nullptr) &&
			c32::lasting<3>::is_created() && c32::lasting<3>::inst().value == 1003 && c32::lasting_root::is_created() && c32::lasting_root::inst().value == 2000;
		if (!ok) {
			fprintf(stderr, "after main(): a singleton living in a static object is lost: assertion failed\n");
			abort();
		}
#endif
		for (size_t i = 0; i != std::size(this->u.early); ++i) {
			auto d = all_items(c32::early_seed(i));
			if (d != this->u.early[i]) {
				fprintf(stderr, "after main(): unit %d, workload %d gives another result than before main(): assertion failed\n", UNIT, int(i));
				abort();
			}
		}
	}
} bird;

} // namespace
