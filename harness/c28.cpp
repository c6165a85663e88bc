// C28: the library keeps no hidden state shared between threads.
// The workload of C27 (all functional areas) and some more is run by several threads at once, each on objects of its own, and the
// digest of all results of every item is compared with the one obtained by the same item run alone; const operations on
// one shared object are run by several threads and compared as well. ThreadSanitizer watches all of it for data races.
#define VH_MAIN
#define VH_THREAD_DIGEST
#include "vh.hpp"

#include <array>
#include <atomic>
#include <deque>
#include <list>
#include <set>
#include <sstream>
#include <thread>

namespace {
struct work_item {
	const char* name;
	void (*body)(vh::ctx&);
};
std::vector<work_item>& work()
{
	static std::vector<work_item> w;
	return w;
}
struct work_reg {
	work_reg(const char* name, void (*body)(vh::ctx&)) { work().push_back({name, body}); }
};
} // namespace

#undef SUITE
#undef COUNT
#undef COUNT_N
#undef SAMPLE
#define SUITE(name, cases, flags, rule) \
	static void work_##name(vh::ctx& c); \
	static work_reg reg_##name(#name, &work_##name); \
	static void work_##name([[maybe_unused]] vh::ctx& c)
#define COUNT(...) ((void)0)
#define COUNT_N(...) ((void)0)
#define SAMPLE(...) ((void)0)
#include "c27.cpp"

#include "more.inc"

#undef SUITE
#undef COUNT
#undef COUNT_N
#undef SAMPLE
#define SUITE(name, cases, flags, rule) \
	static void suite_##name(vh::ctx& c); \
	static vh::reg reg_s_##name(#name, cases, flags, &suite_##name, rule); \
	static void suite_##name([[maybe_unused]] vh::ctx& c)
#define SAMPLE(...) \
	do { \
		if (vh::want_sample()) { \
			vh::st().cur_sample = vh::str(__VA_ARGS__); \
		} \
	} while (false)
#define COUNT_N(name, n) \
	do { \
		static vh::u64& vh_cnt = vh::st().counters[name]; \
		vh_cnt += vh::u64(n); \
	} while (false)

namespace {
struct item {
	size_t what;
	u64 seed;
};

u64 run_item(const item& i, const suite_def& s)
{
	digest() = 0;
	rng r(i.seed);
	ctx c{r, s, 0};
	work()[i.what].body(c);
	return digest();
}

// starts all threads at about the same moment
struct gate {
	std::atomic<size_t> ready{0};
	const size_t n;
	explicit gate(size_t n) :
		n(n)
	{}
	void pass()
	{
		++this->ready;
		while (this->ready.load() < this->n) {
			std::this_thread::yield();
		}
	}
};
} // namespace

SUITE(independent, 240, nofuzz | novg, "2 to 6 threads run items of all functional areas at once (the same items in several threads, rotated, or different ones), each on objects of its own; non-trivial when results of at least two threads were compared")
{
	auto& r = c.r;
	size_t nt = r.range(2, 6);
	bool same = r.coin();
	size_t only = r.chance(1, 2) ? size_t(r.below(work().size())) : work().size(); // one functional area, or all of them
	size_t k = r.range(4, 14);
	std::vector<std::vector<item>> items(nt);
	std::vector<std::vector<u64>> want(nt), got(nt);
	std::string names;
	for (size_t t = 0; t != nt; ++t) {
		for (size_t i = 0; i != k; ++i) {
			if (t != 0 && same) {
				items[t].push_back(items[0][(i + t) % k]);
			} else {
				items[t].push_back({only < work().size() ? only : size_t(r.below(work().size())), r.next()});
			}
			if (t == 0) {
				names += std::string(work()[items[t].back().what].name) + " ";
			}
		}
		got[t].resize(k);
	}
	note(str(nt, " threads: ", names));
	std::vector<std::thread> ths;
	gate g(nt);
	for (size_t t = 0; t != nt; ++t) {
		ths.emplace_back([&, t]() {
			g.pass();
			for (size_t i = 0; i != k; ++i) {
				got[t][i] = run_item(items[t][i], c.s);
			}
		});
	}
	for (auto& t : ths) {
		t.join();
	}
	// the threads come first, so that nothing was initialised or cached by a single-threaded run before
	for (size_t t = 0; t != nt; ++t) {
		for (size_t i = 0; i != k; ++i) {
			auto alone = run_item(items[t][i], c.s);
			CHECK("same-as-alone", got[t][i] == alone, "item ", work()[items[t][i].what].name, " of thread ", t, " gave other results together with other threads than alone; ", names);
		}
	}
	c.nt(nt > 1);
	SAMPLE(nt, " threads: ", names);
	COUNT_N("items run concurrently", nt * k);
	COUNT_N("threads", nt);
}

namespace {
struct counter_singleton : utki::singleton<counter_singleton> {
	int value = 17;
};
} // namespace

SUITE(shared_objects, 120, nofuzz | novg, "2 to 6 threads use const operations on the same tree, flags, enum_array, span, signal, text, vector, exception and singleton; every thread gets the result of a single one; every case non-trivial")
{
	auto& r = c.r;
	c.nt();
	size_t nt = r.range(2, 6);
	tr::container_type roots_m;
	int next = 0;
	fill(r, roots_m, 0, next);
	const auto& roots = roots_m;
	utki::flags<en> fl_m, fl2_m;
	for (int i = 0; i != 10; ++i) {
		fl_m.set(en(i), r.coin());
		fl2_m.set(en(i), r.coin());
	}
	const auto &fl = fl_m, &fl2 = fl2_m;
	utki::enum_array<int, en> arr_m{};
	for (auto& x : arr_m) {
		x = int(r.below(100));
	}
	const auto& arr = arr_m;
	const auto text = random_text(r, 300);
	std::vector<std::string> words_m = utki::split(std::string_view(text));
	const auto& words = words_m;
	const auto bytes = r.bytes_vec(r.size(100));
	const auto sp = utki::make_span(bytes);
	utki::signal<int> sig_m;
	auto conn = sig_m.connect([](int) {});
	utki::scope_exit disconnect([&]() { sig_m.disconnect(conn); });
	const auto& sig = sig_m;
	const std::runtime_error err("some text");
	const auto ref = utki::make_shared<std::string>(text);
	const utki::string_parser parser(text);
	const utki::version_duplet ver{uint16_t(r.below(4)), uint16_t(r.below(4))};
	counter_singleton single;
	auto all = [&]() {
		digest() = 0;
		rec("tree", [&]() {
			auto t = utki::make_traversal(roots);
			std::vector<int> v;
			for (auto i = t.begin(); i != t.end(); ++i) {
				v.push_back(i->value);
				v.push_back(int(i.depth()));
				v.push_back(t[utki::make_span(i.index())].value);
				v.push_back(i.is_last_child());
				v.push_back(i.at_level(0).value);
			}
			for (auto i = t.rbegin(); i != t.rend(); ++i) {
				v.push_back(i->value);
			}
			auto copy = roots;
			v.push_back(copy == roots);
			return v;
		});
		rec("flags", [&]() {
			std::ostringstream ss;
			ss << fl << (fl | fl2) << (fl & fl2) << (fl ^ fl2) << ~fl << (fl == fl2) << fl.get(en::c) << fl.is_clear() << fl.is_set() << fl.size();
			return ss.str();
		});
		rec("enum-array", [&]() { return std::vector<int>{arr[en::a], arr[en::j], int(arr.size())}; });
		rec("text", [&]() {
			auto v = utki::split(text, ' ');
			v.push_back(utki::join(words, ','));
			v.emplace_back(utki::trim(text));
			for (auto& l : utki::word_wrap(text, 20)) {
				v.push_back(l);
			}
			return v;
		});
		rec("linq", [&]() {
			return utki::linq(words)
				.where([](const std::string& s) { return s.size() > 1; })
				.order_by([](const std::string& s) -> const std::string& { return s; })
				.select([](const std::string& s, size_t i) { return s + std::to_string(i); })
				.get();
		});
		rec("span", [&]() {
			return std::vector<int>{
				utki::deep_equals(sp, utki::make_span(bytes)), utki::deep_less_than(sp, sp), utki::overlaps(sp, bytes.data()), int(utki::make_vector(sp).size()),
				int(utki::make_string(sp).size())};
		});
		rec("signal", [&]() { return int(sig.size()) * 2 + sig.empty(); });
		rec("exception", [&]() { return utki::to_string(err, "  "); });
		rec("parser", [&]() {
			auto p = parser;
			std::vector<std::string> v;
			while (!p.empty()) {
				p.skip_whitespaces_and_comma();
				v.emplace_back(p.read_word());
				v.push_back(std::to_string(parser.size()));
			}
			return v;
		});
		rec("ref", [&]() {
			auto a = ref;
			utki::shared_ref<const std::string> b = a;
			auto w = a.to_shared_ptr();
			return a.get() + b.get() + *w;
		});
		rec("version", [&]() { return ver.to_uint32_t(); });
		rec("singleton", [&]() { return counter_singleton::inst().value + counter_singleton::is_created(); });
		rec("views", [&]() {
			std::vector<int> v;
			for (auto t : utki::views::zip(words, bytes)) {
				v.push_back(int(std::get<0>(t).size()) + std::get<1>(t));
			}
			for (auto& x : utki::views::reverse(words)) {
				v.push_back(int(x.size()));
			}
			v.push_back(utki::contains(words, std::string("a")));
			return v;
		});
		return digest();
	};
	std::vector<std::array<u64, 3>> got(nt);
	std::vector<std::thread> ths;
	gate g(nt);
	for (size_t t = 0; t != nt; ++t) {
		ths.emplace_back([&, t]() {
			g.pass();
			for (auto& x : got[t]) {
				x = all();
			}
		});
	}
	for (auto& t : ths) {
		t.join();
	}
	auto want = all();
	for (size_t t = 0; t != nt; ++t) {
		for (auto& x : got[t]) {
			CHECK("shared-object", x == want, "thread ", t, " of ", nt, " got other results from a shared object than a single thread");
		}
	}
	std::shared_ptr<std::string> shared = ref.to_shared_ptr();
	CHECK("ref-count", shared.use_count() == 2, "");
	SAMPLE(nt, " threads; text: ", vh::show(text));
	COUNT_N("passes over shared objects", 3 * nt);
}
