// C12: tree traversal visits every node once in pre-order, both ways; indices, depth, levels and comparisons agree.
// Oracle: a mirrored plain model of the forest with its own recursive pre-order (treeref.hpp).
#define VH_MAIN
#include "vh.hpp"

#include <list>

#include <utki/span.hpp>
#include <utki/tree.hpp>

#include "treeref.hpp"

using namespace vh;
using vtree = utki::tree<int>;
using ltree = utki::tree<int, std::list>;

template <typename It>
static void at_node(const It& it, const tr::entry& e, const tr::forest& f, bool full)
{
	CHECK("value", (*it).value == e.v && it->value == e.v, "at ", e.p, " got ", it->value);
	CHECK("index", it.index() == e.p, "index is ", it.index(), " expected ", e.p);
	CHECK("depth", it.depth() == e.p.size(), "depth is ", it.depth(), " at ", e.p);
	if (!full) {
		return;
	}
	const tr::forest* list = &f;
	for (size_t l = 0; l != e.p.size(); ++l) {
		const auto& n = (*list)[e.p[l]];
		CHECK("at-level", it.at_level(l).value == n.v, "level ", l, " of ", e.p);
		list = &n.ch;
	}
	const auto& siblings = e.p.size() == 1 ? f : tr::find(f, tr::path(e.p.begin(), e.p.end() - 1))->ch;
	CHECK("is-last-child", it.is_last_child() == (e.p.back() + 1 == siblings.size()), "at ", e.p);
}

template <typename Trav, typename Begin, typename End>
static void walk(Begin b, End e, const std::vector<tr::entry>& want, const tr::forest& f, const char* what)
{
	std::string w = what;
	size_t i = 0;
	auto it = b;
	for (; !(it == e); ++it) {
		CHECK("visits-too-many", i < want.size(), w, " forest ", tr::show(f));
		CHECK("not-equal", it != e, w);
		at_node(it, want[i], f, true);
		++i;
		progress();
	}
	CHECK("visits-all", i == want.size(), w, " visited ", i, " of ", want.size(), " forest ", tr::show(f));
	CHECK("end-not-last-child", !it.is_last_child(), w);
	// back from the end
	for (; i != 0;) {
		--i;
		--it;
		at_node(it, want[i], f, false);
	}
	CHECK("back-at-begin", it == b, w);
	COUNT_N("nodes.visited", want.size());
}

template <typename Tree>
static void traversals(ctx& c, const tr::forest& f)
{
	auto roots = tr::build<Tree>(f);
	const auto& croots = roots;
	auto want = tr::preorder(f);
	auto t = utki::make_traversal(roots);
	using trav = decltype(t);
	auto it_begin = t.begin();
	auto it_end = t.end();
	{
		size_t i = 0;
		for (auto& n : t) { // as a range
			CHECK("range-for", i < want.size() && n.value == want[i].v, "node ", i, " forest ", tr::show(f));
			++i;
		}
		CHECK("range-for-all", i == want.size(), "forest ", tr::show(f));
	}
	{
		size_t i = 0;
		for (auto it = it_begin; it != it_end; ++it, ++i) {
			CHECK("fwd", i < want.size(), "too many nodes");
			at_node(it, want[i], f, true);
		}
		CHECK("fwd-all", i == want.size(), "visited ", i, " of ", want.size());
		CHECK("const-fwd-all", size_t(std::distance(t.cbegin(), t.cend())) == want.size(), "");
		i = 0;
		for (auto it = t.cbegin(); it != t.cend(); ++it, ++i) {
			at_node(it, want[i], f, true);
		}
		const auto ct = utki::make_traversal(croots);
		i = 0;
		for (auto it = ct.cbegin(); it != ct.cend(); ++it, ++i) {
			CHECK("const-fwd", i < want.size(), "too many nodes");
			at_node(it, want[i], f, false);
		}
		CHECK("const-all", i == want.size(), "");
		auto ct2 = utki::make_traversal(croots);
		i = 0;
		for (auto it = ct2.begin(); it != ct2.end(); ++it, ++i) {
			CHECK("const-fwd2", i < want.size(), "too many nodes");
			at_node(it, want[i], f, false);
		}
		CHECK("const-all2", i == want.size(), "");
	}
	// backwards
	{
		size_t i = want.size();
		for (auto it = t.rbegin(); it != t.rend(); ++it) {
			CHECK("reverse-too-many", i != 0, "forest ", tr::show(f));
			--i;
			CHECK("reverse", (*it).value == want[i].v && std::prev(it.base()).index() == want[i].p, "position ", i, " forest ", tr::show(f));
		}
		CHECK("reverse-all", i == 0, "left ", i, " forest ", tr::show(f));
		i = want.size();
		for (auto it = t.crbegin(); it != t.crend(); ++it) {
			CHECK("creverse-too-many", i != 0, "forest ", tr::show(f));
			--i;
			CHECK("creverse", (*it).value == want[i].v, "position ", i, " forest ", tr::show(f));
		}
		CHECK("creverse-all", i == 0, "left ", i);
		auto it = t.end();
		for (i = want.size(); i != 0;) {
			--i;
			--it;
			at_node(it, want[i], f, true);
		}
		CHECK("back-at-begin", it == t.begin(), "");
	}
	// random walk: ++ and -- undo each other
	if (!want.empty()) {
		size_t pos = 0;
		auto it = t.begin();
		for (int k = 0; k != 60; ++k) {
			bool fwd = pos == want.size() ? false : pos == 0 ? true : c.r.coin();
			if (fwd) {
				if (c.r.coin()) {
					++it;
				} else {
					auto old = it;
					++it;
					CHECK("old-stays", old.index() == want[pos].p, "");
				}
				++pos;
			} else {
				--it;
				--pos;
			}
			if (pos == want.size()) {
				CHECK("at-end", it == t.end(), "");
			} else {
				at_node(it, want[pos], f, true);
			}
		}
	}
	COUNT_N("nodes.visited", want.size());
	// indices
	size_t step = want.size() > 60 ? want.size() / 60 : 1;
	for (size_t i = 0; i < want.size(); i += step) {
		auto& p = want[i].p;
		auto it = t.make_iterator(p);
		at_node(it, want[i], f, true);
		auto std_it = t.begin();
		std::advance(std_it, long(i));
		CHECK("make-iterator-same", it == std_it && &*it == &*std_it, "at ", p);
		auto ci = t.make_const_iterator(p);
		at_node(ci, want[i], f, false);
		CHECK("const-same-node", &*ci == &*it, "");
		at_node(t.make_iterator(utki::make_span(p)), want[i], f, false);
		at_node(t.make_const_iterator(utki::make_span(p)), want[i], f, false);
		// onward from an index-made iterator
		++it;
		if (i + 1 == want.size()) {
			CHECK("onward-end", it == t.end(), "from ", p);
		} else {
			at_node(it, want[i + 1], f, false);
		}
		COUNT("indices.valid");
	}
}

SUITE(forests, 800, 0, "random forests (chains, wide, mixed, empty; up to 150 nodes; vector and list containers): complete walks in all directions, every level, indices; non-trivial with at least 3 nodes")
{
	auto f = tr::random_forest(c.r, 150);
	auto n = tr::count(f);
	c.nt(n >= 3);
	SAMPLE(std::string(tr::show(f)));
	note(tr::show(f).substr(0, 240));
	traversals<vtree>(c, f);
	traversals<ltree>(c, f);
}

SUITE(big_forests, 14, fixed | novg, "deep chains of up to 1500 levels and nodes with up to 66000 children; every case non-trivial")
{
	c.nt();
	c.distinct(c.index);
	tr::forest f;
	if (c.index % 2 == 0) {
		auto* l = &f;
		for (size_t i = 0, n = c.index == 12 ? 1500 : 40 * (c.index + 1); i != n; ++i) {
			l->resize(1 + c.r.below(2));
			for (auto& x : *l) {
				x.v = int(i);
			}
			l = &l->back().ch;
		}
	} else {
		f.resize(2);
		f[c.index % 4 == 1 ? 0 : 1].ch.resize(c.index == 13 ? 66000 : 250 * (c.index + 1));
		int v = 0;
		for (auto& x : f) {
			for (auto& y : x.ch) {
				y.v = ++v;
			}
		}
	}
	auto roots = tr::build<vtree>(f);
	auto want = tr::preorder(f);
	auto t = utki::make_traversal(roots);
	walk<decltype(t)>(t.cbegin(), t.cend(), want, f, "big");
	// index paths of some nodes
	for (size_t k = 0; k != 12; ++k) {
		size_t i = k == 0 ? want.size() - 1 : k == 1 ? want.size() / 2 : size_t(c.r.below(want.size()));
		auto p = want[i].p;
		auto d = str("node ", i, " at depth ", p.size());
		CHECK("big-is-valid", t.is_valid(p), d);
		CHECK_EQ("big-at", int(t[p].value), want[i].v, d);
		auto it = t.make_iterator(p);
		CHECK("big-iterator", it.index() == p && it.depth() == p.size() && int(it->value) == want[i].v, d);
		p.back() += 70000;
		CHECK("big-is-invalid", !t.is_valid(p), d);
	}
}

SUITE(widths, 56, fixed | novg, "forests with a list of exactly w nodes (14 widths of 2..257 around powers of two) at the top, under the first of several nodes, under the last one, or deeper, whose elements are leaves or have children: the complete walks and index paths of `forests`; every case non-trivial")
{
	static const size_t sizes[] = {2, 4, 7, 8, 15, 16, 17, 31, 63, 127, 128, 255, 256, 257};
	auto w = sizes[c.index / 4];
	tr::forest f;
	auto* l = &f;
	int v = 0;
	switch (c.index % 4) {
		case 0: break;
		case 1:
			f.resize(3);
			l = &f[0].ch;
			break;
		case 2:
			f.resize(2);
			l = &f[1].ch;
			break;
		default:
			f.resize(2);
			f[1].ch.resize(1);
			f[1].ch[0].ch.resize(2);
			l = &f[1].ch[0].ch[1].ch;
			break;
	}
	l->resize(w);
	for (auto& x : *l) {
		x.v = ++v;
		if (c.r.chance(1, 6)) {
			x.ch.resize(1 + c.r.below(2));
		}
	}
	if (c.r.coin()) {
		l->back().ch.resize(c.r.coin() ? 1 : w);
	}
	c.nt();
	c.distinct(c.index);
	note(str("width ", w, " place ", c.index % 4));
	traversals<vtree>(c, f);
	traversals<ltree>(c, f);
}

// the post-increment forms exist or not: only what bidirectional iterators of this library offer is used
SUITE(comparisons, 2000, 0, "pairs of iterators (end included) of a random forest: ==, !=, <, >, <=, >= agree with the visiting order; non-trivial with at least 3 nodes")
{
	auto& r = c.r;
	auto f = tr::random_forest(r, 60);
	auto want = tr::preorder(f);
	c.nt(want.size() >= 3);
	auto roots = tr::build<vtree>(f);
	auto t = utki::make_traversal(roots);
	for (int k = 0; k != 12; ++k) {
		size_t i = r.below(want.size() + 1), j = r.chance(1, 4) ? i : r.chance(1, 3) ? std::min(want.size(), i + 1) : r.below(want.size() + 1);
		auto a = t.begin(), b = t.begin();
		std::advance(a, long(i));
		std::advance(b, long(j));
		auto d = str("forest ", tr::show(f), " positions ", i, " and ", j);
		CHECK("eq", (a == b) == (i == j), d);
		CHECK("ne", (a != b) == (i != j), d);
		CHECK("lt", (a < b) == (i < j), d);
		CHECK("gt", (a > b) == (i > j), d);
		CHECK("le", (a <= b) == (i <= j), d);
		CHECK("ge", (a >= b) == (i >= j), d);
		auto ca = t.cbegin(), cb = t.cbegin();
		std::advance(ca, long(i));
		std::advance(cb, long(j));
		CHECK("const-cmp", (ca == cb) == (i == j) && (ca != cb) == (i != j) && (ca < cb) == (i < j) && (ca > cb) == (i > j) && (ca <= cb) == (i <= j) && (ca >= cb) == (i >= j), d);
	}
}

SUITE(index_paths, 2000, 0, "valid and invalid index paths: is_valid, make_iterator, make_const_iterator, operator[] and at_level with existing and missing nodes/levels; non-trivial when the forest is not empty")
{
	auto& r = c.r;
	auto f = tr::random_forest(r, 60);
	auto want = tr::preorder(f);
	c.nt(!want.empty());
	auto roots = tr::build<vtree>(f);
	const auto& croots = roots;
	auto t = utki::make_traversal(roots);
	const auto kt = utki::make_traversal(roots);
	const auto ct = utki::make_traversal(croots);
	auto mct = utki::make_traversal(croots); // a non-const traversal of a const forest
	for (int k = 0; k != 10; ++k) {
		tr::path p;
		if (!want.empty() && r.chance(3, 4)) {
			p = r.pick(want).p;
			switch (r.below(5)) {
				case 0: p.push_back(r.below(4)); break;
				case 1: r.pick(p) += 1; break;
				case 2: r.pick(p) = r.coin() ? size_t(-1) : r.coin() ? size_t(1) << 32 : r.below(40); break;
				default: break;
			}
		} else {
			p.resize(r.below(5));
			for (auto& x : p) {
				x = r.below(4);
			}
		}
		SAMPLE("forest ", tr::show(f), " path ", p);
		auto n = p.empty() ? nullptr : tr::find(f, p);
		bool valid = n != nullptr;
		auto d = str("forest ", tr::show(f), " path ", p);
		note(d.substr(0, 240));
		CHECK("is-valid", t.is_valid(p) == valid && t.is_valid(utki::make_span(p)) == valid && ct.is_valid(p) == valid, d);
		if (p.size() == 1) {
			CHECK("is-valid-il", (t.is_valid({p[0]}) == valid), d);
		} else if (p.size() == 2) {
			CHECK("is-valid-il", (t.is_valid({p[0], p[1]}) == valid), d);
		} else if (p.size() == 3) {
			CHECK("is-valid-il", (t.is_valid({p[0], p[1], p[2]}) == valid), d);
		}
		if (p.empty()) {
			continue;
		}
		if (valid) {
			COUNT("paths.valid");
			auto it = t.make_iterator(p);
			CHECK("make", it->value == n->v && it.index() == p, d);
			CHECK("sub", &t[p] == &*it && &kt[p] == &*it && &t[utki::make_span(p)] == &*it && &ct[p] == &*it, d);
			CHECK("sub-of-const", &mct[p] == &*it && &mct[utki::make_span(p)] == &*it && &*mct.make_iterator(p) == &*it && &*mct.make_const_iterator(p) == &*it, d);
			CHECK("const-make", &*t.make_const_iterator(p) == &*it && &*ct.make_const_iterator(p) == &*it, d);
			if (p.size() == 2) {
				CHECK("il", (&*t.make_iterator({p[0], p[1]}) == &*it && &*t.make_const_iterator({p[0], p[1]}) == &*it && &t[{p[0], p[1]}] == &*it && &kt[{p[0], p[1]}] == &*it), d);
			} else if (p.size() == 3) {
				CHECK("il", (&*t.make_iterator({p[0], p[1], p[2]}) == &*it && &t[{p[0], p[1], p[2]}] == &*it), d);
			}
			// the reference is to the real node: changes reach the forest
			int old = it->value;
			t[p].value = old + 1;
			CHECK("write", it->value == old + 1, d);
			(*it).value = old;
			CHECK("write-back", t[p].value == old && tr::same(roots, f), d);
			if (r.chance(1, 4)) {
				size_t miss = r.coin() ? p.size() : p.size() + r.below(1000);
				CHECK_THROWS("at-level-missing", std::out_of_range, it.at_level(miss), d);
				const auto ci = t.make_const_iterator(p);
				CHECK_THROWS("at-level-missing-const", std::out_of_range, ci.at_level(size_t(-1)), d);
			}
			it.at_level(0).value += 0;
		} else {
			COUNT("paths.invalid");
			CHECK_THROWS("make-missing", std::out_of_range, t.make_iterator(p), d);
			CHECK_THROWS("make-const-missing", std::out_of_range, ct.make_const_iterator(p), d);
		}
	}
}
