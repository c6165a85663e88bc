// C13: tree edits through iterators keep the rest of the forest intact.
// Oracle: the same edits applied to a plain mirrored model; elements with tracked life.
#define VH_MAIN
#include "vh.hpp"

#include <list>

#include <utki/tree.hpp>

#include "track.hpp"
#include "treeref.hpp"

using namespace vh;
using tk::elem;
using vtree = utki::tree<elem>;
using ltree = utki::tree<elem, std::list>;

template <typename C>
static bool intact(const C& c)
{
	for (auto& x : c) {
		if (!x.value.intact() || !intact(x.children)) {
			return false;
		}
	}
	return true;
}

static std::string gpath(const tr::path& p)
{
	return str(p);
}

template <typename Trav, typename It>
static void stands_on(Trav& t, It it, const tr::forest& f, const tr::path& p, const std::vector<tr::entry>& order, const std::string& d, bool onward)
{
	// p empty: the end
	if (p.empty()) {
		CHECK("returns-end", it == t.end(), d);
		return;
	}
	CHECK("returned-not-end", it != t.end(), d);
	CHECK("returned-index", it.index() == p, d, " index ", it.index(), " expected ", p);
	CHECK("returned-value", int(it->value) == tr::find(f, p)->v, d);
	if (onward) {
		size_t i = 0;
		while (order[i].p != p) {
			++i;
		}
		auto b = it;
		for (size_t k = i; k != order.size(); ++k) {
			CHECK("onward", it != t.end() && it.index() == order[k].p && int(it->value) == order[k].v, d, " going on from the returned iterator, step ", k - i);
			++it;
		}
		CHECK("onward-end", it == t.end(), d);
		for (size_t k = i; k-- != 0;) {
			--b;
			CHECK("backward", b.index() == order[k].p, d, " going back from the returned iterator");
		}
		CHECK("backward-begin", b == t.begin(), d);
	}
}

template <typename Tree>
static void edits(ctx& c)
{
	auto& r = c.r;
	tk::ev().reset();
	{
		auto f = tr::random_forest(r, 25);
		auto roots = tr::build<Tree>(f);
		auto t = utki::make_traversal(roots);
		using iter = typename decltype(t)::iterator;
		size_t steps = r.range(1, 14);
		int next = 5000;
		bool keep = false; // continue from the returned iterator
		iter kept;
		tr::path kept_p;
		std::string log = "start " + tr::show(f);
		for (size_t s = 0; s != steps; ++s) {
			auto order = tr::preorder(f);
			tr::path p; // empty: end
			iter it;
			if (keep && r.chance(1, 2)) {
				it = kept;
				p = kept_p;
				COUNT("edits.at-returned-iterator");
			} else if (order.empty() || r.chance(1, 10)) {
				it = t.end();
			} else {
				auto& e = r.pick(order);
				p = e.p;
				if (r.coin()) {
					it = t.make_iterator(p);
				} else {
					it = t.begin();
					while (it.index() != p) {
						++it;
					}
				}
			}
			const bool end = p.empty();
			auto op = r.below(end ? 2 : 6);
			// what to insert
			Tree val;
			tr::node mval;
			bool inside = !order.empty() && r.chance(1, 4);
			tr::path src;
			if (inside) {
				src = r.pick(order).p;
				mval = *tr::find(f, src);
				if (tr::count(f) > 120) {
					mval.ch.clear();
				}
			} else {
				mval.v = next++;
				if (r.chance(1, 3)) {
					mval.ch = tr::random_forest(r, 6);
				}
			}
			if (inside && mval.ch.size() != tr::find(f, src)->ch.size()) {
				inside = false;
			}
			if (!inside) {
				val = Tree(elem(mval.v), tr::build<Tree>(mval.ch));
			}
			std::string d;
			iter ret;
			tr::path ret_p;
			auto put = [&](bool after) {
				tr::path q = end ? tr::path{f.size()} : p;
				if (after) {
					++q.back();
				}
				tr::forest* l;
				size_t i;
				tr::list_of(f, q, l, i);
				l->insert(l->begin() + long(i), mval);
				ret_p = q;
			};
			switch (op) {
				case 0:
				case 2:
				{
					d = str(log, "; insert before ", gpath(p), inside ? std::string(" a copy of ") + gpath(src) : std::string(" ") + std::to_string(mval.v));
					note(d.substr(d.size() > 240 ? d.size() - 240 : 0));
					if (inside) {
						auto si = t.make_iterator(src);
						const Tree& sref = *si;
						ret = t.insert(it, sref);
					} else if (r.coin()) {
						ret = t.insert(it, std::move(val));
					} else {
						const Tree& cv = val;
						ret = t.insert(it, cv);
						CHECK("source-untouched", int(val.value) == mval.v && tr::same(val.children, mval.ch), d);
					}
					put(false);
					COUNT("edits.insert");
					break;
				}
				case 1:
				case 3:
				{
					if (end) { // insert_after is undefined there
						continue;
					}
					d = str(log, "; insert after ", gpath(p), inside ? std::string(" a copy of ") + gpath(src) : std::string(" ") + std::to_string(mval.v));
					note(d.substr(d.size() > 240 ? d.size() - 240 : 0));
					if (inside) {
						auto si = t.make_iterator(src);
						const Tree& sref = *si;
						ret = t.insert_after(it, sref);
					} else if (r.coin()) {
						ret = t.insert_after(it, std::move(val));
					} else {
						const Tree& cv = val;
						ret = t.insert_after(it, cv);
						CHECK("source-untouched", int(val.value) == mval.v && tr::same(val.children, mval.ch), d);
					}
					put(true);
					COUNT("edits.insert_after");
					break;
				}
				default:
				{
					d = str(log, "; erase ", gpath(p));
					note(d.substr(d.size() > 240 ? d.size() - 240 : 0));
					ret = t.erase(it);
					tr::forest* l;
					size_t i;
					tr::list_of(f, p, l, i);
					l->erase(l->begin() + long(i));
					// next surviving node in order: same place, or the next sibling of the nearest ancestor which has one
					tr::path q = p;
					for (;;) {
						if (q.empty()) {
							break;
						}
						if (tr::find(f, q)) {
							break;
						}
						q.pop_back();
						if (!q.empty()) {
							++q.back();
						}
					}
					ret_p = q;
					COUNT("edits.erase");
					break;
				}
			}
			log = d.substr(d.size() > 300 ? d.size() - 300 : 0);
			CHECK("forest", tr::same(roots, f), d, " gave ", tr::show_real(roots), " expected ", tr::show(f));
			CHECK("intact", intact(roots), d);
			CHECK("count", size_t(tk::ev().live.size()) >= tr::count(f), d);
			CHECK("life", tk::ev().errors == 0, d, " ", tk::ev().first_error);
			auto after = tr::preorder(f);
			stands_on(t, ret, f, ret_p, after, d, true);
			kept = ret;
			kept_p = ret_p;
			keep = true;
			progress();
		}
		c.nt(steps >= 2);
		SAMPLE(log);
	}
	tk::all_gone("edit sequence");
}

SUITE(edit_sequences, 1800, 0, "random sequences of 1..14 insert/insert_after/erase at random nodes, the end, and returned iterators, with values (sub-trees) from outside and copies from inside the forest; vector and list containers; non-trivial with at least 2 edits")
{
	edits<vtree>(c);
	edits<ltree>(c);
}

SUITE(erase_all, 500, 0, "erasing all nodes selected by a predicate in one pass, using the returned iterators, leaves exactly the unselected ones whose ancestors stay; non-trivial with at least 3 nodes")
{
	auto& r = c.r;
	tk::ev().reset();
	{
		auto f = tr::random_forest(r, 60);
		c.nt(tr::count(f) >= 3);
		auto roots = tr::build<vtree>(f);
		int m = int(r.range(1, 4)), k = int(r.below(4));
		struct rec {
			static void go(tr::forest& f, int m, int k)
			{
				for (size_t i = 0; i < f.size();) {
					if (f[i].v % m == k % m) {
						f.erase(f.begin() + long(i));
					} else {
						go(f[i].ch, m, k);
						++i;
					}
				}
			}
		};
		rec::go(f, m, k);
		auto t = utki::make_traversal(roots);
		for (auto i = t.begin(); i != t.end();) {
			if (int(i->value) % m == k % m) {
				i = t.erase(i);
				COUNT("edits.erase");
			} else {
				++i;
			}
		}
		CHECK("erase-all", tr::same(roots, f), "got ", tr::show_real(roots), " expected ", tr::show(f));
	}
	tk::all_gone("erase all");
}

template <typename Tree>
static void by_value(ctx& c)
{
	auto& r = c.r;
	tk::ev().reset();
	{
		auto f = tr::random_forest(r, 40);
		auto g = tr::random_forest(r, 10);
		c.nt(tr::count(f) >= 2);
		Tree a(elem(1), tr::build<Tree>(f));
		const Tree ca(a);
		CHECK("copy", int(ca.value) == 1 && tr::same(ca.children, f) && tr::same(a.children, f) && intact(ca.children), "forest ", tr::show(f));
		CHECK("copy-equal", a == ca && !(a.children != ca.children), "");
		// the copy is deep: changing one does not change the other
		auto ord = tr::preorder(f);
		if (!ord.empty()) {
			auto& e = r.pick(ord);
			auto t = utki::make_traversal(a.children);
			auto it = t.make_iterator(e.p);
			switch (r.below(3)) {
				case 0: it->value = elem(-5); break;
				case 1: t.erase(it); break;
				default: t.insert(it, Tree(elem(77))); break;
			}
			CHECK("deep-copy", tr::same(ca.children, f) && intact(ca.children), "changed at ", e.p, " of ", tr::show(f));
			CHECK("not-equal", !(a == ca), "changed at ", e.p, " of ", tr::show(f));
			COUNT("values.difference-detected");
		}
		Tree b(ca), d2;
		d2 = b;
		CHECK("copy-assign", d2 == ca && b == ca && tr::same(d2.children, f), "");
		auto copies = tk::ev().copies();
		Tree m(std::move(b));
		CHECK("move", int(m.value) == 1 && tr::same(m.children, f) && intact(m.children), "");
		Tree n(elem(9), tr::build<Tree>(g));
		auto before_assign = tk::ev().copies();
		n = std::move(m);
		CHECK("move-assign", int(n.value) == 1 && tr::same(n.children, f) && intact(n.children), "");
		CHECK("move-does-not-copy", tk::ev().copies() == before_assign, "");
		(void)copies;
		Tree x(elem(2), tr::build<Tree>(g)), y(elem(2), tr::build<Tree>(f));
		bool fg = tr::show(f) == tr::show(g);
		CHECK("equality", (x == y) == fg, "forests ", tr::show(f), " and ", tr::show(g));
		y.value = elem(3);
		CHECK("equality-value", !(x == y), "");
		// comparison with a plain value looks at the value only
		CHECK("value-compare", x == 2 && y == 3 && !(y == 2), "");
		// constructors
		Tree e0;
		CHECK("default", e0.children.empty() && int(e0.value) == 0, "");
		Tree e1(elem(4));
		CHECK("value-ctor", e1.children.empty() && int(e1.value) == 4, "");
		Tree e2(tr::build<Tree>(f));
		CHECK("children-ctor", tr::same(e2.children, f), "");
		Tree e3(elem(5), {Tree(elem(6)), Tree(elem(7), {Tree(elem(8))})});
		CHECK("init-list", int(e3.value) == 5 && tr::show_real(e3.children) == "[6 7[8]]", "");
		Tree e4{Tree(elem(6)), Tree(elem(7))};
		CHECK("init-list-2", tr::show_real(e4.children) == "[6 7]", "");
		std::swap(x, y);
		CHECK("swap", int(x.value) == 3 && int(y.value) == 2 && tr::same(x.children, f) && tr::same(y.children, g), "");
		CHECK("life", tk::ev().errors == 0, tk::ev().first_error);
	}
	tk::all_gone("values");
}

SUITE(values, 1500, 0, "copies, moves, assignments, swaps and comparisons of whole trees of up to 40 nodes, with one random difference; non-trivial with at least 2 nodes")
{
	by_value<vtree>(c);
	by_value<ltree>(c);
}

SUITE(alternate, 300, 0, "insert before/after while walking: after each visited node a new one is put and stepped over; non-trivial with at least 3 nodes")
{
	auto& r = c.r;
	auto f = tr::random_forest(r, 40);
	c.nt(tr::count(f) >= 3);
	using itree = utki::tree<int>;
	auto roots = tr::build<itree>(f);
	// model: every list gets, for every element x, a node -1 before or after it
	bool after = r.coin();
	struct rec {
		static void go(tr::forest& f, bool after)
		{
			tr::forest n;
			for (auto& x : f) {
				go(x.ch, after);
				tr::node m;
				m.v = -1;
				if (!after) {
					n.push_back(m);
				}
				n.push_back(x);
				if (after) {
					n.push_back(m);
				}
			}
			f = n;
		}
	};
	rec::go(f, after);
	auto t = utki::make_traversal(roots);
	for (auto i = t.begin(); i != t.end();) {
		if (i->value == -1) {
			++i;
			continue;
		}
		if (after) {
			auto j = t.insert_after(i, itree(-1));
			CHECK("inserted", j->value == -1, "");
			--j; // the last node before the new one: i itself or its deepest last descendant
			auto p = j.index();
			// go on with the children of the node the new one was put after
			auto q = t.make_iterator(p);
			while (q.depth() > 0) {
				break;
			}
			// restart from the node: find it as the previous sibling of the new node
			++j;
			auto np = j.index();
			np.back() -= 1;
			i = t.make_iterator(np);
			++i;
		} else {
			i = t.insert(i, itree(-1));
			CHECK("inserted", i->value == -1, "");
			++i;
			++i;
		}
	}
	CHECK("walk-and-insert", tr::same(roots, f), "got ", tr::show_real(roots), " expected ", tr::show(f));
}

SUITE(wide, 3, fixed | novg | nofuzz, "edits of a node with about 2^16 children, around index 2^16; every case non-trivial")
{
	auto& r = c.r;
	c.nt();
	c.distinct(c.index);
	using wtree = utki::tree<int>;
	std::vector<wtree> roots(3);
	std::vector<int> ref;
	auto& top = roots[c.index];
	const size_t n0 = 65536 + 20;
	for (size_t i = 0; i != n0; ++i) {
		ref.push_back(int(i));
		top.children.emplace_back(int(i));
	}
	auto t = utki::make_traversal(roots);
	int next = 1000000;
	for (int step = 0; step != 60; ++step) {
		size_t i = r.chance(1, 8) ? r.below(ref.size()) : 65536 - 8 + r.below(std::min<size_t>(ref.size() - 65528, 16));
		auto it = t.make_iterator({c.index, i});
		CHECK_EQ("wide-at", it->value, ref[i], "index ", i);
		switch (r.below(3)) {
			case 0: {
				auto ret = t.insert(it, wtree(next));
				ref.insert(ref.begin() + long(i), next);
				CHECK("wide-insert-before", ret->value == next && ret.index() == (tr::path{c.index, i}), "index ", i, " returned ", ret.index());
				break;
			}
			case 1: {
				auto ret = t.insert_after(it, wtree(next));
				ref.insert(ref.begin() + long(i) + 1, next);
				CHECK("wide-insert-after", ret->value == next && ret.index() == (tr::path{c.index, i + 1}), "index ", i, " returned ", ret.index());
				break;
			}
			default: {
				if (ref.size() < 65540) {
					break;
				}
				auto ret = t.erase(it);
				ref.erase(ref.begin() + long(i));
				if (i < ref.size()) {
					CHECK("wide-erase", ret->value == ref[i] && ret.index() == (tr::path{c.index, i}), "index ", i);
				} else if (c.index == 2) {
					CHECK("wide-erase-end", ret == t.end(), "");
				} else {
					CHECK("wide-erase-next", ret.index() == (tr::path{c.index + 1}), "");
				}
				break;
			}
		}
		++next;
		progress();
	}
	CHECK("wide-size", top.children.size() == ref.size(), top.children.size(), " children, expected ", ref.size());
	for (size_t i = 0; i != ref.size(); ++i) {
		CHECK_EQ("wide-values", top.children[i].value, ref[i], "index ", i);
	}
	auto copy = roots;
	CHECK("wide-copy", copy == roots, "");
	copy[c.index].children.back().value += 1;
	CHECK("wide-not-equal", !(copy == roots) && copy != roots, "");
	COUNT_N("edits of a wide node", 60);
}

namespace {
// values which can only be moved
using mtree = utki::tree<std::unique_ptr<int>>;

mtree m_build(const tr::node& n)
{
	mtree::container_type ch;
	for (auto& x : n.ch) {
		ch.push_back(m_build(x));
	}
	if (n.ch.empty()) {
		return mtree(std::make_unique<int>(n.v));
	}
	return mtree(std::make_unique<int>(n.v), std::move(ch));
}

bool m_same(const mtree::container_type& l, const tr::forest& f)
{
	if (l.size() != f.size()) {
		return false;
	}
	for (size_t i = 0; i != f.size(); ++i) {
		if (!l[i].value || *l[i].value != f[i].v || !m_same(l[i].children, f[i].ch)) {
			return false;
		}
	}
	return true;
}
} // namespace

SUITE(move_only, 400, 0, "insert/insert_after/erase of sub-trees whose values can only be moved: nothing is lost, the value objects of the inserted nodes are the given ones; non-trivial with at least 3 nodes")
{
	auto& r = c.r;
	auto f = tr::random_forest(r, 20);
	mtree::container_type roots;
	for (auto& n : f) {
		roots.push_back(m_build(n));
	}
	auto t = utki::make_traversal(roots);
	auto steps = r.range(1, 8);
	for (size_t s = 0; s != steps; ++s) {
		// a random node
		tr::path p;
		auto* l = &f;
		while (!l->empty() && !(!p.empty() && r.chance(1, 3))) {
			p.push_back(size_t(r.below(l->size())));
			l = &(*l)[p.back()].ch;
		}
		if (p.empty()) {
			auto i = t.insert(t.end(), mtree(std::make_unique<int>(-5)));
			tr::node n;
			n.v = -5;
			f.push_back(n);
			CHECK("move-only-insert-end", *i->value == -5, "");
			continue;
		}
		l = &f;
		for (size_t k = 0; k + 1 < p.size(); ++k) {
			l = &(*l)[p[k]].ch;
		}
		auto sub = tr::random_forest(r, 6);
		tr::node n;
		n.v = int(r.below(1000));
		n.ch = sub;
		auto it = t.make_iterator(p);
		auto op = r.below(3);
		if (op == 2) {
			t.erase(it);
			l->erase(l->begin() + long(p.back()));
			COUNT("move-only erased");
			continue;
		}
		auto x = m_build(n);
		const int* value = x.value.get();
		const int* child = x.children.empty() ? nullptr : x.children[0].value.get();
		auto ret = op == 0 ? t.insert(it, std::move(x)) : t.insert_after(it, std::move(x));
		l->insert(l->begin() + long(p.back()) + (op == 1), n);
		CHECK("move-only-identity", ret->value.get() == value && (!child || ret->children[0].value.get() == child), "the inserted node is the given one");
		auto at = p;
		at.back() += op;
		CHECK("move-only-position", ret.index() == at, "returned ", ret.index(), " expected ", at);
		COUNT("move-only inserted");
	}
	c.nt(tr::count(f) >= 3);
	CHECK("move-only", m_same(roots, f), "expected ", tr::show(f));
	// moving whole trees
	mtree whole(std::move(roots));
	CHECK("move-only-tree", m_same(whole.children, f) && !whole.value, "moved into a tree, expected ", tr::show(f));
	mtree other;
	other = std::move(whole);
	CHECK("move-only-assign", m_same(other.children, f), "expected ", tr::show(f));
}
