// A mirrored model of a forest for C12/C13: plain recursive structure, with independent pre-order enumeration.
#pragma once

#include "vh.hpp"

namespace tr {

struct node {
	int v = 0;
	std::vector<node> ch;
};

using forest = std::vector<node>;
using path = std::vector<size_t>;

struct entry {
	path p;
	int v;
};

inline void pre(const forest& f, path& cur, std::vector<entry>& out)
{
	for (size_t i = 0; i != f.size(); ++i) {
		cur.push_back(i);
		out.push_back({cur, f[i].v});
		pre(f[i].ch, cur, out);
		cur.pop_back();
	}
}

inline std::vector<entry> preorder(const forest& f)
{
	std::vector<entry> out;
	path cur;
	pre(f, cur, out);
	return out;
}

inline void list_of(forest& f, const path& p, forest*& l, size_t& i)
{
	l = &f;
	for (size_t k = 0; k + 1 < p.size(); ++k) {
		l = &(*l)[p[k]].ch;
	}
	i = p.back();
}

inline const node* find(const forest& f, const path& p)
{
	const forest* l = &f;
	const node* n = nullptr;
	for (auto i : p) {
		if (i >= l->size()) {
			return nullptr;
		}
		n = &(*l)[i];
		l = &n->ch;
	}
	return n;
}

inline size_t count(const forest& f)
{
	size_t n = 0;
	for (auto& x : f) {
		n += 1 + count(x.ch);
	}
	return n;
}

inline std::string show(const forest& f)
{
	std::string s = "[";
	for (auto& x : f) {
		if (s.size() > 1) {
			s += ' ';
		}
		s += std::to_string(x.v);
		if (!x.ch.empty()) {
			s += show(x.ch);
		}
	}
	return s + "]";
}

inline void grow(vh::rng& r, forest& f, size_t budget, unsigned shape, int& next, size_t depth)
{
	size_t n = 0;
	switch (shape) {
		case 0: // chain
			n = budget ? 1 : 0;
			break;
		case 1: // wide
			n = std::min<size_t>(budget, depth == 0 ? r.below(30) : r.below(6));
			break;
		case 2: // binary-ish
			n = std::min<size_t>(budget, r.below(3));
			break;
		default:
			n = std::min<size_t>(budget, r.below(5));
			break;
	}
	if (depth == 0 && n == 0 && budget != 0) {
		n = 1 + r.below(3);
		n = std::min(n, budget);
	}
	budget -= n;
	f.resize(n);
	for (size_t i = 0; i != n; ++i) {
		f[i].v = r.chance(1, 6) ? int(r.below(3)) : next++; // some equal values
		if (budget != 0) {
			size_t b = i + 1 == n ? budget : r.below(budget + 1);
			grow(r, f[i].ch, b, r.chance(1, 8) ? unsigned(r.below(4)) : shape, next, depth + 1);
			budget -= std::min(budget, count(f[i].ch));
		}
	}
}

inline forest random_forest(vh::rng& r, size_t max)
{
	forest f;
	int next = 100;
	size_t budget = r.size(max);
	if (budget) {
		grow(r, f, budget, unsigned(r.below(4)), next, 0);
	}
	return f;
}

template <typename Tree>
typename Tree::container_type build(const forest& f)
{
	typename Tree::container_type c;
	for (auto& x : f) {
		c.push_back(Tree(typename Tree::value_type(x.v), build<Tree>(x.ch)));
	}
	return c;
}

template <typename C>
bool same(const C& c, const forest& f)
{
	if (c.size() != f.size()) {
		return false;
	}
	auto i = f.begin();
	for (auto& x : c) {
		if (!(x.value == i->v) || !same(x.children, i->ch)) {
			return false;
		}
		++i;
	}
	return true;
}

template <typename C>
std::string show_real(const C& c)
{
	std::string s = "[";
	for (auto& x : c) {
		if (s.size() > 1) {
			s += ' ';
		}
		s += std::to_string(int(x.value));
		if (!x.children.empty()) {
			s += show_real(x.children);
		}
	}
	return s + "]";
}

} // namespace tr
