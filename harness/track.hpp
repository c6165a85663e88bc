// Elements with a tracked life: every construction, copy, move and destruction is an observed event.
#pragma once

#include <set>

#include "vh.hpp"

namespace tk {

struct events {
	long value_ctor = 0, copy_ctor = 0, move_ctor = 0, copy_assign = 0, move_assign = 0, dtor = 0;
	std::set<const void*> live; // addresses of live objects
	long errors = 0;
	std::string first_error;

	void err(const char* what)
	{
		if (errors++ == 0) {
			first_error = what;
		}
	}
	long copies() const { return copy_ctor + copy_assign; }
	void reset() { *this = events(); }
};

inline events& ev()
{
	static events e;
	return e;
}

struct elem {
	static constexpr int moved_from = -777777;
	int v = 0;
	int tag = 0; // identity which travels with moves and copies
	std::unique_ptr<int> heap; // so that a lost or doubled object is also a leak / double free

	elem(int v = 0, int tag = 0) :
		v(v),
		tag(tag),
		heap(new int(v))
	{
		++ev().value_ctor;
		born();
	}
	elem(const elem& o) :
		v(o.v),
		tag(o.tag),
		heap(new int(o.v))
	{
		o.check("copied from a dead object");
		if (o.v == moved_from) {
			ev().err("copied from a moved-from object");
		}
		++ev().copy_ctor;
		born();
	}
	elem(elem&& o) noexcept :
		v(o.v),
		tag(o.tag),
		heap(std::move(o.heap))
	{
		o.check("moved from a dead object");
		if (o.v == moved_from) {
			ev().err("moved from a moved-from object");
		}
		o.v = moved_from;
		++ev().move_ctor;
		born();
	}
	elem& operator=(const elem& o)
	{
		check("assigned to a dead object");
		o.check("assigned from a dead object");
		if (o.v == moved_from) {
			ev().err("copy-assigned from a moved-from object");
		}
		v = o.v;
		tag = o.tag;
		heap.reset(new int(o.v));
		++ev().copy_assign;
		return *this;
	}
	elem& operator=(elem&& o) noexcept
	{
		check("assigned to a dead object");
		o.check("assigned from a dead object");
		++ev().move_assign;
		if (this != &o) {
			if (o.v == moved_from) {
				ev().err("move-assigned from a moved-from object");
			}
			v = o.v;
			tag = o.tag;
			heap = std::move(o.heap);
			o.v = moved_from;
		}
		return *this;
	}
	~elem()
	{
		++ev().dtor;
		if (ev().live.erase(this) != 1) {
			ev().err("destroyed an object which is not alive");
		}
	}
	void born()
	{
		if (!ev().live.insert(this).second) {
			ev().err("constructed over a live object");
		}
	}
	void check(const char* what) const
	{
		if (ev().live.count(this) == 0) {
			ev().err(what);
		}
	}
	bool intact() const { return heap && *heap == v; }
	operator int() const { return v; }
	bool operator==(const elem& o) const { return v == o.v; }
	bool operator==(int o) const { return v == o; }
	bool operator<(const elem& o) const { return v < o.v; }
};

// to be called when all objects of the case are gone
inline void all_gone(const char* what)
{
	CHECK("life-errors", ev().errors == 0, std::string(what), ": ", ev().first_error, " (", ev().errors, " errors)");
	CHECK("life-leak", ev().live.empty(), std::string(what), ": ", ev().live.size(), " objects still alive");
	CHECK("life-balance", ev().value_ctor + ev().copy_ctor + ev().move_ctor == ev().dtor, std::string(what));
}

} // namespace tk
