// C26: get_ticks_ms counts milliseconds of elapsed time.
// The clock is interposed: every reading the library makes goes to a virtual clock which the workload steps by any amount.
#define VH_MAIN
#include "vh.hpp"

#include <dlfcn.h>
#include <sys/time.h>
#include <time.h>

#include <utki/time.hpp>

using namespace vh;

namespace {
bool virtual_on = false;
__int128 virtual_ns = 0; // the value of all clocks
u64 readings = 0;

void split(timespec& t)
{
	t.tv_sec = time_t(virtual_ns / 1000000000);
	t.tv_nsec = long(virtual_ns % 1000000000);
	++readings;
}
} // namespace

extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept
{
	if (virtual_on) {
		split(*t);
		return 0;
	}
	using fn = int (*)(clockid_t, timespec*);
	static fn real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "clock_gettime"));
	return real ? real(id, t) : -1;
}
extern "C" int gettimeofday(struct timeval* __restrict tv, void* __restrict) noexcept
{
	if (virtual_on) {
		timespec t{};
		split(t);
		tv->tv_sec = t.tv_sec;
		tv->tv_usec = t.tv_nsec / 1000;
		return 0;
	}
	timespec t{};
	clock_gettime(CLOCK_REALTIME, &t);
	tv->tv_sec = t.tv_sec;
	tv->tv_usec = t.tv_nsec / 1000;
	return 0;
}

namespace {
struct clock_scope {
	explicit clock_scope(__int128 start)
	{
		virtual_ns = start;
		virtual_on = true;
	}
	~clock_scope() { virtual_on = false; }
};
u32 ticks()
{
	return utki::get_ticks_ms();
}

constexpr __int128 ms = 1000000;
constexpr __int128 day = __int128(24) * 3600 * 1000 * ms;

__int128 random_gap(rng& r)
{
	switch (r.below(8)) {
		case 0: return __int128(r.below(1000000)); // below a millisecond
		case 1: return __int128(r.below(10)) * ms;
		case 2: return __int128(r.below(2000)) * ms + __int128(r.below(1000000));
		case 3: return __int128(r.below(3600 * 1000)) * ms + __int128(r.below(1000000));
		case 4: return __int128(r.below(60)) * day + __int128(r.below(86400000)) * ms;
		case 5: return ms - 1 + __int128(r.below(3));
		case 6: return (__int128(1) << 31) * ms + (__int128(r.below(5)) - 2) * ms + __int128(r.below(3)) - 1;
		default: return (__int128(1) << 32) * ms - __int128(r.below(3)) * ms + __int128(r.below(1000000));
	}
}

__int128 random_start(rng& r)
{
	switch (r.below(6)) {
		case 0: return 0;
		case 1: return (__int128(1) << 32) * ms * __int128(r.range(1, 500)) - __int128(r.below(5000)) * ms - __int128(r.below(1000000)); // just before a wrap
		case 2: return __int128(r.below(4000000000ull)) * 1000000000 + __int128(r.below(1000000000)); // some date
		case 3: return (__int128(1) << 31) * ms - __int128(r.below(2000000));
		case 4: return __int128(1700000000) * 1000000000 + __int128(r.below(1000000000));
		default: return __int128(r.below(1000000)) * 1000;
	}
}

u64 whole_ms(__int128 t)
{
	return u64(t / ms);
}
} // namespace

SUITE(virtual_clock, 4000, novg, "the clock advanced by at least a millisecond")
{
	auto start = random_start(c.r);
	size_t n = c.r.range(2, 12);
	clock_scope cs(start);
	auto r0 = readings;
	u32 t0 = ticks();
	if (readings == r0) { // the library reads a clock which cannot be interposed: only the real clock suite can judge it
		COUNT("clock not observed");
		return;
	}
	u32 prev = t0;
	__int128 prev_ns = start;
	__int128 total = 0;
	for (size_t i = 0; i != n; ++i) {
		auto gap = random_gap(c.r);
		virtual_ns += gap;
		total += gap;
		u32 t = ticks();
		u32 exp = u32(whole_ms(virtual_ns) - whole_ms(prev_ns));
		CHECK_EQ("gap", u32(t - prev), exp, "the clock advanced by ", u64(gap / ms), " ms and ", u64(gap % ms), " ns from ", u64(prev_ns / ms), " ms");
		CHECK_EQ("total", u32(t - t0), u32(whole_ms(virtual_ns) - whole_ms(start)));
		// the clock stands still
		CHECK_EQ("still", ticks(), t);
		if (t < prev) {
			COUNT("wraps through zero");
		}
		prev = t;
		prev_ns = virtual_ns;
		COUNT("gaps");
	}
	c.nt(total >= ms);
	SAMPLE("start ", u64(start / ms), " ms, ", n, " gaps, ", u64(total / ms), " ms in total");
}

// a fine sweep over a wrap and over second boundaries
SUITE(sweep, 60, novg, "consecutive milliseconds")
{
	__int128 base = c.r.coin() ? (__int128(1) << 32) * ms * __int128(c.r.range(1, 400)) : __int128(c.r.below(2000000000)) * 1000000000;
	base -= 50 * ms;
	auto step = c.r.coin() ? ms : ms / 4;
	clock_scope cs(base);
	auto r0 = readings;
	u32 prev = ticks();
	if (readings == r0) {
		return;
	}
	u64 prev_ms = whole_ms(virtual_ns);
	for (int i = 0; i != 400; ++i) {
		virtual_ns += step;
		u32 t = ticks();
		u64 m = whole_ms(virtual_ns);
		CHECK_EQ("sweep", u32(t - prev), u32(m - prev_ms), "at ", m, " ms");
		prev = t;
		prev_ms = m;
	}
	c.nt();
	SAMPLE("400 steps of ", u64(step), " ns around ", u64((base + 50 * ms) / ms), " ms");
	COUNT_N("sweep steps", 400);
}

// the real clock, bracketed by readings of all clocks the library may use
SUITE(real_clock, 12, nofuzz | novg | noisy, "time passed")
{
	auto now = []() {
		timespec t{};
		clock_gettime(CLOCK_MONOTONIC, &t);
		return double(t.tv_sec) * 1e3 + double(t.tv_nsec) / 1e6;
	};
	auto us = c.r.below(30000);
	double a0 = now();
	u32 t0 = ticks();
	double a1 = now();
	timespec s{0, long(us) * 1000};
	nanosleep(&s, nullptr);
	double b0 = now();
	u32 t1 = ticks();
	double b1 = now();
	double lo = b0 - a1, hi = b1 - a0;
	double d = double(u32(t1 - t0));
	// generous: the clock may be disciplined
	CHECK("real-elapsed", d >= lo - 2 - lo * 0.05 && d <= hi + 2 + hi * 0.05, "elapsed between ", lo, " and ", hi, " ms, ticks say ", d);
	c.nt(us > 1000);
	c.distinct(us);
	COUNT("real gaps");
}
