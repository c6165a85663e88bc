// C17: spin_lock gives mutual exclusion and publishes protected writes.
// Monitors: owner word checked on entry and exit of every critical section, a plain (non-atomic) event log written under the
// lock and checked offline, ThreadSanitizer for the happens-before edge, hang detection for a lock that is never acquired.
#define VH_MAIN
#include "vh.hpp"

#include <atomic>
#include <mutex>
#include <thread>

#include <utki/spin_lock.hpp>

using namespace vh;

namespace {
void delay(rng& r)
{
	switch (r.below(12)) {
		case 0: std::this_thread::yield(); break;
		case 1: {
			struct timespec ts = {0, long(r.below(30000))};
			nanosleep(&ts, nullptr);
			break;
		}
		case 2:
		case 3: {
			volatile unsigned n = unsigned(r.below(200));
			while (n) {
				n = n - 1;
			}
			break;
		}
		default: break;
	}
}

struct event {
	unsigned thread;
	unsigned ticket;
	bool enter;
};

struct protected_data { // plain memory, only touched by the owner
	utki::spin_lock lock;
	u64 counter = 0;
	u64 mirror[8] = {};
	std::string text;
	std::vector<event> log;
	std::atomic<unsigned> owner{0}; // the monitor: 0 or thread number + 1
	std::atomic<unsigned> violations{0};
};
} // namespace

SUITE(exclusion, 160, nofuzz | noisy | novg, "2..8 threads take 1..3 locks with random delays inside and outside; owner monitor, event log checked afterwards; non-trivial when ownership changed between threads; distinct by the observed order of owners")
{
	auto& r = c.r;
	size_t nt = r.range(2, 8), nl = r.range(1, 3), rounds = r.range(20, 120);
	u64 seed = r.next();
	bool delays = r.chance(3, 4);
	std::vector<std::unique_ptr<protected_data>> ds;
	for (size_t i = 0; i != nl; ++i) {
		ds.push_back(std::make_unique<protected_data>());
	}
	note(str(nt, " threads ", nl, " locks ", rounds, " rounds"));
	std::atomic<size_t> ready{0};
	std::vector<std::thread> ths;
	for (size_t t = 0; t != nt; ++t) {
		ths.emplace_back([&, t]() {
			rng tr(mix(seed ^ (t * 77)));
			++ready;
			while (ready != nt) {
				std::this_thread::yield();
			}
			for (size_t k = 0; k != rounds; ++k) {
				auto& d = *ds[tr.below(nl)];
				if (delays) {
					delay(tr);
				}
				if (tr.chance(1, 3)) {
					d.lock.lock();
				} else {
					// through the standard helpers, as a BasicLockable
					std::unique_lock<utki::spin_lock> l(d.lock);
					l.release();
				}
				if (d.owner.exchange(unsigned(t + 1), std::memory_order_relaxed) != 0) {
					d.violations.fetch_add(1, std::memory_order_relaxed);
				}
				d.log.push_back({unsigned(t), unsigned(d.counter), true});
				for (auto& m : d.mirror) {
					if (m != d.counter) {
						d.violations.fetch_add(1, std::memory_order_relaxed);
					}
				}
				u64 c0 = d.counter;
				if (delays) {
					delay(tr);
				}
				for (auto& m : d.mirror) {
					m = c0 + 1;
				}
				d.text = std::to_string(c0 + 1); // heap memory changes hands as well
				d.counter = c0 + 1;
				d.log.push_back({unsigned(t), unsigned(d.counter), false});
				if (d.owner.exchange(0, std::memory_order_relaxed) != t + 1) {
					d.violations.fetch_add(1, std::memory_order_relaxed);
				}
				d.lock.unlock();
			}
		});
	}
	for (auto& t : ths) {
		t.join();
	}
	u64 h = 0, switches = 0, total = 0;
	for (auto& dp : ds) {
		auto& d = *dp;
		CHECK("two-owners", d.violations == 0, "overlapping critical sections or torn data seen ", d.violations.load(), " times with ", nt, " threads");
		CHECK("log-length", d.log.size() == 2 * d.counter, "log has ", d.log.size(), " events for ", d.counter, " sections");
		for (size_t i = 0; i + 1 < d.log.size(); i += 2) {
			auto& a = d.log[i];
			auto& b = d.log[i + 1];
			CHECK("log-alternates", a.enter && !b.enter && a.thread == b.thread && a.ticket == i / 2 && b.ticket == i / 2 + 1, "event ", i);
			if (i && d.log[i - 2].thread != a.thread) {
				++switches;
			}
			h = mix(h ^ a.thread);
		}
		CHECK("last-write", d.text == (d.counter ? std::to_string(d.counter) : std::string()), "");
		total += d.counter;
	}
	CHECK("no-lost-update", total == nt * rounds, "counted ", total, " of ", nt * rounds);
	c.nt(switches != 0);
	c.distinct(h);
	COUNT_N("critical-sections", total);
	COUNT_N("owner-changes", switches);
}

SUITE(waiting, 60, nofuzz | noisy | novg, "a lock held for a while is not acquired by waiting threads before its release, and is acquired by all of them after it; every case non-trivial, distinct by the order in which the waiters got it")
{
	auto& r = c.r;
	c.nt();
	size_t nt = r.range(1, 5);
	utki::spin_lock lock;
	bool released = false; // plain: protected by the lock
	std::vector<unsigned> order;
	unsigned early = 0;
	lock.lock();
	std::vector<std::thread> ths;
	std::atomic<size_t> started{0};
	for (size_t t = 0; t != nt; ++t) {
		ths.emplace_back([&, t]() {
			++started;
			lock.lock();
			if (!released) {
				++early;
			}
			order.push_back(unsigned(t));
			lock.unlock();
		});
	}
	while (started != nt) {
		std::this_thread::yield();
	}
	struct timespec ts = {0, long(r.below(3000000))};
	nanosleep(&ts, nullptr);
	released = true;
	lock.unlock();
	for (auto& t : ths) {
		t.join();
	}
	CHECK("waited", early == 0, early, " threads entered while the lock was held");
	CHECK("all-acquired", order.size() == nt, "");
	u64 h = nt;
	for (auto o : order) {
		h = mix(h ^ o);
	}
	c.distinct(h);
	COUNT_N("waiters", nt);
	// free again: lockable by one thread alone, many times
	for (int i = 0; i != 1000; ++i) {
		lock.lock();
		lock.unlock();
	}
}

SUITE(handover, 40, nofuzz | noisy | novg, "ping-pong: two threads hand plain data back and forth through the lock; every case non-trivial, distinct by the sequence of polls that found no message")
{
	auto& r = c.r;
	c.nt();
	struct {
		utki::spin_lock lock;
		int turn = 0;
		std::vector<int> msg;
	} s;
	int rounds = int(r.range(20, 150));
	u64 polls = 0;
	bool bad = false;
	auto play = [&](int me) {
		u64 empty = 0;
		for (int k = me; k < rounds;) {
			{
				std::lock_guard<utki::spin_lock> g(s.lock);
				if (s.turn == k) {
					if (int(s.msg.size()) != k || (k && s.msg.back() != k - 1)) {
						bad = true;
					}
					s.msg.push_back(k);
					s.turn = k + 1;
					polls = mix(polls ^ empty);
					k += 2;
					empty = 0;
					continue;
				}
			}
			++empty;
			std::this_thread::yield();
		}
	};
	std::thread a(play, 0), b(play, 1);
	a.join();
	b.join();
	CHECK("handed-over", !bad && int(s.msg.size()) == rounds, "");
	c.distinct(polls);
	COUNT_N("handovers", rounds);
}

SUITE(long_hold, 2, nofuzz | noisy | novg, "a lock held for seconds: the spinning waiters are still outside at the end of it, however many turns they took; every case non-trivial, distinct by the observed order")
{
	auto& r = c.r;
	c.nt();
	size_t nt = r.range(1, 2);
	// 1.5 s first, then longer and longer (the further cases are run in the thorough tier)
	u64 ms = c.index < 5 ? 1500 + 7000 * c.index : 300;
	utki::spin_lock lock;
	bool released = false; // plain: protected by the lock
	unsigned early = 0;
	std::vector<unsigned> order;
	std::atomic<bool> entered{false};
	lock.lock();
	std::vector<std::thread> ths;
	for (size_t t = 0; t != nt; ++t) {
		ths.emplace_back([&, t]() {
			lock.lock();
			entered = true;
			if (!released) {
				++early;
			}
			order.push_back(unsigned(t));
			lock.unlock();
		});
	}
	for (u64 i = 0; i * 50 < ms && !entered; ++i) {
		struct timespec ts = {0, 50000000};
		nanosleep(&ts, nullptr);
		progress(); // waiting is what the waiters are supposed to do now
	}
	CHECK("waited-long", !entered, "a thread entered while the lock was held, after at most ", ms, " ms");
	if (!entered) {
		released = true;
	}
	lock.unlock();
	for (auto& t : ths) {
		t.join();
	}
	CHECK("all-acquired-after-long-hold", order.size() == nt, "");
	u64 h = nt;
	for (auto o : order) {
		h = mix(h ^ o);
	}
	c.distinct(h);
	COUNT_N("milliseconds-held", ms);
}
