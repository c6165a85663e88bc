// ThreadSanitizer does not model std::atomic_thread_fence(): correct code which orders relaxed operations by fences would be reported.
// Linked (with -Wl,--wrap for each of these functions) only when some object of the program contains a fence: a fence then both acquires and
// releases one common object, and all atomic operations are treated as sequentially consistent.  Not compiled with -fsanitize=thread.
// This adds happens-before edges, so it can hide races in programs with fences but never reports one that is none.
#include <cstdint>

extern "C" {
void __tsan_acquire(void*);
void __tsan_release(void*);

static uint64_t common;
constexpr int seq_cst = 5;

void __real___tsan_atomic_thread_fence(int);
void __wrap___tsan_atomic_thread_fence(int)
{
	__tsan_acquire(&common);
	__tsan_release(&common);
	__real___tsan_atomic_thread_fence(seq_cst);
}

#define RMW(n, t, op) \
	t __real___tsan_atomic##n##_##op(volatile t*, t, int); \
	t __wrap___tsan_atomic##n##_##op(volatile t* a, t v, int) \
	{ \
		return __real___tsan_atomic##n##_##op(a, v, seq_cst); \
	}
#define CAS(n, t, op) \
	int __real___tsan_atomic##n##_##op(volatile t*, t*, t, int, int); \
	int __wrap___tsan_atomic##n##_##op(volatile t* a, t* c, t v, int, int) \
	{ \
		return __real___tsan_atomic##n##_##op(a, c, v, seq_cst, seq_cst); \
	}
#define ALL(n, t) \
	t __real___tsan_atomic##n##_load(const volatile t*, int); \
	t __wrap___tsan_atomic##n##_load(const volatile t* a, int) \
	{ \
		return __real___tsan_atomic##n##_load(a, seq_cst); \
	} \
	void __real___tsan_atomic##n##_store(volatile t*, t, int); \
	void __wrap___tsan_atomic##n##_store(volatile t* a, t v, int) \
	{ \
		__real___tsan_atomic##n##_store(a, v, seq_cst); \
	} \
	RMW(n, t, exchange) \
	RMW(n, t, fetch_add) RMW(n, t, fetch_sub) RMW(n, t, fetch_and) RMW(n, t, fetch_or) RMW(n, t, fetch_xor) RMW(n, t, fetch_nand) \
	CAS(n, t, compare_exchange_strong) CAS(n, t, compare_exchange_weak)

ALL(8, uint8_t)
ALL(16, uint16_t)
ALL(32, uint32_t)
ALL(64, uint64_t)
}
