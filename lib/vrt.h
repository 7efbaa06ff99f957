// Runtime of the property-based testing engine: choice sequences, deterministic
// scheduler, virtual clock, failure reporting.  This header pulls in the complete
// standard library on purpose: vrt_shim.h later redirects some std names.
#pragma once
#include <bits/stdc++.h>
#include <ucontext.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <xmmintrin.h>
#include <emmintrin.h>
#include <fenv.h>
#if __has_include(<sanitizer/asan_interface.h>)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/tsan_interface.h>
#endif

#ifndef VRT_TSAN
#define VRT_TSAN 0
#endif

namespace vrt {
	// ---------------------------------------------------------------- choices
	// Program stream: decides what a case does. 0 is always the simplest choice.
	uint32_t choose(uint32_t n); // [0,n)
	inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + choose(hi - lo + 1); }
	inline bool flip() { return choose(2) == 1; }
	// true with probability num/den; shrinks to false
	bool chance(uint32_t num, uint32_t den);
	// Geometric-ish small size in [lo,hi], biased towards small values
	uint32_t size(uint32_t lo, uint32_t hi);
	// Schedule stream choice that is not a thread switch (spurious failure, notify target, ...).
	uint32_t sched_choose(uint32_t n, uint32_t num, uint32_t den);

	// ---------------------------------------------------------------- outcome
	[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
	void note(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // trace of the case
	void label(const char* name);                                           // classification counter
	void nontrivial();                                                      // stated rule is met
	bool replaying();
	int thorough(); // 0 quick 1 thorough

#define VRT_STR2(x) #x
#define VRT_STR(x) VRT_STR2(x)
#define CHECK(cond, ...)                                                                                               \
	do {                                                                                                               \
		if (!(cond)) ::vrt::check_failed(#cond, __FILE__, __LINE__, "" __VA_ARGS__);                                 \
	} while (0)
	[[noreturn]] void check_failed(const char* cond, const char* file, int line, const char* fmt, ...)
		__attribute__((format(printf, 4, 5)));

	// ---------------------------------------------------------------- scheduler
	struct Sched; // in vrt.cpp
	void point();      // schedule point (before a visible operation)
	void point_after();// schedule point right after a releasing operation
	void yield_point();// prefer another thread
	int self();        // virtual thread id, 0 = main
	bool active();     // is a scheduled case running
	// Block the calling virtual thread until woken through the same key.
	void block_on(const void* key, const char* what);
	// returns false on timeout. deadline in virtual ns.
	bool block_until(const void* key, int64_t deadline, const char* what);
	void wake_all(const void* key);
	bool wake_one(const void* key); // which one is a schedule choice
	int waiters(const void* key);
	int64_t now_ns();
	// Timed waits may run out while other threads are runnable (as if those were slow): total time that passed that way
	int64_t slipped_ns();
	void allow_slips(bool on); // default on
	void advance_ns(int64_t d); // move the virtual clock forward
	// Block until no other thread can run. If drain_timers, timed waits are run to their deadlines first.
	void wait_idle(bool drain_timers = true);
	// thread registration
	int thread_create();           // called by creator, returns new id
	void thread_enter(int id);     // first thing in new thread: waits for the baton
	void thread_exit(int id);      // last thing in the thread: passes the baton on
	bool thread_finished(int id);
	const void* thread_key(int id);
	void suppress_points(int d); // >0: schedule points are no-ops
	uint64_t steps();
	void step_limit(uint64_t n); // raise the number of steps after which a case counts as a livelock, for this case
	bool spurious_mode(); // spurious wakeups / weak CAS failures enabled for this case

	// Suppress TSan for the harness' own bookkeeping.
	struct Quiet {
		Quiet();
		~Quiet();
		Quiet(const Quiet&) = delete;
	};

	// ---------------------------------------------------------------- allocations
	int64_t live_allocs();
	void ignore_alloc_balance(); // scenario opts out of the allocation balance check
	// fault injection: the n-th operator new of the calling thread from now on throws bad_alloc (0 = off)
	void fail_alloc_after(int64_t n);
	// fault injection: the n-th thread from now on can not be started (0 = off)
	void fail_thread_after(int64_t n);
	bool thread_start_fails();
	int64_t pause_alloc_failures(int64_t n = 0);

	// ---------------------------------------------------------------- scenarios
	struct Scenario {
		const char* name;
		int weight;
		void (*fn)();
		int flags;
		Scenario* next;
		Scenario(const char* n, int w, void (*f)(), int flags = 0);
	};
	enum { NO_TSAN = 1, NO_ASAN = 2 };
#define SCENARIO(ident, weight, ...)                                                                                   \
	static void ident();                                                                                               \
	static ::vrt::Scenario ident##_reg{#ident, weight, &ident, ##__VA_ARGS__};                                        \
	static void ident()
	// Called after every case (and before the first one)
	void on_reset(void (*fn)());
	int main(int argc, char** argv);
} // namespace vrt
