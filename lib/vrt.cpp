// Engine implementation. Compiled WITHOUT -fsanitize=thread so that its own
// synchronisation is invisible to TSan: the only happens-before edges TSan sees
// are those of the code under test (and thread create/join).
#include "vrt.h"
#include <linux/futex.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <fcntl.h>
#include <sched.h>

#if VRT_TSAN
extern "C" {
void AnnotateIgnoreReadsBegin(const char*, int);
void AnnotateIgnoreReadsEnd(const char*, int);
void AnnotateIgnoreWritesBegin(const char*, int);
void AnnotateIgnoreWritesEnd(const char*, int);
void AnnotateIgnoreSyncBegin(const char*, int);
void AnnotateIgnoreSyncEnd(const char*, int);
}
#endif

namespace vrt {
	namespace {
		constexpr uint32_t MAXP = 1 << 14, MAXS = 1 << 17, MAXT = 64, MAXMSG = 1 << 14, MAXNOTE = 1 << 15, MAXLABEL = 256;
		constexpr uint64_t STEP_LIMIT = 300000; // default
		constexpr uint32_t FAIR = 600;
		// Shared with the driver through a file mapping
		struct Shm {
			uint32_t magic, state; // state: 0 idle 1 running 2 failed 3 done
			uint64_t case_idx;
			uint32_t scenario, np, ns, msglen, notelen, flags;
			uint64_t cases, nontrivial, points_total, switches_total;
			uint32_t nlabels, pad;
			struct {
				char name[56];
				uint64_t n;
			} labels[MAXLABEL];
			char scen[64];
			char msg[MAXMSG];
			char notes[MAXNOTE];
			uint16_t pc[MAXP];
			uint16_t sc[MAXS];
		};
		Shm* shm;

		struct Rng {
			uint64_t s[2];
			static uint64_t mix(uint64_t& x) {
				uint64_t z = (x += 0x9e3779b97f4a7c15ull);
				z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
				z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
				return z ^ (z >> 31);
			}
			void seed(uint64_t a, uint64_t b) {
				uint64_t x = a * 0x9e3779b97f4a7c15ull + b;
				mix(x);
				s[0] = mix(x);
				s[1] = mix(x);
			}
			uint64_t next() {
				uint64_t a = s[0], b = s[1], r = a + b;
				b ^= a;
				s[0] = ((a << 55) | (a >> 9)) ^ b ^ (b << 14);
				s[1] = (b << 36) | (b >> 28);
				return r;
			}
			uint32_t below(uint32_t n) { return n <= 1 ? 0 : (uint32_t)((next() >> 11) % n); }
		} prng, srng;

		bool g_replay = false, g_verbose = false;
		int g_thorough = 0;
		uint32_t rp_np, rp_ns; // number of recorded choices in replay mode
		uint16_t *rp_pc, *rp_sc;
		// strategy
		int strat;
		uint32_t sw_den;
		uint64_t change_points[8];
		int n_change;
		int prio[MAXT];
		bool g_spurious;

		enum St : uint8_t { Unused, Ready, Blocked, Idle, Finished };
		struct VT {
			St st;
			bool timed, timed_out, drain;
			const void* key;
			const char* what;
			int64_t deadline;
			uint32_t futex;
			char keyobj;
		} vt[MAXT];
		int nvt = 0, cur = 0;
		bool g_active = false;
		uint64_t g_steps, run_len, g_step_limit;
		uint64_t g_unrecorded; // choices made after MAXP were recorded
		int g_suppress = 0;
		int64_t clk, g_slip;
		bool g_no_slip;
		thread_local int tls_self = -1;
		bool g_nontrivial, g_ignore_alloc;
		uint64_t case_hash;
		Scenario* g_scen = nullptr;
		void (*resets[32])();
		int nresets = 0;
		uint64_t* hashset;
		size_t hashcap = 0, hashn = 0;

		int64_t g_live = 0;
		int64_t g_fail_alloc = 0, g_fail_thread = 0;
		int g_fail_alloc_thread = 0;

		void futex_wait(uint32_t* a, uint32_t v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
		void futex_wake(uint32_t* a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

		void baton_give(int t) {
			__atomic_store_n(&vt[t].futex, 1u, __ATOMIC_SEQ_CST);
			futex_wake(&vt[t].futex);
		}
		void baton_wait(int t) {
			while (__atomic_load_n(&vt[t].futex, __ATOMIC_SEQ_CST) == 0)
				futex_wait(&vt[t].futex, 0);
			__atomic_store_n(&vt[t].futex, 0u, __ATOMIC_SEQ_CST);
		}

		uint32_t next_sched(uint32_t n, uint32_t dflt) {
			if (n <= 1) return 0;
			uint32_t v;
			if (g_replay)
				v = shm->ns < rp_ns ? rp_sc[shm->ns] % n : 0;
			else
				v = shm->ns < MAXS ? dflt : 0;
			if (shm->ns < MAXS) shm->sc[shm->ns++] = (uint16_t)v;
			case_hash = (case_hash ^ (v + 1)) * 0x100000001b3ull;
			return v;
		}

		[[noreturn]] void die(int code) {
			_exit(code);
		}

		// pick the next thread to run; cur may be blocked. Returns chosen id.
		int pick(bool yielding) {
			int list[MAXT], n = 0, ntimed = 0;
			if (vt[cur].st == Ready && !yielding) list[n++] = cur;
			for (int k = 1; k <= nvt; k++) {
				int i = (cur + k) % nvt;
				if (i == cur) continue;
				if (vt[i].st == Ready) list[n++] = i;
			}
			if (vt[cur].st == Ready && yielding) list[n++] = cur;
			int nready = n;
			const bool skip_timed = g_no_slip && nready > 0;
			// timed waiters sorted by deadline
			for (int i = 0; i < nvt; i++)
				if (!skip_timed && vt[i].st == Blocked && vt[i].timed) {
					int p = n++;
					while (p > nready && vt[list[p - 1]].deadline > vt[i].deadline) {
						list[p] = list[p - 1];
						p--;
					}
					list[p] = i;
					ntimed++;
				}
			// idle waiters
			if (nready == 0) {
				for (int i = 0; i < nvt; i++)
					if (vt[i].st == Idle && (!vt[i].drain || ntimed == 0)) return i;
			}
			if (n == 0) {
				char buf[2048];
				int o = 0;
				for (int i = 0; i < nvt; i++)
					if (vt[i].st == Blocked || vt[i].st == Idle)
						o += snprintf(buf + o, o < 1900 ? 1900 - o : 0, " T%d:%s", i, vt[i].what ? vt[i].what : "?");
				fail("DEADLOCK: every thread is blocked:%s", buf);
			}
			if (nready == 0) {
				// Only timed waiters: the earliest deadline is the only possible next event
				// (ties: choice).
				int m = 1;
				while (m < n && vt[list[m]].deadline == vt[list[0]].deadline)
					m++;
				return list[next_sched(m, srng.below(m))];
			}
			// choose
			uint32_t dflt = 0;
			if (!g_replay) {
				if (ntimed && srng.below(24) == 0) {
					dflt = nready + (srng.below(3) ? 0 : srng.below(ntimed));
				} else if (strat == 2) {
					for (int c = 0; c < n_change; c++)
						if (change_points[c] == g_steps) prio[cur] = -c - 1;
					if (yielding) prio[cur] = std::min(prio[cur], 0) - 16;
					int best = 0;
					for (int i = 1; i < nready; i++)
						if (prio[list[i]] > prio[list[best]]) best = i;
					dflt = best;
				} else if (strat == 0 || yielding || vt[cur].st != Ready) {
					dflt = srng.below(nready);
				} else {
					dflt = srng.below(sw_den) == 0 ? srng.below(nready) : 0;
				}
			}
			// fairness: a thread that ran for very long without letting others run has to step aside
			if (run_len > FAIR && nready > 1 && list[0] == cur) {
				run_len = 0;
				return list[1];
			}
			return list[next_sched(n, dflt)];
		}

		void switch_to(int t) {
			if (vt[t].st == Blocked) {
				// timed waiter whose deadline is now reached
				if (vt[t].deadline > clk) {
					for (int i = 0; i < nvt; i++)
						if (vt[i].st == Ready) {
							g_slip += vt[t].deadline - clk;
							break;
						}
					clk = vt[t].deadline;
					for (int i = 0; i < nvt; i++)
						if (i != t && vt[i].st == Blocked && vt[i].timed && vt[i].deadline < clk) {
							vt[i].st = Ready;
							vt[i].timed = false;
							vt[i].timed_out = true;
						}
				}
				vt[t].timed_out = true;
				vt[t].timed = false;
				vt[t].st = Ready;
			} else if (vt[t].st == Idle)
				vt[t].st = Ready;
			if (t == cur) return;
			int me = cur;
			cur = t;
			run_len = 0;
			shm->switches_total++;
			baton_give(t);
			if (vt[me].st != Finished) baton_wait(me);
		}

		void step(bool yielding) {
			if (!g_active || g_suppress > 0) return;
			g_steps++;
			run_len++;
			shm->points_total++;
			if (g_steps > g_step_limit) fail("LIVELOCK: no progress after %llu scheduler steps", (unsigned long long)g_steps);
			if (nvt == 1) return;
			switch_to(pick(yielding));
		}

		void add_hash(uint64_t h) {
			if (h == 0) h = 1;
			if (hashcap == 0 || hashn * 2 > hashcap) {
				size_t nc = hashcap ? hashcap * 4 : 1 << 16;
				auto* n = (uint64_t*)mmap(nullptr, nc * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
				for (size_t i = 0; i < hashcap; i++)
					if (hashset[i]) {
						size_t p = hashset[i] & (nc - 1);
						while (n[p])
							p = (p + 1) & (nc - 1);
						n[p] = hashset[i];
					}
				if (hashcap) munmap(hashset, hashcap * 8);
				hashset = n;
				hashcap = nc;
			}
			size_t p = h & (hashcap - 1);
			while (hashset[p] && hashset[p] != h)
				p = (p + 1) & (hashcap - 1);
			if (!hashset[p]) {
				hashset[p] = h;
				hashn++;
			}
		}
	} // namespace

	// ------------------------------------------------------------------ choices
	uint32_t choose(uint32_t n) {
		if (n <= 1) return 0;
		if (n > 65536) n = 65536;
		uint32_t v;
		if (shm->np >= MAXP) { // the rest of a huge case: the same when it is replayed
			uint64_t x = ++g_unrecorded * 0x9e3779b97f4a7c15ull;
			x = (x ^ (x >> 29)) * 0xbf58476d1ce4e5b9ull;
			v = (uint32_t)((x ^ (x >> 32)) % n);
		} else {
			if (g_replay)
				v = shm->np < rp_np ? rp_pc[shm->np] % n : 0;
			else
				v = prng.below(n);
			shm->pc[shm->np++] = (uint16_t)v;
		}
		case_hash = (case_hash ^ (v + 0x1001)) * 0x100000001b3ull;
		return v;
	}
	bool chance(uint32_t num, uint32_t den) {
		// value >= den-num is true so that 0 means false
		return choose(den) >= den - num;
	}
	uint32_t size(uint32_t lo, uint32_t hi) {
		uint32_t a = choose(hi - lo + 1), b = choose(hi - lo + 1);
		return lo + (a < b ? a : b);
	}
	uint32_t sched_choose(uint32_t n, uint32_t num, uint32_t den) {
		uint32_t d = 0;
		if (!g_replay && srng.below(den) < num) d = srng.below(n);
		return next_sched(n, d);
	}
	bool spurious_mode() { return g_spurious; }
	bool replaying() { return g_replay; }
	int thorough() { return g_thorough; }

	// ------------------------------------------------------------------ outcome
	void fail(const char* fmt, ...) {
		Quiet q;
		va_list ap;
		va_start(ap, fmt);
		shm->msglen = vsnprintf(shm->msg, MAXMSG, fmt, ap);
		va_end(ap);
		shm->state = 2;
		die(77);
	}
	void check_failed(const char* cond, const char* file, int line, const char* fmt, ...) {
		Quiet q;
		char buf[4096] = "";
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(buf, sizeof buf, fmt, ap);
		va_end(ap);
		const char* b = strrchr(file, '/');
		fail("CHECK(%s) failed at %s:%d %s", cond, b ? b + 1 : file, line, buf);
	}
	void note(const char* fmt, ...) {
		Quiet q;
		if (shm->notelen + 256 > MAXNOTE) return;
		va_list ap;
		va_start(ap, fmt);
		int o = g_active && nvt > 1 ? snprintf(shm->notes + shm->notelen, 16, "[T%d] ", cur) : 0;
		int n = vsnprintf(shm->notes + shm->notelen + o, 240 - o, fmt, ap);
		va_end(ap);
		if (n > 239 - o) n = 239 - o;
		shm->notelen += o + n;
		shm->notes[shm->notelen++] = '\n';
		shm->notes[shm->notelen] = 0;
	}
	void label(const char* name) {
		Quiet q;
		for (uint32_t i = 0; i < shm->nlabels; i++)
			if (strncmp(shm->labels[i].name, name, 55) == 0) {
				shm->labels[i].n++;
				return;
			}
		if (shm->nlabels >= MAXLABEL) return;
		auto& l = shm->labels[shm->nlabels];
		strncpy(l.name, name, 55);
		l.n = 1;
		shm->nlabels++;
	}
	void nontrivial() { g_nontrivial = true; }

	// ------------------------------------------------------------------ scheduler
	void point() { step(false); }
	void point_after() { step(false); }
	void yield_point() { step(true); }
	void suppress_points(int d) { g_suppress += d; }
	int self() { return g_active ? cur : -1; }
	bool active() { return g_active; }
	uint64_t steps() { return g_steps; }
	void step_limit(uint64_t n) { g_step_limit = n; }
	int64_t now_ns() { return clk; }
	int64_t slipped_ns() { return g_slip; }
	void allow_slips(bool on) { g_no_slip = !on; }
	void advance_ns(int64_t d) {
		clk += d;
		for (int i = 0; i < nvt; i++)
			if (vt[i].st == Blocked && vt[i].timed && vt[i].deadline <= clk) {
				vt[i].timed = false;
				vt[i].timed_out = true;
				vt[i].st = Ready;
			}
	}
	static void do_block() {
		run_len = 0;
		g_steps++;
		int t = pick(false);
		switch_to(t);
	}
	void block_on(const void* key, const char* what) {
		if (!g_active) fail("blocking operation outside of a case: %s", what);
		auto& v = vt[cur];
		v.st = Blocked;
		v.key = key;
		v.what = what;
		v.timed = v.timed_out = false;
		do_block();
	}
	bool block_until(const void* key, int64_t deadline, const char* what) {
		if (!g_active) fail("blocking operation outside of a case: %s", what);
		if (deadline <= clk) {
			step(false);
			return false;
		}
		auto& v = vt[cur];
		v.st = Blocked;
		v.key = key;
		v.what = what;
		v.timed = true;
		v.timed_out = false;
		v.deadline = deadline;
		do_block();
		return !v.timed_out;
	}
	void wake_all(const void* key) {
		for (int i = 0; i < nvt; i++)
			if (vt[i].st == Blocked && vt[i].key == key) {
				vt[i].st = Ready;
				vt[i].timed = false;
			}
	}
	bool wake_one(const void* key) {
		int l[MAXT], n = 0;
		for (int i = 0; i < nvt; i++)
			if (vt[i].st == Blocked && vt[i].key == key) l[n++] = i;
		if (n == 0) return false;
		int t = l[sched_choose(n, 1, 1)];
		vt[t].st = Ready;
		vt[t].timed = false;
		return true;
	}
	int waiters(const void* key) {
		int n = 0;
		for (int i = 0; i < nvt; i++)
			if (vt[i].st == Blocked && vt[i].key == key) n++;
		return n;
	}
	void wait_idle(bool drain) {
		bool others = false;
		for (int i = 0; i < nvt; i++)
			if (i != cur && (vt[i].st == Ready || (drain && vt[i].st == Blocked && vt[i].timed))) others = true;
		if (!others) return;
		auto& v = vt[cur];
		v.st = Idle;
		v.drain = drain;
		v.what = "wait_idle";
		do_block();
	}
	int thread_create() {
		if (nvt >= (int)MAXT) fail("too many threads in one case");
		int id = nvt++;
		memset(&vt[id], 0, sizeof(VT));
		vt[id].st = Ready;
		prio[id] = 1 + (g_replay ? 0 : srng.below(1000));
		return id;
	}
	void thread_enter(int id) {
		tls_self = id;
		baton_wait(id);
	}
	void thread_exit(int id) {
		vt[id].st = Finished;
		wake_all(&vt[id].keyobj);
		switch_to(pick(false));
	}
	bool thread_finished(int id) { return vt[id].st == Finished; }
	const void* thread_key(int id) { return &vt[id].keyobj; }

	// ------------------------------------------------------------------ quiet
	static thread_local int quiet_depth;
	Quiet::Quiet() {
#if VRT_TSAN
		if (quiet_depth++ == 0) {
			AnnotateIgnoreReadsBegin(__FILE__, __LINE__);
			AnnotateIgnoreWritesBegin(__FILE__, __LINE__);
			AnnotateIgnoreSyncBegin(__FILE__, __LINE__);
		}
#endif
	}
	Quiet::~Quiet() {
#if VRT_TSAN
		if (--quiet_depth == 0) {
			AnnotateIgnoreSyncEnd(__FILE__, __LINE__);
			AnnotateIgnoreWritesEnd(__FILE__, __LINE__);
			AnnotateIgnoreReadsEnd(__FILE__, __LINE__);
		}
#endif
	}

	// ------------------------------------------------------------------ allocations
	int64_t live_allocs() { return __atomic_load_n(&g_live, __ATOMIC_RELAXED); }
	void ignore_alloc_balance() { g_ignore_alloc = true; }
	void fail_alloc_after(int64_t n) {
		g_fail_alloc_thread = self();
		g_fail_alloc = n;
	}
	int64_t pause_alloc_failures(int64_t n) {
		auto old = g_fail_alloc;
		if (g_fail_alloc_thread == self()) g_fail_alloc = n;
		return old;
	}
	void fail_thread_after(int64_t n) { g_fail_thread = n; }
	bool thread_start_fails() {
		Quiet q;
		return g_fail_thread > 0 && --g_fail_thread == 0;
	}

	// ------------------------------------------------------------------ scenarios
	static Scenario* g_list = nullptr;
	Scenario::Scenario(const char* n, int w, void (*f)(), int fl) : name(n), weight(w), fn(f), flags(fl), next(nullptr) {
		Scenario** p = &g_list;
		while (*p)
			p = &(*p)->next;
		*p = this;
	}
	void on_reset(void (*fn)()) { resets[nresets++] = fn; }

	static void arm_watchdog() {
		itimerval it{};
		it.it_value.tv_sec = 30;
		setitimer(ITIMER_PROF, &it, nullptr);
	}
	static void on_prof(int) {
		static const char m[] = "HANG: one case used 30 s of CPU time without reaching a scheduler limit";
		memcpy(shm->msg, m, sizeof m);
		shm->msglen = sizeof m - 1;
		shm->state = 2;
		_exit(77);
	}

	static void run_one(Scenario* sc, uint64_t seed, uint64_t idx) {
		g_scen = sc;
		shm->case_idx = idx;
		shm->np = shm->ns = 0;
		g_unrecorded = 0;
		shm->notelen = 0;
		shm->notes[0] = 0;
		shm->msglen = 0;
		strncpy(shm->scen, sc->name, 63);
		shm->state = 1;
		case_hash = 0xcbf29ce484222325ull;
		for (const char* p = sc->name; *p; p++)
			case_hash = (case_hash ^ (uint8_t)*p) * 0x100000001b3ull;
		prng.seed(seed * 2 + 0x51ed270b, idx);
		srng.seed(seed * 2 + 0x2545f491, idx ^ 0xabcdef12345ull);
		strat = srng.below(3);
		static const uint32_t dens[] = {2, 4, 8, 16, 32, 3};
		sw_den = dens[srng.below(6)];
		n_change = srng.below(5);
		for (int i = 0; i < n_change; i++)
			change_points[i] = 1 + srng.below(i % 2 ? 400 : 80);
		g_nontrivial = g_ignore_alloc = false;
		g_fail_alloc = g_fail_thread = 0;
		g_steps = run_len = 0;
		g_step_limit = STEP_LIMIT;
		g_suppress = 0;
		clk = 1000000000000ll;
		g_slip = 0;
		g_no_slip = false;
		nvt = 0;
		cur = 0;
		memset(&vt[0], 0, sizeof(VT));
		nvt = 1;
		vt[0].st = Ready;
		prio[0] = 1 + (g_replay ? 0 : srng.below(1000));
		tls_self = 0;
		int64_t before = live_allocs();
		g_active = true;
		g_spurious = choose(4) == 3;
		arm_watchdog();
		sc->fn();
		g_active = false;
		for (int i = 1; i < nvt; i++)
			if (vt[i].st != Finished) fail("a thread created during the case is still running at its end (T%d)", i);
		for (int i = 0; i < nresets; i++)
			resets[i]();
		int64_t after = live_allocs();
		if (!g_ignore_alloc && after != before)
			fail("LEAK: %lld heap allocation(s) of this case were not released", (long long)(after - before));
		shm->cases++;
		if (g_nontrivial) {
			shm->nontrivial++;
			add_hash(case_hash);
		}
		shm->state = 0;
	}

	static Scenario* pick_scenario(uint64_t seed, uint64_t idx, const char* only) {
		int tot = 0;
		int bad = VRT_TSAN ? NO_TSAN : NO_ASAN;
		auto ok = [&](Scenario* s) { return !(s->flags & bad) && s->weight > 0 && (!only || strcmp(only, s->name) == 0); };
		for (auto s = g_list; s; s = s->next)
			if (ok(s)) tot += s->weight;
		if (tot == 0) return nullptr;
		Rng r;
		r.seed(seed ^ 0x5ce7a110, idx);
		int k = (int)r.below(tot);
		for (auto s = g_list; s; s = s->next)
			if (ok(s)) {
				if (k < s->weight) return s;
				k -= s->weight;
			}
		return nullptr;
	}

	int main(int argc, char** argv) {
		uint64_t seed = 1, from = 0, to = 1000;
		const char *shmfile = nullptr, *replay = nullptr, *only = nullptr, *hashes = nullptr, *samples = nullptr;
		int cpu = -1, nsamples = 0, repeat = 1;
		for (int i = 1; i < argc; i++) {
			std::string a = argv[i];
			auto v = [&] { return argv[++i]; };
			if (a == "--seed") seed = strtoull(v(), 0, 10);
			else if (a == "--from") from = strtoull(v(), 0, 10);
			else if (a == "--to") to = strtoull(v(), 0, 10);
			else if (a == "--shm") shmfile = v();
			else if (a == "--replay") replay = v();
			else if (a == "--only") only = v();
			else if (a == "--hashes") hashes = v();
			else if (a == "--samples") samples = v(), nsamples = 3;
			else if (a == "--cpu") cpu = atoi(v());
			else if (a == "--thorough") g_thorough = 1;
			else if (a == "--verbose") g_verbose = true;
			else if (a == "--repeat") repeat = atoi(v());
			else if (a == "--list") {
				for (auto s = g_list; s; s = s->next)
					printf("%s\n", s->name);
				return 0;
			}
		}
		if (cpu >= 0) {
			cpu_set_t cs;
			CPU_ZERO(&cs);
			CPU_SET(cpu, &cs);
			sched_setaffinity(0, sizeof cs, &cs);
		}
		signal(SIGPROF, on_prof);
		if (shmfile) {
			int fd = open(shmfile, O_RDWR | O_CREAT, 0644);
			if (ftruncate(fd, sizeof(Shm))) {}
			shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		} else
			shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		memset((void*)shm, 0, sizeof(Shm));
		shm->magic = 0x56525431;
		std::set_terminate([] {
			const char* what = "std::terminate called";
			char buf[512];
			if (auto e = std::current_exception()) {
				try {
					std::rethrow_exception(e);
				} catch (const std::exception& ex) {
					snprintf(buf, sizeof buf, "std::terminate called with exception: %s", ex.what());
					what = buf;
				} catch (...) { what = "std::terminate called with a non-standard exception"; }
			}
			fail("TERMINATE: %s", what);
		});
		// Warm-up: lets lazily allocated runtime structures appear before allocation balances are taken.
		try {
			throw std::runtime_error("x");
		} catch (...) { std::exception_ptr p = std::current_exception(); }
		if (replay) {
			// text file: scenario / np / choices / ns / choices
			FILE* f = fopen(replay, "r");
			if (!f) return 3;
			char name[128];
			if (fscanf(f, "%127s %u", name, &rp_np) != 2) return 3;
			rp_pc = (uint16_t*)calloc(rp_np + 1, 2);
			for (uint32_t i = 0, x; i < rp_np; i++)
				if (fscanf(f, "%u", &x) == 1) rp_pc[i] = (uint16_t)x;
			if (fscanf(f, "%u", &rp_ns) != 1) return 3;
			rp_sc = (uint16_t*)calloc(rp_ns + 1, 2);
			for (uint32_t i = 0, x; i < rp_ns; i++)
				if (fscanf(f, "%u", &x) == 1) rp_sc[i] = (uint16_t)x;
			fclose(f);
			g_replay = true;
			Scenario* s = g_list;
			while (s && strcmp(s->name, name))
				s = s->next;
			if (!s) return 3;
			for (int i = 0; i < repeat; i++)
				run_one(s, 0, 0);
			if (g_verbose) {
				if (write(1, shm->notes, shm->notelen)) {}
			}
			shm->state = 3;
			fflush(stdout);
			_exit(0);
		}
		FILE* sf = samples ? fopen(samples, "w") : nullptr;
		for (uint64_t i = from; i < to; i++) {
			Scenario* s = pick_scenario(seed, i, only);
			if (!s) break;
			run_one(s, seed, i);
			if (sf && g_nontrivial && nsamples > 0 && shm->notelen > 0) {
				nsamples--;
				fprintf(sf, "scenario %s case %llu: %u program choices, %u schedule choices\n%s\x1e", s->name,
						(unsigned long long)i, shm->np, shm->ns, shm->notes);
				fflush(sf);
			}
		}
		if (sf) fclose(sf);
		if (hashes) {
			FILE* f = fopen(hashes, "wb");
			for (size_t i = 0; i < hashcap; i++)
				if (hashset[i]) fwrite(&hashset[i], 8, 1, f);
			fclose(f);
		}
		shm->state = 3;
		fflush(stdout);
		_exit(0);
	}
} // namespace vrt

// ---------------------------------------------------------------------- operator new/delete
#if !VRT_TSAN // TSan brings its own; balances are checked in the other builds
static void* vrt_alloc(std::size_t n, std::size_t al, bool nothrow) {
	if (vrt::g_fail_alloc > 0 && vrt::g_fail_alloc_thread == vrt::self() && --vrt::g_fail_alloc == 0) {
		if (nothrow) return nullptr;
		throw std::bad_alloc();
	}
	void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
	if (!p) {
		if (nothrow) return nullptr;
		throw std::bad_alloc();
	}
	__atomic_fetch_add(&vrt::g_live, 1, __ATOMIC_RELAXED);
	return p;
}
static void vrt_free(void* p) {
	if (!p) return;
	__atomic_fetch_sub(&vrt::g_live, 1, __ATOMIC_RELAXED);
	free(p);
}
void* operator new(std::size_t n) { return vrt_alloc(n, 0, false); }
void* operator new[](std::size_t n) { return vrt_alloc(n, 0, false); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return vrt_alloc(n, 0, true); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return vrt_alloc(n, 0, true); }
void* operator new(std::size_t n, std::align_val_t a) { return vrt_alloc(n, (size_t)a, false); }
void* operator new[](std::size_t n, std::align_val_t a) { return vrt_alloc(n, (size_t)a, false); }
void operator delete(void* p) noexcept { vrt_free(p); }
void operator delete[](void* p) noexcept { vrt_free(p); }
void operator delete(void* p, std::size_t) noexcept { vrt_free(p); }
void operator delete[](void* p, std::size_t) noexcept { vrt_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { vrt_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { vrt_free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { vrt_free(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { vrt_free(p); }
#endif
