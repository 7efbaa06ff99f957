// C11: thread_pool
#include "../lib/vrt_shim.h"
#include <asyncpp/thread_pool.h>
#include "../lib/helpers.h"
using asyncpp::dispatcher;
using asyncpp::thread_pool;

namespace {
	struct World;
	World* W;
	struct TaskRec {
		int pool = 0;
		int runs = 0, destroyed = 0;
		bool accepted = false;
		uint64_t accepted_at = 0, run_at = 0;
	};
	struct World {
		std::unique_ptr<thread_pool> pool[2];
		thread_pool* raw[2] = {};
		std::vector<std::unique_ptr<TaskRec>> tasks;
		std::vector<int64_t> results; // per task, written by the task, read after the pool is gone
		std::map<int, int> thread_pool_of; // virtual thread -> pool
		uint64_t clock = 0;
		int open = 0, stolen = 0, cross = 0, drained = 0, refused = 0;
		std::vector<std::vector<int>> spawn; // what task i pushes: encoded pool*2+kind
		int budget = 0;
		bool cross_allowed = false;
	};
	// Callable pushed to the pool
	struct Job {
		int id;
		int depth;
		int pushed_by; // virtual thread
		int on_destroy; // pool to push to from the destructor or -1
		std::shared_ptr<int64_t> payload;
		std::shared_ptr<int> guard; // counts copies of this callable
		Job(int i, int d, int od) : id(i), depth(d), pushed_by(h::quiet([] { return vrt::self(); })), on_destroy(od), payload(std::make_shared<int64_t>(i * 5)), guard(std::make_shared<int>(0)) {}
		Job(const Job&) = default;
		Job(Job&&) = default;
		~Job();
		void operator()();
	};
	void push(int pool, int depth, bool from_task);
	int new_task(int pool) {
		return h::quiet([&] {
			W->tasks.push_back(std::make_unique<TaskRec>());
			W->tasks.back()->pool = pool;
			return (int)W->tasks.size() - 1;
		});
	}
	Job::~Job() {
		if (!guard || guard.use_count() > 1) return;
		h::quiet([&] { W->tasks[id]->destroyed++; });
		if (on_destroy >= 0 && h::quiet([&] { return W->tasks[id]->runs > 0; })) push(on_destroy, depth + 1, true);
	}
	void Job::operator()() {
		vrt::note("T%d runs task %d", vrt::self(), id);
		CHECK(*payload == id * 5, "writes made before the push are not visible");
		int pool = h::quiet([&] {
			auto& t = *W->tasks[id];
			t.runs++;
			t.run_at = ++W->clock;
			CHECK(t.runs == 1, "task %d executed %d times", id, t.runs);
			auto [it, fresh] = W->thread_pool_of.emplace(vrt::self(), t.pool);
			CHECK(it->second == t.pool, "task %d of pool %d ran on a thread of pool %d", id, t.pool, it->second);
			if (pushed_by != vrt::self()) W->stolen++;
			return t.pool;
		});
		CHECK(vrt::self() != 0 && h::quiet([&] { return W->thread_pool_of.count(vrt::self()); }) == 1);
		CHECK(dispatcher::current() == W->raw[pool], "task %d ran with %s as current dispatcher", id, dispatcher::current() ? "another dispatcher" : "nothing");
		W->results[id] = id + 1;
		int n = h::quiet([&] { return id < (int)W->spawn.size() ? (int)W->spawn[id].size() : 0; });
		for (int i = 0; i < n; i++) {
			int what = W->spawn[id][i];
			int target = W->cross_allowed && what >= 3 ? 1 - pool : pool;
			if (what == 2)
				vrt::yield_point();
			else
				push(target, depth + 1, true);
		}
		CHECK(dispatcher::current() == W->raw[pool], "the current dispatcher changed while task %d was running", id);
	}
	void push(int pool, int depth, bool from_task) {
		int od = -1;
		bool go = h::quiet([&] {
			if (depth > 4 || W->budget <= 0) return false;
			W->budget--;
			return true;
		});
		if (!go) return;
		int id = new_task(pool);
		if (id % 5 == 4) od = pool;
		W->results[id] = 0;
		bool ok = true;
		{
			Job j(id, depth, od);
			vrt::note("T%d pushes task %d to pool %d", vrt::self(), id, pool);
			h::quiet([&] { W->open++; });
			try {
				W->raw[pool]->push(std::move(j));
			} catch (const std::runtime_error&) {
				ok = false;
				h::quiet([&] {
					W->open--;
					W->refused++;
					CHECK(W->tasks[id]->runs == 0, "a refused task was executed");
				});
			}
		}
		h::quiet([&] {
			W->tasks[id]->accepted = ok;
			W->tasks[id]->accepted_at = ++W->clock;
			if (from_task && W->raw[pool] && dispatcher::current() == W->raw[pool]) CHECK(ok, "a task could not push to the pool executing it");
		});
	}
	void verify_all(const char* when) {
		for (std::size_t i = 0; i < W->tasks.size(); i++) {
			auto& t = *W->tasks[i];
			CHECK(t.runs == (t.accepted ? 1 : 0), "%s: task %zu was %s but executed %d times", when, i, t.accepted ? "accepted" : "refused", t.runs);
			CHECK(t.destroyed == 1, "%s: callable of task %zu was released %d times", when, i, t.destroyed);
			if (t.accepted) CHECK(W->results[i] == (int64_t)i + 1, "effects of task %zu are missing", i);
		}
	}
	void check_threads(int pool, std::size_t limit) {
		h::quiet([&] {
			std::size_t alive = 0;
			for (auto& [t, p] : W->thread_pool_of)
				if (p == pool && !vrt::thread_finished(t)) alive++;
			CHECK(alive <= limit, "%zu threads are running after a resize to %zu", alive, limit);
		});
	}
	struct Init {
		World w;
		Init() {
			W = &w;
			w.tasks.reserve(256);
			w.results.resize(256);
		}
		~Init() { W = nullptr; }
	};
	void gen_spawn(int n) {
		for (int i = 0; i < n; i++) {
			W->spawn.emplace_back();
			int k = vrt::chance(1, 2) ? (int)vrt::choose(4) : 0;
			for (int j = 0; j < k; j++)
				W->spawn.back().push_back((int)vrt::choose(5));
		}
	}
} // namespace
// External pushers, tasks pushing tasks, a resizing thread, destruction while tasks are queued.
SCENARIO(pushes_and_resizes, 180) {
	Init in;
	auto& w = in.w;
	w.budget = (int)vrt::range(4, 22);
	gen_spawn(24);
	int size0 = (int)vrt::range(1, 3);
	struct R {
		int target, pause;
	};
	std::vector<R> resizes;
	int nr = (int)vrt::choose(4);
	for (int i = 0; i < nr; i++)
		resizes.push_back({(int)vrt::choose(5), (int)vrt::choose(3)});
	int np = (int)vrt::range(1, 2);
	std::vector<int> count(np);
	for (auto& c : count)
		c = (int)vrt::range(1, 6);
	bool early = vrt::flip(); // destroy as soon as the pushers are done
	w.pool[0] = std::make_unique<thread_pool>(size0);
	w.raw[0] = w.pool[0].get();
	CHECK(w.raw[0]->size() == (std::size_t)size0);
	{
		std::vector<std::vthread> ts;
		for (int p = 0; p < np; p++)
			ts.emplace_back([&, p] {
				for (int i = 0; i < count[p]; i++)
					push(0, 0, false);
				CHECK(dispatcher::current() == nullptr, "pushing changed the current dispatcher");
			});
		if (nr)
			ts.emplace_back([&] {
				for (auto& r : resizes) {
					for (int i = 0; i < r.pause; i++)
						vrt::yield_point();
					std::vector<int> must = h::quiet([&] {
						std::vector<int> m;
						for (std::size_t i = 0; i < w.tasks.size(); i++)
							if (w.tasks[i]->accepted) m.push_back((int)i);
						return m;
					});
					vrt::note("resize to %d", r.target);
					w.raw[0]->resize((std::size_t)r.target);
					vrt::note("resized to %d", r.target);
					CHECK(w.raw[0]->size() == (std::size_t)r.target, "size() is %zu after a resize to %d", w.raw[0]->size(), r.target);
					check_threads(0, (std::size_t)r.target);
					if (r.target == 0)
						h::quiet([&] {
							for (auto i : must)
								CHECK(w.tasks[i]->runs == 1, "task %d was not executed before resize(0) returned", i);
							for (std::size_t i = 0; i < w.tasks.size(); i++)
								CHECK(!w.tasks[i]->accepted || w.tasks[i]->runs == 1, "task %zu is lost in an empty pool", i);
						});
				}
			});
		h::join_all(ts);
	}
	if (!early) vrt::wait_idle(false);
	w.pool[0].reset();
	check_threads(0, 0);
	verify_all("after destroying the pool");
	if (w.tasks.size() > 4 && (nr || w.stolen)) vrt::nontrivial();
	if (w.refused) vrt::label("push refused by an empty pool");
}
// Two pools pushing to each other
SCENARIO(two_pools, 90) {
	Init in;
	auto& w = in.w;
	w.budget = (int)vrt::range(4, 18);
	w.cross_allowed = true;
	gen_spawn(20);
	for (int i = 0; i < 2; i++) {
		w.pool[i] = std::make_unique<thread_pool>(vrt::range(1, 2));
		w.raw[i] = w.pool[i].get();
	}
	int n = (int)vrt::range(1, 5);
	std::vector<int> target;
	for (int i = 0; i < n; i++)
		target.push_back((int)vrt::choose(2));
	bool more = vrt::flip();
	std::vthread t([&] {
		for (auto p : target)
			push(p, 0, false);
	});
	if (more)
		w.raw[0]->resize(3), w.raw[1]->resize(1);
	t.join();
	// all tasks are done eventually, without anybody shutting down
	for (int i = 0; i < 200; i++) {
		bool open = h::quiet([&] {
			for (auto& x : w.tasks)
				if (!x->destroyed) return true;
			return false;
		});
		if (!open) break;
		CHECK(i < 199, "tasks are not executed although the pool is idle");
		std::vthis_thread::sleep_for(std::chrono::milliseconds(50));
	}
	std::size_t before = w.tasks.size();
	w.pool[0].reset();
	w.pool[1].reset();
	CHECK(before == w.tasks.size(), "tasks appeared after everything was done");
	verify_all("after destroying both pools");
	std::set<int> pools;
	for (auto& x : w.tasks)
		pools.insert(x->pool);
	if (pools.size() == 2 && w.tasks.size() > 3) vrt::nontrivial();
}
// A task blocks until a task it pushed has been executed: with a second thread it must be stolen.
SCENARIO(steal, 60) {
	Init in;
	std::vmutex m;
	std::vcondition_variable cv;
	int done = 0, chains = (int)vrt::range(1, 3), depth = (int)vrt::range(1, 2);
	int extra = (int)vrt::choose(3);
	int other = 0;
	{
		// every chain may block depth threads
		thread_pool pool((std::size_t)(chains * depth + 1));
		std::function<void(int)> blocker = [&](int d) {
			bool child = false;
			CHECK(dispatcher::current() == &pool);
			pool.push([&, d] {
				CHECK(dispatcher::current() == &pool);
				if (d > 1) blocker(d - 1);
				std::lock_guard l(m);
				child = true;
				cv.notify_all();
			});
			std::unique_lock l(m);
			while (!child)
				cv.wait(l);
		};
		for (int i = 0; i < chains; i++)
			pool.push([&] {
				blocker(depth);
				std::lock_guard l(m);
				done++;
				cv.notify_all();
			});
		for (int i = 0; i < extra; i++)
			pool.push([&] {
				std::lock_guard l(m);
				other++;
				cv.notify_all();
			});
		std::unique_lock l(m);
		while (done < chains || other < extra)
			cv.wait(l);
	}
	CHECK(done == chains && other == extra);
	vrt::nontrivial();
}
// Histories without concurrency between the operations: exact results of every call
SCENARIO(api, 30) {
	{
		std::size_t n = vrt::choose(4);
		thread_pool p(n);
		int ran = 0, pushed = 0;
		int k = (int)vrt::range(1, 6);
		for (int i = 0; i < k; i++) {
			switch (vrt::choose(3)) {
			case 0:
				n = vrt::choose(5);
				p.resize(n);
				break;
			case 1: {
				bool threw = false;
				try {
					p.push([&] { h::quiet([&] { ran++; }); });
				} catch (const std::runtime_error&) { threw = true; }
				CHECK(threw == (n == 0), "push to a pool of %zu threads %s", n, threw ? "failed" : "succeeded");
				pushed += !threw;
				break;
			}
			case 2: p.push({}); break;
			}
			CHECK(p.size() == n, "size() is %zu instead of %zu", p.size(), n);
		}
		p.resize(0);
		CHECK(ran == pushed, "%d of %d tasks were executed", ran, pushed);
		if (k > 3) vrt::nontrivial();
	}
	thread_pool def;
	CHECK(def.size() == std::vthread::hardware_concurrency());
}

// Several threads resize the same pool while tasks are pushed
SCENARIO(competing_resizes, 60) {
	Init in;
	auto& w = in.w;
	w.budget = (int)vrt::range(2, 12);
	gen_spawn(14);
	int nt = (int)vrt::range(2, 3);
	std::vector<std::vector<int>> plan(nt);
	for (auto& p : plan) {
		int n = (int)vrt::range(1, 3);
		for (int i = 0; i < n; i++)
			p.push_back((int)vrt::choose(5));
	}
	int pushes = (int)vrt::choose(5);
	bool early = vrt::flip();
	w.pool[0] = std::make_unique<thread_pool>(vrt::choose(3));
	w.raw[0] = w.pool[0].get();
	std::vector<std::vthread> ts;
	for (auto& p : plan)
		ts.emplace_back([&] {
			for (auto t : p) {
				w.raw[0]->resize((std::size_t)t);
				vrt::note("T%d: resized to %d", vrt::self(), t);
			}
		});
	ts.emplace_back([&] {
		for (int i = 0; i < pushes; i++)
			push(0, 0, false);
	});
	h::join_all(ts);
	std::size_t size = w.raw[0]->size();
	bool possible = false;
	for (auto& p : plan)
		possible |= size == (std::size_t)p.back();
	CHECK(possible, "size() is %zu, which no thread asked for last", size);
	if (!early) vrt::wait_idle(false);
	// the pool still works
	if (size) {
		int refused = h::quiet([&] { return w.refused; });
		push(0, 0, false);
		CHECK(h::quiet([&] { return w.refused; }) == refused, "a pool of %zu threads refused a task", size);
	}
	w.pool[0].reset();
	check_threads(0, 0);
	verify_all("after destroying the pool");
	vrt::nontrivial();
}
// A thread waiting for work is woken by a push
SCENARIO(idle_threads_are_woken, 30) {
	vrt::allow_slips(false);
	thread_pool p(1);
	int n = (int)vrt::range(1, 4);
	for (int i = 0; i < n; i++) {
		int idle = (int)vrt::range(1, 99);
		std::vthis_thread::sleep_for(std::chrono::milliseconds(idle));
		// time passes only while every thread waits, the worker (which polls every 100 ms) is thus waiting now
		struct {
			std::vmutex m;
			std::vcondition_variable cv;
			bool done = false;
			long long at = 0;
		} s;
		auto before = vrt::now_ns();
		p.push([&] {
			std::lock_guard l(s.m);
			s.at = (long long)vrt::now_ns();
			s.done = true;
			s.cv.notify_all();
		});
		std::unique_lock l(s.m);
		while (!s.done)
			s.cv.wait(l);
		CHECK(s.at - (long long)before < 1'000'000, "the task was started %lld us after it was pushed to an idle pool", (s.at - (long long)before) / 1000);
	}
	if (n > 1) vrt::nontrivial();
}
// Many tasks
SCENARIO(many_tasks, 1) {
	int n = std::min(h::bulk(false), 1200), threads = vrt::chance(1, 4) ? (int)vrt::range(4, 12) : (int)vrt::range(1, 3);
	int nested = (int)vrt::choose(4), pushers = (int)vrt::range(1, 2);
	std::vector<int> runs((std::size_t)n * 4, 0);
	{
		thread_pool p((std::size_t)threads);
		CHECK(p.size() == (std::size_t)threads);
		std::vector<std::vthread> ts;
		for (int k = 0; k < pushers; k++)
			ts.emplace_back([&, k] {
				for (int i = k; i < n; i += pushers)
					p.push([&, i] {
						CHECK(dispatcher::current() == &p);
						h::quiet([&] { CHECK(++runs[i] == 1, "task %d executed twice", i); });
						for (int j = 1; j <= nested; j++)
							p.push([&, i, j] { h::quiet([&] { CHECK(++runs[i + j * (n)] == 1, "task %d executed twice", i + j * n); }); });
					});
			});
		if (vrt::flip()) p.resize((std::size_t)vrt::range(1, 12));
		h::join_all(ts);
	}
	for (int i = 0; i < n * (nested + 1); i++)
		CHECK(runs[i] == 1, "task %d was not executed", i);
	if (n > 20) vrt::nontrivial();
}
// Resources run out: threads that can not be started, pushes without memory
SCENARIO(failures, 40, vrt::NO_TSAN) {
	struct Fn {
		long long* sum;
		std::array<long long, 12> pad{}; // does not fit into a std::function
		void operator()() {
			long long v = pad[3];
			h::quiet([&] { *sum += v; });
		}
	};
	long long sum = 0, expected = 0;
	int failed = 0;
	{
		std::optional<thread_pool> p;
		std::size_t n = vrt::choose(4);
		vrt::fail_thread_after((int64_t)vrt::choose((uint32_t)n + 2));
		try {
			p.emplace(n);
		} catch (const std::system_error&) {
			failed++;
			vrt::label("a pool could not be created");
		}
		vrt::fail_thread_after(0);
		if (!p) p.emplace(n = 1 + vrt::choose(2));
		CHECK(p->size() == n, "size() is %zu instead of %zu", p->size(), n);
		int k = (int)vrt::range(1, 8);
		for (int i = 0; i < k; i++) {
			switch (vrt::choose(3)) {
			case 0: {
				std::size_t to = vrt::choose(6);
				bool oom = vrt::chance(1, 3), threw = false;
				vrt::note("resize %zu to %zu", n, to);
				try {
					if (oom)
						vrt::fail_alloc_after(1 + vrt::choose(6));
					else
						vrt::fail_thread_after((int64_t)vrt::choose(4));
					p->resize(to);
				} catch (const std::system_error&) { threw = true; } catch (const std::bad_alloc&) {
					threw = true;
				}
				vrt::fail_thread_after(0);
				vrt::fail_alloc_after(0);
				auto size = p->size();
				if (threw) {
					failed++;
					vrt::label("a resize failed");
					CHECK(to > n && size >= n && size < to, "%zu threads are available after growing from %zu to %zu failed", size, n, to);
				} else
					CHECK(size == to, "size() is %zu after a resize to %zu", size, to);
				n = size;
				break;
			}
			case 1: {
				Fn fn{&sum};
				fn.pad[3] = i + 1;
				std::function<void()> f(fn);
				bool refused = false;
				bool oom = h::out_of_memory([&] {
					try {
						p->push(std::move(f));
					} catch (const std::runtime_error&) { refused = true; }
				});
				if (oom) failed++;
				CHECK(oom || refused == (n == 0), "push to a pool of %zu threads %s", n, refused ? "was refused" : "was accepted");
				if (!oom && !refused) expected += i + 1;
				break;
			}
			case 2: vrt::wait_idle(false); break;
			}
		}
		if (n && vrt::flip()) {
			// works as ever
			expected += 1000;
			p->push([&] { h::quiet([&] { sum += 1000; }); });
			auto deadline = vrt::now_ns() + 1'000'000'000;
			while (h::quiet([&] { return sum != expected; }) && vrt::now_ns() < deadline)
				std::vthis_thread::sleep_for(std::chrono::milliseconds(20));
			CHECK(h::quiet([&] { return sum == expected; }), "accepted tasks are not executed");
		}
	}
	CHECK(sum == expected, "the executed tasks sum up to %lld instead of %lld", sum, expected);
	if (failed) vrt::nontrivial();
}
