// C19: current dispatcher, defer and simple_dispatcher
#include "../lib/vrt_shim.h"
#include <asyncpp/defer.h>
#include <asyncpp/dispatcher.h>
#include <asyncpp/simple_dispatcher.h>
#include <asyncpp/thread_pool.h>
#include <asyncpp/timer.h>
#include "../lib/helpers.h"
using asyncpp::defer;
using asyncpp::dispatcher;
using asyncpp::simple_dispatcher;
using asyncpp::thread_pool;
using asyncpp::timer;
using h::Tracked;

namespace {
	// stands for a surrounding event loop
	struct Outer : dispatcher {
		void push(std::function<void()>) override { vrt::fail("pushed to a dispatcher that was never a target"); }
		dispatcher* old = nullptr;
		void enter() { old = dispatcher::current(this); }
		void leave() {
			auto x = dispatcher::current(old);
			CHECK(x == this, "the current dispatcher was not restored");
		}
	};
	// ------------------------------------------------------------ one thread, against a model
	enum OK { LOG, PUSH, STOP, RUN, HOPS, EMPTY, THROW };
	struct Script;
	struct Op {
		OK k;
		int d = 0;
		std::unique_ptr<Script> s;
		std::vector<int> hops;
	};
	struct Script {
		int id;
		std::vector<Op> ops;
	};
	struct Boom {
		int id;
	};
	struct Ev {
		char k;
		int a, b;
		bool operator==(const Ev& o) const { return k == o.k && a == o.a && b == o.b; }
	};
	struct MModel {
		struct D {
			std::deque<std::function<void()>> q;
			bool done = false;
		};
		std::vector<D> ds;
		std::vector<Ev> log;
		int cur = -1;
		int hops = 0, nested = 0, depth = 0, throws = 0;
		int current() { return cur; }
		void push(int d, std::function<void()> f) { ds[d].q.push_back(std::move(f)); }
		void push_empty(int) {}
		void stop(int d) { ds[d].done = true; }
		void run(int d) {
			int old = cur;
			cur = d;
			if (++depth > 1) nested++;
			try {
				while (!ds[d].done) {
					if (ds[d].q.empty()) vrt::fail("generated program would block");
					auto f = std::move(ds[d].q.front());
					ds[d].q.pop_front();
					f();
				}
			} catch (...) {
				cur = old;
				depth--;
				throws++;
				throw;
			}
			depth--;
			cur = old;
		}
		void hop(const Op* o, std::size_t i) {
			for (; i < o->hops.size(); i++) {
				int d = o->hops[i];
				if (d < 0) {
					log.push_back({'n', o->d, cur});
					continue;
				}
				hops++;
				push(d, [this, o, i] {
					log.push_back({'h', o->d, cur});
					hop(o, i + 1);
				});
				return;
			}
			log.push_back({'e', o->d, cur});
		}
	};
	struct hopco {
		struct promise_type {
			hopco get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
			std::suspend_always initial_suspend() noexcept { return {}; }
			std::suspend_always final_suspend() noexcept { return {}; }
			void return_void() {}
			void unhandled_exception() { vrt::fail("unexpected exception"); }
		};
		std::coroutine_handle<promise_type> hd;
	};
	struct MReal {
		std::vector<std::unique_ptr<simple_dispatcher>> ds;
		Outer outer;
		std::vector<Ev> log;
		std::vector<std::coroutine_handle<hopco::promise_type>> cos;
		int kind = 0; // how defer is spelled
		int current() {
			auto c = dispatcher::current();
			if (!c) return -1;
			if (c == &outer) return -2;
			for (std::size_t i = 0; i < ds.size(); i++)
				if (ds[i].get() == c) return (int)i;
			vrt::fail("the current dispatcher is none of those that exist");
		}
		void push(int d, std::function<void()> f) {
			ds[d]->push([f = std::move(f), t = Tracked(d)] {
				t.check();
				f();
			});
		}
		void push_empty(int d) { ds[d]->push(std::function<void()>{}); }
		void stop(int d) { ds[d]->stop(); }
		void run(int d) { ds[d]->run(); }
		hopco hopper(const Op* o) {
			Tracked local(o->d);
			for (int d : o->hops) {
				if (d < 0) {
					if (kind == 0)
						co_await defer{(simple_dispatcher*)nullptr};
					else
						co_await defer<dispatcher>{nullptr};
					log.push_back({'n', (int)local.get(), current()});
				} else {
					if (kind == 0)
						co_await defer{*ds[d]};
					else if (kind == 1)
						co_await defer{ds[d].get()};
					else {
						defer<dispatcher> x{ds[d].get()};
						co_await x;
					}
					log.push_back({'h', (int)local.get(), current()});
				}
			}
			log.push_back({'e', (int)local.get(), current()});
		}
		void hop(const Op* o, std::size_t) {
			auto c = hopper(o);
			cos.push_back(c.hd);
			c.hd.resume();
		}
	};
	template<typename W>
	void exec(W& w, const Script* s) {
		w.log.push_back({'s', s->id, w.current()});
		for (auto& o : s->ops) {
			switch (o.k) {
			case LOG: w.log.push_back({'l', s->id, w.current()}); break;
			case PUSH: w.push(o.d, [&w, p = o.s.get()] { exec(w, p); }); break;
			case STOP: w.stop(o.d); break;
			case RUN:
				// whatever is pushed later cannot keep this from ending
				w.push(o.d, [&w, d = o.d] { w.stop(d); });
				w.log.push_back({'r', o.d, w.current()});
				try {
					w.run(o.d);
					w.log.push_back({'R', o.d, w.current()});
				} catch (const Boom& b) { w.log.push_back({'c', b.id, w.current()}); }
				break;
			case HOPS: w.hop(&o, 0); break;
			case EMPTY: w.push_empty(o.d); break;
			case THROW: throw Boom{s->id};
			}
		}
		w.log.push_back({'x', s->id, w.current()});
	}
	struct Gen {
		int nd, next = 1, budget = 24;
		std::unique_ptr<Script> script(int depth) {
			auto s = std::make_unique<Script>();
			s->id = next++;
			int n = vrt::size(depth ? 0 : 2, depth ? 5 : 8);
			for (int i = 0; i < n && budget > 0; i++) {
				budget--;
				int w[] = {1, 6, depth ? 1 : 0, depth > 3 ? 0 : 3, 4, 1, depth ? 1 : 0};
				int x = vrt::choose(std::accumulate(std::begin(w), std::end(w), 0)), k = 0;
				while (x >= w[k])
					x -= w[k++];
				Op o;
				o.k = (OK)k;
				o.d = vrt::choose(nd);
				if (o.k == PUSH) o.s = script(depth + 1);
				if (o.k == HOPS) {
					o.d = 1000 + next++;
					int m = vrt::range(1, 4);
					for (int j = 0; j < m; j++)
						o.hops.push_back((int)vrt::choose(nd + 1) - 1);
				}
				s->ops.push_back(std::move(o));
				if (s->ops.back().k == THROW) break;
			}
			return s;
		}
	};
	void dump(const Script& s, int ind) {
		static const char* n[] = {"log", "push", "stop", "run", "hops", "push empty", "throw"};
		vrt::note("%*sscript %d", ind, "", s.id);
		for (auto& o : s.ops) {
			std::string h;
			for (int x : o.hops)
				h += " " + std::to_string(x);
			vrt::note("%*s %s %d%s", ind, "", n[o.k], o.d, h.c_str());
			if (o.s) dump(*o.s, ind + 2);
		}
	}
	void nesting() {
		Gen g{(int)vrt::range(1, 5)};
		std::vector<std::unique_ptr<Script>> top;
		int n = vrt::range(1, 3);
		for (int i = 0; i < n; i++) {
			top.push_back(g.script(0));
			dump(*top.back(), 0);
		}
		bool outer = vrt::flip();
		MModel m;
		m.ds.resize(g.nd);
		m.cur = outer ? -2 : -1;
		MReal r;
		r.kind = vrt::choose(3);
		for (int i = 0; i < g.nd; i++)
			r.ds.push_back(std::make_unique<simple_dispatcher>());
		if (outer) r.outer.enter();
		for (auto& s : top) {
			exec(m, s.get());
			exec(r, s.get());
			for (std::size_t i = 0; i < std::max(m.log.size(), r.log.size()); i++) {
				if (i < m.log.size() && i < r.log.size() && m.log[i] == r.log[i]) continue;
				auto str = [](std::vector<Ev>& l, std::size_t i) {
					return i < l.size() ? std::string(1, l[i].k) + " " + std::to_string(l[i].a) + " on " + std::to_string(l[i].b) : std::string("(nothing)");
				};
				vrt::fail("step %zu is '%s' instead of '%s'", i, str(r.log, i).c_str(), str(m.log, i).c_str());
			}
		}
		if (outer) r.outer.leave();
		CHECK(dispatcher::current() == nullptr);
		if (m.hops || m.nested) vrt::nontrivial();
		if (m.nested) vrt::label("nested run()");
		if (m.throws) vrt::label("run() left by an exception");
		if (m.hops > 2) vrt::label("several hops");
		// what was not executed is released together with the dispatcher
		r.ds.clear();
		for (auto hd : r.cos)
			hd.destroy();
	}

	// ------------------------------------------------------------ many threads
	struct Item {
		int target, by;
		uint64_t begin = 0, end = UINT64_MAX, ran = 0;
		int runs = 0;
	};
	struct World {
		std::vector<dispatcher*> ds;
		std::vector<simple_dispatcher*> simple;
		std::vector<thread_pool*> pools;
		std::vector<timer*> timers;
		std::vector<std::unique_ptr<Item>> items;
		std::vector<std::vector<int>> order; // per dispatcher
		std::vector<uint64_t> stop_begin, stop_end;
		std::vector<std::set<int>> threads_of;
		uint64_t clock = 0;
		int budget = 0, cos = 0, finished = 0, cross = 0;
		std::vector<int64_t> payload;
	};
	World* W;
	void act(int depth);
	void push(int d, int depth) {
		int id = h::quiet([&] {
			W->items.push_back(std::make_unique<Item>(Item{d, vrt::self(), ++W->clock}));
			return (int)W->items.size() - 1;
		});
		vrt::note("T%d pushes %d to %d", vrt::self(), id, d);
		auto data = std::make_shared<int64_t>(id * 7);
		W->ds[d]->push([id, d, depth, data, t = Tracked(id)] {
			CHECK(t.get() == id && *data == id * 7);
			*data = 0;
			CHECK(dispatcher::current() == W->ds[d], "callback %d of dispatcher %d ran while %s was current", id, d, dispatcher::current() ? "another" : "none");
			h::quiet([&] {
				auto& it = *W->items[id];
				it.ran = ++W->clock;
				CHECK(++it.runs == 1, "callback %d ran %d times", id, it.runs);
				W->order[d].push_back(id);
				W->threads_of[d].insert(vrt::self());
				if (it.by != vrt::self()) W->cross++;
			});
			act(depth + 1);
			CHECK(dispatcher::current() == W->ds[d], "the current dispatcher changed during callback %d", id);
		});
		h::quiet([&] { W->items[id]->end = ++W->clock; });
	}
	template<typename D>
	h::co hopper(std::vector<std::pair<int, int>> hops, std::vector<D*> targets, int id) {
		auto data = std::make_unique<int64_t>(id);
		int64_t steps = 0;
		for (auto [d, how] : hops) {
			D* t = d < 0 ? nullptr : targets[d];
			int before = vrt::self();
			dispatcher* cur = dispatcher::current();
			int64_t expect = steps + 1;
			if (how && t)
				co_await defer{*t};
			else
				co_await defer{t};
			steps++;
			CHECK(steps == expect && *data == id, "the coroutine was resumed more than once");
			*data = id;
			if (!t)
				CHECK(vrt::self() == before && dispatcher::current() == cur, "defer to null moved the coroutine");
			else
				CHECK(dispatcher::current() == static_cast<dispatcher*>(t), "deferred coroutine continues on %s", dispatcher::current() ? "another dispatcher" : "no dispatcher");
		}
		h::quiet([&] { W->finished++; });
	}
	bool hops_allowed;
	void act(int depth) {
		int n = depth == 0 ? vrt::range(1, 4) : depth > 3 ? 0 : vrt::size(0, 2);
		for (int i = 0; i < n; i++) {
			if (h::quiet([] { return --W->budget < 0; })) return;
			if (hops_allowed && vrt::chance(2, 5)) {
				std::vector<std::pair<int, int>> hops;
				int m = vrt::range(1, 4), id = h::quiet([] { return ++W->cos; });
				int kind = vrt::choose(4);
				auto fill = [&](std::size_t nr) {
					for (int j = 0; j < m; j++)
						hops.emplace_back((int)vrt::choose((uint32_t)nr + 1) - 1, vrt::choose(2));
				};
				if (kind == 1 && !W->simple.empty()) {
					fill(W->simple.size());
					hopper<simple_dispatcher>(hops, W->simple, id);
				} else if (kind == 2 && !W->pools.empty()) {
					fill(W->pools.size());
					hopper<thread_pool>(hops, W->pools, id);
				} else if (kind == 3 && !W->timers.empty()) {
					fill(W->timers.size());
					hopper<timer>(hops, W->timers, id);
				} else {
					fill(W->ds.size());
					hopper<dispatcher>(hops, W->ds, id);
				}
			} else
				push(vrt::choose((uint32_t)W->ds.size()), depth);
		}
	}
	void run_checked(int d, bool outer) {
		Outer o;
		if (outer) o.enter();
		auto before = dispatcher::current();
		W->simple[d]->run();
		CHECK(dispatcher::current() == before, "run() did not restore the current dispatcher");
		CHECK(h::quiet([&] { return W->stop_begin[d] != 0; }), "run() returned although the dispatcher was not stopped");
		if (outer) o.leave();
	}
	void stop(int d) {
		h::quiet([&] {
			auto t = ++W->clock;
			if (!W->stop_begin[d]) W->stop_begin[d] = t;
		});
		W->simple[d]->stop();
		h::quiet([&] { W->stop_end[d] = std::min(W->stop_end[d], ++W->clock); });
	}
	// an idle pool looks for work every 100 ms
	void settle(int from) {
		vrt::wait_idle(false);
		for (int round = 0; round < 60; round++) {
			bool over = h::quiet([&] {
				return W->finished == W->cos && std::all_of(W->items.begin(), W->items.end(), [&](auto& i) { return i->target < from || i->runs > 0; });
			});
			if (over) break;
			static char key;
			vrt::block_until(&key, vrt::now_ns() + 150'000'000, "waiting for the work to be done");
			vrt::wait_idle(false);
		}
	}
	void threads() {
		World w;
		W = &w;
		int ns = vrt::range(1, 3), np = vrt::choose(2), nt = vrt::choose(2);
		bool early = vrt::chance(1, 3);
		hops_allowed = !early;
		std::vector<std::unique_ptr<simple_dispatcher>> simple;
		std::vector<std::unique_ptr<thread_pool>> pools;
		std::vector<std::unique_ptr<timer>> timers;
		for (int i = 0; i < ns; i++) {
			simple.push_back(std::make_unique<simple_dispatcher>());
			w.simple.push_back(simple.back().get());
			w.ds.push_back(simple.back().get());
		}
		for (int i = 0; i < np; i++) {
			pools.push_back(std::make_unique<thread_pool>(vrt::range(1, 2)));
			w.pools.push_back(pools.back().get());
			w.ds.push_back(pools.back().get());
		}
		for (int i = 0; i < nt; i++) {
			timers.push_back(std::make_unique<timer>());
			w.timers.push_back(timers.back().get());
			w.ds.push_back(timers.back().get());
		}
		w.order.resize(w.ds.size());
		w.threads_of.resize(w.ds.size());
		w.stop_begin.resize(ns);
		w.stop_end.resize(ns, UINT64_MAX);
		w.budget = 14;
		std::vector<std::vthread> runners, actors;
		for (int i = 0; i < ns; i++) {
			bool outer = vrt::flip();
			runners.emplace_back([i, outer] { run_checked(i, outer); });
		}
		int na = vrt::range(1, 3);
		for (int i = 0; i < na; i++)
			actors.emplace_back([] {
				act(0);
				CHECK(dispatcher::current() == nullptr, "a dispatcher is current on a thread that runs none");
			});
		if (early) {
			vrt::label("stopped while in use");
			for (int i = 0; i < ns; i++) {
				if (vrt::flip())
					actors.emplace_back([i] { stop(i); });
				else
					stop(i);
			}
			h::join_all(actors);
			h::join_all(runners);
			settle(ns);
		} else {
			if (vrt::chance(1, 4)) act(0);
			h::join_all(actors);
			settle(0);
			// everything that was asked for has happened by now
			h::quiet([&] {
				for (std::size_t i = 0; i < w.items.size(); i++)
					CHECK(w.items[i]->runs == 1, "callback %zu never ran", i);
				CHECK(w.finished == w.cos, "%d coroutines are stuck", w.cos - w.finished);
			});
			for (int i = 0; i < ns; i++) {
				if (vrt::chance(1, 3))
					w.simple[i]->push([i] { stop(i); });
				else
					stop(i);
			}
			h::join_all(runners);
		}
		// stopping is permanent
		if (vrt::flip()) run_checked(0, true);
		pools.clear();
		timers.clear();
		for (int d = 0; d < ns; d++) {
			CHECK(w.threads_of[d].size() <= 1, "callbacks of one simple_dispatcher ran on several threads");
			auto& o = w.order[d];
			int late = 0;
			for (std::size_t i = 0; i < o.size(); i++) {
				auto& x = *w.items[o[i]];
				if (x.ran > w.stop_end[d]) late++;
				for (std::size_t j = i + 1; j < o.size(); j++)
					CHECK(w.items[o[j]]->end > x.begin, "callback %d was pushed before %d but ran later", o[j], o[i]);
			}
			CHECK(late <= 1, "%d callbacks started after stop()", late);
			// those that never ran came after all that did
			for (std::size_t i = 0; i < w.items.size(); i++) {
				auto& x = *w.items[i];
				if (x.target != d || x.runs) continue;
				for (int k : o)
					CHECK(x.end > w.items[k]->begin, "callback %zu was skipped", i);
			}
		}
		if (w.items.size() + w.cos >= 2) vrt::nontrivial();
		if (w.cross) vrt::label("pushed from another thread");
		if (w.cos) vrt::label("coroutines deferred");
		simple.clear();
		W = nullptr;
	}

	// ------------------------------------------------------------ anything with a push function
	struct Inline { // runs callbacks at once
		int calls = 0;
		void push(std::function<void()> f) {
			calls++;
			auto t = std::make_unique<Tracked>(3);
			f();
			t->check();
		}
	};
	struct Failing { // rejects some callbacks
		int fail_at, calls = 0;
		std::vector<std::function<void()>> q;
		void push(std::function<void()> f) {
			if (++calls == fail_at) throw std::runtime_error("full");
			q.push_back(std::move(f));
		}
	};
	struct Nothrow {
		std::vector<std::function<void()>> q;
		void push(const std::function<void()>& f) noexcept { q.push_back(f); }
	};
	struct Stats {
		int pos = 0, errors = 0;
		bool done = false;
	};
	template<typename D>
	h::co walker(D* d, int n, Stats* s) {
		Tracked local(8);
		for (int i = 0; i < n; i++) {
			try {
				auto x = std::make_unique<defer<D>>(d);
				co_await *x;
			} catch (const std::runtime_error&) { s->errors++; }
			s->pos++;
			local.check();
		}
		s->done = true;
	}
	void customs() {
		int n = vrt::range(1, 5);
		switch (vrt::choose(3)) {
		case 0: {
			Inline d;
			Stats s;
			walker(&d, n, &s);
			CHECK(s.done && s.pos == n && d.calls == n && s.errors == 0);
			break;
		}
		case 1: {
			Failing d{(int)vrt::range(1, n)};
			Stats s;
			walker(&d, n, &s);
			int steps = 0;
			while (!s.done) {
				CHECK(d.q.size() == 1, "%zu callbacks were pushed for one suspension", d.q.size());
				auto f = std::move(d.q[0]);
				d.q.clear();
				int before = s.pos;
				f();
				steps++;
				CHECK(s.pos > before && d.calls <= n, "the coroutine did not continue");
			}
			CHECK(d.q.empty() && s.errors == 1 && d.calls == n && steps == n - 1, "errors=%d calls=%d steps=%d", s.errors, d.calls, steps);
			break;
		}
		default: {
			Nothrow d;
			Stats s;
			walker(&d, n, &s);
			for (int i = 0; i < n; i++) {
				CHECK(s.pos == i && d.q.size() == 1);
				auto f = std::move(d.q[0]);
				d.q.clear();
				f();
			}
			CHECK(s.done && d.q.empty());
		}
		}
		vrt::nontrivial();
	}
} // namespace

SCENARIO(nested_dispatchers, 800, vrt::NO_TSAN) { nesting(); }
SCENARIO(many_threads, 1100) { threads(); }
SCENARIO(custom_dispatchers, 100, vrt::NO_TSAN) { customs(); }
// Many callbacks, hops and runs
SCENARIO(many_callbacks, 1, vrt::NO_TSAN) {
	int n = h::bulk(), next = 0, hops = 0;
	Outer outer;
	simple_dispatcher d, e;
	bool with_outer = vrt::flip();
	if (with_outer) outer.enter();
	auto* around = dispatcher::current();
	int stop_at = vrt::flip() ? n : (int)vrt::choose((uint32_t)n);
	for (int i = 0; i < n; i++)
		d.push([&, i] {
			CHECK(next == i, "callback %d was run as number %d", i, next);
			next++;
			CHECK(dispatcher::current() == &d, "wrong current dispatcher");
			if (i == stop_at) d.stop();
		});
	if (stop_at == n) d.push([&] { d.stop(); });
	d.run();
	CHECK(next == std::min(n, stop_at + 1), "%d of %d callbacks were run", next, n);
	CHECK(dispatcher::current() == around, "the current dispatcher was not restored");
	// a coroutine that hops between nested runs of one dispatcher
	[](simple_dispatcher& e, int n, int& hops) -> h::co {
		for (int i = 0; i < n; i++) {
			co_await defer(&e);
			CHECK(dispatcher::current() == &e, "not continued on the dispatcher");
			hops++;
		}
		e.stop();
	}(e, n, hops);
	e.run();
	CHECK(hops == n, "%d of %d hops", hops, n);
	CHECK(dispatcher::current() == around, "the current dispatcher was not restored");
	if (with_outer) outer.leave();
	if (n > 20) vrt::nontrivial();
}
