// C23: waiting synchronously for awaitables
#include "../lib/vrt_shim.h"
#include <asyncpp/channel.h>
#include <asyncpp/defer.h>
#include <asyncpp/event.h>
#include <asyncpp/latch.h>
#include <asyncpp/launch.h>
#include <asyncpp/mutex.h>
#include <asyncpp/promise.h>
#include <asyncpp/queue.h>
#include <asyncpp/simple_dispatcher.h>
#include <asyncpp/sync_wait.h>
#include <asyncpp/task.h>
#include <asyncpp/timer.h>
#define main the_async_main
#include <asyncpp/async_main.h>
#undef main
#include "../lib/helpers.h"
using asyncpp::as_promise;
using asyncpp::dispatcher;
using asyncpp::task;
using h::MoveOnly;
using h::Tracked;

namespace {
	struct Boom {
		int64_t v;
	};
	struct World;
	World* W;
	// What a piece of work does and what happened to it
	struct Plan {
		std::vector<int> hops; // dispatchers to continue on
		bool throws = false;
		int64_t v = 0;
		int style = 0, nested = 0;
		// history
		int started = 0, completed = 0;
		int64_t written = 0; // by the thread that completes it
		const void* address = nullptr;
	};
	struct World {
		std::deque<h::QueueDispatcher> ds;
		bool threads = false;
		bool exact = true; // the outcome has to exist at once
		~World() { W = nullptr; }
	};
	void complete(Plan& p) {
		p.written = p.v;
		h::quiet([&] { p.completed++; });
	}
	void start(Plan& p) {
		h::quiet([&] { p.started++; });
	}

	// ------------------------------------------------------------ awaitables that are not part of the library
	struct Hop {
		h::QueueDispatcher* d;
		bool await_ready() const { return false; }
		void await_suspend(std::coroutine_handle<> hd) const {
			d->push([hd] { hd.resume(); });
		}
		void await_resume() const {}
	};
	template<typename R>
	R make(Plan& p, Tracked& store) {
		if (p.throws) throw Boom{p.v};
		if constexpr (std::is_void_v<R>)
			return;
		else if constexpr (std::is_reference_v<R>) {
			store.set(p.v);
			p.address = &store;
			return static_cast<R>(store);
		} else
			return R(p.v);
	}
	// Passes through all the hops itself. R: result of the co_await expression
	template<typename R, int Style>
	struct Aw {
		Plan* p;
		Tracked* store;
		Tracked own{17};
		std::size_t at = 0;
		std::coroutine_handle<> hd;
		Aw(Plan* p, Tracked* store) : p(p), store(store) {}
		bool await_ready() {
			own.check();
			start(*p);
			if (!p->hops.empty() || p->style == 1) return false;
			complete(*p);
			return true;
		}
		void next() {
			if (at == p->hops.size()) {
				complete(*p);
				return hd.resume();
			}
			auto& d = W->ds[p->hops[at++]];
			d.push([this] { next(); });
		}
		auto await_suspend(std::coroutine_handle<> h) {
			hd = h;
			if constexpr (Style == 0) {
				next();
			} else if constexpr (Style == 1) {
				if (p->hops.empty()) {
					complete(*p);
					return false;
				}
				next();
				return true;
			} else {
				if (p->hops.empty()) {
					complete(*p);
					return h;
				}
				next();
				return std::coroutine_handle<>(std::noop_coroutine());
			}
		}
		R await_resume() {
			own.check();
			CHECK(own.get() == 17, "the awaitable was moved away");
			CHECK(h::quiet([&] { return p->completed; }) == 1);
			return make<R>(*p, *store);
		}
	};
	// provides it by means of operator co_await
	template<typename R>
	struct Indirect {
		Aw<R, 1> a;
		Indirect(Plan* p, Tracked* store) : a(p, store) {}
		Aw<R, 1> operator co_await() && { return std::move(a); }
	};
	template<typename R>
	struct ConstIndirect {
		Plan* p;
		Tracked* store;
		Tracked own{17};
		ConstIndirect(Plan* p, Tracked* store) : p(p), store(store) {}
		Aw<R, 0> operator co_await() const {
			own.check();
			return {p, store};
		}
	};
	template<typename R>
	struct MoveOnlyAw : Aw<R, 2> {
		using Aw<R, 2>::Aw;
		MoveOnlyAw(MoveOnlyAw&&) = default;
		MoveOnlyAw(const MoveOnlyAw&) = delete;
	};
	template<typename T>
	task<T> work(Plan* p, Tracked arg) {
		if (p->nested > 0) {
			p->nested--;
			if constexpr (std::is_void_v<T>) {
				co_await work<T>(p, std::move(arg));
				co_return;
			} else {
				auto res = co_await work<T>(p, std::move(arg));
				co_return res;
			}
		}
		start(*p);
		CHECK(arg.get() == 5);
		for (auto d : p->hops)
			co_await Hop{&W->ds[d]};
		complete(*p);
		if (p->throws) throw Boom{p->v};
		if constexpr (!std::is_void_v<T>) co_return T(p->v);
	}

	// ------------------------------------------------------------ the wait
	// Without threads, dispatchers run by hand
	bool run_some(World& w) {
		std::vector<h::QueueDispatcher*> busy;
		for (auto& d : w.ds)
			if (d.pending() > 0) busy.push_back(&d);
		if (busy.empty()) return false;
		return busy[vrt::choose((uint32_t)busy.size())]->run_one();
	}
	void pump(World& w) {
		while (run_some(w))
			;
	}
	template<typename F>
	bool ready(F& f) {
		return f.wait_for(std::chrono::seconds(0)) == std::future_status::ready;
	}
	struct Expect {
		Plan* p;
		bool wrapped_copy = false; // throws copy_error instead
	};
	template<typename T>
	int64_t value_of(T& v) {
		if constexpr (requires { v.get(); })
			return v.get();
		else
			return (int64_t)v;
	}
	// Waits in one of several ways and verifies what arrives
	template<typename R>
	void wait_and_verify(World& w, std::future<R> f, Plan& p, bool inline_completion) {
		CHECK(f.valid());
		CHECK(h::quiet([&] { return p.started; }) == 1, "the awaitable was started %d times", p.started);
		if (inline_completion) CHECK(ready(f), "the awaitable completed inline, but the outcome is missing");
		if (!w.threads) {
			while (true) {
				CHECK(ready(f) == (p.completed > 0) || (!w.exact && p.completed), "there is %s", p.completed ? "no outcome after completion" : "an outcome before completion");
				if (!run_some(w)) break;
			}
		} else {
			int polls = vrt::choose(4);
			for (int i = 0; i < polls && !ready(f); i++) {
				vrt::point();
				vrt::yield_point();
			}
			if (!ready(f)) vrt::wait_idle();
		}
		CHECK(ready(f), "the outcome never arrived");
		CHECK(h::quiet([&] { return p.completed; }) == 1, "there is an outcome before completion");
		CHECK(p.written == p.v, "writes made before completion are not visible");
		try {
			if constexpr (std::is_void_v<R>) {
				f.get();
				CHECK(!p.throws, "the exception got lost");
			} else if constexpr (std::is_reference_v<R>) {
				auto& r = f.get();
				CHECK(!p.throws, "the exception got lost");
				CHECK(&r == p.address, "the reference does not refer to the original object");
				CHECK(value_of(r) == p.v);
			} else {
				auto r = f.get();
				CHECK(!p.throws, "the exception got lost");
				CHECK(value_of(r) == p.v, "the result is %lld instead of %lld", (long long)value_of(r), (long long)p.v);
			}
		} catch (const Boom& b) {
			CHECK(p.throws, "an exception was invented");
			CHECK(b.v == p.v, "wrong exception");
		}
		CHECK(!f.valid());
	}
	Plan gen_plan(World& w) {
		Plan p;
		int n = vrt::choose(4);
		for (int i = 0; i < n; i++)
			p.hops.push_back(vrt::choose((uint32_t)w.ds.size()));
		p.throws = vrt::chance(1, 3);
		p.v = vrt::range(1, 100);
		p.style = vrt::choose(2);
		p.nested = vrt::choose(3);
		return p;
	}
	template<typename R>
	constexpr bool is_value = !std::is_void_v<R> && !std::is_reference_v<R>;

	template<typename R>
	void run_custom(World& w) {
		Plan p = gen_plan(w);
		p.nested = 0;
		Tracked store(0);
		bool in = p.hops.empty();
		auto go = [&](auto&& a) {
			using A = std::decay_t<decltype(a)>;
			switch (vrt::choose(4)) {
			case 0: return wait_and_verify(w, as_promise(std::forward<decltype(a)>(a)), p, in);
			case 1: return wait_and_verify(w, as_promise<R>(std::forward<decltype(a)>(a)), p, in);
			case 2: // an lvalue gets copied
				if constexpr (std::is_copy_constructible_v<A>) {
					A x(a);
					auto f = as_promise(x);
					wait_and_verify(w, std::move(f), p, in);
					if constexpr (requires { x.own; }) CHECK(x.own.get() == 17, "the original was modified");
					return;
				}
				[[fallthrough]];
			default:
				if constexpr (std::is_copy_constructible_v<A>) {
					const A x(a);
					return wait_and_verify(w, as_promise<R>(x), p, in);
				} else {
					A x(std::move(a));
					return wait_and_verify(w, as_promise<R>(std::move(x)), p, in);
				}
			}
		};
		int kind = vrt::choose(6);
		vrt::note("custom awaitable %d", kind);
		switch (kind) {
		case 0: return go(Aw<R, 0>(&p, &store));
		case 1: return go(Aw<R, 1>(&p, &store));
		case 2: return go(Aw<R, 2>(&p, &store));
		case 3: return go(Indirect<R>(&p, &store));
		case 4: return go(ConstIndirect<R>(&p, &store));
		default: return go(MoveOnlyAw<R>(&p, &store));
		}
	}
	template<typename T>
	void run_task(World& w) {
		Plan p = gen_plan(w);
		vrt::note("task with %d hops%s", (int)p.hops.size(), p.throws ? ", throws" : "");
		bool in = p.hops.empty();
		auto t = work<T>(&p, Tracked(5));
		if (vrt::flip()) {
			auto t2 = std::move(t);
			t = std::move(t2);
		}
		CHECK(p.started == 0, "started before someone waits");
		auto f = vrt::flip() ? as_promise(std::move(t)) : as_promise<T>(std::move(t));
		CHECK(!t);
		wait_and_verify(w, std::move(f), p, in);
	}
	// converted or dropped results
	void run_convert(World& w) {
		Plan p = gen_plan(w);
		bool in = p.hops.empty();
		switch (vrt::choose(4)) {
		case 0: return wait_and_verify(w, as_promise<int64_t>(work<int>(&p, Tracked(5))), p, in);
		case 1: return wait_and_verify(w, as_promise<Tracked>(work<int64_t>(&p, Tracked(5))), p, in);
		case 2: return wait_and_verify(w, as_promise<void>(work<Tracked>(&p, Tracked(5))), p, in);
		default: {
			p.nested = 0;
			Tracked store(0);
			return wait_and_verify(w, as_promise<Tracked>(Aw<Tracked&, 0>(&p, &store)), p, in);
		}
		}
	}
	// copying or moving the result or the awaitable fails
	void run_copy_failure(World& w) {
		if (VRT_TSAN) return; // its pthread_once() does not support exceptions
		Plan p = gen_plan(w);
		p.nested = 0;
		p.throws = false;
		Tracked store(0);
		Aw<Tracked&, 0> a(&p, &store);
		bool lvalue = vrt::flip();
		// copies made: [the awaitable], the result
		int at = vrt::range(1, lvalue ? 2 : 1);
		std::optional<std::future<Tracked>> f;
		h::g_throw_copy = at;
		try {
			f = lvalue ? as_promise<Tracked>(a) : as_promise<Tracked>(std::move(a));
		} catch (const h::copy_error&) {
			CHECK(lvalue && at == 1, "exception thrown by as_promise()");
			CHECK(p.started == 0 && h::g_throw_copy == 0);
			return;
		}
		if (w.threads)
			vrt::wait_idle();
		else
			pump(w);
		CHECK(p.started == 1 && p.completed == 1 && ready(*f));
		CHECK(h::g_throw_copy == 0, "the result was not copied");
		CHECK(store.get() == p.v, "the original was modified");
		bool thrown = false;
		try {
			auto r = f->get();
		} catch (const h::copy_error&) { thrown = true; }
		CHECK(thrown, "the failure to copy the result got lost");
		vrt::label("copy failures");
	}
	// moving it does not allocate
	struct PlainAw {
		Plan* p;
		std::size_t at = 0;
		std::coroutine_handle<> hd{};
		bool await_ready() { return start(*p), false; }
		void await_suspend(std::coroutine_handle<> h) {
			hd = h;
			next();
		}
		void next() {
			if (at == p->hops.size()) {
				complete(*p);
				return hd.resume();
			}
			W->ds[p->hops[at++]].push([this] { next(); });
		}
		int64_t await_resume() {
			if (p->throws) throw Boom{p->v};
			return p->v;
		}
	};
	void run_alloc_failure(World& w) {
		Plan p = gen_plan(w);
		p.nested = 0;
		int n = vrt::range(1, 5);
		vrt::ignore_alloc_balance(); // of the exception in flight
		std::optional<std::future<int64_t>> f;
		{
			PlainAw a{&p};
			vrt::fail_alloc_after(n);
			try {
				f = as_promise(std::move(a));
			} catch (const std::bad_alloc&) {
				vrt::fail_alloc_after(0);
				CHECK(p.started == 0, "started but failed");
				vrt::label("allocation failures");
				return;
			}
			vrt::fail_alloc_after(0);
		}
		if (w.threads)
			vrt::wait_idle();
		else
			pump(w);
		CHECK(ready(*f), "the outcome got lost");
		try {
			auto r = f->get();
			CHECK(!p.throws && r == p.v);
		} catch (const Boom& b) {
			CHECK(p.throws && b.v == p.v);
		} catch (const std::bad_alloc&) { vrt::label("allocation failures"); }
		CHECK(p.started == 1);
	}

	// ------------------------------------------------------------ awaitables of the library
	void run_library(World& w) {
		Plan p = gen_plan(w);
		p.nested = 0;
		p.started = 1; // not observable
		w.exact = false;
		p.throws = false;
		bool early = vrt::chance(1, 4); // completed before someone waits
		auto& d = w.ds[vrt::choose((uint32_t)w.ds.size())];
		dispatcher* on = vrt::flip() ? &w.ds[vrt::choose((uint32_t)w.ds.size())] : nullptr;
		// runs f now or on some thread
		auto later = [&](auto f) {
			if (early)
				f();
			else
				d.push(f);
		};
		auto now_or = [&](auto f) { // after the wait started
			if (!early) d.push(f);
		};
		int kind = vrt::choose(13);
		vrt::note("awaitable %d of the library%s", kind, early ? ", early" : "");
		auto event = [&](auto& e) {
			auto set = [&] {
				complete(p);
				e.set(on);
			};
			if (early) set();
			auto f = vrt::flip() ? as_promise(e.wait()) : as_promise<void>(e.operator co_await());
			now_or(set);
			wait_and_verify(w, std::move(f), p, early);
		};
		switch (kind) {
		case 0: {
			asyncpp::single_consumer_event e;
			return event(e);
		}
		case 1: {
			asyncpp::multi_consumer_event e;
			return event(e);
		}
		case 2: {
			asyncpp::single_consumer_auto_reset_event e;
			return event(e);
		}
		case 3: {
			asyncpp::multi_consumer_auto_reset_event e;
			return event(e);
		}
		case 4: {
			asyncpp::promise<Tracked> pr;
			bool throws = vrt::chance(1, 3);
			later([&, throws, pr]() mutable {
				complete(p);
				if (throws)
					pr.reject<Boom>(p.v);
				else
					pr.fulfill(Tracked(p.v));
			});
			std::future<Tracked&> f;
			switch (vrt::choose(3)) {
			case 0: f = as_promise(pr); break;
			case 1: f = as_promise(asyncpp::promise<Tracked>(pr)); break;
			default: f = as_promise<Tracked&>(pr); break;
			}
			if (w.threads && vrt::flip()) {
				// block on the promise itself
				try {
					auto& r = pr.get();
					CHECK(r.get() == p.v && !throws && p.written == p.v);
				} catch (const Boom& b) { CHECK(throws && b.v == p.v && p.written == p.v); }
			}
			p.throws = throws;
			if (w.threads)
				vrt::wait_idle();
			else
				pump(w);
			if (!throws) p.address = pr.try_get();
			return wait_and_verify(w, std::move(f), p, early);
		}
		case 5: {
			asyncpp::promise<void> pr;
			later([&, pr]() mutable {
				complete(p);
				pr.fulfill();
			});
			return wait_and_verify(w, as_promise(pr), p, early);
		}
		case 6: {
			complete(p);
			dispatcher* null = nullptr;
			auto f = early ? as_promise(asyncpp::defer(null)) : as_promise(asyncpp::defer(d));
			if (!early && !w.threads) {
				CHECK(!ready(f), "not deferred");
				CHECK(d.pending() == 1);
				d.run_one();
			}
			return wait_and_verify(w, std::move(f), p, early || !w.threads);
		}
		case 7: {
			asyncpp::channel<Tracked> ch;
			std::future<std::optional<Tracked>> f;
			std::optional<std::future<bool>> wr;
			auto write = [&] {
				complete(p);
				wr.emplace(as_promise(ch.write(Tracked(p.v)).resume_on(on)));
			};
			if (early) write();
			f = as_promise(ch.read().resume_on(on));
			now_or(write);
			if (w.threads)
				vrt::wait_idle();
			else
				pump(w);
			CHECK(ready(f));
			auto r = f.get();
			CHECK(r && r->get() == p.v && p.written == p.v);
			d.pending(); // synchronizes with the thread that wrote
			CHECK(wr && ready(*wr));
			CHECK(wr->get());
			CHECK(p.completed == 1);
			return;
		}
		case 8: {
			asyncpp::mutex m;
			CHECK(m.try_lock());
			auto unlock = [&] {
				complete(p);
				m.unlock();
			};
			if (early) unlock();
			auto f = as_promise(m.lock_scoped());
			now_or(unlock);
			if (w.threads)
				vrt::wait_idle();
			else
				pump(w);
			CHECK(ready(f));
			{
				asyncpp::mutex_lock l = f.get();
				CHECK(l.is_locked() && &l.mutex() == &m && m.is_locked() && p.written == p.v);
			}
			CHECK(!m.is_locked(), "still locked");
			return;
		}
		case 9: {
			asyncpp::queue<Tracked> q;
			auto push = [&] {
				complete(p);
				CHECK(q.try_push(Tracked(p.v)));
			};
			if (early) push();
			auto a = q.pop();
			a.resume_on(on);
			auto f = as_promise(std::move(a));
			now_or(push);
			if (w.threads)
				vrt::wait_idle();
			else
				pump(w);
			CHECK(ready(f) && p.completed == 1);
			auto r = f.get();
			CHECK(r && r->get() == p.v && p.written == p.v);
			return;
		}
		case 10: {
			asyncpp::async_launch_scope s;
			s.launch(work<void>(&p, Tracked(5)));
			auto f = vrt::flip() ? as_promise(s.join()) : s.join_future();
			p.started = 1;
			wait_and_verify(w, std::move(f), p, p.hops.empty());
			CHECK(s.all_done());
			return;
		}
		case 11: {
			asyncpp::latch l(1);
			auto f0 = [&] {
				complete(p);
				l.decrement();
			};
			if (early) f0();
			auto f = vrt::flip() ? as_promise(l.wait(on)) : as_promise<void>(l.operator co_await());
			now_or(f0);
			return wait_and_verify(w, std::move(f), p, early && on == nullptr);
		}
		default: {
			if (!w.threads) return;
			asyncpp::timer t;
			auto start = vrt::now_ns();
			auto f = as_promise(t.wait(std::chrono::milliseconds(early ? 0 : p.v)));
			complete(p);
			for (int i = 0; i < 100 && !ready(f); i++) {
				static char key;
				vrt::block_until(&key, vrt::now_ns() + 10'000'000, "waiting for the timer");
			}
			CHECK(ready(f) && f.get());
			CHECK(early || vrt::now_ns() - start >= p.v * 1'000'000);
			return;
		}
		}
	}
	template<typename F>
	void with_world(bool threads, F f) {
		World w;
		W = &w;
		w.threads = threads;
		int n = vrt::range(1, 3);
		for (int i = 0; i < n; i++) {
			w.ds.emplace_back(i);
			if (threads) w.ds.back().start();
		}
		f(w);
		for (auto& d : w.ds)
			d.stop();
		CHECK(std::all_of(w.ds.begin(), w.ds.end(), [](auto& d) { return d.pending() == 0; }), "work is left over");
	}
	void one(World& w) {
		switch (vrt::choose(12)) {
		case 0: return run_task<int64_t>(w);
		case 1: return run_task<Tracked>(w);
		case 2: return run_task<MoveOnly>(w);
		case 3: return run_task<void>(w);
		case 4: return run_custom<int64_t>(w);
		case 5: return run_custom<MoveOnly>(w);
		case 6: return run_custom<void>(w);
		case 7: return run_custom<Tracked&>(w);
		case 8: return run_custom<const Tracked&>(w);
		case 9: return run_custom<Tracked>(w);
		case 10: return run_convert(w);
		default: return run_copy_failure(w);
		}
	}

	// ------------------------------------------------------------ several at once
	void many(World& w) {
		struct Slot {
			Plan p;
			std::future<Tracked> f;
			int waiter;
		};
		std::vector<std::unique_ptr<Slot>> slots;
		int n = vrt::range(2, 5), nw = vrt::range(1, 3);
		std::vector<std::vthread> ts;
		for (int i = 0; i < n; i++) {
			auto s = std::make_unique<Slot>();
			s->p = gen_plan(w);
			s->waiter = vrt::choose(nw);
			slots.push_back(std::move(s));
		}
		for (int t = 0; t < nw; t++)
			ts.emplace_back([&, t] {
				for (auto& s : slots)
					if (s->waiter == t) s->f = as_promise(work<Tracked>(&s->p, Tracked(5)));
				for (auto& s : slots)
					if (s->waiter == t) {
						for (int k = 0; k < 2000 && !ready(s->f); k++) {
							static char key;
							vrt::block_until(&key, vrt::now_ns() + 1000000, "polling");
						}
						CHECK(ready(s->f), "the outcome never arrived");
						CHECK(s->p.written == s->p.v);
						try {
							CHECK(s->f.get().get() == s->p.v && !s->p.throws);
						} catch (const Boom& b) { CHECK(b.v == s->p.v && s->p.throws); }
					}
			});
		h::join_all(ts);
		for (auto& s : slots)
			CHECK(s->p.started == 1 && s->p.completed == 1);
	}

	// ------------------------------------------------------------ async_main
	struct Outer : dispatcher {
		void push(std::function<void()>) override { vrt::fail("pushed to a dispatcher that was never a target"); }
		static dispatcher* set(dispatcher* d) { return dispatcher::current(d); }
	};
	struct MainPlan {
		std::vector<int> steps; // >=0: hop to that dispatcher, -1: back to the main one, -2: push something
		bool throws = false;
		int result = 0, leftovers = 0;
		int argc = 0;
		const char** argv = nullptr;
		// history
		int calls = 0, done = 0, pushed = 0, ran = 0;
		int64_t written = 0;
	};
	MainPlan* M;
} // namespace
asyncpp::task<int> async_main(int argc, const char** argv) {
	Tracked local(3);
	auto disp = dispatcher::current();
	CHECK(dynamic_cast<asyncpp::simple_dispatcher*>(disp), "async_main() does not run inside of a dispatcher");
	h::quiet([] { M->calls++; });
	CHECK(argc == M->argc && argv == M->argv, "wrong arguments");
	for (int s : M->steps) {
		if (s >= 0) {
			co_await asyncpp::defer(W->ds[s]);
			CHECK(dispatcher::current() == &W->ds[s]);
		} else if (s == -1) {
			co_await asyncpp::defer(disp);
			CHECK(dispatcher::current() == disp);
		} else if (s == -2) {
			h::quiet([] { M->pushed++; });
			disp->push([t = Tracked(4)] {
				t.check();
				h::quiet([] { M->ran++; });
			});
		}
	}
	M->written = M->result;
	h::quiet([] { M->done++; });
	if (M->throws) throw Boom{M->result};
	co_return M->result;
}
namespace {
	void run_main(World& w) {
		MainPlan m;
		M = &m;
		int n = vrt::choose(6);
		for (int i = 0; i < n; i++) {
			int s = (int)vrt::choose((uint32_t)w.ds.size() + 2) - 2;
			m.steps.push_back(s);
		}
		m.throws = vrt::chance(1, 3);
		m.result = (int)vrt::choose(256);
		const char* args[] = {"a", "b", nullptr};
		m.argc = vrt::range(1, 2);
		m.argv = args;
		Outer outer;
		dispatcher* mine = vrt::flip() ? &outer : nullptr;
		auto old = Outer::set(mine);
		try {
			int r = the_async_main(m.argc, m.argv);
			CHECK(!m.throws, "the exception got lost");
			CHECK(r == m.result, "main() returned %d instead of %d", r, m.result);
		} catch (const Boom& b) { CHECK(m.throws && b.v == m.result); }
		CHECK(m.written == m.result, "writes made by async_main() are not visible");
		CHECK(h::quiet([&] { return m.calls == 1 && m.done == 1; }), "async_main() did not complete exactly once");
		CHECK(Outer::set(old) == mine, "the current dispatcher was not restored");
		// whatever was pushed before the last time it came back to the main thread has run
		int due = 0, sofar = 0;
		for (int s : m.steps) {
			if (s == -1)
				due = sofar;
			else if (s == -2)
				sofar++;
		}
		CHECK(m.ran >= due, "%d of %d callbacks ran", m.ran, due);
		if (!m.steps.empty()) vrt::nontrivial();
		if (m.ran < m.pushed) vrt::label("callbacks left over");
	}
} // namespace

SCENARIO(completion_by_hand, 40) {
	with_world(false, [](World& w) {
		int n = vrt::range(1, 3);
		for (int i = 0; i < n; i++)
			one(w);
		if (n > 1) vrt::nontrivial();
	});
}
SCENARIO(completion_on_threads, 40) {
	with_world(true, [](World& w) {
		one(w);
		vrt::nontrivial();
	});
}
SCENARIO(library_awaitables, 40) {
	bool threads = vrt::flip();
	with_world(threads, [](World& w) {
		run_library(w);
		vrt::nontrivial();
	});
}
SCENARIO(several_waits, 20) {
	with_world(true, [](World& w) {
		many(w);
		vrt::nontrivial();
	});
}
SCENARIO(allocation_failures, 10, vrt::NO_TSAN) {
	with_world(false, [](World& w) {
		run_alloc_failure(w);
		vrt::nontrivial();
	});
}
SCENARIO(program_main, 30) {
	with_world(true, [](World& w) { run_main(w); });
}
