// C12: timer
#include "../lib/vrt_shim.h"
#include <asyncpp/timer.h>
#include "../lib/helpers.h"
using asyncpp::dispatcher;
using asyncpp::stop_source;
using asyncpp::stop_token;
using asyncpp::timer;
using ns = std::chrono::nanoseconds;

namespace {
	// A clock that is not steady_clock, with another epoch
	struct OtherClock {
		using duration = std::chrono::nanoseconds;
		using rep = duration::rep;
		using period = duration::period;
		using time_point = std::chrono::time_point<OtherClock>;
		static constexpr bool is_steady = true;
		static time_point now() { return time_point(duration(vrt::now_ns() + 5'000'000'000)); }
	};
	constexpr uint64_t never = UINT64_MAX;
	constexpr int64_t inf = INT64_MAX;
	struct Rec {
		bool push = false, coro = false, exact = false;
		int thread = 0;
		int64_t deadline = 0, sched_t = 0, sched_et = inf, fire_t = 0;
		uint64_t sched_b = 0, sched_e = never, fire_e = never;
		int tok = -1;
		int fired = 0, destroyed = 0;
		bool res = false, accepted = false, inplace = false;
	};
	struct World {
		std::unique_ptr<timer> t;
		timer* raw = nullptr;
		std::vector<std::unique_ptr<Rec>> recs;
		std::vector<int64_t> result; // written by the callback, read after the timer is gone
		std::vector<stop_source> src;
		std::vector<int64_t> stop_b, stop_e; // virtual time of the first request
		std::vector<uint64_t> stop_bc;
		uint64_t clock = 0, destroy_bc = never;
		int64_t destroy_t = inf;
		int64_t slack = 0;
		int budget = 0, timer_thread = -1, concurrent_cancel = 0;
		std::vector<std::vector<int>> inside; // what callback number i does
	};
	World* W;
	uint64_t tick() {
		return h::quiet([] { return ++W->clock; });
	}
	void pass(int64_t d) { // time passes while somebody is busy
		h::quiet([&] { W->slack += d; });
		vrt::advance_ns(d);
	}
	const int64_t offsets[] = {0, 1, 1'000'000, 2'000'000, 3'000'000, 400'000'000, 500'000'000, 700'000'000, 1'300'000'000, -5,
								// practically never, the last one stands for the largest time there is
								1'000'000'000'000'000'000, 4'000'000'000'000'000'000};
	constexpr int near_offsets = 10;
	void schedule(int kind, int off, int tok);
	void do_push();
	void stop(int i) {
		int64_t now = vrt::now_ns();
		h::quiet([&] {
			if (W->stop_b[i] == inf) {
				W->stop_b[i] = now;
				W->stop_bc[i] = ++W->clock;
				W->stop_e[i] = inf;
			}
		});
		vrt::note("stop source %d", i);
		bool first = W->src[i].request_stop();
		if (first) h::quiet([&] { W->stop_e[i] = vrt::now_ns(); });
	}
	void body(int id) { // what callbacks do
		int n = h::quiet([&] { return id < (int)W->inside.size() ? (int)W->inside[id].size() : 0; });
		for (int i = 0; i < n; i++) {
			int a = W->inside[id][i];
			switch (a % 8) {
			case 0:
			case 1: schedule((a / 8) % 3, (a / 64) % 6, -1); break;
			case 2: schedule((a / 8) % 3, (a / 64) % 6, (a / 8) % (int)W->src.size()); break;
			case 3:
			case 4: do_push(); break;
			case 5: stop((a / 8) % (int)W->src.size()); break;
			case 6: pass(((a / 8) % 4) * 1'000'000); break;
			case 7: vrt::yield_point(); break;
			}
		}
	}
	void fired(int id, bool res) {
		h::quiet([&] {
			auto& r = *W->recs[id];
			r.fired++;
			r.res = res;
			r.fire_t = vrt::now_ns();
			r.fire_e = ++W->clock;
			vrt::note("#%d completes with %d at %+lld", id, (int)res, (long long)(r.push ? 0 : r.fire_t - r.deadline));
			if (r.fired != 1) vrt::fail("entry #%d completed %d times", id, r.fired);
		});
	}
	void on_timer_thread(int id) {
		h::quiet([&] {
			if (W->timer_thread < 0) W->timer_thread = vrt::self();
			if (vrt::self() != W->timer_thread || vrt::self() == 0) vrt::fail("callback #%d does not run on the timer thread", id);
		});
		CHECK(dispatcher::current() == W->raw, "callback #%d runs without the timer as current dispatcher", id);
	}
	struct Cb {
		int id;
		std::shared_ptr<int64_t> payload;
		std::shared_ptr<int> guard;
		explicit Cb(int i) : id(i), payload(std::make_shared<int64_t>(i * 9)), guard(std::make_shared<int>()) {}
		Cb(const Cb&) = default;
		Cb(Cb&&) = default;
		~Cb() {
			if (!guard || guard.use_count() > 1) return;
			bool ran = h::quiet([&] {
				W->recs[id]->destroyed++;
				return W->recs[id]->fired > 0;
			});
			if (ran && id % 4 == 3) do_push(); // a callback owning something that uses the timer
		}
		void run(bool r) {
			CHECK(*payload == id * 9, "writes made before scheduling are not visible");
			on_timer_thread(id);
			fired(id, r);
			W->result[id] = id + 1;
			body(id);
		}
		void operator()(bool r) { run(r); }
		void operator()() { run(true); }
	};
	int new_rec() {
		return h::quiet([&] {
			if (W->budget <= 0) return -1;
			W->budget--;
			W->recs.push_back(std::make_unique<Rec>());
			W->recs.back()->thread = vrt::self();
			W->recs.back()->sched_b = ++W->clock;
			W->recs.back()->sched_t = vrt::now_ns();
			return (int)W->recs.size() - 1;
		});
	}
	// accepted unless the timer is already being destroyed
	template<typename F>
	void attempt(int id, F&& f) {
		bool ok = true;
		try {
			f();
		} catch (const std::logic_error&) { ok = false; }
		h::quiet([&] {
			auto& r = *W->recs[id];
			r.accepted = ok;
			r.sched_et = vrt::now_ns();
			r.sched_e = ++W->clock;
			if (!ok && W->destroy_bc == never) vrt::fail("entry #%d was refused by a running timer", id);
		});
	}
	void do_push() {
		int id = new_rec();
		if (id < 0) return;
		W->recs[id]->push = true;
		vrt::note("#%d push", id);
		attempt(id, [&] { W->raw->push(Cb(id)); });
	}
	h::co waiter(int id, int kind, int64_t off, int tok, bool largest) {
		auto& r = *W->recs[id];
		bool res = false, suspended = true;
		auto st = largest ? std::chrono::steady_clock::time_point::max() : std::chrono::steady_clock::time_point(ns(r.deadline));
		h::Tracked local(id);
		int me = h::quiet([] { return vrt::self(); });
		try {
			if (tok < 0) {
				if (kind == 0)
					res = co_await W->raw->wait(st);
				else if (kind == 1)
					res = co_await W->raw->wait(ns(off));
				else
					res = co_await W->raw->wait(OtherClock::now() + OtherClock::duration(off));
			} else {
				auto tk = W->src[tok].get_token();
				if (kind == 0)
					res = co_await W->raw->wait(st, tk);
				else if (kind == 1)
					res = co_await W->raw->wait(ns(off), tk);
				else
					res = co_await W->raw->wait(OtherClock::now() + OtherClock::duration(off), tk);
			}
		} catch (const std::logic_error&) {
			h::quiet([&] {
				if (W->destroy_bc == never) vrt::fail("entry #%d was refused by a running timer", id);
				r.accepted = false;
				r.sched_e = ++W->clock;
			});
			co_return;
		}
		suspended = h::quiet([&] { return vrt::self() == W->timer_thread || vrt::self() != me; });
		fired(id, res);
		CHECK(local.get() == id);
		h::quiet([&] {
			r.accepted = true;
			r.destroyed = 1;
		});
		if (vrt::self() != me) on_timer_thread(id);
		(void)suspended;
		W->result[id] = id + 1;
		body(id);
	}
	void schedule(int kind, int offi, int tok) {
		int id = new_rec();
		if (id < 0) return;
		auto& r = *W->recs[id];
		if (offi == near_offsets + 1 && kind % 3 != 0) offi = near_offsets; // relative ones would overflow
		int64_t off = offsets[offi];
		bool largest = offi == near_offsets + 1;
		r.tok = tok;
		r.coro = kind >= 3;
		r.deadline = r.sched_t + off;
		r.exact = kind == 0; // others are relative to the time of a later query
		vrt::note("#%d %s in %lld ns, token %d", id, r.coro ? "wait" : "schedule", (long long)off, tok);
		if (r.coro) {
			waiter(id, kind - 3, off, tok, largest);
			h::quiet([&] { r.sched_e = std::min(r.sched_e, ++W->clock); });
			return;
		}
		auto abs = largest ? std::chrono::steady_clock::time_point::max() : std::chrono::steady_clock::time_point(ns(r.deadline));
		attempt(id, [&] {
			if (tok < 0) {
				if (kind == 0)
					W->raw->schedule(Cb(id), abs);
				else if (kind == 1)
					W->raw->schedule(Cb(id), ns(off));
				else
					W->raw->schedule(Cb(id), OtherClock::now() + OtherClock::duration(off));
			} else {
				auto tk = W->src[tok].get_token();
				if (kind == 0)
					W->raw->schedule(Cb(id), abs, tk);
				else if (kind == 1)
					W->raw->schedule(Cb(id), ns(off), tk);
				else
					W->raw->schedule(Cb(id), OtherClock::now() + OtherClock::duration(off), tk);
			}
		});
	}
	struct Step {
		int k, a, b, c;
	};
	void run_step(const Step& s) {
		switch (s.k) {
		case 0:
		case 1: schedule(s.a % 6, s.b, -1); break;
		case 2:
		case 3: schedule(s.a % 6, s.b, s.c % (int)W->src.size()); break;
		case 4: do_push(); break;
		case 5: stop(s.c % (int)W->src.size()); break;
		case 6:
		case 7: {
			int64_t d = std::max<int64_t>(offsets[s.b % near_offsets], 0);
			vrt::note("sleep %lld", (long long)d);
			std::vthis_thread::sleep_for(ns(d));
			break;
		}
		case 8: pass((s.b % 4) * 1'000'000); break;
		}
	}
	void verify() {
		auto& w = *W;
		w.slack += vrt::slipped_ns();
		if (!w.slack) vrt::label("exact times checked");
		for (std::size_t i = 0; i < w.recs.size(); i++) {
			auto& r = *w.recs[i];
			if (r.coro && !r.accepted && !r.fired) { // refused
				CHECK(w.destroy_bc != never && r.sched_e > w.destroy_bc, "waiting coroutine #%zu never continued", i);
				continue;
			}
			CHECK(r.fired == (r.accepted ? 1 : 0), "entry #%zu was %s but completed %d times", i, r.accepted ? "accepted" : "refused", r.fired);
			CHECK(r.destroyed == 1, "callback #%zu released %d times", i, r.destroyed);
			if (!r.accepted) continue;
			CHECK(w.result[i] == (int64_t)i + 1);
			if (r.push) {
				CHECK(r.fire_t - r.sched_t <= w.slack, "pushed task #%zu ran %lld ns late", i, (long long)(r.fire_t - r.sched_t));
				continue;
			}
			int64_t due = std::max(r.deadline, r.sched_t);
			int64_t sb = r.tok < 0 ? inf : w.stop_b[r.tok], se = r.tok < 0 ? inf : w.stop_e[r.tok];
			if (r.res) {
				CHECK(r.fire_t >= r.deadline, "entry #%zu fired %lld ns too early", i, (long long)(r.deadline - r.fire_t));
				CHECK(r.fire_t <= due + w.slack, "entry #%zu fired %lld ns late", i, (long long)(r.fire_t - due));
				// cancelled while not due, or destroyed while not due
				if (se != inf && r.deadline > r.sched_t + w.slack) CHECK(se + w.slack >= due, "entry #%zu fired although it was cancelled %lld ns before its deadline", i, (long long)(due - se));
				CHECK(w.destroy_t == inf || w.destroy_t + w.slack >= due, "entry #%zu fired although the timer was destroyed before", i);
			} else {
				bool stop_ok = sb != inf && w.stop_bc[r.tok] < r.fire_e;
				bool destr_ok = w.destroy_bc < r.fire_e;
				CHECK(stop_ok || destr_ok, "entry #%zu was cancelled without a reason", i);
				int64_t at = inf; // when it had to be cancelled
				if (stop_ok) at = std::max(sb, r.sched_t);
				if (destr_ok) at = std::min(at, std::max(w.destroy_t, r.sched_t));
				CHECK(r.fire_t <= at + w.slack, "entry #%zu was cancelled %lld ns late", i, (long long)(r.fire_t - at));
				CHECK(at <= due + w.slack || (r.tok >= 0 && w.stop_b[r.tok] <= r.sched_t), "entry #%zu was cancelled although it was due %lld ns before", i, (long long)(at - due));
			}
		}
		// order
		for (std::size_t i = 0; i < w.recs.size(); i++)
			for (std::size_t j = 0; j < w.recs.size(); j++) {
				auto &a = *w.recs[i], &b = *w.recs[j];
				if (i == j || !a.fired || !b.fired || a.fire_e < b.fire_e) continue;
				// a after b
				if (a.push && b.push) CHECK(a.sched_e > b.sched_b, "pushed task #%zu ran before #%zu which was pushed earlier", j, i);
				if (!a.push && !b.push && a.res && b.res && a.deadline + (a.exact && b.exact ? 0 : w.slack) < b.deadline &&
					(a.sched_e < b.sched_b || (a.sched_et < b.deadline && b.exact)) && !a.coro && !b.coro)
					vrt::fail("entry #%zu fired before #%zu which has an earlier deadline", j, i);
			}
	}
	struct Init {
		World w;
		Init(int nsrc) {
			vrt::allow_slips(vrt::chance(1, 2));
			W = &w;
			w.recs.reserve(128);
			w.result.resize(128);
			w.src.resize(nsrc);
			w.stop_b.assign(nsrc, inf);
			w.stop_e.assign(nsrc, inf);
			w.stop_bc.assign(nsrc, never);
		}
		~Init() { W = nullptr; }
	};
	Step gen() {
		Step s;
		s.k = (int)vrt::choose(9);
		s.a = (int)vrt::choose(6);
		s.b = (int)vrt::choose(near_offsets + 2);
		s.c = (int)vrt::choose(3);
		return s;
	}
	void gen_inside(int n) {
		for (int i = 0; i < n; i++) {
			W->inside.emplace_back();
			int k = vrt::chance(1, 3) ? (int)vrt::range(1, 2) : 0;
			for (int j = 0; j < k; j++)
				W->inside.back().push_back((int)vrt::choose(8 * 8 * 6));
		}
	}
	void destroy() {
		h::quiet([&] {
			W->destroy_bc = ++W->clock;
			W->destroy_t = vrt::now_ns();
		});
		vrt::note("destroy");
		W->t.reset();
		vrt::note("destroyed");
	}
	void finish(bool nontriv) {
		// stopping after the timer is gone has no effect
		for (int i = 0; i < (int)W->src.size(); i++)
			stop(i);
		verify();
		if (nontriv) vrt::nontrivial();
	}
} // namespace
SCENARIO(histories, 150) {
	Init in((int)vrt::range(1, 3));
	in.w.budget = (int)vrt::range(3, 14);
	gen_inside(16);
	int n = (int)vrt::range(2, 14), stops = 0;
	std::vector<Step> steps;
	for (int i = 0; i < n; i++) {
		steps.push_back(gen());
		stops += steps.back().k == 5;
	}
	bool wait_all = vrt::flip();
	in.w.t = std::make_unique<timer>();
	in.w.raw = in.w.t.get();
	CHECK(dispatcher::current() == nullptr);
	for (auto& s : steps)
		run_step(s);
	if (wait_all) {
		for (int k = 0; k < 100; k++) {
			std::vthis_thread::sleep_for(std::chrono::seconds(1));
			vrt::wait_idle(false);
		}
		for (std::size_t i = 0; i < in.w.recs.size(); i++)
			CHECK(in.w.recs[i]->fired == 1 || in.w.recs[i]->deadline > vrt::now_ns(), "entry #%zu is still outstanding long after its deadline", i);
	}
	destroy();
	finish(in.w.recs.size() > 3 && (stops || !wait_all));
}
SCENARIO(concurrent, 300) {
	Init in((int)vrt::range(1, 3));
	in.w.budget = (int)vrt::range(3, 12);
	gen_inside(14);
	int nt = (int)vrt::range(1, 3), total = 0, stops = 0;
	std::vector<std::vector<Step>> prog(nt);
	for (auto& p : prog) {
		int n = (int)vrt::range(1, 6);
		for (int i = 0; i < n; i++, total++) {
			p.push_back(gen());
			stops += p.back().k == 5;
		}
	}
	// cancels and sleeps that may go on while the timer is destroyed
	std::vector<Step> late;
	int nl = (int)vrt::choose(4);
	for (int i = 0; i < nl; i++) {
		Step s = gen();
		s.k = vrt::flip() ? 5 : 6;
		late.push_back(s);
	}
	bool settle = vrt::chance(1, 3);
	in.w.t = std::make_unique<timer>();
	in.w.raw = in.w.t.get();
	std::vector<std::vthread> ts;
	for (auto& p : prog)
		ts.emplace_back([&] {
			for (auto& s : p)
				run_step(s);
		});
	std::vthread lt([&] {
		for (auto& s : late)
			run_step(s);
	});
	h::join_all(ts);
	if (settle) std::vthis_thread::sleep_for(ns(offsets[(int)vrt::choose(9)]));
	destroy();
	lt.join();
	finish(in.w.recs.size() > 3 && (stops || nl));
}
// Cancellation at exactly the moment of the deadline, of the registration or of the destruction
SCENARIO(races, 200) {
	Init in(1);
	in.w.budget = 8;
	int n = (int)vrt::range(1, 3);
	int off = (int)vrt::range(1, 3), when = (int)vrt::choose(3);
	int kind = (int)vrt::choose(6);
	in.w.t = std::make_unique<timer>();
	in.w.raw = in.w.t.get();
	std::vthread a([&] {
		for (int i = 0; i < n; i++)
			schedule(kind, off, 0);
	});
	std::vthread b([&] {
		if (when == 1) std::vthis_thread::sleep_for(ns(offsets[off]));
		stop(0);
	});
	a.join();
	if (when == 1 && vrt::flip()) std::vthis_thread::sleep_for(ns(offsets[off]));
	if (when == 2) b.join();
	destroy();
	if (when != 2) b.join();
	finish(true);
}
// Busy work on the timer thread must not keep entries or tasks from getting their turn
SCENARIO(starvation, 50) {
	vrt::allow_slips(vrt::flip());
	int64_t due = (int64_t)vrt::range(1, 5) * 1'000'000;
	bool by_entries = vrt::flip(), token = vrt::flip();
	int over = 0, rounds = 0;
	bool done = false, end = false;
	int64_t deadline = vrt::now_ns() + (by_entries ? 0 : due);
	stop_source src;
	{
		std::function<void()> spin;
		timer t;
		spin = [&] {
			rounds++;
			if (done || rounds > 60) {
				end = true;
				return;
			}
			if (vrt::now_ns() >= deadline) over++;
			vrt::advance_ns(1'000'000);
			try {
				if (by_entries)
					t.schedule([&](bool ok) { if (ok) spin(); else end = true; }, ns(0));
				else
					t.push(spin);
			} catch (const std::logic_error&) { end = true; }
		};
		t.push([&] {
			if (by_entries)
				t.push([&] { done = true; });
			else if (token)
				t.schedule([&](bool) { done = true; }, std::chrono::steady_clock::time_point(ns(deadline)), src.get_token());
			else
				t.schedule([&](bool) { done = true; }, std::chrono::steady_clock::time_point(ns(deadline)));
			spin();
		});
		while (!h::quiet([&] { return end; }))
			std::vthis_thread::sleep_for(std::chrono::milliseconds(1));
	}
	CHECK(done);
	if (vrt::slipped_ns() == 0) CHECK(over <= 3, "%d callbacks were executed before one that was due", over);
	CHECK(rounds < 60, "a due %s was starved", by_entries ? "task" : "entry");
	vrt::nontrivial();
}
// Many entries at once
SCENARIO(many_entries, 1) {
	vrt::allow_slips(false);
	int n = std::min(h::bulk(false), 1500);
	std::vector<int> done((std::size_t)n, 0);
	std::vector<int64_t> due((std::size_t)n);
	std::vector<char> cancelled((std::size_t)n, 0), tokened((std::size_t)n, 0);
	int64_t last = 0;
	int pushed = 0, pushes = 0, closing = 0;
	bool early = vrt::flip();
	std::vector<stop_source> src((std::size_t)vrt::range(1, 4));
	{
		timer t;
		int64_t base = vrt::now_ns() + 1'000'000'000;
		for (int i = 0; i < n; i++) {
			due[i] = base + (int64_t)vrt::choose(400) * 1'000'000;
			auto tp = std::chrono::steady_clock::time_point(std::chrono::nanoseconds(due[i]));
			auto cb = [&, i](bool ok) {
				h::quiet([&] {
					CHECK(++done[i] == 1, "entry %d completed twice", i);
					if (closing && !ok) return;
					CHECK(ok == !cancelled[i], "entry %d completed with %d", i, (int)ok);
					if (!ok) return;
					CHECK(vrt::now_ns() >= due[i], "entry %d was executed %lld ns too early", i, (long long)(due[i] - vrt::now_ns()));
					CHECK(vrt::now_ns() <= due[i] + 1'000'000 * 3, "entry %d was executed %lld ns too late", i, (long long)(vrt::now_ns() - due[i]));
					CHECK(due[i] >= last, "entry %d was not executed in the order of the deadlines", i);
					last = due[i];
				});
			};
			if (vrt::flip()) {
				tokened[i] = 1 + (char)vrt::choose((uint32_t)src.size());
				t.schedule(cb, tp, src[tokened[i] - 1].get_token());
			} else
				t.schedule(cb, tp);
			if (vrt::chance(1, 5)) {
				pushes++;
				t.push([&] { h::quiet([&] { pushed++; }); });
			}
		}
		if (vrt::flip()) {
			h::quiet([&] {
				for (int i = 0; i < n; i++)
					cancelled[i] = tokened[i] == 1;
			});
			src[0].request_stop();
		}
		if (!early)
			std::vthis_thread::sleep_for(std::chrono::milliseconds(1600));
		h::quiet([&] {
			if (!early)
				for (int i = 0; i < n; i++)
					CHECK(done[i] == 1, "entry %d was not executed", i);
			closing = 1;
		});
	}
	for (int i = 0; i < n; i++)
		CHECK(done[i] == 1, "entry %d was not completed when the timer was destroyed", i);
	CHECK(pushed == pushes, "%d of %d pushed tasks were executed", pushed, pushes);
	if (n > 20) vrt::nontrivial();
}
// Durations and time points of every kind, also through the awaitable literals and the global timer
namespace {
	template<typename D>
	D make(int64_t nanos) {
		if constexpr (std::chrono::treat_as_floating_point_v<typename D::rep>)
			return std::chrono::duration_cast<D>(std::chrono::duration<double, std::nano>((double)nanos));
		else
			return std::chrono::duration_cast<D>(ns(nanos));
	}
	struct Kinds {
		timer* t;
		int done = 0;
		template<typename D>
		static int64_t up(D d) { // smallest number of ns that is not less
			return (int64_t)std::chrono::ceil<ns>(d).count();
		}
		void check(bool res, int64_t begin, int64_t end, int64_t want) {
			int64_t took = vrt::now_ns() - begin;
			h::quiet([&] { done++; });
			CHECK(res, "a wait that nobody cancelled reported a cancellation");
			CHECK(took >= want, "completed after %lld ns instead of %lld", (long long)took, (long long)want);
			// converting a floating point time may cost some precision
			CHECK(took <= std::max<int64_t>(want, 0) + (end - begin) + std::max<int64_t>(want, 0) / 1000 + 2, "completed after %lld ns instead of %lld", (long long)took, (long long)want);
		}
		template<typename A>
		h::co wait(A a, int64_t begin, int64_t want) {
			bool r = co_await a;
			if (want > 0) CHECK(dispatcher::current() == t, "continued without the timer as current dispatcher");
			check(r, begin, begin, want);
		}
		template<typename D>
		void one(int how, int64_t nanos, asyncpp::stop_token tk, bool literal) {
			using std::chrono::steady_clock;
			D d = make<D>(nanos);
			int64_t begin = vrt::now_ns();
			std::chrono::time_point<steady_clock, D> st(make<D>(begin + nanos));
			auto other = OtherClock::now() + d;
			auto cb = [this, begin](int64_t want) {
				return [=, this](bool r) { check(r, begin, begin, want); };
			};
			// with a representation that can not hold the time exactly the deadline is the time it does hold
			int64_t swant = up(st.time_since_epoch()) - begin, owant = up((other - OtherClock::time_point(OtherClock::duration(begin + 5'000'000'000))));
			if constexpr (sizeof(typename D::rep) < 8) swant = std::min(swant, owant), owant = swant; // too coarse to tell
			if (literal) {
				switch (how % 3) {
				case 0: wait(asyncpp::operator co_await(d), begin, up(d)); return;
				case 1: wait(asyncpp::operator co_await(st), begin, swant); return;
				default: wait(asyncpp::operator co_await(other), begin, owant); return;
				}
			}
			switch (how) {
			case 0: wait(t->wait(d), begin, up(d)); break;
			case 1: wait(t->wait(d, tk), begin, up(d)); break;
			case 2: wait(t->wait(st), begin, swant); break;
			case 3: wait(t->wait(st, tk), begin, swant); break;
			case 4: wait(t->wait(other), begin, owant); break;
			case 5: wait(t->wait(other, tk), begin, owant); break;
			case 6: t->schedule(cb(swant), st); break;
			case 7: t->schedule(cb(swant), st, tk); break;
			case 8: t->schedule(cb(owant), other); break;
			default: t->schedule(cb(owant), other, tk); break;
			}
		}
		struct Plan {
			int type, how;
			int64_t nanos;
			bool pause;
		};
		void run(const std::vector<Plan>& plan, bool literal) {
			stop_source src;
			for (auto& p : plan) {
				using std::chrono::duration;
				vrt::note("type %d, way %d, %lld ns", p.type, p.how, (long long)p.nanos);
				switch (p.type) {
				case 0: one<ns>(p.how, p.nanos, src.get_token(), literal); break;
				case 1: one<std::chrono::microseconds>(p.how, p.nanos, src.get_token(), literal); break;
				case 2: one<duration<int64_t, std::milli>>(p.how, p.nanos, src.get_token(), literal); break;
				case 3: one<std::chrono::seconds>(p.how, p.nanos, src.get_token(), literal); break;
				case 4: one<duration<double>>(p.how, p.nanos, src.get_token(), literal); break;
				case 5: one<duration<double, std::milli>>(p.how, p.nanos, src.get_token(), literal); break;
				case 6: one<duration<int64_t, std::ratio<1, 3'000'000>>>(p.how, p.nanos, src.get_token(), literal); break;
				default: one<duration<long double, std::micro>>(p.how, p.nanos, src.get_token(), literal); break;
				}
				if (p.pause) std::vthis_thread::sleep_for(std::chrono::milliseconds(3));
			}
			std::vthis_thread::sleep_for(std::chrono::seconds(8));
			CHECK(h::quiet([&] { return done; }) == (int)plan.size(), "%d of %zu waits completed", done, plan.size());
		}
		static std::vector<Plan> gen() {
			std::vector<Plan> plan;
			int n = (int)vrt::range(1, 6);
			for (int i = 0; i < n; i++)
				plan.push_back({(int)vrt::choose(8), (int)vrt::choose(10), (int64_t)vrt::choose(7) * (vrt::flip() ? 1'000'000'000 : 1'234'567) + (int64_t)vrt::choose(4000) - 100, vrt::flip()});
			return plan;
		}
	};
} // namespace
SCENARIO(kinds_of_times, 40, vrt::NO_TSAN) {
	vrt::allow_slips(false);
	auto plan = Kinds::gen();
	timer t;
	Kinds k{&t};
	k.run(plan, false);
	if (plan.size() > 1) vrt::nontrivial();
}
// In a process of its own, because the global timer exists until the end
SCENARIO(global_timer, 4, vrt::NO_TSAN) {
	vrt::allow_slips(false);
	auto plan = Kinds::gen();
	bool literal = vrt::flip();
	pid_t pid = fork();
	if (pid == 0) {
		Kinds k{&timer::get_default()};
		CHECK(&timer::get_default() == k.t);
		k.run(plan, literal);
		_exit(40);
	}
	if (pid < 0) return;
	int st = 0;
	waitpid(pid, &st, 0);
	CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 40, "waiting with the global timer ended with wait status %x", st);
	vrt::nontrivial();
}
// Callbacks that are empty are ignored
SCENARIO(empty_callbacks, 10) {
	vrt::allow_slips(false);
	int n = (int)vrt::range(1, 8), ran = 0, expected = 0;
	std::vector<std::pair<int, int>> plan;
	for (int i = 0; i < n; i++)
		plan.emplace_back((int)vrt::choose(6), (int)vrt::choose(4));
	bool stop = vrt::flip(), wait = vrt::flip();
	stop_source src;
	{
		timer t;
		for (auto [k, ms] : plan) {
			auto at = std::chrono::milliseconds(ms * 10);
			auto cb = [&](bool) { h::quiet([&] { ran++; }); };
			switch (k) {
			case 0: t.schedule(std::function<void(bool)>{}, at); break;
			case 1: t.schedule(std::function<void(bool)>{}, at, src.get_token()); break;
			case 2: t.push({}); break;
			case 3: expected++, t.schedule(cb, at); break;
			case 4: expected++, t.schedule(cb, at, src.get_token()); break;
			default: expected++, t.push([&] { h::quiet([&] { ran++; }); }); break;
			}
		}
		if (stop) src.request_stop();
		if (wait) std::vthis_thread::sleep_for(std::chrono::milliseconds(100));
		if (wait) CHECK(h::quiet([&] { return ran; }) == expected, "%d of %d callbacks were invoked", ran, expected);
	}
	CHECK(ran == expected, "%d of %d callbacks were invoked", ran, expected);
	if (n > 2) vrt::nontrivial();
}
