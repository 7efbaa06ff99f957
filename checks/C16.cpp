// C16: fire_and_forget_task, eager_fire_and_forget_task, exception_policy
#include "../lib/vrt_shim.h"
#include <asyncpp/fire_and_forget.h>
#include "../lib/helpers.h"
using asyncpp::exception_policy;
using h::QueueDispatcher;
using h::Tracked;

namespace {
	template<bool Eager>
	using Handle = std::conditional_t<Eager, asyncpp::eager_fire_and_forget_task<>, asyncpp::fire_and_forget_task<>>;

	struct Err {
		int64_t id;
		Tracked t;
		explicit Err(int64_t i) : id(i), t(i) {}
	};
	enum SK { LOG, SUSPEND, HOP, IGNORE, HANDLE, ACT, THROW, THROW_INT };
	struct Step {
		SK k;
		int a = 0;
	};
	struct Task;
	// Lives in the frame as a parameter
	struct Probe {
		Task* t;
		explicit Probe(Task* t);
		Probe(const Probe&) = delete;
		Probe(Probe&& o);
		~Probe();
	};
	struct Task {
		int id = 0;
		bool eager = false, created = false, started = false, ended = false, suspended = false;
		std::vector<Step> steps;
		int runs = 0, handled = 0, params = 0, locals = 0, frames_created = 0, frames_released = 0;
		std::size_t at = 0; // steps begun
		int policy = -1;    // -1 default, -2 ignore, otherwise index of the handle policy
		std::coroutine_handle<> slot{};
		int expected_end = 0; // 1 threw
		std::vector<std::unique_ptr<QueueDispatcher>>* workers = nullptr;
		std::function<void(int)> act;
	};
	Probe::Probe(Task* t) : t(t) { h::quiet([&] { t->params++; }); }
	Probe::Probe(Probe&& o) : t(std::exchange(o.t, nullptr)) {}
	Probe::~Probe() {
		if (t) h::quiet([&] { t->params--; });
	}
	struct LocalProbe {
		Task* t;
		Tracked c;
		explicit LocalProbe(Task* t) : t(t), c(t->id) { h::quiet([&] { t->locals++; }); }
		LocalProbe(const LocalProbe&) = delete;
		~LocalProbe() {
			h::quiet([&] { t->locals--; });
		}
	};
	struct hop {
		QueueDispatcher* d;
		bool await_ready() { return false; }
		void await_suspend(std::coroutine_handle<> hd) {
			d->push([hd] { hd.resume(); });
		}
		void await_resume() {}
	};
	struct park {
		Task* t;
		bool await_ready() { return false; }
		void await_suspend(std::coroutine_handle<> hd) {
			t->suspended = true;
			t->slot = hd;
		}
		void await_resume() { t->suspended = false; }
	};

	template<bool Eager>
	Handle<Eager> body(Task* t, Probe p, Tracked param) {
		h::quiet([&] { t->runs++; });
		t->started = true;
		LocalProbe l(t);
		struct End {
			Task* t;
			~End() { t->ended = true; }
		} end{t};
		for (auto& s : t->steps) {
			t->at++;
			switch (s.k) {
			case LOG: param.check(); break;
			case SUSPEND: co_await park{t}; break;
			case HOP: co_await hop{(*t->workers)[s.a % t->workers->size()].get()}; break;
			case IGNORE:
				t->policy = -2;
				co_await exception_policy::ignore;
				break;
			case HANDLE: {
				t->policy = s.a;
				auto pol = exception_policy::handle([t, id = s.a, c = Tracked(s.a)] {
					c.check();
					h::quiet([&] { t->handled++; });
					CHECK(t->policy == id, "policy %d was called, %d is the last one", id, t->policy);
					auto ep = std::current_exception();
					CHECK((bool)ep, "no exception is current in the policy callback");
					try {
						std::rethrow_exception(ep);
					} catch (const Err& e) {
						e.t.check();
						CHECK(e.id == t->id * 1000 + (int64_t)t->at, "wrong exception");
					} catch (int e) { CHECK(e == t->id * 1000 + (int)t->at, "wrong exception"); }
				});
				if (s.a & 1)
					co_await pol;
				else
					co_await std::move(pol);
				break;
			}
			case ACT: t->act(s.a); break;
			case THROW: throw Err(t->id * 1000 + (int64_t)t->at);
			case THROW_INT: throw t->id * 1000 + (int)t->at;
			}
		}
		param.check();
		p.t->at++;
	}
	// what the body has to have done when it is over
	void check_end(Task& t) {
		bool throws = !t.steps.empty() && t.steps.back().k >= THROW;
		CHECK(t.at == t.steps.size() + (throws ? 0 : 1), "the body of task %d did %zu of %zu steps", t.id, t.at, t.steps.size());
		bool want = throws && t.policy >= 0;
		CHECK(t.handled == (want ? 1 : 0), "the policy of task %d was called %d times instead of %d", t.id, t.handled, (int)want);
	}
	std::vector<Step> gen_steps(int hops, int acts, int max) {
		std::vector<Step> v;
		bool policy = false;
		int n = vrt::size(0, max);
		for (int i = 0; i < n; i++) {
			int w[] = {1, hops ? 0 : 5, hops ? 5 : 0, 2, 2, acts ? 4 : 0, policy ? 1 : 0, policy ? 1 : 0};
			int x = vrt::choose(std::accumulate(std::begin(w), std::end(w), 0)), k = 0;
			while (x >= w[k])
				x -= w[k++];
			Step s{(SK)k};
			if (k == HOP) s.a = vrt::choose(hops);
			if (k == ACT) s.a = vrt::choose(acts);
			if (k == HANDLE) s.a = 10 + i;
			if (k == HANDLE || k == IGNORE) policy = true;
			v.push_back(s);
			if (k >= THROW) break;
		}
		return v;
	}
	void dump(const Task& t) {
		static const char* nm[] = {"log", "suspend", "hop", "policy ignore", "policy handle", "act", "throw", "throw int"};
		vrt::note("task %d (%s)", t.id, t.eager ? "eager" : "lazy");
		for (auto& s : t.steps)
			vrt::note("   %s %d", nm[s.k], s.a);
	}

	// ------------------------------------------------------------ histories on one thread
	template<bool Eager>
	struct World {
		static constexpr int N = 4;
		struct Slot {
			std::optional<Handle<Eager>> h;
			Task* t = nullptr;       // refers to (definitely)
			std::set<Task*> maybe;   // may still refer to
		};
		Slot s[N];
		std::vector<std::unique_ptr<Task>> tasks;
		int budget = 25, depth = 0, reentrant = 0;
		bool copied = false;

		Handle<Eager> make(Task& t) { return body<Eager>(&t, Probe(&t), Tracked(t.id)); }
		void check() {
			for (auto& tp : tasks) {
				Task& t = *tp;
				if (!t.created) continue;
				bool must = t.started && !t.ended, may = false;
				for (auto& x : s) {
					if (!x.h) continue;
					if (x.t == &t) must = true;
					if (x.maybe.count(&t)) may = true;
				}
				int frame = t.params;
				CHECK(t.runs <= 1, "the body of task %d ran %d times", t.id, t.runs);
				if (must) CHECK(frame == 1, "the frame of task %d is gone (%d) while it is in use", t.id, frame);
				if (!must && !may) CHECK(frame == 0, "the frame of task %d still exists (%d) although nobody can use it", t.id, frame);
				bool inside = t.started && !t.ended;
				CHECK(t.locals == (inside ? 1 : 0), "the locals of task %d: %d", t.id, t.locals);
				if (t.ended) check_end(t);
			}
		}
		Task& new_task() {
			auto t = std::make_unique<Task>();
			t->id = (int)tasks.size() + 1;
			t->eager = Eager;
			t->steps = gen_steps(0, depth < 2 ? 1000 : 0, 5);
			t->act = [this](int) {
				reentrant++;
				depth++;
				if (budget > 0) op();
				depth--;
			};
			dump(*t);
			tasks.push_back(std::move(t));
			return *tasks.back();
		}
		// slot x now definitely refers to t (its old target is released)
		void now(Slot& x, Task* t, std::set<Task*> maybe = {}) {
			x.t = t;
			x.maybe = std::move(maybe);
		}
		void create(int i) {
			if (s[i].h) return;
			Task& t = new_task();
			vrt::note("slot %d = task %d", i, t.id);
			t.created = true;
			// the body of an eager one already runs here, and may use the slots
			auto hnd = make(t);
			CHECK(t.runs == (Eager ? 1 : 0), "after creation the body ran %d times", t.runs);
			if (s[i].h) { // taken in the meantime
				return;   // the handle goes away again; check() below sees it
			}
			s[i].h.emplace(std::move(hnd));
			now(s[i], &t);
		}
		void start(int i) {
			if constexpr (!Eager) {
				if (!s[i].h) return;
				vrt::note("start through slot %d", i);
				Task* t = s[i].t;
				bool expect_run = t && !t->started;
				int before = t ? t->runs : 0;
				if (t) {
					s[i].maybe.insert(t);
					s[i].t = nullptr;
					t->started = true;
				}
				s[i].h->start();
				if (t) CHECK(t->runs == before + (expect_run ? 1 : 0), "start ran the body of task %d %d times", t->id, t->runs - before);
			}
		}
		void copy(int i, int j) {
			if (!s[i].h || s[j].h) return;
			vrt::note("slot %d is a copy of slot %d", j, i);
			s[j].h.emplace(*s[i].h);
			now(s[j], s[i].t, s[i].maybe);
			copied = true;
		}
		void move(int i, int j) {
			if (!s[i].h || s[j].h) return;
			vrt::note("slot %d is moved from slot %d", j, i);
			s[j].h.emplace(std::move(*s[i].h));
			now(s[j], s[i].t, s[i].maybe);
			now(s[i], nullptr);
		}
		void copy_assign(int i, int j) {
			if (!s[i].h || !s[j].h) return;
			vrt::note("slot %d = slot %d", j, i);
			auto& src = *s[i].h;
			*s[j].h = src;
			now(s[j], s[i].t, s[i].maybe);
			copied = true;
		}
		void move_assign(int i, int j) {
			if (!s[i].h || !s[j].h) return;
			vrt::note("slot %d = move(slot %d)", j, i);
			Slot old;
			old.t = s[j].t;
			old.maybe = s[j].maybe;
			*s[j].h = std::move(*s[i].h);
			if (i == j) return; // has to keep it
			now(s[j], s[i].t, s[i].maybe);
			// the source holds nothing or what the target had
			auto m = old.maybe;
			if (old.t) m.insert(old.t);
			now(s[i], nullptr, m);
			unclear.insert(i);
		}
		std::set<int> unclear; // moved-from, may hold an unstarted task
		void destroy(int i) {
			if (!s[i].h) return;
			vrt::note("destroy slot %d", i);
			now(s[i], nullptr);
			unclear.erase(i);
			// leaves the slot empty before the handle goes
			if (vrt::flip()) {
				auto tmp = std::move(s[i].h);
				s[i].h.reset();
				tmp.reset();
			} else
				s[i].h.reset();
		}
		void resume() {
			std::vector<Task*> r;
			for (auto& t : tasks)
				if (t->slot) r.push_back(t.get());
			if (r.empty()) return;
			auto& t = *r[vrt::choose(r.size())];
			vrt::note("resume task %d", t.id);
			std::exchange(t.slot, {}).resume();
		}
		void op() {
			budget--;
			int k = vrt::choose(16), i = vrt::choose(N), j = vrt::choose(N);
			// a moved-from handle in an unknown state is only destroyed or assigned to
			if (k >= 4 && k < 12 && k != 11 && unclear.count(i)) k = 11;
			switch (k) {
			case 0:
			case 1: create(i); break;
			case 2:
			case 3: resume(); break;
			case 4:
			case 5:
			case 6: start(i); break;
			case 7:
				copy(i, j);
				break;
			case 8: move(i, j); break;
			case 9:
				copy_assign(i, j);
				unclear.erase(j);
				break;
			case 10:
				unclear.erase(j);
				move_assign(i, j);
				break;
			case 11:
			case 12: destroy(i); break;
			default: create(i); break;
			}
			check();
		}
		void run() {
			while (budget > 0)
				op();
			depth = 10;
			budget = 0;
			for (int i = 0; i < N; i++)
				destroy(i), check();
			for (int guard = 0; guard < 1000; guard++) {
				bool any = false;
				for (auto& t : tasks)
					if (t->slot) {
						any = true;
						std::exchange(t->slot, {}).resume();
						check();
					}
				// steps that act may have been skipped: nothing is left to act on
				if (!any) break;
			}
			int started = 0, suspended = 0;
			for (auto& t : tasks) {
				if (t->started) started++;
				for (auto& x : t->steps)
					if (t->started && x.k == SUSPEND) suspended++;
				if (t->started) CHECK(t->ended && t->runs == 1, "task %d was started and did not finish", t->id);
				CHECK(!t->params && !t->locals, "task %d: %d frames left", t->id, t->params);
			}
			if (started && suspended && copied) vrt::nontrivial();
			if (reentrant) vrt::label("handles used from inside a body");
		}
	};

	// ------------------------------------------------------------ handles on several threads
	template<bool Eager>
	void threads() {
		int nw = vrt::range(1, 2), nt = vrt::range(1, 3);
		std::vector<std::unique_ptr<QueueDispatcher>> ws;
		for (int i = 0; i < nw; i++) {
			ws.push_back(std::make_unique<QueueDispatcher>(i));
			ws.back()->start();
		}
		std::deque<Task> tasks(vrt::range(1, 3));
		std::vector<int> starts(tasks.size());
		struct Do {
			int k, t;
		};
		std::vector<std::vector<Do>> plans(nt);
		int n = 0;
		for (auto& t : tasks) {
			t.id = ++n;
			t.eager = Eager;
			t.steps = gen_steps(nw, 0, 4);
			t.workers = &ws;
			dump(t);
		}
		for (auto& p : plans) {
			int m = vrt::range(1, 4);
			for (int i = 0; i < m; i++) {
				p.push_back({(int)vrt::choose(4), (int)vrt::choose(tasks.size())});
				vrt::note("thread %d: op %d task %d", (int)(&p - &plans[0]), p.back().k, p.back().t);
				if (p.back().k <= 1) starts[p.back().t]++;
			}
		}
		bool keep = vrt::flip();
		{
			std::vector<std::vector<Handle<Eager>>> hs(nt);
			std::vector<Handle<Eager>> mine;
			for (auto& t : tasks) {
				t.created = true;
				mine.push_back(body<Eager>(&t, Probe(&t), Tracked(t.id)));
			}
			for (auto& x : hs)
				x = mine;
			if (!keep) mine.clear();
			std::vector<std::vthread> ts;
			for (int i = 0; i < nt; i++)
				ts.emplace_back([&, i, h = std::move(hs[i])]() mutable {
					for (auto& d : plans[i]) {
						auto& x = h[d.t];
						switch (d.k) {
						case 0:
							if constexpr (!Eager) x.start();
							break;
						case 1: {
							auto c = x;
							if constexpr (!Eager) c.start();
							break;
						}
						case 2: {
							auto c = x;
							x = std::move(c);
							break;
						}
						default: {
							auto c = x;
							x = h[(d.t + 1) % h.size()];
							x = c;
							break;
						}
						}
					}
				});
			hs.clear();
			h::join_all(ts);
			vrt::wait_idle();
		}
		vrt::wait_idle();
		for (auto& w : ws)
			w->stop();
		bool hops = false;
		for (auto& t : tasks) {
			bool run = Eager || starts[t.id - 1];
			h::quiet([&] {
				CHECK(t.runs == (run ? 1 : 0), "the body of task %d ran %d times", t.id, t.runs);
				CHECK(t.params == 0 && t.locals == 0, "task %d left %d frame(s)", t.id, t.params);
				if (run) check_end(t);
			});
			for (auto& s : t.steps)
				if (run && s.k == HOP) hops = true;
			if (starts[t.id - 1] > 1) vrt::label("several starts of one task");
		}
		if (hops && nt > 1) vrt::nontrivial();
	}

	// ------------------------------------------------------------ termination
	template<bool Eager>
	Handle<Eager> dying(int policies, bool suspend, std::coroutine_handle<>* slot, bool throws) {
		for (int i = 0; i < policies; i++)
			co_await exception_policy::handle([] { _exit(40); });
		if (policies) co_await exception_policy::terminate;
		if (suspend) co_await h::manual{slot};
		if (throws) throw 1;
	}
	template<bool Eager>
	void terminates() {
		int policies = vrt::choose(3);
		bool suspend = vrt::flip(), throws = !vrt::chance(1, 4);
		vrt::note("policies=%d suspend=%d throws=%d", policies, suspend, throws);
		pid_t pid = fork();
		if (pid == 0) {
			std::set_terminate([] { _exit(42); });
			std::coroutine_handle<> slot{};
			auto t = dying<Eager>(policies, suspend, &slot, throws);
			if constexpr (!Eager) t.start();
			if (suspend) slot.resume();
			_exit(41);
		}
		int st = 0;
		if (pid < 0) return;
		waitpid(pid, &st, 0);
		int want = throws ? 42 : 41;
		CHECK(WIFEXITED(st) && WEXITSTATUS(st) == want, "wait status %x, expected exit code %d (42 terminated, 41 survived, 40 wrong policy)", st, want);
		if (throws) vrt::nontrivial();
	}

	// ------------------------------------------------------------ handles kept in frames
	template<bool Eager>
	Handle<Eager> holder(Task* t, Probe p, Handle<Eager> next, Handle<Eager>** expose, std::coroutine_handle<>* slot, bool suspend) {
		t->runs++;
		*expose = &next;
		if (suspend) co_await h::manual{slot};
		p.t->ended = true;
	}
	// A list of finished tasks, each frame of which keeps the next one
	template<bool Eager>
	void lists() {
		int n = vrt::range(1, 4);
		std::deque<Task> t(n + 1);
		std::vector<Handle<Eager>*> next(n + 1);
		std::vector<std::coroutine_handle<>> slot(n + 1);
		std::vector<char> suspend(n + 1);
		for (auto& s : suspend)
			s = vrt::chance(1, 3);
		auto head = body<Eager>(&t[n], Probe(&t[n]), Tracked(1));
		for (int i = n - 1; i >= 0; i--) {
			t[i].id = i;
			auto o = holder<Eager>(&t[i], Probe(&t[i]), head, &next[i], &slot[i], suspend[i]);
			if constexpr (!Eager) {
				auto c = o;
				c.start();
			}
			head = std::move(o);
		}
		std::vector<int> ops;
		int at = 0;
		while (at < n) {
			if (slot[at] && vrt::flip()) std::exchange(slot[at], {}).resume();
			int how = vrt::choose(3);
			vrt::note("advance %d%s", how, slot[at] ? " (body suspended)" : "");
			bool done = !slot[at];
			auto& src = *next[at];
			if (how == 0)
				head = src;
			else if (how == 1)
				head = std::move(src);
			else {
				auto c = src;
				head = c;
			}
			if (!done) {
				CHECK(t[at].params == 1, "the frame of a suspended body is gone");
				slot[at].resume();
			}
			at++;
			// moving may leave the old target in the source
			if (how != 1)
				for (int i = 0; i < at; i++)
					CHECK(how == 1 || t[i].params == 0 || !done, "frame %d is still there", i);
			for (int i = at; i <= n; i++)
				CHECK(t[i].params == 1, "frame %d is gone", i);
			if (how == 1) {
				// source may be in the frame it keeps alive: nobody can break that cycle from outside
				if (t[at - 1].params) {
					vrt::label("swap on move made a cycle");
					*next[at - 1] = head;
				}
			}
		}
		vrt::nontrivial();
	}
} // namespace

SCENARIO(lazy_lists, 80, vrt::NO_TSAN) { lists<false>(); }
SCENARIO(eager_lists, 80, vrt::NO_TSAN) { lists<true>(); }
SCENARIO(lazy_histories, 2400, vrt::NO_TSAN) { World<false>().run(); }
SCENARIO(eager_histories, 1600, vrt::NO_TSAN) { World<true>().run(); }
SCENARIO(lazy_threads, 2000) { threads<false>(); }
SCENARIO(eager_threads, 1000) { threads<true>(); }
SCENARIO(default_policy, 20, vrt::NO_TSAN) {
	if (vrt::flip())
		terminates<true>();
	else
		terminates<false>();
}
// Many handles, many tasks
namespace {
	template<bool Eager>
	void many() {
		int n = h::bulk(), runs = 0, handled = 0;
		std::coroutine_handle<> slot{};
		auto make = [&](bool wait, bool fail) -> Handle<Eager> {
			return [](int* runs, int* handled, std::coroutine_handle<>* slot, bool fail, Tracked t) -> Handle<Eager> {
				co_await exception_policy::handle([handled] { ++*handled; });
				++*runs;
				if (slot) co_await h::manual{slot};
				t.check();
				if (fail) throw Err(1);
			}(&runs, &handled, wait ? &slot : nullptr, fail, Tracked(5));
		};
		{
			auto first = make(true, false);
			std::vector<Handle<Eager>> hs;
			for (int i = 0; i < n; i++)
				hs.push_back(vrt::flip() || hs.empty() ? first : hs.back());
			if constexpr (!Eager) {
				int starts = (int)vrt::range(1, (uint32_t)n);
				for (int i = 0; i < starts; i++) {
					hs.back().start();
					hs.pop_back();
				}
			}
			CHECK(runs == 1, "the body was run %d times", runs);
			bool before = vrt::flip();
			if (before) std::exchange(slot, {}).resume();
			while (!hs.empty()) {
				CHECK(h::g_tracked.live == 1, "the frame is gone with %zu handles left", hs.size() + 1);
				hs.pop_back();
			}
			CHECK(h::g_tracked.live == 1, "the frame is gone with a handle left");
			{
				auto last = std::move(first);
			}
			CHECK(h::g_tracked.live == (before ? 0 : 1), "the frame of a%s body is %s", before ? "n ended" : " suspended", before ? "still there" : "gone");
			if (!before) std::exchange(slot, {}).resume();
		}
		CHECK(h::g_tracked.live == 0 && runs == 1, "the frame is still there");
		runs = 0;
		int failing = 0;
		{
			std::vector<Handle<Eager>> hs;
			for (int i = 0; i < n; i++) {
				bool fail = vrt::flip();
				failing += fail;
				hs.push_back(make(false, fail));
			}
			if constexpr (!Eager) {
				CHECK(runs == 0, "a lazy task ran without being started");
				for (auto& x : hs)
					x.start();
			}
			CHECK(runs == n && handled == failing, "%d of %d bodies were run, %d of %d exceptions were handled", runs, n, handled, failing);
		}
		CHECK(h::g_tracked.live == 0, "%lld frames are still there", (long long)h::g_tracked.live);
		if (n > 20) vrt::nontrivial();
	}
}
SCENARIO(many_handles, 4, vrt::NO_TSAN) {
	if (vrt::flip())
		many<true>();
	else
		many<false>();
}
