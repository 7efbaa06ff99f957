// C17: launch, async_launch_scope
#include "../lib/vrt_shim.h"
#include <asyncpp/launch.h>
#include <asyncpp/task.h>
#include "../lib/helpers.h"
using asyncpp::async_launch_scope;
using asyncpp::task;
using h::MoveOnly;
using h::QueueDispatcher;
using h::Tracked;

namespace {
	enum SK { LOG, PARK, HOP, SPAWN, SPAWN_FREE, NESTED, ACT };
	struct Item;
	struct Step {
		SK k;
		int a = 0;
		std::vector<std::unique_ptr<Item>> items; // to launch
	};
	struct World;
	// One piece of work
	struct Item {
		int id = 0, how = 0;
		World* w = nullptr;
		async_launch_scope* scope = nullptr; // nullptr: free launch
		int scope_no = -1;
		std::vector<Step> steps;
		// observations
		int runs = 0, finished = 0, callable_alive = 0;
		bool launched = false;
		std::size_t at = 0;
		int64_t data = 0; // written without synchronisation at the end
		std::coroutine_handle<> slot{};
	};
	struct World {
		std::vector<std::unique_ptr<QueueDispatcher>>* workers = nullptr;
		std::deque<Item*> parked;
		std::vector<Item*> all;
		std::function<void(Item&, bool)> on_change; // launched / finished
		std::function<void(int)> act;
	};
	struct park {
		Item* i;
		bool await_ready() { return false; }
		void await_suspend(std::coroutine_handle<> hd) {
			i->slot = hd;
			h::quiet([&] { i->w->parked.push_back(i); });
		}
		void await_resume() {}
	};
	struct hop {
		QueueDispatcher* d;
		bool await_ready() { return false; }
		void await_suspend(std::coroutine_handle<> hd) {
			d->push([hd] { hd.resume(); });
		}
		void await_resume() {}
	};
	// Callable of which a live copy has to exist while the work runs
	struct Held {
		Item* i;
		Tracked c;
		explicit Held(Item* i) : i(i), c(i->id) { h::quiet([&] { i->callable_alive++; }); }
		Held(const Held& o) : i(o.i), c(o.c) { h::quiet([&] { i->callable_alive++; }); }
		Held(Held&& o) : i(o.i), c(o.c) { h::quiet([&] { i->callable_alive++; }); }
		~Held() {
			h::quiet([&] { i->callable_alive--; });
		}
	};
	void launch_item(Item& i);
	task<void> work(Item* i);

	task<void> nested(Item* i, Step* s) {
		async_launch_scope local;
		for (auto& x : s->items) {
			x->scope = &local;
			launch_item(*x);
		}
		co_await local.join();
		h::quiet([&] {
			for (auto& x : s->items)
				CHECK(x->finished == 1, "the nested join returned before item %d was done", x->id);
			CHECK(local.all_done() && local.inflight_coroutines() == 0, "after join %zu items are in flight", local.inflight_coroutines());
		});
		for (auto& x : s->items)
			CHECK(x->data == x->id, "effects of item %d are missing", x->id);
	}
	struct Body {
		Item* i;
		void begin() {
			h::quiet([&] {
				CHECK(++i->runs == 1, "item %d was run %d times", i->id, i->runs);
			});
		}
	};
	task<void> steps(Item* i) {
		for (auto& s : i->steps) {
			i->at++;
			switch (s.k) {
			case LOG: break;
			case PARK: co_await park{i}; break;
			case HOP: co_await hop{(*i->w->workers)[s.a].get()}; break;
			case SPAWN:
			case SPAWN_FREE:
				for (auto& x : s.items) {
					x->scope = s.k == SPAWN ? i->scope : nullptr;
					x->scope_no = s.k == SPAWN ? i->scope_no : -1;
					launch_item(*x);
				}
				break;
			case NESTED: co_await nested(i, &s); break;
			case ACT: i->w->act(s.a); break;
			}
		}
	}
	void end(Item* i) {
		CHECK(i->at == i->steps.size());
		i->data = i->id;
		h::quiet([&] {
			CHECK(++i->finished == 1);
			if (i->w->on_change) i->w->on_change(*i, false);
		});
	}
	task<void> work(Item* i) {
		Tracked local(i->id);
		Body{i}.begin();
		co_await steps(i);
		end(i);
	}
	// An awaitable object with members; has to stay in place and alive while awaited
	struct Custom {
		Held held;
		Custom* self = nullptr;
		Custom(Item* i) : held(i) {}
		Custom(Custom&& o) : held(std::move(o.held)) {}
		struct Aw {
			Custom* c;
			task<void> t;
			decltype(t.operator co_await()) a;
			Aw(Custom* c) : c(c), t(run(c)), a(t.operator co_await()) {}
			Aw(const Aw&) = delete;
			bool await_ready() { return a.await_ready(); }
			auto await_suspend(std::coroutine_handle<> h) { return a.await_suspend(h); }
			void await_resume() { a.await_resume(); }
		};
		static task<void> run(Custom* c) {
			c->self = c;
			Item* i = c->held.i;
			Body{i}.begin();
			co_await steps(i);
			c->held.c.check();
			CHECK(c->self == c, "the awaitable was moved while it was awaited");
			end(i);
		}
		Aw operator co_await() & { return Aw(this); }
		Aw operator co_await() && { return Aw(this); }
	};
	// Callables
	struct Fn {
		Held held;
		task<void> operator()() {
			held.c.check();
			Body{held.i}.begin();
			co_await steps(held.i);
			held.c.check();
			CHECK(held.i->callable_alive >= 1);
			end(held.i);
		}
	};
	struct FnConst {
		Held held;
		task<void> operator()(int a, const std::string& s, MoveOnly m) const {
			// the string is a temporary of the launching expression, only usable now
			CHECK(a == 5 && m.get() == 6, "wrong arguments");
			CHECK(s == "seven", "wrong arguments");
			return [](const FnConst* self, MoveOnly m) -> task<void> {
				self->held.c.check();
				Body{self->held.i}.begin();
				co_await steps(self->held.i);
				self->held.c.check();
				CHECK(m.get() == 6);
				end(self->held.i);
			}(this, std::move(m));
		}
	};
	struct FnRef {
		Held held;
		task<void> operator()(int& out, Tracked by_value) {
			held.c.check();
			Body{held.i}.begin();
			out++;
			co_await steps(held.i);
			CHECK(by_value.get() == held.i->id, "wrong argument");
			held.c.check();
			end(held.i);
		}
	};
	// not copyable: has to be moved into the task
	struct FnMove {
		Held held;
		MoveOnly m{8};
		explicit FnMove(Item* i) : held(i) {}
		FnMove(FnMove&&) = default;
		task<void> operator()() {
			held.c.check();
			Body{held.i}.begin();
			co_await steps(held.i);
			held.c.check();
			CHECK(m.get() == 8, "the callable changed while it was running");
			CHECK(held.i->callable_alive >= 1);
			end(held.i);
		}
	};
	// can be awaited only as an rvalue
	struct CustomRv : private Custom {
		using Custom::Custom;
		Aw operator co_await() && { return Aw(this); }
	};
	task<void> plain_function(Item* i, Tracked t) {
		Body{i}.begin();
		co_await steps(i);
		CHECK(t.get() == i->id);
		end(i);
	}

	constexpr int HOW = 13, HOW_FREE = 4;
	bool launch_throws(Item& i, std::function<void()> f) {
		f();
		return false;
	}
	void launch_item(Item& i) {
		h::quiet([&] {
			CHECK(!i.launched);
			i.launched = true;
			if (i.w->on_change) i.w->on_change(i, true);
		});
		Item* p = &i;
		if (!i.scope) {
			switch (i.how % HOW_FREE) {
			case 0: asyncpp::launch(work(p)); break;
			case 1: asyncpp::launch(Custom(p)); break;
			case 2: asyncpp::launch(CustomRv(p)); break;
			default: {
				auto t = work(p);
				asyncpp::launch(std::move(t));
				CHECK(!t);
			}
			}
			return;
		}
		auto& s = *i.scope;
		switch (i.how) {
		case 0: s.launch(work(p)); break;
		case 1: s.launch(Custom(p)); break;
		case 2: s.invoke(Fn{Held(p)}); break;
		case 3: {
			Fn f{Held(p)};
			s.invoke(f); // copied into the task
			break;
		}
		case 4: {
			const FnConst f{Held(p)};
			s.invoke(f, 5, std::string("seven"), MoveOnly(6));
			break;
		}
		case 5: {
			FnRef f{Held(p)};
			int out = 0;
			s.invoke(f, out, Tracked(p->id));
			CHECK(out == 1, "an argument passed by reference was not changed");
			break;
		}
		case 6: s.invoke(&plain_function, p, Tracked(p->id)); break;
		case 7: s.invoke_tuple(Fn{Held(p)}, std::tuple<>()); break;
		case 8: {
			FnConst f{Held(p)};
			s.invoke_tuple(f, std::tuple<int, std::string, MoveOnly>(5, "seven", MoveOnly(6)));
			break;
		}
		case 9: {
			int out = 0;
			s.invoke_tuple(FnRef{Held(p)}, std::tuple<int&, Tracked>(out, Tracked(p->id)));
			CHECK(out == 1, "an argument passed by reference was not changed");
			break;
		}
		case 10: s.invoke(FnMove(p)); break;
		case 11: s.invoke_tuple(FnMove(p), std::tuple<>()); break;
		default: {
			auto t = work(p);
			s.launch(std::move(t));
			CHECK(!t);
		}
		}
	}

	struct Gen {
		World* w;
		int budget, workers;
		bool parks, acts;
		std::vector<std::unique_ptr<Item>> keep; // top level items
		std::unique_ptr<Item> item(int depth) {
			auto i = std::make_unique<Item>();
			i->w = w;
			i->id = (int)w->all.size() + 1;
			i->how = vrt::choose(HOW);
			w->all.push_back(i.get());
			int n = vrt::size(0, 4);
			for (int k = 0; k < n; k++) {
				int x[] = {1, parks ? 5 : 0, workers ? 6 : 0, depth < 3 && budget > 0 ? 3 : 0, depth < 3 && budget > 0 ? 1 : 0,
						   depth < 2 && budget > 0 ? 2 : 0, acts ? 2 : 0};
				int c = vrt::choose(std::accumulate(std::begin(x), std::end(x), 0)), o = 0;
				while (c >= x[o])
					c -= x[o++];
				Step s{(SK)o};
				if (o == HOP) s.a = vrt::choose(workers);
				if (o == ACT) s.a = vrt::choose(100);
				if (o == SPAWN || o == SPAWN_FREE || o == NESTED) {
					int m = vrt::range(o == NESTED ? 0 : 1, 2);
					for (int q = 0; q < m; q++) {
						budget--;
						s.items.push_back(item(depth + 1));
					}
				}
				i->steps.push_back(std::move(s));
			}
			return i;
		}
	};
	void dump(const Item& i, int d = 0) {
		static const char* nm[] = {"log", "park", "hop", "spawn in scope", "launch free", "nested scope", "act"};
		vrt::note("%*sitem %d (how %d)", d * 2, "", i.id, i.how);
		for (auto& s : i.steps) {
			vrt::note("%*s  %s %d", d * 2, "", nm[s.k], s.a);
			for (auto& x : s.items)
				dump(*x, d + 2);
		}
	}

	// ------------------------------------------------------------ histories on one thread
	struct Seq {
		struct Scope {
			std::unique_ptr<async_launch_scope> s;
			int inflight = 0;
			int joining = 0; // pending joins
			int serial = 0;
			int pending_future = 0;
		};
		static constexpr int N = 2;
		World w;
		Scope sc[N];
		std::vector<std::unique_ptr<Item>> items;
		Gen g;
		int budget = 22, depth = 0, joins = 0, joined = 0, spawned = 0, suspended_joins = 0, dup = 0;
		struct Fut {
			int first;
			bool pending;
			std::future<void> second;
		};
		std::vector<Fut> futures;

		Seq() : g{&w, 10, 0, true, true, {}} {
			for (auto& s : sc)
				s.s = std::make_unique<async_launch_scope>();
			w.on_change = [this](Item& i, bool l) {
				spawned += l;
				if (i.scope_no >= 0) {
					auto& s = sc[i.scope_no];
					s.inflight += l ? 1 : -1;
					vrt::note("item %d %s, %d in flight in scope %d", i.id, l ? "launched" : "done", s.inflight, i.scope_no);
					if (!l) settle();
				}
			};
			w.act = [this](int) {
				depth++;
				if (budget > 0 && depth < 4) op();
				depth--;
			};
		}
		// between the end of an item's last step and the return from it the count still includes it
		void check() {
			if (depth) return;
			for (int k = 0; k < N; k++) {
				auto& s = sc[k];
				if (!s.s) continue;
				CHECK((int)s.s->inflight_coroutines() == s.inflight, "scope %d reports %zu items in flight instead of %d", k,
					  s.s->inflight_coroutines(), s.inflight);
				CHECK(s.s->all_done() == (s.inflight == 0));
				if (s.inflight == 0) CHECK(s.joining == 0 && s.pending_future == 0, "the join of scope %d is still waiting although all is done", k);
			}
			for (auto i : w.all)
				if (i->launched) {
					CHECK(i->runs == 1, "item %d was run %d times", i->id, i->runs);
					bool held = i->scope && i->how >= 1 && i->how <= 11 && i->how != 6;
					if (!i->scope) held = i->how % HOW_FREE == 1 || i->how % HOW_FREE == 2;
					if (held && !i->finished) CHECK(i->callable_alive == 1, "%d instances of the callable of item %d exist while it runs", i->callable_alive, i->id);
					if (i->finished) CHECK(i->callable_alive == 0, "%d instances of the callable of item %d exist after it", i->callable_alive, i->id);
				}
			for (auto& f : futures)
				if (f.second.valid()) {
					auto st = f.second.wait_for(std::chrono::seconds(0));
					bool want = !f.pending;
					CHECK((st == std::future_status::ready) == want, "join_future of scope %d is %sready", f.first, want ? "not " : "");
					if (want) f.second.get(), f.second = {};
				}
		}
		h::co joiner(int k, int then) {
			auto& s = sc[k];
			bool must_wait = depth == 0 && s.inflight > 0;
			bool duplicate = s.joining > 0 || s.pending_future > 0;
			s.joining += !duplicate;
			joins++;
			vrt::note("join scope %d (%d in flight)%s", k, s.inflight, duplicate ? ", a duplicate" : "");
			bool threw = false, waited = false, returned = false;
			try {
				auto a = s.s->join();
				co_await a;
			} catch (const std::logic_error&) { threw = true; }
			if (duplicate) {
				// either reports the duplicate or there was nothing to wait for
				dup++;
				CHECK(threw || s.inflight == 0, "a second concurrent join returned without waiting");
				co_return;
			}
			CHECK(!threw, "join failed");
			(void)must_wait, (void)waited, (void)returned;
			s.joining--;
			joined++;
			vrt::note("joined scope %d", k);
			CHECK(s.inflight == 0, "join of scope %d returned with %d items in flight", k, s.inflight);
			CHECK(s.s->all_done() && s.s->inflight_coroutines() == 0, "join returned but the scope reports %zu items", s.s->inflight_coroutines());
			for (auto i : w.all)
				if (i->scope_no == k && i->launched && i->scope == s.s.get()) CHECK(i->finished == 1, "join returned before item %d was done", i->id);
			if (then == 1) {
				vrt::note("new scope %d", k);
				for (auto i : w.all)
					if (i->scope_no == k && i->scope == s.s.get()) i->scope = nullptr, i->scope_no = -2;
				s.s.reset();
				s.s = std::make_unique<async_launch_scope>();
			} else if (then == 2 && budget > 0) {
				depth++;
				op();
				depth--;
			}
		}
		void op() {
			budget--;
			int k = vrt::choose(N);
			switch (vrt::choose(12)) {
			case 0:
			case 1:
			case 2:
			case 3: {
				if (g.budget <= 0) break;
				g.budget--;
				auto i = g.item(0);
				i->scope_no = vrt::chance(1, 6) ? -1 : k;
				i->scope = i->scope_no >= 0 ? sc[k].s.get() : nullptr;
				dump(*i);
				items.push_back(std::move(i));
				auto& x = *items.back();
				launch_item(x);
				break;
			}
			case 4:
			case 5: {
				bool pending = sc[k].inflight > 0;
				joiner(k, vrt::choose(3));
				if (pending && sc[k].joining) suspended_joins++;
				break;
			}
			case 6:
				if (sc[k].joining || sc[k].pending_future) break;
				vrt::note("join_future of scope %d", k);
				// depth > 0: the item that acts is itself in flight
				if (sc[k].inflight) sc[k].pending_future = 1;
				futures.push_back({k, sc[k].inflight > 0, sc[k].s->join_future()});
				break;
			default:
				if (w.parked.empty()) break;
				{
					auto it = w.parked.begin() + vrt::choose(w.parked.size());
					Item* i = *it;
					w.parked.erase(it);
					vrt::note("resume item %d", i->id);
					std::exchange(i->slot, {}).resume();
				}
			}
			settle();
			check();
		}
		// a pending join_future becomes ready the moment nothing is in flight
		void settle() {
			for (auto& s : sc)
				if (!s.inflight) {
					s.pending_future = 0;
					for (auto& f : futures)
						if (f.first == &s - sc) f.pending = false;
				}
		}
		void run() {
			while (budget > 0)
				op();
			int guard = 0;
			while (!w.parked.empty()) {
				CHECK(++guard < 10000);
				Item* i = w.parked.front();
				w.parked.pop_front();
				std::exchange(i->slot, {}).resume();
				settle();
				check();
			}
			for (auto& s : sc)
				CHECK(!s.joining && !s.inflight);
			for (auto i : w.all)
				if (i->launched) CHECK(i->finished == 1, "item %d never finished", i->id);
			if (suspended_joins && spawned >= 2) vrt::nontrivial();
			if (dup) vrt::label("duplicate join");
		}
	};

	// ------------------------------------------------------------ concurrency
	// The whole work is launched before or by other work; the scope is destroyed right after join.
	h::co join_and_destroy(std::unique_ptr<async_launch_scope>* s, World* w, std::vector<std::unique_ptr<Item>>* items, bool* done, QueueDispatcher* from,
						   bool* suspended) {
		if (from) co_await hop{from};
		*suspended = h::quiet([&] {
			for (auto i : w->all)
				if (i->launched && !i->finished) return true;
			return false;
		});
		co_await (*s)->join();
		s->reset();
		h::quiet([&] {
			for (auto i : w->all)
				if (i->launched && i->scope_no == 0) CHECK(i->finished == 1, "join returned before item %d was done", i->id);
		});
		for (auto i : w->all)
			if (h::quiet([&] { return i->launched && i->scope_no == 0; })) CHECK(i->data == i->id, "effects of item %d are missing", i->id);
		*done = true;
	}
	void destroy_after_join() {
		int nw = vrt::range(1, 3);
		std::vector<std::unique_ptr<QueueDispatcher>> ws;
		for (int i = 0; i < nw; i++) {
			ws.push_back(std::make_unique<QueueDispatcher>(i));
			ws.back()->start();
		}
		World w;
		w.workers = &ws;
		Gen g{&w, 5, nw, false, false, {}};
		auto s = std::make_unique<async_launch_scope>();
		std::vector<std::unique_ptr<Item>> items;
		int n = vrt::range(1, 3);
		for (int i = 0; i < n; i++) {
			items.push_back(g.item(0));
			items.back()->scope = s.get();
			items.back()->scope_no = 0;
			dump(*items.back());
		}
		// launched on this thread or by a worker while others run already; an anchor item keeps the scope busy
		bool on_worker = vrt::flip();
		for (auto& i : items)
			launch_item(*i);
		bool done = false, suspended = false;
		join_and_destroy(&s, &w, &items, &done, on_worker ? ws[vrt::choose(nw)].get() : nullptr, &suspended);
		vrt::wait_idle();
		for (auto& x : ws)
			x->stop();
		CHECK(done, "join never returned");
		for (auto i : w.all)
			CHECK(!i->launched || i->finished == 1, "item %d never finished", i->id);
		if (suspended) vrt::nontrivial();
	}

	// Launches from several threads compete with joins; the scope stays.
	struct Conc {
		async_launch_scope s;
		World w;
		int definite = 0, launching = 0, finishing = 0;
		bool zero = false;
		std::vector<Item*> in_call;
		void hit() {
			if (definite == 0) zero = true;
		}
	};
	h::co join_phase(Conc* c, bool* returned, bool* waited) {
		h::quiet([&] {
			c->zero = c->definite == 0;
			*waited = c->definite > 0;
		});
		co_await c->s.join();
		h::quiet([&] {
			CHECK(c->zero, "join returned although some item was in flight all the time");
			*returned = true;
		});
	}
	void competing() {
		int nw = vrt::range(1, 2), nt = vrt::range(1, 3), phases = vrt::range(1, 3);
		std::vector<std::unique_ptr<QueueDispatcher>> ws;
		for (int i = 0; i < nw; i++) {
			ws.push_back(std::make_unique<QueueDispatcher>(i));
			ws.back()->start();
		}
		bool any_waited = false;
		{
			Conc c;
			c.w.workers = &ws;
			c.w.on_change = [&](Item& i, bool l) {
				if (i.scope_no != 0) return;
				if (!l && i.at == i.steps.size() && i.runs && i.launched && i.data == i.id) {
					// counted as in flight from the return of launch to here
					auto it = std::find(c.in_call.begin(), c.in_call.end(), &i);
					if (it == c.in_call.end()) {
						c.definite--;
						c.hit();
					}
				} else if (l)
					c.in_call.push_back(&i);
			};
			std::vector<std::unique_ptr<Item>> items;
			for (int ph = 0; ph < phases; ph++) {
				Gen g{&c.w, 2, nw, false, false, {}};
				std::vector<std::vector<Item*>> plan(nt);
				for (auto& p : plan) {
					int m = vrt::range(0, 2);
					for (int k = 0; k < m; k++) {
						items.push_back(g.item(2));
						auto& x = *items.back();
						x.scope = &c.s;
						x.scope_no = 0;
						dump(x);
						p.push_back(&x);
					}
				}
				std::vector<std::vthread> ts;
				for (auto& p : plan)
					ts.emplace_back([&] {
						for (auto i : p) {
							launch_item(*i);
							h::quiet([&] {
								c.in_call.erase(std::find(c.in_call.begin(), c.in_call.end(), i));
								if (!i->finished) c.definite++;
							});
						}
					});
				bool returned = false, waited = false;
				join_phase(&c, &returned, &waited);
				h::join_all(ts);
				vrt::wait_idle();
				CHECK(h::quiet([&] { return returned; }), "the scope is idle but join did not return");
				CHECK(c.s.all_done() && c.s.inflight_coroutines() == 0, "%zu items in flight at the end", c.s.inflight_coroutines());
				any_waited |= waited;
			}
			for (auto& x : ws)
				x->stop();
			for (auto i : c.w.all)
				CHECK(!i->launched || i->finished == 1, "item %d never finished", i->id);
		}
		if (any_waited) vrt::nontrivial();
	}

	// ------------------------------------------------------------ failing launches
	struct Refuses {
		int n;
		Refuses(int n) : n(n) {}
		Refuses(const Refuses& o) : n(o.n) { throw h::copy_error(); }
		bool await_ready() const { return true; }
		void await_suspend(std::coroutine_handle<>) const {}
		void await_resume() const {}
		Refuses operator()() const { return Refuses(1); }
	};
	void failing() {
		async_launch_scope s;
		World w;
		Item i;
		i.w = &w;
		i.id = 1;
		bool busy = vrt::flip();
		std::coroutine_handle<> slot{};
		if (busy) {
			s.launch([](std::coroutine_handle<>* s) -> task<void> { co_await h::manual{s}; }(&slot));
			vrt::nontrivial();
		}
		int how = vrt::choose(4);
		bool threw = false;
		try {
			Refuses r(1);
			switch (how) {
			case 0: s.launch(r); break;
			case 1: s.invoke(r); break;
			case 2: s.invoke_tuple(r, std::tuple<>()); break;
			default: {
				auto t = work(&i);
				vrt::fail_alloc_after(1);
				try {
					s.launch(std::move(t));
				} catch (...) {
					vrt::fail_alloc_after(0);
					throw;
				}
				vrt::fail_alloc_after(0);
			}
			}
		} catch (const h::copy_error&) { threw = true; } catch (const std::bad_alloc&) {
			threw = true;
		}
		vrt::fail_alloc_after(0);
		vrt::note("how=%d busy=%d threw=%d", how, busy, threw);
		std::size_t want = busy ? 1 : 0;
		if (threw) CHECK(s.inflight_coroutines() == want, "a failed launch left %zu items in flight", s.inflight_coroutines());
		if (threw) CHECK(i.runs == 0, "a failed launch ran its work");
		bool joined = false;
		[](async_launch_scope& s, bool& j) -> h::co {
			co_await s.join();
			j = true;
		}(s, joined);
		CHECK(joined == !busy, "join %s", joined ? "did not wait" : "waits for nothing");
		if (busy) slot.resume();
		CHECK(joined, "join did not return");
		CHECK(s.all_done());
	}
} // namespace

SCENARIO(histories, 1500, vrt::NO_TSAN) { Seq().run(); }
SCENARIO(scope_destroyed_after_join, 2000) { destroy_after_join(); }
SCENARIO(launch_and_join_compete, 1000) { competing(); }
SCENARIO(failing_launches, 50, vrt::NO_TSAN) { failing(); }
// Many items at once
SCENARIO(many_items, 4, vrt::NO_TSAN) {
	int n = h::bulk(), phases = n > 5000 ? 1 : (int)vrt::range(1, 3);
	async_launch_scope s;
	for (int p = 0; p < phases; p++) {
		std::vector<std::coroutine_handle<>> slots((std::size_t)n);
		int finished = 0, inline_done = 0;
		bool joined = false;
		int join_at = (int)vrt::choose((uint32_t)n); // join while some are in flight already
		int open = 0;
		std::future<void> fut;
		bool by_future = vrt::flip();
		auto join = [&] {
			if (by_future)
				fut = s.join_future();
			else
				[](async_launch_scope& s, bool& j) -> h::co {
					co_await s.join();
					j = true;
				}(s, joined);
		};
		auto is_joined = [&] { return by_future ? fut.valid() && fut.wait_for(std::chrono::seconds(0)) == std::future_status::ready : joined; };
		for (int i = 0; i < n; i++) {
			bool wait = i == 0 || vrt::chance(7, 8);
			auto body = [](std::coroutine_handle<>* slot, int* done, bool wait, Tracked t) -> task<void> {
				if (wait) co_await h::manual{slot};
				t.check();
				++*done;
			};
			if (vrt::flip())
				s.launch(body(&slots[i], &finished, wait, Tracked(i)));
			else
				s.invoke(body, &slots[i], &finished, wait, Tracked(i));
			open += wait;
			inline_done += !wait;
			if (i == join_at) join();
			CHECK((int)s.inflight_coroutines() == open && !s.all_done(), "%zu items in flight instead of %d", s.inflight_coroutines(), open);
		}
		CHECK(finished == inline_done, "%d items finished", finished);
		for (int i = n; i > 1; i--)
			std::swap(slots[i - 1], slots[i - 1 - (int)vrt::choose((uint32_t)std::min(i, 50))]);
		for (auto& h : slots) {
			if (!h) continue;
			CHECK(!is_joined(), "join returned with %d items in flight", open);
			open--;
			std::exchange(h, {}).resume();
			CHECK((int)s.inflight_coroutines() == open && s.all_done() == (open == 0), "%zu items in flight instead of %d", s.inflight_coroutines(), open);
		}
		CHECK(is_joined(), "join did not return");
		if (by_future) fut.get();
		CHECK(finished == n, "%d of %d items finished", finished, n);
	}
	if (n > 20) vrt::nontrivial();
}
