// Shared by C01 (manual-reset) and C02 (auto-reset).
#pragma once
#include "../lib/vrt_shim.h"
#include <asyncpp/event.h>
#include "../lib/helpers.h"
#include "../lib/linear.h"

namespace ev {
	using asyncpp::dispatcher;
	using h::QueueDispatcher;

	template<typename E>
	struct traits;
	template<>
	struct traits<asyncpp::single_consumer_event> {
		static constexpr bool multi = false, autoreset = false;
		static constexpr const char* name = "single_consumer_event";
	};
	template<>
	struct traits<asyncpp::single_consumer_auto_reset_event> {
		static constexpr bool multi = false, autoreset = true;
		static constexpr const char* name = "single_consumer_auto_reset_event";
	};
	template<>
	struct traits<asyncpp::multi_consumer_event> {
		static constexpr bool multi = true, autoreset = false;
		static constexpr const char* name = "multi_consumer_event";
	};
	template<>
	struct traits<asyncpp::multi_consumer_auto_reset_event> {
		static constexpr bool multi = true, autoreset = true;
		static constexpr const char* name = "multi_consumer_auto_reset_event";
	};

	// ================================================================ sequential, exact model
	template<typename E>
	struct Seq {
		using T = traits<E>;
		struct Waiter {
			int id;
			QueueDispatcher* disp = nullptr; // as requested
			bool waiting = false, released = false, inline_expected = false;
			QueueDispatcher* dest = nullptr;
			uint64_t wait_seq = 0;
			int batch = -1;
			int rounds = 0, completed = 0;
			bool in_await = false;
		};
		E* e;
		bool set_state = false;
		std::vector<Waiter*> stack; // waiting, oldest first
		std::vector<std::unique_ptr<Waiter>> all;
		QueueDispatcher d[2] = {QueueDispatcher(1), QueueDispatcher(2)};
		uint64_t seq = 0;
		int batches = 0, depth = 0;
		struct Batch {
			bool inline_active = false;
			std::map<QueueDispatcher*, uint64_t> last; // last wait_seq resumed per destination
			std::vector<Waiter*> members;
		};
		std::vector<Batch> batch;
		std::vector<int> set_stack;
		int suspended_total = 0, immediate_total = 0;
		int budget = 0; // remaining nested operations

		QueueDispatcher* pick_disp() {
			uint32_t k = vrt::choose(3);
			return k == 0 ? nullptr : &d[k - 1];
		}

		void check_state(const char* when) {
			CHECK(e->is_set() == set_state, "%s: is_set() is %d, expected %d", when, e->is_set(), set_state);
			CHECK(e->is_awaited() == !stack.empty(), "%s: is_awaited() is %d with %zu waiting", when, e->is_awaited(),
				  stack.size());
		}

		void do_set() {
			auto* sd = pick_disp();
			int b = batches++;
			batch.emplace_back();
			bool expect = !stack.empty();
			for (auto* w : stack) {
				w->waiting = false;
				w->released = true;
				w->batch = b;
				w->dest = w->disp ? w->disp : sd;
				batch[b].members.push_back(w);
			}
			if (expect)
				set_state = T::autoreset ? false : true;
			else
				set_state = true;
			if (expect && stack.size() > 1) vrt::label("set releases several");
			stack.clear();
			vrt::note("set(%s) expects %d", sd ? (sd == &d[0] ? "d1" : "d2") : "null", expect);
			set_stack.push_back(b);
			bool r = e->set(sd);
			set_stack.pop_back();
			CHECK(r == expect, "set() returned %d, %s waiting", r, expect ? "a coroutine was" : "no coroutine was");
			for (auto* w : batch[b].members)
				if (w->batch == b && w->released && w->dest == nullptr)
					vrt::fail("set() returned but a coroutine to be resumed inline was not");
			check_state("after set");
		}
		void do_reset() {
			vrt::note("reset");
			set_state = false;
			e->reset();
			check_state("after reset");
		}
		static h::co run_waiter(Seq* s, Waiter* w) {
			for (;;) {
				bool via_op = vrt::flip();
				QueueDispatcher* dsp;
				if (via_op) {
					auto* c = dispatcher::current();
					dsp = static_cast<QueueDispatcher*>(c);
				} else
					dsp = s->pick_disp();
				bool ready = s->set_state;
				vrt::note("w%d awaits (%s, %s), expected to %s", w->id, via_op ? "co_await" : "wait",
						  dsp ? (dsp == &s->d[0] ? "d1" : "d2") : "null", ready ? "continue" : "suspend");
				if (ready) {
					if (T::autoreset) s->set_state = false;
					s->immediate_total++;
				} else {
					w->disp = dsp;
					w->waiting = true;
					w->released = false;
					w->wait_seq = ++s->seq;
					s->stack.push_back(w);
					s->suspended_total++;
				}
				auto* before = dispatcher::current();
				w->in_await = true;
				if (via_op)
					co_await *s->e;
				else
					co_await s->e->wait(dsp);
				CHECK(w->in_await, "coroutine resumed without awaiting");
				w->in_await = false;
				if (ready) {
					CHECK(dispatcher::current() == before, "await on a set event switched dispatcher");
				} else {
					CHECK(!w->waiting && w->released, "w%d continued without a set()", w->id);
					auto& b = s->batch[w->batch];
					CHECK(static_cast<QueueDispatcher*>(dispatcher::current()) == w->dest || w->dest == nullptr,
						  "resumed on the wrong dispatcher");
					if (w->dest == nullptr) {
						bool inside = false;
						for (int k : s->set_stack)
							if (k == w->batch) inside = true;
						CHECK(inside, "expected to be resumed inside of set()");
					} else
						CHECK(dispatcher::current() != nullptr, "expected to be resumed on a dispatcher");
					if constexpr (T::multi) {
						auto it = b.last.find(w->dest);
						if (it != b.last.end())
							CHECK(it->second > w->wait_seq, "waiters were not resumed in LIFO order");
						b.last[w->dest] = w->wait_seq;
					}
					w->released = false;
				}
				w->completed++;
				vrt::note("w%d continues", w->id);
				// nested operations
				while (s->budget > 0 && vrt::chance(1, 3)) {
					s->budget--;
					vrt::label("nested op");
					s->op(true);
				}
				if (w->rounds-- <= 0) break;
			}
			w->in_await = false;
			vrt::note("w%d done", w->id);
		}
		void start(int rounds) {
			auto w = std::make_unique<Waiter>();
			w->id = (int)all.size();
			w->rounds = rounds;
			auto* p = w.get();
			all.push_back(std::move(w));
			depth++;
			if (vrt::chance(1, 3)) {
				auto& q = d[vrt::choose(2)];
				q.push([this, p] { run_waiter(this, p); });
			} else
				run_waiter(this, p);
			depth--;
		}
		void op(bool nested) {
			switch (vrt::choose(6)) {
			case 0:
			case 1: do_set(); break;
			case 2: {
				if (!T::multi && !stack.empty()) {
					do_set();
					break;
				}
				if (!T::multi) {
					// at most one coroutine may use it: only start if nobody is going to await again
					for (auto& w : all)
						if (w->in_await || w->rounds >= 0) return;
				}
				if (all.size() >= 8 || (nested && depth > 3)) return;
				start((int)vrt::size(0, 3));
				break;
			}
			case 3: do_reset(); break;
			case 4:
				if (nested) {
					check_state("query");
					break;
				}
				d[vrt::choose(2)].run_one();
				break;
			case 5: check_state("query"); break;
			}
		}
		static void run() {
			{
				bool init = vrt::flip();
				Seq s;
				E e = init ? E(true) : E();
				s.e = &e;
				s.set_state = init;
				s.budget = 12;
				s.check_state("initially");
				uint32_t n = vrt::range(1, 24);
				for (uint32_t i = 0; i < n; i++)
					s.op(false);
				// let everything finish
				for (int guard = 0; guard < 400; guard++) {
					s.d[0].drain();
					s.d[1].drain();
					bool open = false;
					for (auto& w : s.all)
						if (w->rounds >= 0) open = true;
					if (!open) break;
					s.do_set();
				}
				if (s.suspended_total >= 1 && s.all.size() >= 1 && s.batches >= 1) vrt::nontrivial();
				if (s.suspended_total) vrt::label("suspended");
				if (s.immediate_total) vrt::label("immediate");
			}
		}
		// many waiters at once
		static void run_bulk() {
			static_assert(T::multi);
			Seq s;
			E e;
			s.e = &e;
			int n = h::bulk(), phases = n > 5000 ? 1 : (int)vrt::range(1, 3), again = (int)vrt::choose(2);
			for (int p = 0; p < phases; p++) {
				for (int i = 0; i < n; i++)
					s.start(again);
				s.d[0].drain();
				s.d[1].drain();
				s.check_state("with many waiters");
				s.do_set();
				s.d[0].drain();
				s.d[1].drain();
				s.do_reset();
			}
			for (int guard = 0; guard < 4; guard++) {
				s.do_set();
				s.d[0].drain();
				s.d[1].drain();
			}
			for (auto& w : s.all)
				CHECK(w->rounds < 0, "w%d was not resumed", w->id);
			if (s.suspended_total >= n) vrt::nontrivial();
		}
	};

	// ================================================================ visibility through the query
	template<typename E>
	void polled() {
		E e;
		int data[2] = {};
		bool seen = false;
		std::vector<std::vthread> ts;
		int np = (int)vrt::range(1, 2), tries = (int)vrt::range(1, 6), resets = (int)vrt::choose(2);
		ts.emplace_back([&] {
			data[0] = 42;
			e.set();
			if (resets) e.reset();
		});
		for (int i = 0; i < np; i++)
			ts.emplace_back([&] {
				for (int k = 0; k < tries; k++)
					if (e.is_set()) {
						CHECK(data[0] == 42, "is_set is true, but what was written before set() is not visible");
						h::quiet([&] { seen = true; });
						break;
					} else
						std::this_thread::yield();
			});
		h::join_all(ts);
		CHECK(e.is_set() == !resets);
		if (seen) vrt::nontrivial();
	}

	// ================================================================ destroyed by whoever was released
	template<typename E>
	struct Owned {
		E* e;
		std::atomic<int> left{0};
		int data = 0, deleted = 0;
		int suspended = 0, setting = 0;
	};
	template<typename E>
	h::co owned_waiter(Owned<E>* o, QueueDispatcher* d) {
		int me = h::quiet([] { return vrt::self(); });
		bool in_set = h::quiet([&] { return o->setting > 0; });
		if (d == nullptr && vrt::flip())
			co_await *o->e;
		else
			co_await o->e->wait(d);
		CHECK(o->data == 42, "what was written before set() is not visible to the released coroutine");
		h::quiet([&] {
			if (vrt::self() != me || (o->setting > 0 && !in_set)) o->suspended++;
		});
		// whoever is the last to get here is done with the event, nobody else has anything left to do with it
		if (o->left.fetch_sub(1) == 1) {
			o->deleted++;
			delete o->e;
		}
	}
	template<typename E>
	void owned() {
		Owned<E> o;
		o.e = new E();
		int n = traits<E>::multi && !traits<E>::autoreset ? (int)vrt::range(1, 4) : 1;
		o.left.store(n);
		int nd = (int)vrt::choose(3);
		std::vector<std::unique_ptr<QueueDispatcher>> ds;
		for (int i = 0; i < nd; i++)
			ds.push_back(std::make_unique<QueueDispatcher>(i));
		auto pick = [&]() -> QueueDispatcher* {
			uint32_t k = vrt::choose((uint32_t)nd + 1);
			return k == 0 ? nullptr : ds[k - 1].get();
		};
		for (auto& d : ds)
			d->start();
		auto* sd = pick();
		int early = (int)vrt::choose((uint32_t)n + 1); // waiting before any other thread exists
		for (int i = 0; i < early; i++)
			owned_waiter<E>(&o, pick());
		std::vector<std::vthread> ts;
		for (int i = early; i < n; i++)
			ts.emplace_back([&o, d = pick()] { owned_waiter<E>(&o, d); });
		ts.emplace_back([&o, sd] {
			o.data = 42;
			h::quiet([&] { o.setting++; });
			o.e->set(sd);
			h::quiet([&] { o.setting--; });
		});
		h::join_all(ts);
		vrt::wait_idle();
		for (auto& d : ds)
			d->stop();
		CHECK(o.left.load() == 0 && o.deleted == 1, "%d waiter(s) not released", o.left.load());
		if (o.suspended) vrt::nontrivial();
	}

	// ================================================================ concurrent
	enum Kind { SET, RESET, ISSET, ISAWAITED, AWAIT, COMPLETE };
	struct Op {
		Kind k;
		int w = -1;      // waiter slot (AWAIT/COMPLETE) or set id
		bool res = false;
	};
	template<typename E>
	struct Model {
		using T = traits<E>;
		bool set = false;
		uint32_t waiting = 0, released = 0; // per await slot
		bool final_ok() const { return true; }
		std::string key() const {
			char b[64];
			snprintf(b, sizeof b, "%d.%x.%x", set, waiting, released);
			return b;
		}
		void apply(const Op& o, std::vector<Model>& out) const {
			Model m = *this;
			switch (o.k) {
			case SET: {
				bool r = waiting != 0;
				if (r != o.res) return;
				m.released |= waiting;
				m.waiting = 0;
				m.set = !(T::autoreset && r);
				out.push_back(m);
				return;
			}
			case RESET:
				m.set = false;
				out.push_back(m);
				return;
			case ISSET:
				if (o.res == set) out.push_back(m);
				return;
			case ISAWAITED:
				if (o.res == (waiting != 0)) out.push_back(m);
				return;
			case AWAIT:
				if (set) {
					m.released |= 1u << o.w;
					if (T::autoreset) m.set = false;
				} else
					m.waiting |= 1u << o.w;
				out.push_back(m);
				return;
			case COMPLETE:
				if (released >> o.w & 1) out.push_back(m);
				return;
			}
		}
	};

	template<typename E>
	struct Conc {
		using T = traits<E>;
		using L = h::Linear<Model<E>, Op>;
		L lin;
		uint64_t clock = 0;
		E* e;
		static constexpr int MAXDATA = 64;
		int64_t data[MAXDATA] = {};
		int nset = 0, nawait = 0;
		int sets_total = 0; // planned explicit sets
		std::vector<std::unique_ptr<QueueDispatcher>> disp;
		struct Rec {
			std::size_t lin_idx;
			int thread;
			uint64_t tick;
			QueueDispatcher* disp;
			bool done = false;
			uint64_t done_at = UINT64_MAX;
		};
		std::vector<Rec> recs;
		uint64_t tick[64] = {};
		std::vector<std::pair<QueueDispatcher*, bool>> active_sets[64]; // fallback dispatcher of the running set()s
		std::set<QueueDispatcher*> set_disps;
		int open_waiters = 0;
		bool suspended_any = false, overlap = false;
		int running_ops = 0;

		uint64_t now() { return ++clock; }
		struct Script {
			int awaits;
			std::vector<std::pair<bool, int>> how; // via operator?, dispatcher index (-1 none)
			bool on_disp;
			int disp;
			int then; // op performed after completion: 0 none 1 set 2 reset
			int then_disp = -1;
		};
		QueueDispatcher* D(int i) { return i < 0 ? nullptr : disp[i].get(); }

		static h::co waiter(Conc* c, Script* s, bool single_setter) {
			for (int i = 0; i < s->awaits; i++) {
				bool via_op = s->how[i].first;
				QueueDispatcher* dd =
					via_op ? static_cast<QueueDispatcher*>(dispatcher::current()) : c->D(s->how[i].second);
				int slot = h::quiet([&] {
					int sl = c->nawait++;
					Rec r{c->lin.ops.size(), vrt::self(), c->tick[vrt::self()], dd};
					c->recs.push_back(r);
					c->lin.ops.push_back({{AWAIT, sl}, c->now(), UINT64_MAX});
					return sl;
				});
				vrt::note("await#%d %s", slot, dd ? "(dispatcher)" : "");
				if (via_op)
					co_await *c->e;
				else
					co_await c->e->wait(dd);
				c->resumed(slot);
				c->sees_sets(h::quiet([&] { return c->recs[slot].lin_idx; }), slot);
				if (single_setter) {
					// the only set() there is has to be visible
					if (c->data[0] != 42) vrt::fail("released coroutine does not see what was written before set()");
				}
			}
			if (s->then == 1)
				c->do_set(c->D(s->then_disp));
			else if (s->then == 2)
				c->do_reset();
			h::quiet([&] { c->open_waiters--; });
		}
		// Operation x found the event set. Every set() that returned before x started and whose signal is still there
		// (nobody reset or consumed it in between) has to be visible.
		void sees_sets(std::size_t x, int slot) {
			std::vector<int> ids = h::quiet([&] {
				std::vector<int> res;
				uint64_t begin = lin.ops[x].inv, end = now();
				for (std::size_t i = 0; i < lin.ops.size(); i++) {
					auto& o = lin.ops[i];
					if (o.op.k != SET || o.ret == UINT64_MAX || o.ret >= begin || (T::autoreset && o.op.res)) continue;
					bool lost = false;
					for (auto& p : lin.ops)
						if (p.op.k == RESET && p.inv <= end && p.ret >= o.inv) lost = true;
					if (T::autoreset)
						for (std::size_t a = 0; a < recs.size(); a++)
							if ((int)a != slot && recs[a].done_at >= o.inv) lost = true;
					if (!lost) res.push_back(o.op.w);
				}
				if (res.size() > 1) vrt::label("several sets have to be visible");
				return res;
			});
			for (int id : ids)
				if (data[id] != 42) vrt::fail("who finds the event set does not see what was written before set %d", id);
		}
		void resumed(int slot) {
			vrt::Quiet q;
			auto& r = recs[slot];
			CHECK(!r.done, "await#%d continued twice", slot);
			r.done = true;
			uint64_t t = r.done_at = now();
			lin.ops[r.lin_idx].ret = std::min(lin.ops[r.lin_idx].ret, t);
			lin.ops.push_back({{COMPLETE, slot}, t, t});
			int me = vrt::self();
			vrt::note("await#%d continues", slot);
			bool immediate = r.thread == me && r.tick == tick[me];
			if (!immediate) {
				suspended_any = true;
				auto* cur = static_cast<QueueDispatcher*>(dispatcher::current());
				if (r.disp) {
					CHECK(cur == r.disp, "await#%d resumed on the wrong dispatcher", slot);
				} else {
					bool ok = false;
					if (!active_sets[me].empty() && active_sets[me].back().first == nullptr) ok = true;
					if (cur && set_disps.count(cur)) ok = true;
					CHECK(ok, "await#%d resumed neither inside of set() nor on a dispatcher passed to set()", slot);
				}
			}
			tick[me]++;
		}
		void do_set(QueueDispatcher* fb) {
			int id;
			std::size_t li;
			h::quiet([&] {
				id = nset++;
				CHECK(id < 32, "harness: too many sets");
				li = lin.ops.size();
				lin.ops.push_back({{SET, id}, now(), UINT64_MAX});
				int me = vrt::self();
				tick[me]++;
				active_sets[me].push_back({fb, true});
				if (fb) set_disps.insert(fb);
				if (running_ops++) overlap = true;
				vrt::note("set(%s)", fb ? "dispatcher" : "");
			});
			data[id] = 42;
			bool r = e->set(fb);
			h::quiet([&] {
				running_ops--;
				uint64_t t = now();
				lin.ops[li].ret = t;
				lin.ops[li].op.res = r;
				int me = vrt::self();
				tick[me]++;
				active_sets[me].pop_back();
				vrt::note("set() = %d", r);
			});
		}
		template<typename F>
		bool simple(Kind k, const char* name, F f) {
			std::size_t li = h::quiet([&] {
				lin.ops.push_back({{k}, now(), UINT64_MAX});
				if (running_ops++) overlap = true;
				return lin.ops.size() - 1;
			});
			bool r = f();
			h::quiet([&] {
				running_ops--;
				lin.ops[li].op.res = r;
				lin.ops[li].ret = now();
				vrt::note("%s = %d", name, r);
			});
			if (k == ISSET && r) sees_sets(li, -1);
			return r;
		}
		void do_reset() {
			simple(RESET, "reset", [&] {
				e->reset();
				return true;
			});
		}

		static void run() {
			Conc c;
			bool init = vrt::chance(1, 4);
			int ndisp = (int)vrt::size(0, 2);
			for (int i = 0; i < ndisp; i++)
				c.disp.push_back(std::make_unique<QueueDispatcher>(i + 1));
			auto pick = [&]() -> int { return ndisp && vrt::chance(1, 3) ? (int)vrt::choose(ndisp) : -1; };
			int nthreads = (int)vrt::range(2, 3);
			struct POp {
				int kind; // 0 set 1 reset 2 is_set 3 is_awaited 4 start waiter
				int disp = -1;
				int script = -1;
			};
			std::vector<std::vector<POp>> prog(nthreads);
			std::vector<std::unique_ptr<Script>> scripts;
			bool single_setter_mode = vrt::chance(1, 3);
			int planned_sets = 0;
			for (int t = 0; t < nthreads; t++) {
				int n = (int)vrt::range(1, 4);
				for (int i = 0; i < n; i++) {
					POp p;
					uint32_t k = vrt::choose(10);
					p.kind = k < 3 ? 0 : k < 4 ? 1 : k < 5 ? 2 : k < 6 ? 3 : 4;
					if (p.kind == 0) {
						if (single_setter_mode && planned_sets >= 1)
							p.kind = 2;
						else {
							planned_sets++;
							p.disp = pick();
						}
					}
					if (p.kind == 4) {
						if ((!T::multi && scripts.size() >= 1) || scripts.size() >= 5)
							p.kind = 0, p.disp = pick(), planned_sets++;
						else {
							auto s = std::make_unique<Script>();
							s->awaits = single_setter_mode ? 1 : (int)vrt::size(1, 3);
							for (int j = 0; j < s->awaits; j++) {
								bool op = vrt::flip();
								s->how.push_back({op, pick()});
							}
							s->on_disp = ndisp && vrt::chance(1, 4);
							s->disp = ndisp ? (int)vrt::choose(ndisp) : -1;
							s->then = single_setter_mode ? 0 : (int)vrt::choose(6);
							s->then_disp = pick();
							p.script = (int)scripts.size();
							scripts.push_back(std::move(s));
						}
					}
					prog[t].push_back(p);
				}
			}
			if (planned_sets > 1 || init) single_setter_mode = false;
			// the single setter's data is only guaranteed if that set is the releasing one: main's final
			// sets come later and are made visible by joining
			bool ss = single_setter_mode && planned_sets == 1;
			{
				E e = init ? E(true) : E();
				c.e = &e;
				for (auto& d : c.disp)
					d->start();
				c.open_waiters = (int)scripts.size();
				std::vector<std::vthread> ts;
				for (int t = 0; t < nthreads; t++)
					ts.emplace_back([&, t] {
						for (auto& p : prog[t]) {
							switch (p.kind) {
							case 0: c.do_set(c.D(p.disp)); break;
							case 1: c.do_reset(); break;
							case 2: c.simple(ISSET, "is_set", [&] { return e.is_set(); }); break;
							case 3: c.simple(ISAWAITED, "is_awaited", [&] { return e.is_awaited(); }); break;
							case 4: {
								auto* s = scripts[p.script].get();
								h::quiet([&] { c.tick[vrt::self()]++; });
								if (s->on_disp) {
									c.D(s->disp)->push([&c, s, ss] { waiter(&c, s, ss); });
								} else
									waiter(&c, s, ss);
								h::quiet([&] { c.tick[vrt::self()]++; });
								break;
							}
							}
						}
					});
				h::join_all(ts);
				vrt::wait_idle();
				// Release whoever legitimately still waits.
				bool early_done = c.open_waiters == 0;
				for (int guard = 0; c.open_waiters > 0; guard++) {
					CHECK(guard < 20, "a waiting coroutine is never released by further set() calls (%d left)",
						  c.open_waiters);
					c.do_set(nullptr);
					vrt::wait_idle();
				}
				c.simple(ISSET, "is_set", [&] { return e.is_set(); });
				c.simple(ISAWAITED, "is_awaited", [&] { return e.is_awaited(); });
				for (auto& d : c.disp)
					d->stop();
				(void)early_done;
			}
			for (auto& r : c.recs)
				CHECK(r.done, "an await never completed");
			for (auto& o : c.lin.ops)
				CHECK(o.ret != UINT64_MAX, "harness: operation without end");
			Model<E> m;
			m.set = init;
			int r = c.lin.check(m);
			if (r < 0)
				vrt::label("linearizability budget exhausted");
			else
				CHECK(r == 1, "the history of %zu operations has no sequential explanation", c.lin.ops.size());
			if (c.overlap && c.suspended_any) vrt::nontrivial();
			if (c.overlap) vrt::label("overlapping ops");
			if (c.suspended_any) vrt::label("suspended");
			if (ss) vrt::label("single setter visibility");
		}
	};
} // namespace ev
