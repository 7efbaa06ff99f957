// C06: queue<T>
#include "../lib/vrt_shim.h"
#include <asyncpp/queue.h>
#include "../lib/hist.h"
#include <list>
using asyncpp::dispatcher;
using h::QueueDispatcher;
using h::val;

namespace {
	constexpr int64_t nothing = -1;
	enum K { REG_POP, REG_PUSH, DONE_POP, DONE_PUSH, TRY_POP, TRY_PUSH, SIZE, EMPTY, CLEAR };
	struct Op {
		K k;
		int id = -1;
		int64_t v = 0;
		bool res = false;
	};
	struct Model {
		std::size_t max = SIZE_MAX;
		std::deque<int64_t> items;
		std::deque<int> pops;
		std::deque<std::pair<int, int64_t>> pushes;
		std::map<int, int64_t> pres;
		std::map<int, bool> wres;
		bool final_ok() const { return pres.empty() && wres.empty() && pops.empty() && pushes.empty(); }
		std::string key() const {
			std::string s;
			for (auto x : items)
				s += "i" + std::to_string(x);
			for (auto x : pops)
				s += "r" + std::to_string(x);
			for (auto& x : pushes)
				s += "w" + std::to_string(x.first);
			for (auto& x : pres)
				s += "R" + std::to_string(x.first) + ":" + std::to_string(x.second);
			for (auto& x : wres)
				s += "W" + std::to_string(x.first) + ":" + std::to_string(x.second);
			return s;
		}
		bool can_push() const { return !pops.empty() || items.size() < max; }
		void accept(int64_t v) {
			if (!pops.empty()) {
				pres[pops.front()] = v;
				pops.pop_front();
			} else
				items.push_back(v);
		}
		bool can_pop() const { return !items.empty() || !pushes.empty(); }
		int64_t take() {
			int64_t v;
			if (!items.empty()) {
				v = items.front();
				items.pop_front();
				if (!pushes.empty()) {
					items.push_back(pushes.front().second);
					wres[pushes.front().first] = true;
					pushes.pop_front();
				}
			} else { // only possible without any storage
				v = pushes.front().second;
				wres[pushes.front().first] = true;
				pushes.pop_front();
			}
			return v;
		}
		void clear() {
			items.clear();
			for (auto& x : pushes)
				wres[x.first] = false;
			pushes.clear();
		}
		void fail_waiting() {
			for (auto& x : pushes)
				wres[x.first] = false;
			for (auto x : pops)
				pres[x] = nothing;
			pushes.clear();
			pops.clear();
		}
		std::size_t size() const { return items.size() + pushes.size(); }
		bool step(const Op& o) {
			switch (o.k) {
			case REG_POP:
				if (can_pop())
					pres[o.id] = take();
				else
					pops.push_back(o.id);
				return true;
			case REG_PUSH:
				if (can_push()) {
					accept(o.v);
					wres[o.id] = true;
				} else
					pushes.push_back({o.id, o.v});
				return true;
			case DONE_POP: {
				auto it = pres.find(o.id);
				if (it == pres.end() || it->second != o.v) return false;
				pres.erase(it);
				return true;
			}
			case DONE_PUSH: {
				auto it = wres.find(o.id);
				if (it == wres.end() || it->second != o.res) return false;
				wres.erase(it);
				return true;
			}
			case TRY_POP: return (can_pop() ? take() : nothing) == o.v;
			case TRY_PUSH:
				if (o.res != can_push()) return false;
				if (o.res) accept(o.v);
				return true;
			case SIZE: return (int64_t)size() == o.v;
			case EMPTY: return (size() == 0) == o.res;
			case CLEAR: clear(); return true;
			}
			return false;
		}
		void apply(const Op& o, std::vector<Model>& out) const {
			Model m = *this;
			if (m.step(o)) out.push_back(std::move(m));
		}
	};
	template<typename T, typename Q>
	bool emplace(Q& q, int64_t v) {
		if constexpr (std::is_same_v<T, std::vector<int64_t>>)
			return q.try_emplace(std::size_t(3), v);
		else
			return q.try_emplace(v);
	}

	struct Step {
		int kind; // 0 push 1 pop 2 try_push 3 try_pop 4 try_emplace 5 size 6 empty 7 clear
		int dmode;
	};
	template<typename Q>
	struct Ctx : h::Hist<Model, Op> {
		Q* q = nullptr;
		QueueDispatcher* qd = nullptr;
		std::vector<std::unique_ptr<QueueDispatcher>> disp;
		int next_id = 0, open = 0, suspended_push = 0, suspended_pop = 0, matched = 0, failed = 0;
	};
	template<typename T, typename Q>
	h::co run(Ctx<Q>* c, std::vector<Step> steps) {
		for (auto& s : steps) {
			bool immediate = false;
			auto* cur = static_cast<QueueDispatcher*>(dispatcher::current());
			auto* want = s.dmode == 0 ? cur : s.dmode == 1 ? nullptr : c->disp[s.dmode - 2].get();
			int id = h::quiet([&] { return c->next_id++; });
			int64_t v = 1000 + id;
			switch (s.kind) {
			case 0: {
				auto aw = c->q->push(val<T>::make(v));
				if (s.dmode != 0) aw.resume_on(want);
				if (!want) want = c->qd;
				auto i = c->reg({REG_PUSH, id, v}, id);
				bool r = co_await h::watched{aw, immediate};
				h::quiet([&] { vrt::note("#%d push -> %d%s", id, r, immediate ? "" : " after waiting"); });
				c->complete(i, {DONE_PUSH, id, v, r}, id);
				h::quiet([&] { c->suspended_push += !immediate; });
				break;
			}
			case 1: {
				auto aw = c->q->pop();
				if (s.dmode != 0) aw.resume_on(want);
				if (!want) want = c->qd;
				auto i = c->reg({REG_POP, id}, id);
				auto r = co_await h::watched{aw, immediate};
				int64_t pv = r ? val<T>::get(*r) : nothing;
				h::quiet([&] { vrt::note("#%d pop -> %lld%s", id, (long long)pv, immediate ? "" : " after waiting"); });
				c->complete(i, {DONE_POP, id, pv}, id);
				h::quiet([&] {
					c->suspended_pop += !immediate;
					c->matched += pv != nothing;
				});
				break;
			}
			case 2:
			case 4: {
				auto i = c->begin({TRY_PUSH, -1, v});
				bool r = s.kind == 2 ? c->q->try_push(val<T>::make(v)) : emplace<T>(*c->q, v);
				h::quiet([&] { vrt::note("try_push(%lld) -> %d", (long long)v, r), c->failed += !r; });
				c->end(i, [&](Op& o) { o.res = r; });
				continue;
			}
			case 3: {
				auto i = c->begin({TRY_POP});
				auto r = c->q->try_pop();
				int64_t pv = r ? val<T>::get(*r) : nothing;
				h::quiet([&] { vrt::note("try_pop -> %lld", (long long)pv), c->failed += !r; });
				c->end(i, [&](Op& o) { o.v = pv; });
				continue;
			}
			case 5: {
				auto i = c->begin({SIZE});
				auto r = c->q->size();
				c->end(i, [&](Op& o) { o.v = (int64_t)r; });
				continue;
			}
			case 6: {
				auto i = c->begin({EMPTY});
				auto r = c->q->empty();
				c->end(i, [&](Op& o) { o.res = r; });
				continue;
			}
			default: {
				auto i = c->begin({CLEAR});
				h::quiet([&] { vrt::note("clear"); });
				c->q->clear();
				c->end(i);
				continue;
			}
			}
			if (!immediate) {
				if (want) CHECK(dispatcher::current() == want, "#%d continued on the wrong dispatcher", id);
			} else
				CHECK(dispatcher::current() == cur, "#%d did not suspend but changed the dispatcher", id);
		}
		h::quiet([&] { c->open--; });
	}
	std::size_t gen_max() {
		uint32_t k = vrt::choose(8);
		if (k == 0) return vrt::chance(1, 3) ? ((std::size_t)1 << vrt::range(8, 63)) + vrt::choose(3) : SIZE_MAX;
		return k < 5 ? vrt::range(1, 2) : k < 7 ? vrt::range(0, 4) : 0;
	}
	template<typename T, typename Q>
	void concurrent() {
		Ctx<Q> c;
		int nd = (int)vrt::size(0, 2);
		for (int i = 0; i < nd; i++)
			c.disp.push_back(std::make_unique<QueueDispatcher>(i));
		c.qd = nd && vrt::chance(1, 3) ? c.disp[vrt::choose(nd)].get() : nullptr;
		int nt = (int)vrt::range(2, 4), total = 0;
		int bias = (int)vrt::choose(3);
		bool queries = vrt::flip(), clears = vrt::chance(1, 3);
		std::vector<std::vector<std::vector<Step>>> prog(nt);
		for (auto& p : prog) {
			int n = (int)vrt::range(1, 3);
			for (int i = 0; i < n; i++) {
				std::vector<Step> st;
				int m = (int)vrt::range(1, 4);
				for (int k = 0; k < m && total < 15; k++, total++) {
					uint32_t x = vrt::choose(16);
					Step s;
					if (x < 9)
						s.kind = bias == 0 ? x % 2 : bias == 1 ? (x % 3 != 0) : (x % 3 == 0);
					else if (x < 11)
						s.kind = 2;
					else if (x < 13)
						s.kind = 3;
					else if (x == 13)
						s.kind = 4;
					else if (x == 14)
						s.kind = queries ? 5 + (int)vrt::choose(2) : 1;
					else
						s.kind = clears ? 7 : 0;
					s.dmode = (int)vrt::choose(2 + nd);
					st.push_back(s);
				}
				if (!st.empty()) p.push_back(st);
			}
		}
		for (auto& p : prog)
			c.open += (int)p.size();
		int start_on = nd ? (int)vrt::choose(3) : 0;
		Model m0;
		m0.max = gen_max();
		{
			Q q(m0.max, c.qd);
			c.q = &q;
			for (auto& d : c.disp)
				d->start();
			std::vector<std::vthread> ts;
			int ti = 0;
			for (auto& p : prog) {
				int on = ti++ % 3 == 0 && start_on ? start_on - 1 : -1;
				ts.emplace_back([&c, &p, on, nd] {
					for (auto& s : p) {
						if (on >= 0 && on < nd)
							c.disp[on]->push([&c, &s] {
								run<T>(&c, s);
								c.tick();
							});
						else {
							run<T>(&c, s);
							c.tick();
						}
					}
				});
			}
			h::join_all(ts);
			vrt::wait_idle();
			// Let everything that still waits finish: supply space, then items.
			for (int i = 0; i < 40 && h::quiet([&] { return c.open; }) > 0; i++) {
				std::vector<Step> st{{3, 1}};
				h::quiet([&] { c.open++; });
				run<T>(&c, st);
				vrt::wait_idle();
				if (h::quiet([&] { return c.open; }) == 0) break;
				bool e = q.empty();
				if (e) {
					st[0].kind = 2;
					h::quiet([&] { c.open++; });
					run<T>(&c, st);
					vrt::wait_idle();
				}
				if (c.lin.ops.size() > 55) {
					c.lin.ops.resize(63);
					break;
				}
			}
			if (c.open) {
				// too long for the search: only require that waiting operations can be served
				for (int i = 0; i < 40 && h::quiet([&] { return c.open; }) > 0; i++) {
					(void)q.try_pop();
					vrt::wait_idle();
					if (q.empty()) (void)q.try_push(val<T>::make(1));
					vrt::wait_idle();
				}
			}
			CHECK(c.open == 0, "%d coroutine(s) never continued", c.open);
			for (int i = 0; i < 60 && c.lin.ops.size() < 62; i++) {
				auto k = c.begin({TRY_POP});
				auto r = q.try_pop();
				c.end(k, [&](Op& o) { o.v = r ? val<T>::get(*r) : nothing; });
				if (!r) break;
			}
			for (auto& d : c.disp)
				d->stop();
		}
		c.verify(m0, "no sequential FIFO explanation for this history");
		if (c.matched && c.suspended_pop + c.suspended_push) vrt::nontrivial();
		if (c.suspended_push) vrt::label("suspended push");
		if (c.suspended_pop) vrt::label("suspended pop");
		if (c.failed) vrt::label("failed try");
		if (m0.max == 0) vrt::label("zero capacity");
		if (c.qd) vrt::label("default dispatcher");
	}

	// ---------------------------------------------------------------- sequential with re-entrancy and moves
	template<typename T, typename Q>
	struct SeqCtx {
		struct Slot {
			std::unique_ptr<Q> q;
			Model m;
			QueueDispatcher* qd;
		};
		Slot q[2];
		QueueDispatcher d[3] = {QueueDispatcher(1), QueueDispatcher(2), QueueDispatcher(3)};
		int next_id = 0, budget = 0, open = 0, waited = 0, nested_ops = 0, moves = 0, depth = 0;
		std::vector<char> completed;
		std::map<int, int> home; // operation -> index of the model it waits in

		Model& model_of(int id) {
			for (auto& s : q)
				if (s.m.pres.count(id) || s.m.wres.count(id)) return s.m;
			vrt::fail("#%d continued although neither space, item nor failure was due", id);
		}
		static h::co push(SeqCtx* c, int k, int dm) {
			int id = c->next_id++;
			c->completed.push_back(0);
			c->open++;
			int64_t v = 1000 + id;
			auto& s = c->q[k];
			auto aw = s.q->push(val<T>::make(v));
			auto* cur = dispatcher::current();
			dispatcher* want = dm == 0 ? cur : dm == 1 ? nullptr : &c->d[dm - 2];
			if (dm != 0) aw.resume_on(want);
			if (!want) want = s.qd;
			s.m.step({REG_PUSH, id, v});
			bool must = s.m.wres.count(id);
			vrt::note("q%d #%d push(%lld) %s", k, id, (long long)v, must ? "continues" : "suspends");
			if (!must) c->waited++;
			bool imm = false;
			bool r = co_await h::watched{aw, imm};
			vrt::note("#%d push -> %d", id, r);
			CHECK(!c->completed[id], "completed twice");
			c->completed[id] = 1;
			CHECK(c->model_of(id).step({DONE_PUSH, id, v, r}), "#%d push reported %d, model disagrees", id, r);
			CHECK(imm == must, "#%d push %s", id, imm ? "did not suspend on a full queue" : "suspended although there was space");
			if (!imm && want) CHECK(dispatcher::current() == want, "wrong dispatcher");
			c->after();
		}
		static h::co pop(SeqCtx* c, int k, int dm) {
			int id = c->next_id++;
			c->completed.push_back(0);
			c->open++;
			auto& s = c->q[k];
			auto aw = s.q->pop();
			auto* cur = dispatcher::current();
			dispatcher* want = dm == 0 ? cur : dm == 1 ? nullptr : &c->d[dm - 2];
			if (dm != 0) aw.resume_on(want);
			if (!want) want = s.qd;
			s.m.step({REG_POP, id});
			bool must = s.m.pres.count(id);
			vrt::note("q%d #%d pop %s", k, id, must ? "continues" : "suspends");
			if (!must) c->waited++;
			bool imm = false;
			auto r = co_await h::watched{aw, imm};
			int64_t v = r ? val<T>::get(*r) : nothing;
			vrt::note("#%d pop -> %lld", id, (long long)v);
			CHECK(!c->completed[id], "completed twice");
			c->completed[id] = 1;
			CHECK(c->model_of(id).step({DONE_POP, id, v}), "#%d pop returned %lld, model disagrees", id, (long long)v);
			CHECK(imm == must, "#%d pop %s", id, imm ? "did not suspend on an empty queue" : "suspended although an item was available");
			if (!imm && want) CHECK(dispatcher::current() == want, "wrong dispatcher");
			c->after();
		}
		void after() {
			open--;
			while (budget > 0 && vrt::chance(1, 3)) {
				budget--;
				nested_ops++;
				op(true);
			}
		}
		void check() {
			for (int k = 0; k < 2; k++) {
				CHECK(q[k].q->size() == q[k].m.size(), "q%d size() is %zu, expected %zu", k, q[k].q->size(), q[k].m.size());
				CHECK(q[k].q->empty() == (q[k].m.size() == 0), "q%d empty()", k);
			}
		}
		void op(bool nested) {
			if (depth > 4) return;
			depth++;
			int k = (int)vrt::choose(4) == 3;
			auto& s = q[k];
			switch (vrt::choose(nested ? 10 : 14)) {
			case 0:
			case 1: push(this, k, (int)vrt::choose(5)); break;
			case 2:
			case 3: pop(this, k, (int)vrt::choose(5)); break;
			case 4: {
				int64_t v = 1000 + next_id++;
				completed.push_back(1);
				bool exp = s.m.can_push();
				vrt::note("q%d try_push(%lld) expects %d", k, (long long)v, exp);
				s.m.step({TRY_PUSH, -1, v, exp});
				CHECK(s.q->try_push(val<T>::make(v)) == exp, "try_push should return %d", exp);
				break;
			}
			case 5: {
				int64_t v = 1000 + next_id++;
				completed.push_back(1);
				bool exp = s.m.can_push();
				if constexpr (std::is_same_v<T, h::Tracked>) {
					if (vrt::chance(1, 4)) {
						// constructing the element fails: nothing may change
						vrt::note("q%d try_emplace throws, %zu pops waiting", k, s.m.pops.size());
						h::Tracked src(v);
						h::g_throw_copy = 1;
						bool thrown = false, r = true;
						try {
							r = s.q->try_emplace(static_cast<const h::Tracked&>(src));
						} catch (const h::copy_error&) { thrown = true; }
						h::g_throw_copy = 0;
						CHECK(thrown == exp && (thrown || !r), "try_emplace with a throwing constructor");
						if (!s.m.pops.empty()) vrt::label("throwing emplace with a waiting pop");
						break;
					}
				}
				vrt::note("q%d try_emplace(%lld) expects %d", k, (long long)v, exp);
				s.m.step({TRY_PUSH, -1, v, exp});
				CHECK(emplace<T>(*s.q, v) == exp, "try_emplace should return %d", exp);
				break;
			}
			case 6:
			case 7: {
				bool can = s.m.can_pop();
				int64_t exp = can ? s.m.take() : nothing;
				vrt::note("q%d try_pop expects %lld", k, (long long)exp);
				auto r = s.q->try_pop();
				int64_t v = r ? val<T>::get(*r) : nothing;
				CHECK(v == exp, "try_pop returned %lld instead of %lld", (long long)v, (long long)exp);
				break;
			}
			case 8:
				if (vrt::chance(1, 3)) {
					vrt::note("q%d clear", k);
					s.m.clear();
					s.q->clear();
				}
				break;
			case 9: break;
			case 10:
			case 11: d[vrt::choose(3)].run_one(); break;
			case 12: // move construct into a new object
				if (vrt::chance(1, 2)) {
					vrt::note("q%d move-constructed", k);
					moves++;
					auto n = std::make_unique<Q>(std::move(*s.q));
					CHECK(s.q->empty() && s.q->size() == 0, "moved-from queue is not empty");
					if (vrt::flip()) { // using what is left must not disturb what was moved
						int before = open;
						for (int i = (int)vrt::choose(3); i > 0; i--)
							(void)s.q->try_push(val<T>::make(1));
						for (int i = (int)vrt::choose(3); i > 0; i--)
							(void)s.q->try_pop();
						s.q->clear();
						CHECK(open == before, "an operation that was moved with its queue is continued by the moved-from queue");
					}
					s.q = std::move(n);
				} else if (vrt::flip()) {
					vrt::note("the queues are swapped");
					moves++;
					budget = -1 - budget;
					std::swap(*q[0].q, *q[1].q);
					budget = -1 - budget;
					std::swap(q[0].m, q[1].m);
					std::swap(q[0].qd, q[1].qd);
				}
				break;
			case 13: {
				auto& o = q[1 - k];
				vrt::note("q%d = move(q%d)", k, 1 - k);
				moves++;
				// operations waiting on the overwritten queue fail, those of the source move along
				Model dst = std::move(s.m);
				dst.fail_waiting();
				s.m = o.m;
				for (auto& x : dst.pres)
					s.m.pres.insert(x);
				for (auto& x : dst.wres)
					s.m.wres.insert(x);
				o.m.items.clear();
				o.m.pops.clear();
				o.m.pushes.clear();
				o.m.pres.clear();
				o.m.wres.clear();
				s.qd = o.qd;
				budget = -1 - budget; // resumed coroutines do not use the queues while they are assigned
				*s.q = std::move(*o.q);
				budget = -1 - budget;
				break;
			}
			}
			depth--;
			if (depth == 0) check();
		}
	};
	template<typename Q>
	struct container_of;
	template<typename T, typename C>
	struct container_of<asyncpp::queue<T, C>> {
		using type = C;
	};
	template<typename T, typename Q>
	void sequential() {
		SeqCtx<T, Q> c;
		for (int k = 0; k < 2; k++) {
			c.q[k].m.max = gen_max();
			uint32_t x = vrt::choose(4);
			c.q[k].qd = x == 3 ? &c.d[0] : nullptr;
			auto& m = c.q[k].m;
			if (m.max == SIZE_MAX && !c.q[k].qd && vrt::flip()) {
				c.q[k].q = std::make_unique<Q>();
				vrt::label("default constructed");
			} else if (vrt::chance(1, 3)) {
				// the remaining arguments initialise the container
				typename container_of<Q>::type init;
				int ni = (int)std::min<std::size_t>(m.max, vrt::choose(4));
				for (int i = 0; i < ni; i++) {
					init.push_back(val<T>::make(900 + i));
					m.items.push_back(900 + i);
				}
				c.q[k].q = std::make_unique<Q>(m.max, c.q[k].qd, std::move(init));
				vrt::label("initial contents");
			} else
				c.q[k].q = std::make_unique<Q>(m.max, c.q[k].qd);
		}
		int n = (int)vrt::range(2, 40);
		c.budget = (int)vrt::range(0, 10);
		for (int i = 0; i < n; i++) {
			c.op(false);
			if (!c.d[0].pending() && !c.d[1].pending() && !c.d[2].pending())
				for (int k = 0; k < 2; k++)
					CHECK(c.q[k].m.pres.empty() && c.q[k].m.wres.empty(), "an operation is decided but its coroutine was not resumed");
		}
		auto drain = [&] {
			for (int i = 0; i < 1000 && (c.d[0].pending() || c.d[1].pending() || c.d[2].pending()); i++)
				for (auto& d : c.d)
					d.drain();
		};
		c.budget = 0;
		drain();
		for (int k = 0; k < 2; k++) {
			auto& s = c.q[k];
			if (vrt::flip()) {
				s.m.clear();
				s.q->clear();
				drain();
			}
			for (int i = 0; i < 200; i++) {
				bool can = s.m.can_pop();
				int64_t exp = can ? s.m.take() : nothing;
				auto r = s.q->try_pop();
				int64_t v = r ? val<T>::get(*r) : nothing;
				CHECK(v == exp, "draining: try_pop returned %lld instead of %lld", (long long)v, (long long)exp);
				drain();
				if (!can) break;
			}
			for (int i = 0; i < 200 && !s.m.pops.empty(); i++) {
				s.m.step({TRY_PUSH, -1, 7, true});
				CHECK(s.q->try_push(val<T>::make(7)), "try_push with a waiting pop");
				drain();
			}
			drain();
			CHECK(s.m.final_ok(), "an operation was never completed");
		}
		CHECK(c.open == 0, "%d coroutine(s) never continued", c.open);
		if (c.waited > 1) vrt::nontrivial(), vrt::label("waited");
		if (c.nested_ops) vrt::label("nested operations");
		if (c.moves) vrt::label("moved");
	}
	using h::MoveOnly;
	using h::Tracked;
	using Vec = std::vector<int64_t>;
} // namespace
SCENARIO(concurrent_tracked, 250) { concurrent<Tracked, asyncpp::queue<Tracked>>(); }
SCENARIO(concurrent_list, 50) { concurrent<MoveOnly, asyncpp::queue<MoveOnly, std::list<MoveOnly>>>(); }
SCENARIO(sequential_tracked, 150, vrt::NO_TSAN) { sequential<Tracked, asyncpp::queue<Tracked>>(); }
SCENARIO(sequential_list, 50, vrt::NO_TSAN) { sequential<MoveOnly, asyncpp::queue<MoveOnly, std::list<MoveOnly>>>(); }
SCENARIO(sequential_vector, 50, vrt::NO_TSAN) { sequential<Vec, asyncpp::queue<Vec>>(); }
// Many stored items and suspended operations at once
// Moving a queue while it is used: every item ends up in exactly one place, in order
namespace {
	void moved_while_used() {
		using Q = asyncpp::queue<int64_t>;
		std::size_t max = vrt::flip() ? gen_max() | 1 : (std::size_t)vrt::range(1, 4);
		std::optional<Q> a;
		a.emplace(max);
		std::optional<Q> b;
		bool assign = vrt::flip();
		if (assign) b.emplace(max);
		int n = (int)vrt::range(1, 6), npop = (int)vrt::range(0, 4), nobs = (int)vrt::range(0, 3);
		std::vector<int64_t> in, out;
		std::vector<std::vthread> ts;
		ts.emplace_back([&] {
			for (int i = 0; i < n; i++)
				if (a->try_push(100 + i)) h::quiet([&] { in.push_back(100 + i); });
		});
		if (npop)
			ts.emplace_back([&] {
				for (int i = 0; i < npop; i++)
					if (auto v = a->try_pop()) h::quiet([&] { out.push_back(*v); });
			});
		if (nobs)
			ts.emplace_back([&] {
				for (int i = 0; i < nobs; i++) {
					CHECK(a->size() <= (std::size_t)n);
					(void)a->empty();
				}
			});
		ts.emplace_back([&] {
			if (assign)
				*b = std::move(*a);
			else
				b.emplace(std::move(*a));
		});
		h::join_all(ts);
		// moved items precede those pushed afterwards
		std::vector<int64_t> left[2];
		for (int k = 0; k < 2; k++)
			while (auto v = (k ? *a : *b).try_pop())
				left[k].push_back(*v);
		for (auto* l : {&left[0], &left[1], &out})
			CHECK(std::is_sorted(l->begin(), l->end()), "items changed their order");
		if (!left[0].empty() && !left[1].empty()) CHECK(left[0].back() < left[1].front(), "an item pushed before the move stayed behind");
		std::vector<int64_t> all = out;
		for (auto& l : left)
			all.insert(all.end(), l.begin(), l.end());
		std::sort(all.begin(), all.end());
		CHECK(all == in, "%zu items were accepted, %zu came out", in.size(), all.size());
		if (!left[0].empty() && in.size() > 1) vrt::nontrivial();
	}
}
SCENARIO(moving, 15) { moved_while_used(); }

// Whoever finished last may destroy the queue, even while the operation that resumed it has not returned
namespace {
	using OQ = asyncpp::queue<h::Tracked>;
	struct Owned {
		OQ* q;
		std::atomic<int> left{0};
		int deleted = 0, resumed = 0;
		bool by_pop = false;
		int tries = 0;
		void done() {
			if (left.fetch_sub(1) == 1) {
				h::quiet([&] { deleted++; });
				delete q;
			}
		}
	};
	h::co owned_pop(Owned* o, QueueDispatcher* d, int64_t expect) {
		int me = h::quiet([] { return vrt::self(); });
		for (int i = 0; i < o->tries; i++) {
			if (auto v = o->q->try_pop(); v) {
				CHECK(v->get() == expect);
				if (o->by_pop) o->done();
				co_return;
			}
			std::this_thread::yield();
		}
		auto v = co_await o->q->pop().resume_on(d);
		CHECK(v.has_value() && v->get() == expect, "unexpected result of pop");
		h::quiet([&] { o->resumed += vrt::self() != me; });
		if (o->by_pop) o->done();
	}
	h::co owned_push(Owned* o, QueueDispatcher* d, int64_t value, bool accepted) {
		int me = h::quiet([] { return vrt::self(); });
		for (int i = 0; accepted && i < o->tries; i++) {
			if (vrt::flip() ? o->q->try_push(h::Tracked(value)) : o->q->try_emplace(value)) {
				if (!o->by_pop) o->done();
				co_return;
			}
			std::this_thread::yield();
		}
		bool r = co_await o->q->push(h::Tracked(value)).resume_on(d);
		CHECK(r == accepted, "unexpected result of push");
		h::quiet([&] { o->resumed += vrt::self() != me; });
		if (!accepted || !o->by_pop) o->done();
	}
} // namespace
SCENARIO(owned, 30) {
	Owned o;
	int nd = (int)vrt::choose(3);
	std::vector<std::unique_ptr<QueueDispatcher>> ds;
	for (int i = 0; i < nd; i++)
		ds.push_back(std::make_unique<QueueDispatcher>(i));
	auto pick = [&]() -> QueueDispatcher* {
		uint32_t k = vrt::choose((uint32_t)nd + 1);
		return k == 0 ? nullptr : ds[k - 1].get();
	};
	for (auto& d : ds)
		d->start();
	std::vector<std::vthread> ts;
	if (vrt::flip()) {
		// one item handed over; a full (or zero sized) queue makes the pusher wait for it
		o.by_pop = vrt::flip();
		o.q = new OQ(o.by_pop ? (std::size_t)vrt::choose(3) : 0);
		o.left.store(1);
		o.tries = (int)vrt::size(0, 3);
		int first = (int)vrt::choose(3);
		if (first == 1) {
			o.tries = 0;
			owned_pop(&o, pick(), 7);
		} else
			ts.emplace_back([&o, d = pick()] { owned_pop(&o, d, 7); });
		if (first == 2) {
			o.tries = 0;
			owned_push(&o, pick(), 7, true);
		} else
			ts.emplace_back([&o, d = pick()] { owned_push(&o, d, 7, true); });
	} else {
		// cleared while pushes are pending
		o.q = new OQ((std::size_t)vrt::choose(3));
		int n = (int)vrt::range(1, 4);
		for (int i = 0; o.q->try_push(h::Tracked(1)); i++) {}
		o.left.store(n);
		for (int i = 0; i < n; i++)
			owned_push(&o, pick(), 10 + i, false);
		ts.emplace_back([&o] { o.q->clear(); });
	}
	h::join_all(ts);
	vrt::wait_idle();
	for (auto& d : ds)
		d->stop();
	CHECK(o.left.load() == 0 && o.deleted == 1, "%d operation(s) never finished", o.left.load());
	if (o.resumed) vrt::nontrivial();
}
SCENARIO(many_items, 1, vrt::NO_TSAN) {
	int n = h::bulk();
	std::size_t max = vrt::choose(4) == 0 ? SIZE_MAX : n > 5000 ? (std::size_t)n : vrt::choose((uint32_t)(n + n / 4));
	QueueDispatcher d[2];
	asyncpp::queue<Tracked> q(max);
	int accepted = 0, refused = 0;
	auto push = [&](int64_t v, bool on) -> h::co {
		if (co_await q.push(Tracked(v)).resume_on(on ? &d[v % 2] : nullptr))
			accepted++;
		else
			refused++;
	};
	auto drain = [&] {
		d[0].drain();
		d[1].drain();
	};
	int stored = (int)std::min<std::size_t>(max, (std::size_t)n);
	for (int i = 0; i < n; i++) {
		if (i < stored && vrt::flip()) {
			CHECK(q.try_push(Tracked(i)), "try_push failed with %d of %zu items", i, max);
			accepted++;
		} else
			push(i, i >= stored && vrt::chance(1, 3)), drain();
		CHECK(accepted == std::min(i + 1, stored), "%d pushes completed with %d items and a maximum of %zu", accepted, i + 1, max);
		CHECK((int)q.size() == i + 1 && !q.empty(), "size() is %zu with %d items", q.size(), i + 1);
	}
	if (stored < n || max == (std::size_t)n) CHECK(!q.try_push(Tracked(-1)), "try_push succeeded although the queue is full");
	int pops = vrt::flip() ? n : (int)vrt::choose((uint32_t)n + 1);
	for (int i = 0; i < pops; i++) {
		auto r = q.try_pop();
		CHECK(r && r->get() == i, "popped %lld as number %d", r ? (long long)r->get() : -1ll, i);
		drain();
		CHECK(accepted == std::min(n, stored + i + 1), "%d pushes completed after %d pops", accepted, i + 1);
		CHECK((int)q.size() == n - i - 1 && q.empty() == (i == n - 1), "size() is %zu with %d items", q.size(), n - i - 1);
	}
	if (pops < n) {
		q.clear();
		drain();
		CHECK(accepted + refused == n && q.empty() && q.size() == 0, "%d pushes completed after clear()", accepted + refused);
		CHECK(refused == std::max(0, n - pops - stored), "%d pushes were refused by clear()", refused);
	}
	CHECK(!q.try_pop(), "try_pop on an empty queue");
	// waiting pops
	std::vector<int64_t> got;
	auto pop = [&]() -> h::co {
		auto v = co_await q.pop();
		CHECK(v, "pop completed without an item");
		got.push_back(v->get());
	};
	n = std::min(n, 4000); // waiting takes time proportional to the number of waiters
	for (int i = 0; i < n; i++)
		pop();
	for (int i = 0; i < n; i++)
		CHECK(q.try_push(Tracked(i)), "try_push failed with %d pops waiting", n - i);
	CHECK((int)got.size() == n && q.empty(), "%zu of %d waiting pops completed", got.size(), n);
	for (int i = 0; i < n; i++)
		CHECK(got[i] == i, "waiting pop %d got %lld", i, (long long)got[i]);
	if (n > 20) vrt::nontrivial();
}
