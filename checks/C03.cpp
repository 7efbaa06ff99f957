// C03: asyncpp::mutex / mutex_lock
#include "../lib/vrt_shim.h"
#include <asyncpp/mutex.h>
#include "../lib/helpers.h"
#include "../lib/linear.h"
using asyncpp::dispatcher;
using h::QueueDispatcher;
using amutex = asyncpp::mutex;      // note: the shim renames both sides consistently
using alock = asyncpp::mutex_lock;

namespace {
	enum K { REG, ACQ, UNLOCK, TRY };
	struct Op {
		K k;
		int id;
		bool res = false;
	};
	struct Model {
		int owner = -1;
		std::vector<int> q;
		bool final_ok() const { return true; }
		std::string key() const {
			std::string s = std::to_string(owner);
			for (int x : q)
				s += "," + std::to_string(x);
			return s;
		}
		void apply(const Op& o, std::vector<Model>& out) const {
			Model m = *this;
			switch (o.k) {
			case REG:
				if (owner == -1)
					m.owner = o.id;
				else
					m.q.push_back(o.id);
				break;
			case ACQ:
				if (owner != o.id) return;
				break;
			case UNLOCK:
				if (owner != o.id) return;
				if (m.q.empty())
					m.owner = -1;
				else {
					m.owner = m.q.front();
					m.q.erase(m.q.begin());
				}
				break;
			case TRY:
				if (o.res != (owner == -1)) return;
				if (o.res) m.owner = o.id;
				break;
			}
			out.push_back(m);
		}
	};

	struct Ctx {
		h::Linear<Model, Op> lin;
		uint64_t clock = 0;
		amutex* mtx = nullptr;
		int next_id = 0;
		// protected data, plain on purpose
		int64_t shared = 0, shadow = 0;
		int occupancy = 0; // harness bookkeeping
		int open = 0;
		int pend_reg[64]; // lin index of a registration begun by that thread whose return was not seen yet
		struct Pending {
			std::size_t lin_idx;
			int thread;
			uint64_t tick;
		};
		std::map<int, Pending> waits;
		uint64_t tick[64] = {};
		int unlock_depth[64] = {};
		int suspended = 0, contended_try = 0;
		std::vector<std::unique_ptr<QueueDispatcher>> disp;
		Ctx() {
			for (auto& p : pend_reg)
				p = -1;
		}
		uint64_t now() {
			// any event on this thread means an earlier registration of this thread has returned
			int me = vrt::self();
			clock++;
			if (pend_reg[me] >= 0) {
				auto& r = lin.ops[pend_reg[me]];
				r.ret = std::min(r.ret, clock);
				pend_reg[me] = -1;
				clock++;
			}
			tick[me]++;
			return clock;
		}
		int begin_lock() {
			vrt::Quiet q;
			int id = next_id++;
			uint64_t t = now();
			int me = vrt::self();
			waits[id] = {lin.ops.size(), me, tick[me]};
			lin.ops.push_back({{REG, id}, t, UINT64_MAX});
			pend_reg[me] = (int)lin.ops.size() - 1;
			vrt::note("lock #%d", id);
			return id;
		}
		void acquired(int id) {
			vrt::Quiet q;
			int me = vrt::self();
			auto it = waits.find(id);
			CHECK(it != waits.end(), "lock #%d resumed twice", id);
			auto w = it->second;
			waits.erase(it);
			bool immediate = w.thread == me && w.tick == tick[me];
			if (immediate) pend_reg[me] = -1;
			uint64_t t = now();
			lin.ops[w.lin_idx].ret = std::min(lin.ops[w.lin_idx].ret, t);
			lin.ops.push_back({{ACQ, id}, t, t});
			vrt::note("acquired #%d%s", id, immediate ? "" : " after waiting");
			if (!immediate) {
				suspended++;
				CHECK(unlock_depth[me] > 0, "lock #%d: waiter was not resumed inside of unlock()", id);
			}
			enter(id);
		}
		void enter(int id) {
			vrt::Quiet q;
			CHECK(occupancy == 0, "two owners: #%d entered an occupied critical section", id);
			occupancy++;
		}
		std::size_t begin_unlock(int id) {
			vrt::Quiet q;
			CHECK(occupancy == 1, "harness");
			occupancy--;
			uint64_t t = now();
			lin.ops.push_back({{UNLOCK, id}, t, UINT64_MAX});
			unlock_depth[vrt::self()]++;
			vrt::note("unlock #%d", id);
			return lin.ops.size() - 1;
		}
		void end_unlock(std::size_t i) {
			vrt::Quiet q;
			uint64_t t = now();
			lin.ops[i].ret = t;
			unlock_depth[vrt::self()]--;
		}
		void critical() {
			// plain accesses: must be ordered by the mutex alone
			int64_t v = shared;
			CHECK(v == shadow, "protected data torn");
			if (vrt::self() >= 0) std::vthis_thread::yield();
			shared = v + 1;
			shadow = v + 1;
		}
	};
	struct Step {
		int how;    // 0 lock 1 lock_scoped 2 mutex_lock.lock 3 try_lock 4 mutex_lock.try_lock
		int inside; // 0 nothing 1 hop to dispatcher while holding 2 move the lock object 3 nothing special
		int disp;
		bool raii; // release by destructor instead of unlock()
	};
	// Runs a lock object's release inside unlock bookkeeping
	h::co worker(Ctx* c, std::vector<Step> steps) {
		for (auto& s : steps) {
			int id;
			std::optional<alock> lk;
			bool have = true, raw = false;
			switch (s.how) {
			case 0:
				id = c->begin_lock();
				co_await c->mtx->lock();
				c->acquired(id);
				raw = true;
				break;
			case 1: {
				id = c->begin_lock();
				lk.emplace(co_await c->mtx->lock_scoped());
				c->acquired(id);
				CHECK(lk->is_locked(), "lock_scoped() returned an unlocked lock");
				break;
			}
			case 2: {
				lk.emplace(*c->mtx);
				CHECK(!lk->is_locked());
				id = c->begin_lock();
				co_await lk->lock();
				c->acquired(id);
				CHECK(lk->is_locked());
				break;
			}
			default: {
				std::size_t li = h::quiet([&] {
					id = c->next_id++;
					uint64_t t = c->now();
					c->lin.ops.push_back({{TRY, id}, t, UINT64_MAX});
					return c->lin.ops.size() - 1;
				});
				bool r;
				if (s.how == 3) {
					r = c->mtx->try_lock();
					raw = true;
				} else {
					lk.emplace(*c->mtx);
					r = lk->try_lock();
					CHECK(lk->is_locked() == r);
				}
				h::quiet([&] {
					c->lin.ops[li].ret = c->now();
					c->lin.ops[li].op.res = r;
					vrt::note("try_lock #%d = %d", id, r);
					if (r)
						c->enter(id);
					else
						c->contended_try++;
				});
				have = r;
			}
			}
			if (!have) continue;
			c->critical();
			CHECK(c->mtx->is_locked(), "is_locked() is false while owned");
			if (s.inside == 1 && s.disp >= 0) {
				// continue on another thread while holding the mutex
				struct hop {
					QueueDispatcher* d;
					bool await_ready() { return false; }
					void await_suspend(std::coroutine_handle<> hd) {
						d->push([hd] { hd.resume(); });
					}
					void await_resume() {}
				};
				h::quiet([&] { c->now(); });
				co_await hop{c->disp[s.disp].get()};
				c->critical();
			} else if (s.inside == 2 && lk) {
				alock other(std::move(*lk));
				CHECK(!lk->is_locked() && other.is_locked(), "moving a lock object");
				lk.reset();
				alock third(*c->mtx);
				third = std::move(other);
				CHECK(!other.is_locked() && third.is_locked(), "move-assigning a lock object");
				lk.emplace(std::move(third));
			}
			auto u = c->begin_unlock(id);
			if (raw)
				c->mtx->unlock();
			else if (s.raii)
				lk.reset();
			else {
				lk->unlock();
				CHECK(!lk->is_locked());
			}
			c->end_unlock(u);
		}
		h::quiet([&] { c->open--; });
	}
	std::vector<Step> gen_steps(Ctx& c, int maxn) {
		std::vector<Step> r;
		int n = (int)vrt::range(1, maxn);
		for (int i = 0; i < n; i++) {
			Step s;
			s.how = (int)vrt::choose(5);
			s.inside = (int)vrt::choose(4);
			s.disp = c.disp.empty() ? -1 : (int)vrt::choose((uint32_t)c.disp.size());
			s.raii = vrt::flip();
			r.push_back(s);
		}
		return r;
	}
	void finish(Ctx& c, const Model& m0) {
		CHECK(c.open == 0, "%d coroutine(s) never got the mutex", c.open);
		CHECK(c.waits.empty(), "a lock() never completed");
		CHECK(!c.mtx->is_locked(), "mutex is still locked after everyone unlocked");
		CHECK(c.mtx->try_lock(), "free mutex cannot be locked");
		c.mtx->unlock();
		int r = c.lin.check(m0);
		if (r < 0)
			vrt::label("linearizability budget exhausted");
		else
			CHECK(r == 1, "no sequential first-come first-served explanation for this history");
		if (c.suspended) vrt::nontrivial(), vrt::label("waited");
		if (c.suspended > 2) vrt::label("waited >2");
		if (c.contended_try) vrt::label("failed try_lock");
	}
} // namespace

SCENARIO(concurrent, 600) {
	Ctx c;
	int nd = (int)vrt::size(0, 2);
	for (int i = 0; i < nd; i++)
		c.disp.push_back(std::make_unique<QueueDispatcher>(i));
	int nt = (int)vrt::range(2, 4);
	std::vector<std::vector<std::vector<Step>>> prog(nt);
	int total = 0;
	for (auto& p : prog) {
		int n = (int)vrt::size(1, 3);
		for (int i = 0; i < n && total < 9; i++) {
			auto s = gen_steps(c, 3);
			if (total + (int)s.size() > 10) s.resize(1);
			total += (int)s.size();
			p.push_back(s);
		}
	}
	bool initially_locked = vrt::chance(1, 4);
	{
		std::optional<amutex> m;
		if (initially_locked)
			m.emplace(amutex::construct_locked);
		else
			m.emplace();
		c.mtx = &*m;
		Model m0;
		if (initially_locked) {
			m0.owner = 1000;
			c.occupancy = 1;
		}
		for (auto& d : c.disp)
			d->start();
		for (auto& p : prog)
			c.open += (int)p.size();
		std::vector<std::vthread> ts;
		for (auto& p : prog)
			ts.emplace_back([&c, &p] {
				for (auto& s : p) {
					worker(&c, s);
					h::quiet([&] { c.now(); });
				}
			});
		if (initially_locked) {
			auto u = c.begin_unlock(1000);
			c.mtx->unlock();
			c.end_unlock(u);
		}
		h::join_all(ts);
		vrt::wait_idle();
		for (auto& d : c.disp)
			d->stop();
		finish(c, m0);
	}
}

// Sequential histories over lock objects against an exact model.
namespace {
	struct Seq {
		amutex* m;
		int owner = -1;            // waiter id or lock object id
		std::vector<int> queue;    // waiting coroutine ids in order
		std::vector<int> acquired; // order observed
		struct W {
			std::coroutine_handle<> hold;
			int state = 0; // 0 waiting 1 holding 2 done
			alock* watch = nullptr;
		};
		std::vector<std::unique_ptr<W>> ws;
		static h::co wait(Seq* s, int id, bool scoped) {
			std::optional<alock> lk;
			if (scoped)
				lk.emplace(co_await s->m->lock_scoped());
			else
				co_await s->m->lock();
			auto* w = s->ws[id].get();
			CHECK(w->state == 0, "coroutine %d resumed twice", id);
			CHECK(s->owner == id, "coroutine %d got the mutex, %d was next", id, s->owner);
			if (w->watch) CHECK(!w->watch->is_locked(), "a lock object claims ownership while another coroutine owns the mutex");
			w->state = 1;
			co_await h::manual{&w->hold};
			// released by the driver
			s->pre_unlock();
			if (scoped)
				lk.reset();
			else
				s->m->unlock();
			w->state = 2;
		}
		void pre_unlock() {
			if (queue.empty())
				owner = -1;
			else {
				owner = queue.front();
				queue.erase(queue.begin());
			}
		}
	};
} // namespace
SCENARIO(sequential, 400, vrt::NO_TSAN) {
	amutex m;
	Seq s;
	s.m = &m;
	constexpr int NL = 3;
	std::optional<alock> l[NL];
	bool locked[NL] = {};
	bool attached[NL];
	for (int i = 0; i < NL; i++) {
		l[i].emplace(m);
		attached[i] = true;
	}
	auto check = [&] {
		CHECK(m.is_locked() == (s.owner != -1), "is_locked()");
		for (int i = 0; i < NL; i++)
			CHECK(l[i]->is_locked() == locked[i], "lock object %d is_locked()=%d expected %d", i, l[i]->is_locked(), locked[i]);
		for (std::size_t i = 0; i < s.ws.size(); i++) {
			bool waiting = std::find(s.queue.begin(), s.queue.end(), (int)i) != s.queue.end();
			if (waiting) CHECK(s.ws[i]->state == 0, "waiter %zu runs without owning", i);
			else if (s.owner == (int)i)
				CHECK(s.ws[i]->state == 1, "waiter %zu was not resumed although it owns the mutex", i);
			else
				CHECK(s.ws[i]->state == 2, "waiter %zu lost", i);
		}
	};
	int n = (int)vrt::range(3, 30), waited = 0, moved = 0;
	for (int k = 0; k < n; k++) {
		int i = (int)vrt::choose(NL), j = (int)vrt::choose(NL);
		switch (vrt::choose(9)) {
		case 8: // locking a lock object that holds the mutex already does nothing
			if (locked[i]) {
				vrt::note("l%d.lock() while locked", i);
				bool done = false;
				[](alock* l, bool* done) -> h::co {
					co_await l->lock();
					*done = true;
				}(&*l[i], &done);
				CHECK(done, "lock() of a lock that holds the mutex suspended");
			}
			break;
		case 0: { // try_lock via object
			if (locked[i] || !attached[i]) break;
			bool exp = s.owner == -1;
			vrt::note("l%d.try_lock expects %d", i, exp);
			if (exp) s.owner = 1000 + i;
			CHECK(l[i]->try_lock() == exp, "try_lock");
			locked[i] = exp;
			break;
		}
		case 1: { // unlock via object
			if (!locked[i]) break;
			vrt::note("l%d.unlock", i);
			s.pre_unlock();
			locked[i] = false;
			if (s.owner >= 0 && s.owner < 1000) s.ws[s.owner]->watch = &*l[i];
			l[i]->unlock();
			if (s.owner >= 0 && s.owner < 1000) s.ws[s.owner]->watch = nullptr;
			break;
		}
		case 2: { // move assign
			if (i == j) {
				// assigning a lock to itself changes nothing
				vrt::note("l%d = move(l%d)", i, j);
				auto& self = *l[i];
				*l[i] = std::move(self);
				break;
			}
			vrt::note("l%d = move(l%d)", i, j);
			moved++;
			if (locked[i]) {
				s.pre_unlock();
			}
			*l[i] = std::move(*l[j]);
			locked[i] = locked[j];
			attached[i] = attached[j];
			if (locked[i]) s.owner = 1000 + i;
			locked[j] = attached[j] = false;
			break;
		}
		case 3: { // move construct
			if (i == j) break;
			if (locked[i]) break;
			vrt::note("l%d(move(l%d))", i, j);
			moved++;
			l[i].emplace(std::move(*l[j]));
			locked[i] = locked[j];
			attached[i] = attached[j];
			if (locked[i]) s.owner = 1000 + i;
			locked[j] = attached[j] = false;
			break;
		}
		case 4: { // destroy and recreate
			vrt::note("l%d.~", i);
			if (locked[i]) s.pre_unlock();
			locked[i] = false;
			l[i].reset();
			if (vrt::flip() && s.owner == -1) {
				CHECK(m.try_lock());
				l[i].emplace(m, std::adopt_lock);
				s.owner = 1000 + i;
				locked[i] = true;
			} else
				l[i].emplace(m);
			attached[i] = true;
			break;
		}
		case 5:
		case 6: { // new waiter
			if (s.ws.size() >= 8) break;
			int id = (int)s.ws.size();
			s.ws.push_back(std::make_unique<Seq::W>());
			vrt::note("coroutine %d locks", id);
			if (s.owner == -1)
				s.owner = id;
			else {
				s.queue.push_back(id);
				waited++;
			}
			Seq::wait(&s, id, vrt::flip());
			break;
		}
		case 7: // let the owning coroutine release
			if (s.owner >= 0 && s.owner < 1000) {
				vrt::note("coroutine %d unlocks", s.owner);
				auto hd = std::exchange(s.ws[s.owner]->hold, nullptr);
				CHECK(hd, "owner is not holding");
				hd.resume();
			}
			break;
		}
		check();
	}
	while (s.owner != -1) {
		if (s.owner >= 1000) {
			int i = s.owner - 1000;
			s.pre_unlock();
			locked[i] = false;
			l[i].reset();
			l[i].emplace(m);
		} else {
			auto hd = std::exchange(s.ws[s.owner]->hold, nullptr);
			CHECK(hd, "owner is not holding");
			hd.resume();
		}
		check();
	}
	if (waited && s.ws.size() > 1) vrt::nontrivial();
	if (waited > 1) vrt::label("several waiters");
	if (moved) vrt::label("moved lock objects");
}
// Many coroutines waiting at once
namespace {
	struct Line {
		amutex m;
		std::vector<int> order;
		std::optional<alock> held; // of the current owner, if it used lock_scoped()
		bool inside = false;
	};
	h::co stand_in_line(Line* l, int id, int how) {
		if (how == 0) {
			co_await l->m.lock();
			CHECK(!std::exchange(l->inside, true), "two owners at a time");
			l->order.push_back(id);
		} else {
			auto lck = co_await l->m.lock_scoped();
			CHECK(!std::exchange(l->inside, true), "two owners at a time");
			l->order.push_back(id);
			if (how == 1)
				l->held.emplace(std::move(lck));
			else
				l->inside = false;
		}
	}
}
SCENARIO(many_waiters, 1, vrt::NO_TSAN) {
	Line l;
	int n = h::bulk(false);
	// letting go inside of the coroutine nests the unlock calls
	bool nest = vrt::flip();
	if (nest) n = std::min(n, 600);
	int batch = (int)vrt::range(1, 300);
	for (int started = 0; started < n;) {
		for (int i = 0; i < batch && started < n; i++)
			stand_in_line(&l, started++, nest ? 2 : (int)vrt::choose(2));
		// let a few go before more arrive
		for (int i = 0; !nest && i < batch / 2 && l.inside; i++) {
			l.inside = false;
			if (l.held) {
				auto lck = std::move(*l.held);
				l.held.reset();
				lck.unlock();
			} else
				l.m.unlock();
		}
	}
	if (nest) {
		CHECK(l.m.try_lock(), "every owner let go but the mutex is locked");
		for (int i = 0; i < n; i++)
			stand_in_line(&l, n + i, 2);
		CHECK((int)l.order.size() == n, "a waiting coroutine continued while the mutex was locked");
		l.m.unlock();
		n *= 2;
	}
	while (l.inside) {
		CHECK(l.m.is_locked() && !l.m.try_lock(), "the mutex is free although it has an owner");
		l.inside = false;
		if (l.held) {
			auto lck = std::move(*l.held);
			l.held.reset();
			lck.unlock();
		} else
			l.m.unlock();
	}
	CHECK((int)l.order.size() == n, "%zu of %d coroutines got the lock", l.order.size(), n);
	for (int i = 0; i < n; i++)
		CHECK(l.order[i] == i, "coroutine %d got the lock as number %d", l.order[i], i);
	CHECK(l.m.try_lock(), "the mutex is locked at the end");
	l.m.unlock();
	if (n > 20) vrt::nontrivial();
}
// The last owner is free to destroy the mutex once its own unlock returned (or before it, holding the lock)
SCENARIO(owned, 60) {
	struct O {
		amutex* m;
		int left = 0; // protected by the mutex
		int deleted = 0, waited = 0;
	} o;
	int nt = (int)vrt::range(2, 4), per = (int)vrt::range(1, 2);
	o.left = nt * per;
	o.m = new amutex();
	bool locked = vrt::flip(); // destroyed while held by the last owner
	auto use = [](O* o, bool scoped, bool locked) -> h::co {
		int me = h::quiet([] { return vrt::self(); });
		bool last;
		if (scoped) {
			std::optional<alock> lk;
			lk.emplace(co_await o->m->lock_scoped());
			last = --o->left == 0;
			h::quiet([&] { o->waited += vrt::self() != me; });
			lk->unlock();
		} else {
			co_await o->m->lock();
			last = --o->left == 0;
			h::quiet([&] { o->waited += vrt::self() != me; });
			if (!last || !locked) o->m->unlock();
		}
		if (last) {
			o->deleted++;
			delete o->m;
		}
	};
	std::vector<std::vthread> ts;
	for (int i = 0; i < nt; i++) {
		bool scoped[2] = {vrt::flip(), vrt::flip()};
		ts.emplace_back([&o, &use, per, locked, s0 = scoped[0], s1 = scoped[1]] {
			for (int k = 0; k < per; k++)
				use(&o, k ? s1 : s0, locked);
		});
	}
	h::join_all(ts);
	vrt::wait_idle();
	CHECK(o.left == 0 && o.deleted == 1, "%d lock(s) not granted", o.left);
	if (o.waited) vrt::nontrivial();
}
