// C04: latch
#include "../lib/vrt_shim.h"
#include <asyncpp/latch.h>
#include "../lib/helpers.h"
using asyncpp::dispatcher;
using h::QueueDispatcher;
namespace {
	struct Ctx {
		asyncpp::latch* l = nullptr;
		std::size_t n = 0;
		std::size_t started = 0, finished = 0; // sums of decrements begun / returned
		int64_t data[32] = {};
		std::size_t amount[32] = {}; // a decrement by zero publishes nothing
		int ndata = 0;
		int open = 0, completed = 0, suspended = 0, queries = 0;
		std::vector<std::unique_ptr<QueueDispatcher>> disp;
		std::vector<int> done_count;
		std::set<int> dec_threads[64];
		int in_dec[64] = {};
		uint64_t tick[64] = {};
	};
	h::co waiter(Ctx* c, int id, bool via_op, QueueDispatcher* dd) {
		auto* cur = static_cast<QueueDispatcher*>(dispatcher::current());
		if (via_op) dd = cur;
		int thread = vrt::self();
		uint64_t tk = c->tick[thread];
		bool must_be_ready = h::quiet([&] {
			vrt::note("w%d awaits", id);
			return c->finished == c->n;
		});
		if (via_op)
			co_await *c->l;
		else
			co_await c->l->wait(dd);
		h::quiet([&] {
			int me = vrt::self();
			bool immediate = me == thread && tk == c->tick[me];
			vrt::note("w%d continues%s", id, immediate ? "" : " after waiting");
			CHECK(c->started == c->n, "waiter released after decrements of only %zu of %zu", c->started, c->n);
			CHECK(++c->done_count[id] == 1, "waiter resumed twice");
			if (must_be_ready) CHECK(immediate, "awaiting a ready latch suspended");
			if (!immediate) {
				c->suspended++;
				if (dd)
					CHECK(dispatcher::current() == dd, "resumed on the wrong dispatcher");
				else
					CHECK(c->in_dec[me] > 0, "waiter without dispatcher was not resumed inside of decrement()");
			}
			c->tick[me]++;
			c->completed++;
			c->open--;
		});
		for (int i = 0; i < c->ndata; i++)
			if (c->amount[i] > 0) CHECK(c->data[i] == 1000 + i, "write made before a decrement is not visible to the waiter");
	}
	void query(Ctx* c) {
		std::size_t fin = h::quiet([&] { return c->finished; });
		bool r = c->l->is_ready();
		h::quiet([&] {
			c->queries++;
			vrt::note("is_ready = %d", r);
			if (r) CHECK(c->started == c->n, "is_ready() with only %zu of %zu decremented", c->started, c->n);
			else
				CHECK(fin < c->n || c->n == 0, "is_ready() is false after all decrements returned");
			if (c->n == 0) CHECK(r, "a latch constructed with zero is not ready");
		});
	}
	struct POp {
		int kind; // 0 dec 1 query 2 waiter
		std::size_t amount = 0;
		int slot = -1;
		int w = -1;
		bool via_op = false;
		int disp = -1;
		int on = -1;
	};
} // namespace
SCENARIO(concurrent, 100) {
	Ctx c;
	int nd = (int)vrt::size(0, 2);
	for (int i = 0; i < nd; i++)
		c.disp.push_back(std::make_unique<QueueDispatcher>(i));
	int nt = (int)vrt::range(1, 4);
	std::vector<std::vector<POp>> prog(nt);
	int nw = 0;
	std::size_t total = 0;
	bool big = vrt::chance(1, 10);
	for (auto& p : prog) {
		int n = (int)vrt::range(1, 4);
		for (int i = 0; i < n; i++) {
			POp o;
			uint32_t k = vrt::choose(6);
			o.kind = k < 3 ? 0 : k < 4 ? 1 : 2;
			if (o.kind == 0) {
				if (vrt::chance(1, 12))
					o.amount = 0;
				else
					o.amount = vrt::size(1, 4);
				if (big && o.amount) o.amount *= 0x0123456789abcdefull;
				o.slot = c.ndata++;
				c.amount[o.slot] = o.amount;
				total += o.amount;
				o.on = nd && vrt::chance(1, 3) ? (int)vrt::choose(nd) : -1;
			} else if (o.kind == 2) {
				if (nw >= 6) {
					o.kind = 1;
				} else {
					o.w = nw++;
					o.via_op = vrt::flip();
					o.disp = nd && vrt::flip() ? (int)vrt::choose(nd) : -1;
					o.on = nd && vrt::chance(1, 3) ? (int)vrt::choose(nd) : -1;
				}
			}
			p.push_back(o);
		}
	}
	c.n = total;
	c.done_count.resize(nw);
	c.open = nw;
	{
		asyncpp::latch l(total);
		c.l = &l;
		for (auto& d : c.disp)
			d->start();
		query(&c);
		std::vector<std::vthread> ts;
		for (auto& p : prog)
			ts.emplace_back([&c, &p, &l] {
				for (auto& o : p) {
					int me = vrt::self();
					if (o.kind == 0) {
						auto dec = [&c, &o, &l] {
							int me = vrt::self();
							c.data[o.slot] = 1000 + o.slot;
							h::quiet([&] {
								c.started += o.amount;
								c.in_dec[me]++;
								c.tick[me]++;
								vrt::note("decrement(%zu)", o.amount);
							});
							if (o.amount == 1 && o.slot % 2)
								l.decrement();
							else
								l.decrement(o.amount);
							h::quiet([&] {
								c.finished += o.amount;
								c.in_dec[me]--;
								c.tick[me]++;
							});
						};
						if (o.on >= 0)
							c.disp[o.on]->push(dec);
						else
							dec();
					} else if (o.kind == 1)
						query(&c);
					else {
						auto* d = o.disp >= 0 ? c.disp[o.disp].get() : nullptr;
						h::quiet([&] { c.tick[me]++; });
						if (o.on >= 0)
							c.disp[o.on]->push([&c, &o, d] {
								h::quiet([&] { c.tick[vrt::self()]++; });
								waiter(&c, o.w, o.via_op, d);
								h::quiet([&] { c.tick[vrt::self()]++; });
							});
						else
							waiter(&c, o.w, o.via_op, d);
						h::quiet([&] { c.tick[me]++; });
					}
				}
			});
		h::join_all(ts);
		vrt::wait_idle();
		CHECK(c.open == 0, "%d waiter(s) never released although the count reached zero", c.open);
		query(&c);
		CHECK(l.is_ready(), "latch not ready at the end");
		for (auto& d : c.disp)
			d->stop();
	}
	if (c.suspended && c.n > 0) vrt::nontrivial(), vrt::label("suspended");
	if (c.n == 0) vrt::label("zero latch");
	if (big) vrt::label("huge count");
	if (nd) vrt::label("dispatchers");
}
// Many waiters, many decrements, the largest count
SCENARIO(many_waiters, 1, vrt::NO_TSAN) {
	int n = h::bulk();
	QueueDispatcher d[2];
	std::size_t step = vrt::flip() ? 1 : vrt::chance(1, 3) ? (asyncpp::latch::max / (std::size_t)n) : (std::size_t)vrt::range(1, 70000);
	static_assert(asyncpp::latch::max == SIZE_MAX);
	std::size_t rest = vrt::chance(1, 4) ? asyncpp::latch::max - step * (std::size_t)n : 0;
	std::size_t total = step * (std::size_t)n + rest;
	int released = 0, where[3] = {}, want[3] = {}, early = 0;
	{
		asyncpp::latch l(total);
		auto wait = [&](int i) -> h::co {
			int k = (int)vrt::choose(3);
			want[k]++;
			bool immediate = l.is_ready();
			if (k == 2)
				co_await l;
			else
				co_await l.wait(&d[k]);
			released++;
			early += !l.is_ready();
			where[immediate ? k : dispatcher::current() == &d[0] ? 0 : dispatcher::current() == &d[1] ? 1 : 2]++;
			(void)i;
		};
		int waiters = (int)vrt::range(1, (uint32_t)n);
		for (int i = 0; i < waiters; i++)
			wait(i);
		if (rest) l.decrement(rest);
		for (int i = 0; i < n; i++) {
			CHECK(released == 0 && d[0].pending() == 0 && d[1].pending() == 0 && !l.is_ready(), "released after %d of %d decrements", i, n);
			if (step == 1)
				l.decrement();
			else
				l.decrement(step);
		}
		CHECK(l.is_ready(), "not ready after all decrements");
		wait(-1);
		d[0].drain();
		d[1].drain();
		CHECK(released == waiters + 1 && !early, "%d of %d waiters released", released, waiters + 1);
		for (int k = 0; k < 3; k++)
			CHECK(where[k] == want[k], "%d waiters continued on dispatcher %d instead of %d", where[k], k, want[k]);
	}
	if (n > 20) vrt::nontrivial();
}
SCENARIO(polled, 15) {
	int nt = (int)vrt::range(1, 3), np = (int)vrt::range(1, 2), tries = (int)vrt::range(1, 6);
	asyncpp::latch l((std::size_t)nt);
	int data[4] = {};
	bool seen = false;
	std::vector<std::vthread> ts;
	for (int t = 0; t < nt; t++)
		ts.emplace_back([&, t] {
			data[t] = 42 + t;
			l.decrement();
		});
	for (int i = 0; i < np; i++)
		ts.emplace_back([&] {
			for (int k = 0; k < tries; k++)
				if (l.is_ready()) {
					for (int t = 0; t < nt; t++)
						CHECK(data[t] == 42 + t, "is_ready is true, but what was written before a decrement is not visible");
					h::quiet([&] { seen = true; });
					break;
				} else
					std::this_thread::yield();
		});
	h::join_all(ts);
	CHECK(l.is_ready());
	if (seen) vrt::nontrivial();
}
// The released coroutine is free to destroy the latch: nobody else has anything left to do with it
SCENARIO(owned, 25) {
	struct O {
		asyncpp::latch* l;
		std::atomic<int> left{0};
		int data[4] = {};
		int parts = 0, deleted = 0, waited = 0;
	} o;
	o.parts = (int)vrt::range(1, 4);
	std::size_t amount[4], total = 0;
	for (int i = 0; i < o.parts; i++)
		total += amount[i] = vrt::size(1, 3);
	o.l = new asyncpp::latch(total);
	int n = (int)vrt::range(1, 3), nd = (int)vrt::choose(3);
	o.left.store(n);
	std::vector<std::unique_ptr<QueueDispatcher>> ds;
	for (int i = 0; i < nd; i++)
		ds.push_back(std::make_unique<QueueDispatcher>(i));
	for (auto& d : ds)
		d->start();
	auto pick = [&]() -> QueueDispatcher* {
		uint32_t k = vrt::choose((uint32_t)nd + 1);
		return k == 0 ? nullptr : ds[k - 1].get();
	};
	auto wait = [](O* o, QueueDispatcher* d) -> h::co {
		int me = h::quiet([] { return vrt::self(); });
		co_await o->l->wait(d);
		for (int i = 0; i < o->parts; i++)
			CHECK(o->data[i] == 42 + i, "what was written before a decrement is not visible to the released coroutine");
		h::quiet([&] { o->waited += vrt::self() != me; });
		if (o->left.fetch_sub(1) == 1) {
			o->deleted++;
			delete o->l;
		}
	};
	int early = (int)vrt::choose((uint32_t)n + 1);
	for (int i = 0; i < early; i++)
		wait(&o, pick());
	std::vector<std::vthread> ts;
	for (int i = 0; i < o.parts; i++)
		ts.emplace_back([&o, i, a = amount[i]] {
			o.data[i] = 42 + i;
			o.l->decrement(a);
		});
	for (int i = early; i < n; i++)
		ts.emplace_back([&o, &wait, d = pick()] { wait(&o, d); });
	h::join_all(ts);
	vrt::wait_idle();
	for (auto& d : ds)
		d->stop();
	CHECK(o.left.load() == 0 && o.deleted == 1, "%d waiter(s) not released", o.left.load());
	if (o.waited && o.parts > 1) vrt::nontrivial();
}
