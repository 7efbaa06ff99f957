// C05: channel<T>
#include "../lib/vrt_shim.h"
#include <asyncpp/channel.h>
#include "../lib/helpers.h"
#include "../lib/linear.h"
using asyncpp::dispatcher;
using h::QueueDispatcher;

namespace {
	template<typename T>
	struct val;
	template<>
	struct val<int64_t> {
		static int64_t make(int64_t v) { return v; }
		static int64_t get(int64_t v) { return v; }
	};
	template<>
	struct val<h::Tracked> {
		static h::Tracked make(int64_t v) { return h::Tracked(v); }
		static int64_t get(const h::Tracked& v) { return v.get(); }
	};
	template<>
	struct val<h::MoveOnly> {
		static h::MoveOnly make(int64_t v) { return h::MoveOnly(v); }
		static int64_t get(const h::MoveOnly& v) { return v.get(); }
	};

	constexpr int64_t nothing = -1; // read result: nullopt
	enum K { REG_R, REG_W, DONE_R, DONE_W, TRY_R, TRY_W, CLOSE, IS_CLOSED };
	struct Op {
		K k;
		int id = -1;      // operation id
		int64_t v = 0;    // value (written / read)
		bool res = false; // result
	};
	struct Model {
		bool closed = false;
		std::deque<int> rq;
		std::deque<std::pair<int, int64_t>> wq;
		std::map<int, int64_t> rres; // determined, not yet reported
		std::map<int, bool> wres;
		bool final_ok() const { return rres.empty() && wres.empty() && rq.empty() && wq.empty(); }
		std::string key() const {
			std::string s = closed ? "c" : "o";
			for (auto x : rq)
				s += "r" + std::to_string(x);
			for (auto& x : wq)
				s += "w" + std::to_string(x.first);
			for (auto& x : rres)
				s += "R" + std::to_string(x.first) + ":" + std::to_string(x.second);
			for (auto& x : wres)
				s += "W" + std::to_string(x.first) + ":" + std::to_string(x.second);
			return s;
		}
		bool step(const Op& o) {
			switch (o.k) {
			case REG_R:
				if (closed)
					rres[o.id] = nothing;
				else if (!wq.empty()) {
					rres[o.id] = wq.front().second;
					wres[wq.front().first] = true;
					wq.pop_front();
				} else
					rq.push_back(o.id);
				return true;
			case REG_W:
				if (closed)
					wres[o.id] = false;
				else if (!rq.empty()) {
					rres[rq.front()] = o.v;
					rq.pop_front();
					wres[o.id] = true;
				} else
					wq.push_back({o.id, o.v});
				return true;
			case DONE_R: {
				auto it = rres.find(o.id);
				if (it == rres.end() || it->second != o.v) return false;
				rres.erase(it);
				return true;
			}
			case DONE_W: {
				auto it = wres.find(o.id);
				if (it == wres.end() || it->second != o.res) return false;
				wres.erase(it);
				return true;
			}
			case TRY_R:
				if (closed || wq.empty()) return o.v == nothing;
				if (o.v != wq.front().second) return false;
				wres[wq.front().first] = true;
				wq.pop_front();
				return true;
			case TRY_W:
				if (closed || rq.empty()) return !o.res;
				if (!o.res) return false;
				rres[rq.front()] = o.v;
				rq.pop_front();
				return true;
			case CLOSE:
				closed = true;
				for (auto x : rq)
					rres[x] = nothing;
				for (auto& x : wq)
					wres[x.first] = false;
				rq.clear();
				wq.clear();
				return true;
			case IS_CLOSED: return o.res == closed;
			}
			return false;
		}
		void apply(const Op& o, std::vector<Model>& out) const {
			Model m = *this;
			if (m.step(o)) out.push_back(std::move(m));
		}
	};

	// Forwards to an awaiter and records whether the coroutine really suspended.
	template<typename A>
	struct watched {
		A& a;
		bool& immediate;
		bool await_ready() {
			bool r = a.await_ready();
			immediate = r;
			return r;
		}
		auto await_suspend(std::coroutine_handle<> hd) {
			using R = decltype(a.await_suspend(hd));
			if constexpr (std::is_void_v<R>)
				a.await_suspend(hd);
			else {
				auto r = a.await_suspend(hd);
				if constexpr (std::is_same_v<R, bool>) {
					if (!r) immediate = true;
				} else {
					if (r == hd) immediate = true;
				}
				return r;
			}
		}
		auto await_resume() { return a.await_resume(); }
	};

	struct Base {
		h::Linear<Model, Op> lin;
		uint64_t clock = 0;
		int pend[64];
		int next_id = 0, open = 0;
		int suspended = 0, matched = 0, cancelled = 0, failed_try = 0;
		std::vector<std::unique_ptr<QueueDispatcher>> disp;
		bool sequential = false;
		Model seq; // exact model, sequential mode only
		std::map<int, QueueDispatcher*> waiting_on;
		std::vector<char> done;
		Base() {
			for (auto& p : pend)
				p = -1;
		}
		uint64_t now() {
			int me = vrt::self();
			clock++;
			if (pend[me] >= 0) {
				auto& r = lin.ops[pend[me]];
				r.ret = std::min(r.ret, clock);
				pend[me] = -1;
				clock++;
			}
			return clock;
		}
		std::size_t begin(Op o, bool reg) {
			vrt::Quiet q;
			uint64_t t = now();
			lin.ops.push_back({o, t, UINT64_MAX});
			if (reg) {
				pend[vrt::self()] = (int)lin.ops.size() - 1;
				done.push_back(0);
			}
			if (sequential && o.k != TRY_R && o.k != TRY_W && o.k != IS_CLOSED) seq.step(o);
			return lin.ops.size() - 1;
		}
		void end(std::size_t i) { lin.ops[i].ret = now(); }
		void completed(std::size_t reg, Op o) {
			vrt::Quiet q;
			CHECK(!done[o.id], "operation #%d completed twice", o.id);
			done[o.id] = 1;
			uint64_t t = now();
			lin.ops[reg].ret = std::min(lin.ops[reg].ret, t);
			lin.ops.push_back({o, t, t});
			if (sequential) CHECK(seq.step(o), "#%d %s %s with %lld, the model disagrees", o.id, o.k == DONE_R ? "read" : "write", o.res ? "true" : "false", (long long)o.v);
			if (o.k == DONE_R ? o.v != nothing : o.res)
				matched++;
			else
				cancelled++;
		}
	};
	struct Step {
		int kind; // 0 write 1 read 2 try_write 3 try_read 4 close 5 is_closed
		int dmode;
	};
	QueueDispatcher* pick(Base& b, int dmode) { return dmode < 2 ? nullptr : b.disp[dmode - 2].get(); }

	template<typename T>
	struct Ctx : Base {
		asyncpp::channel<T>* ch = nullptr;
		std::unique_ptr<asyncpp::channel<T>> owned;
		bool destroy_in_last = false;
		int budget = 0;
	};
	template<typename T>
	void nested(Ctx<T>* c);

	template<typename T>
	h::co run(Ctx<T>* c, std::vector<Step> steps) {
		for (auto& s : steps) {
			if (h::quiet([&] { return c->ch == nullptr; })) break;
			bool immediate = false;
			auto* cur = static_cast<QueueDispatcher*>(dispatcher::current());
			auto* want = s.dmode == 0 ? cur : pick(*c, s.dmode);
			int id = -1;
			switch (s.kind) {
			case 0: {
				h::quiet([&] { id = c->next_id++; });
				int64_t v = 1000 + id;
				auto aw = c->ch->write(val<T>::make(v));
				if (s.dmode != 0) aw.resume_on(want);
				auto i = c->begin({REG_W, id, v}, true);
				h::quiet([&] { vrt::note("#%d write(%lld)", id, (long long)v); });
				bool r = co_await watched<decltype(aw)>{aw, immediate};
				h::quiet([&] { vrt::note("#%d write -> %d%s", id, r, immediate ? "" : " after waiting"); });
				c->completed(i, {DONE_W, id, v, r});
				break;
			}
			case 1: {
				h::quiet([&] { id = c->next_id++; });
				auto aw = c->ch->read();
				if (s.dmode != 0) aw.resume_on(want);
				auto i = c->begin({REG_R, id}, true);
				h::quiet([&] { vrt::note("#%d read()", id); });
				auto r = co_await watched<decltype(aw)>{aw, immediate};
				int64_t v = r ? val<T>::get(*r) : nothing;
				h::quiet([&] { vrt::note("#%d read -> %lld%s", id, (long long)v, immediate ? "" : " after waiting"); });
				c->completed(i, {DONE_R, id, v});
				break;
			}
			case 2: {
				int64_t v = 500000;
				h::quiet([&] {
					v = 500000 + c->next_id++;
					c->done.push_back(1);
				});
				auto i = c->begin({TRY_W, -1, v}, false);
				bool r = c->ch->try_write(val<T>::make(v));
				h::quiet([&] {
					vrt::note("try_write(%lld) -> %d", (long long)v, r);
					c->lin.ops[i].op.res = r;
					c->end(i);
					if (!r) c->failed_try++;
				});
				continue;
			}
			case 3: {
				auto i = c->begin({TRY_R}, false);
				auto r = c->ch->try_read();
				int64_t v = r ? val<T>::get(*r) : nothing;
				h::quiet([&] {
					vrt::note("try_read -> %lld", (long long)v);
					c->lin.ops[i].op.v = v;
					c->end(i);
					if (v == nothing) c->failed_try++;
				});
				continue;
			}
			case 4: {
				auto i = c->begin({CLOSE}, false);
				h::quiet([&] { vrt::note("close"); });
				c->ch->close();
				h::quiet([&] { c->end(i); });
				continue;
			}
			default: {
				auto i = c->begin({IS_CLOSED}, false);
				bool r = c->ch->is_closed();
				h::quiet([&] {
					c->lin.ops[i].op.res = r;
					c->end(i);
				});
				continue;
			}
			}
			if (!immediate) {
				h::quiet([&] { c->suspended++; });
				if (want) CHECK(dispatcher::current() == want, "#%d continued on the wrong dispatcher", id);
			} else
				CHECK(dispatcher::current() == cur, "#%d did not suspend but changed the dispatcher", id);
		}
		h::quiet([&] { c->open--; });
	}

	template<typename T>
	void concurrent() {
		Ctx<T> c;
		int nd = (int)vrt::size(0, 2);
		for (int i = 0; i < nd; i++)
			c.disp.push_back(std::make_unique<QueueDispatcher>(i));
		int nt = (int)vrt::range(2, 4), total = 0;
		std::vector<std::vector<std::vector<Step>>> prog(nt);
		bool early_close = vrt::chance(1, 3);
		for (auto& p : prog) {
			int n = (int)vrt::range(1, 3);
			for (int i = 0; i < n; i++) {
				std::vector<Step> st;
				int m = (int)vrt::range(1, 3);
				for (int k = 0; k < m && total < 14; k++, total++) {
					uint32_t x = vrt::choose(12);
					Step s;
					s.kind = x < 4 ? 0 : x < 8 ? 1 : x == 8 ? 2 : x == 9 ? 3 : x == 10 ? (early_close ? 4 : 1) : 5;
					s.dmode = (int)vrt::choose(2 + nd);
					st.push_back(s);
				}
				if (!st.empty()) p.push_back(st);
			}
		}
		for (auto& p : prog)
			c.open += (int)p.size();
		int start_on = nd ? (int)vrt::choose(3) : 0;
		{
			asyncpp::channel<T> ch;
			c.ch = &ch;
			for (auto& d : c.disp)
				d->start();
			std::vector<std::vthread> ts;
			int ti = 0;
			for (auto& p : prog) {
				int on = ti++ % 3 == 0 && start_on ? start_on - 1 : -1;
				ts.emplace_back([&c, &p, on, nd] {
					for (auto& s : p) {
						if (on >= 0 && on < nd)
							c.disp[on]->push([&c, &s] {
								run(&c, s);
								h::quiet([&] { c.now(); });
							});
						else {
							run(&c, s);
							h::quiet([&] { c.now(); });
						}
					}
				});
			}
			h::join_all(ts);
			vrt::wait_idle();
			auto i = c.begin({CLOSE}, false);
			ch.close();
			h::quiet([&] { c.end(i); });
			vrt::wait_idle();
			for (auto& d : c.disp)
				d->stop();
			CHECK(ch.is_closed());
			CHECK(c.open == 0, "%d coroutine(s) still suspended after close", c.open);
			c.ch = nullptr;
		}
		int r = c.lin.check(Model{});
		if (r < 0)
			vrt::label("linearizability budget exhausted");
		else
			CHECK(r == 1, "no sequential first-come first-served explanation for this history");
		if (c.matched && c.suspended) vrt::nontrivial(), vrt::label("matched after suspension");
		if (c.cancelled && c.suspended) vrt::label("cancelled");
		if (c.failed_try) vrt::label("failed try");
		if (nd) vrt::label("dispatchers");
	}

	// ---------------------------------------------------------------- sequential, with re-entrancy
	template<typename T>
	struct SeqCtx {
		std::unique_ptr<asyncpp::channel<T>> ch = std::make_unique<asyncpp::channel<T>>();
		Model m;
		QueueDispatcher d[2] = {QueueDispatcher(1), QueueDispatcher(2)};
		int next_id = 0, budget = 0, open = 0, matched = 0, nested_ops = 0;
		bool destroyed = false, destroy_at_close = false;
		std::vector<char> completed;
		int depth = 0;

		static h::co wr(SeqCtx* c, int dm) {
			int id = c->next_id++;
			c->completed.push_back(0);
			c->open++;
			int64_t v = 1000 + id;
			auto aw = c->ch->write(val<T>::make(v));
			auto* cur = dispatcher::current();
			dispatcher* want = dm == 0 ? cur : dm == 1 ? nullptr : &c->d[dm - 2];
			if (dm != 0) aw.resume_on(want);
			c->m.step({REG_W, id, v});
			bool must = c->m.wres.count(id) != 0;
			vrt::note("#%d write(%lld) %s", id, (long long)v, must ? "continues" : "suspends");
			bool imm = false;
			bool r = co_await watched<decltype(aw)>{aw, imm};
			vrt::note("#%d write -> %d", id, r);
			CHECK(!c->completed[id], "completed twice");
			c->completed[id] = 1;
			CHECK(c->m.step({DONE_W, id, v, r}), "#%d write reported %d, model disagrees", id, r);
			CHECK(imm == must, "#%d write %s", id, imm ? "did not suspend without a reader" : "suspended although a reader was waiting");
			if (!imm && want) CHECK(dispatcher::current() == want, "wrong dispatcher");
			c->after(r);
		}
		static h::co rd(SeqCtx* c, int dm) {
			int id = c->next_id++;
			c->completed.push_back(0);
			c->open++;
			auto aw = c->ch->read();
			auto* cur = dispatcher::current();
			dispatcher* want = dm == 0 ? cur : dm == 1 ? nullptr : &c->d[dm - 2];
			if (dm != 0) aw.resume_on(want);
			c->m.step({REG_R, id});
			bool must = c->m.rres.count(id) != 0;
			vrt::note("#%d read %s", id, must ? "continues" : "suspends");
			bool imm = false;
			auto r = co_await watched<decltype(aw)>{aw, imm};
			int64_t v = r ? val<T>::get(*r) : nothing;
			vrt::note("#%d read -> %lld", id, (long long)v);
			CHECK(!c->completed[id], "completed twice");
			c->completed[id] = 1;
			CHECK(c->m.step({DONE_R, id, v}), "#%d read returned %lld, model disagrees", id, (long long)v);
			CHECK(imm == must, "#%d read %s", id, imm ? "did not suspend without a writer" : "suspended although a writer was waiting");
			if (!imm && want) CHECK(dispatcher::current() == want, "wrong dispatcher");
			c->after(v != nothing);
		}
		void after(bool ok) {
			open--;
			if (ok) matched++;
			if (destroy_at_close && m.closed && open == 0 && ch && depth <= 1) {
				// nobody else uses it anymore: the owner may destroy it right here
				vrt::note("channel destroyed inside of the last resumed coroutine");
				destroyed = true;
				vrt::label("destroyed from a resumed coroutine");
				ch.reset();
				return;
			}
			while (ch && budget > 0 && vrt::chance(1, 3)) {
				budget--;
				nested_ops++;
				op(true);
			}
		}
		void op(bool nested) {
			depth++;
			if (ch) switch (vrt::choose(nested ? 9 : 8)) {
				case 0:
				case 1: wr(this, (int)vrt::choose(4)); break;
				case 2:
				case 3: rd(this, (int)vrt::choose(4)); break;
				case 4: {
					int64_t v = 500000 + next_id++;
					completed.push_back(1);
					bool exp = !m.closed && !m.rq.empty();
					vrt::note("try_write(%lld) expects %d", (long long)v, exp);
					m.step({TRY_W, -1, v, exp});
					CHECK(ch->try_write(val<T>::make(v)) == exp, "try_write should return %d", exp);
					break;
				}
				case 5: {
					int64_t exp = m.closed || m.wq.empty() ? nothing : m.wq.front().second;
					vrt::note("try_read expects %lld", (long long)exp);
					m.step({TRY_R, -1, exp});
					auto r = ch->try_read();
					int64_t v = r ? val<T>::get(*r) : nothing;
					CHECK(v == exp, "try_read returned %lld instead of %lld", (long long)v, (long long)exp);
					break;
				}
				case 6: {
					auto& q = d[vrt::choose(2)];
					if (!nested) q.run_one();
					break;
				}
				case 7:
					if (!nested && vrt::chance(2, 3)) {
						d[vrt::choose(2)].push([this] {
							if (ch) {
								if (vrt::flip())
									wr(this, (int)vrt::choose(4));
								else
									rd(this, (int)vrt::choose(4));
							}
						});
						break;
					}
					[[fallthrough]];
				case 8:
					if (nested || vrt::chance(1, 3)) do_close();
					break;
				}
			if (ch) CHECK(ch->is_closed() == m.closed, "is_closed()");
			depth--;
		}
		void do_close() {
			if (!ch) return;
			vrt::note("close");
			m.step({CLOSE});
			ch->close();
		}
	};
	template<typename T>
	void sequential() {
		SeqCtx<T> c;
		int n = (int)vrt::range(2, 30);
		c.budget = (int)vrt::range(0, 10);
		c.destroy_at_close = vrt::chance(1, 4);
		auto check_inline = [&] {
			// everything decided must have been reported unless it waits in a dispatcher
			if (c.d[0].pending() == 0 && c.d[1].pending() == 0)
				CHECK(c.m.rres.empty() && c.m.wres.empty(), "an operation is decided but its coroutine was not resumed");
		};
		for (int i = 0; i < n && c.ch; i++) {
			c.op(false);
			check_inline();
			if (c.m.closed && vrt::chance(1, 2)) break;
		}
		c.depth = 1;
		c.do_close();
		for (int i = 0; i < 1000 && (c.d[0].pending() || c.d[1].pending()); i++) {
			c.d[0].drain();
			c.d[1].drain();
		}
		CHECK(c.open == 0, "%d coroutine(s) still suspended after close", c.open);
		CHECK(c.m.final_ok(), "an operation was never reported");
		if (c.matched > 1) vrt::nontrivial();
		if (c.nested_ops) vrt::label("nested operations");
	}
} // namespace
SCENARIO(concurrent_int, 100) { concurrent<int64_t>(); }
SCENARIO(concurrent_tracked, 200) { concurrent<h::Tracked>(); }
SCENARIO(sequential_tracked, 100, vrt::NO_TSAN) { sequential<h::Tracked>(); }
SCENARIO(sequential_moveonly, 100, vrt::NO_TSAN) { sequential<h::MoveOnly>(); }
// Whoever finished last may destroy the channel, even while the operation that resumed it has not returned
namespace {
	using Ch = asyncpp::channel<h::Tracked>;
	struct Owned {
		Ch* ch;
		std::atomic<int> left{0};
		int deleted = 0, resumed = 0;
		bool by_reader = false;
		int tries = 0;
		void done() {
			if (left.fetch_sub(1) == 1) {
				h::quiet([&] { deleted++; });
				delete ch;
			}
		}
	};
	h::co owned_reader(Owned* o, QueueDispatcher* d, int64_t expect) {
		int me = h::quiet([] { return vrt::self(); });
		for (int i = 0; expect > 0 && i < o->tries; i++) {
			if (auto v = o->ch->try_read(); v) {
				CHECK(v->get() == expect);
				if (o->by_reader) o->done();
				co_return;
			}
			std::this_thread::yield();
		}
		auto v = co_await o->ch->read().resume_on(d);
		CHECK(v.has_value() == (expect != 0) && (!v || v->get() == expect), "unexpected result of read");
		h::quiet([&] { o->resumed += vrt::self() != me; });
		if (expect == 0 || o->by_reader) o->done();
	}
	h::co owned_writer(Owned* o, QueueDispatcher* d, int64_t value, bool accepted) {
		int me = h::quiet([] { return vrt::self(); });
		for (int i = 0; accepted && i < o->tries; i++) {
			if (o->ch->try_write(h::Tracked(value))) {
				if (!o->by_reader) o->done();
				co_return;
			}
			std::this_thread::yield();
		}
		bool r = co_await o->ch->write(h::Tracked(value)).resume_on(d);
		CHECK(r == accepted, "unexpected result of write");
		h::quiet([&] { o->resumed += vrt::self() != me; });
		if (!accepted || !o->by_reader) o->done();
	}
} // namespace
SCENARIO(owned, 30) {
	Owned o;
	o.ch = new Ch();
	int nd = (int)vrt::choose(3);
	std::vector<std::unique_ptr<QueueDispatcher>> ds;
	for (int i = 0; i < nd; i++)
		ds.push_back(std::make_unique<QueueDispatcher>(i));
	auto pick = [&]() -> QueueDispatcher* {
		uint32_t k = vrt::choose((uint32_t)nd + 1);
		return k == 0 ? nullptr : ds[k - 1].get();
	};
	for (auto& d : ds)
		d->start();
	std::vector<std::vthread> ts;
	bool readers = false;
	auto start = [&readers](Owned* o, QueueDispatcher* d, int i) {
		if (readers)
			owned_reader(o, d, 0);
		else
			owned_writer(o, d, 10 + i, false);
	};
	if (vrt::flip()) {
		// one value handed over, one of the two sides destroys the channel
		o.left.store(1);
		o.by_reader = vrt::flip();
		o.tries = (int)vrt::size(0, 3);
		int first = (int)vrt::choose(3);
		if (first == 1) {
			o.tries = 0;
			owned_reader(&o, pick(), 7);
		} else
			ts.emplace_back([&o, d = pick()] { owned_reader(&o, d, 7); });
		if (first == 2) {
			o.tries = 0;
			owned_writer(&o, pick(), 7, true);
		} else
			ts.emplace_back([&o, d = pick()] { owned_writer(&o, d, 7, true); });
		// the other side must be able to get there: it can not find the channel gone before it started,
		// because the value is only handed over once both take part
	} else {
		// closed while at least one operation is pending
		readers = vrt::flip();
		int n = (int)vrt::range(1, 4), early = (int)vrt::range(1, (uint32_t)n);
		o.left.store(n);
		for (int i = 0; i < early; i++)
			start(&o, pick(), i);
		for (int i = early; i < n; i++)
			ts.emplace_back([&o, &start, i, d = pick()] { start(&o, d, i); });
		ts.emplace_back([&o] { o.ch->close(); });
	}
	h::join_all(ts);
	vrt::wait_idle();
	for (auto& d : ds)
		d->stop();
	CHECK(o.left.load() == 0 && o.deleted == 1, "%d operation(s) never finished", o.left.load());
	if (o.resumed) vrt::nontrivial();
}
// Many readers or writers waiting at once
SCENARIO(many_waiters, 1, vrt::NO_TSAN) {
	int n = h::bulk(false), phases = (int)vrt::range(1, 3); // waiting takes time proportional to the number of waiters
	asyncpp::channel<h::Tracked> ch;
	QueueDispatcher d[2];
	std::vector<int64_t> got;
	int nothing_read = 0, refused = 0, accepted = 0;
	int64_t next = 0;
	auto read = [&](dispatcher* on) -> h::co {
		auto r = co_await ch.read().resume_on(on);
		if (r)
			got.push_back(r->get());
		else
			nothing_read++;
	};
	auto write = [&](int64_t v, dispatcher* on) -> h::co {
		if (co_await ch.write(h::Tracked(v)).resume_on(on))
			accepted++;
		else
			refused++;
	};
	auto disp = [&]() -> dispatcher* {
		uint32_t k = vrt::choose(4);
		return k < 2 ? nullptr : &d[k - 2];
	};
	auto drain = [&] {
		d[0].drain();
		d[1].drain();
	};
	for (int p = 0; p < phases; p++) {
		got.clear();
		accepted = 0;
		int64_t first = next;
		bool readers_first = vrt::flip();
		if (readers_first) {
			// each reader on its own dispatcher would reorder the observations, the values count
			for (int i = 0; i < n; i++)
				read(nullptr);
			for (int i = 0; i < n; i++, next++)
				if (vrt::flip())
					write(next, disp());
				else {
					CHECK(ch.try_write(h::Tracked(next)), "try_write failed with %d readers waiting", n - i);
					accepted++;
				}
			CHECK(!ch.try_write(h::Tracked(-5)), "try_write succeeded without a reader");
		} else {
			for (int i = 0; i < n; i++)
				write(next++, disp());
			for (int i = 0; i < n; i++)
				if (vrt::flip())
					read(nullptr);
				else {
					auto r = ch.try_read();
					CHECK(r, "try_read failed with %d writers waiting", n - i);
					got.push_back(r->get());
				}
			CHECK(!ch.try_read(), "try_read succeeded without a writer");
		}
		drain();
		CHECK(accepted == n && (int)got.size() == n, "%d writes accepted, %zu values read", accepted, got.size());
		for (int i = 0; i < n; i++)
			CHECK(got[i] == first + i, "value %lld was read as number %d", (long long)got[i], i);
		CHECK(!nothing_read && !refused, "a read or write failed on an open channel");
	}
	bool readers = vrt::flip();
	for (int i = 0; i < n; i++)
		if (readers)
			read(disp());
		else
			write(i, disp());
	ch.close();
	drain();
	CHECK((readers ? nothing_read : refused) == n, "%d of %d were cancelled by close()", readers ? nothing_read : refused, n);
	if (n > 20) vrt::nontrivial();
}
