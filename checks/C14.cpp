// C14: task<T>. The same generated program is executed as nested coroutines and as nested ordinary functions.
#include "../lib/vrt_shim.h"
#include <asyncpp/task.h>
#include "../lib/hist.h"
using asyncpp::task;
using h::MoveOnly;
using h::QueueDispatcher;
using h::Tracked;

namespace {
	using Vec = std::vector<int64_t>;
	enum RT { R_INT, R_TRACKED, R_MOVE, R_VOID, R_VEC, R_COUNT };
	enum OK { LOG, LOCAL, SUSPEND, HOP, INLINE, AWAIT, DROP, THROW, THROW_INT };
	struct Node;
	struct Op {
		OK k;
		int a = 0;                   // worker, kind of inline await
		int mode = 0;                // how the child task object travels
		bool guarded = false;        // catch what the child throws
		std::unique_ptr<Node> child;
	};
	struct Node {
		int id = 0;
		RT rt = R_INT;
		int ret = 0; // 0 prvalue, 1 copy of the parameter, 2 throwing copy, 3 converted from int64_t
		std::vector<Op> ops;
	};
	struct Err {
		int64_t id;
		Tracked t;
		explicit Err(int64_t i) : id(i), t(i) {}
	};
	struct Abandon {}; // the model's way of leaving at a suspension

	enum EV { E_START = 1, E_LOG, E_DTOR, E_RESUMED, E_VALUE, E_CAUGHT, E_CAUGHT_INT, E_CAUGHT_COPY, E_END, E_ROOT, E_INVALID };
	int64_t ev(EV k, int64_t a, int64_t b = 0) { return ((int64_t)k << 48) | ((a & 0xffffff) << 24) | (b & 0xffffff); }
	std::string show(int64_t e) {
		static const char* n[] = {"?", "start", "log", "~local", "resumed", "value", "caught", "caught int", "caught copy_error", "end", "root", "invalid"};
		return std::string(n[e >> 48]) + " " + std::to_string((e >> 24) & 0xffffff) + "/" + std::to_string(e & 0xffffff);
	}

	struct Trace {
		std::vector<int64_t> v;
		void log(int64_t e) { v.push_back(e); }
	};
	struct Local {
		Trace* t;
		int64_t e;
		Tracked c;
		Local(Trace* t, int64_t e) : t(t), e(e), c(e & 0xffffff) {}
		Local(const Local&) = delete;
		~Local() { t->log(e); }
	};
	struct Locals {
		std::vector<std::unique_ptr<Local>> v;
		~Locals() {
			while (!v.empty())
				v.pop_back();
		}
	};

	// ------------------------------------------------------------ model: nested function calls
	struct Model : Trace {
		std::vector<std::size_t> marks; // trace length at each suspension
		int suspensions = 0, abandon_at = 0;
		int awaits = 0, depth = 0, max_depth = 0, throws = 0;
		void suspension() {
			marks.push_back(v.size());
			if (++suspensions == abandon_at) throw Abandon{};
		}
	};
	int64_t expected_value(const Node& n, int64_t param) {
		if (n.rt == R_VOID) return 77;
		return n.ret == 1 && n.rt == R_TRACKED ? param : n.id;
	}
	int64_t model(Model& m, const Node& n, int64_t param) {
		Locals l;
		struct D {
			Model& m;
			D(Model& m) : m(m) { m.max_depth = std::max(m.max_depth, ++m.depth); }
			~D() { m.depth--; }
		} d(m);
		m.log(ev(E_START, n.id, param));
		int i = 0;
		for (auto& o : n.ops) {
			i++;
			switch (o.k) {
			case LOG: m.log(ev(E_LOG, n.id, i)); break;
			case LOCAL: l.v.push_back(std::make_unique<Local>(&m, ev(E_DTOR, n.id, i))); break;
			case SUSPEND:
			case HOP:
				m.suspension();
				[[fallthrough]];
			case INLINE: m.log(ev(E_RESUMED, n.id, i)); break;
			case DROP: m.log(ev(E_LOG, n.id, i)); break;
			case AWAIT:
				m.awaits++;
				if (o.guarded) {
					try {
						int64_t v = model(m, *o.child, n.id * 10 + i);
						m.log(ev(E_VALUE, n.id, v));
					} catch (const Err& e) { m.log(ev(E_CAUGHT, n.id, e.id)); } catch (int e) {
						m.log(ev(E_CAUGHT_INT, n.id, e));
					} catch (const h::copy_error&) { m.log(ev(E_CAUGHT_COPY, n.id)); }
				} else {
					int64_t v = model(m, *o.child, n.id * 10 + i);
					m.log(ev(E_VALUE, n.id, v));
				}
				break;
			case THROW: m.throws++; throw Err(n.id * 100 + i);
			case THROW_INT: m.throws++; throw (int)(n.id * 100 + i);
			}
		}
		m.log(ev(E_END, n.id));
		if (n.ret == 2 && n.rt == R_TRACKED) {
			m.throws++;
			throw h::copy_error();
		}
		return expected_value(n, param);
	}

	// ------------------------------------------------------------ the same with coroutines
	struct Ctx : Trace {
		std::coroutine_handle<> slot{};
		std::vector<std::unique_ptr<QueueDispatcher>>* workers = nullptr;
		bool inflight = false;
		int on = -1; // strand token: which thread runs this program
	};
	struct hop {
		Ctx* c;
		int w;
		bool await_ready() { return false; }
		void await_suspend(std::coroutine_handle<> hd) {
			auto& ws = *c->workers;
			ws[w % ws.size()]->push([hd] { hd.resume(); });
		}
		void await_resume() {}
	};
	struct inline_await {
		int kind;
		bool await_ready() { return kind == 0; }
		std::coroutine_handle<> await_suspend(std::coroutine_handle<> hd) { return hd; }
		void await_resume() {}
	};
	struct inline_false {
		bool await_ready() { return false; }
		bool await_suspend(std::coroutine_handle<>) { return false; }
		void await_resume() {}
	};
	template<typename R>
	task<R> body(Ctx* c, const Node* n, Tracked param);

	// Runs a child and translates its result
	template<typename R>
	task<int64_t> via(Ctx* c, const Node* n, int64_t param, int mode) {
		auto conv = [](auto&& v) -> int64_t {
			using V = std::decay_t<decltype(v)>;
			static_assert(std::is_same_v<V, R>);
			return h::val<V>::get(v);
		};
#define GO(T)                                                                                                          \
	do {                                                                                                               \
		if constexpr (std::is_void_v<R>) {                                                                             \
			co_await T;                                                                                                \
			co_return 77;                                                                                              \
		} else                                                                                                         \
			co_return conv(co_await T);                                                                                \
	} while (0)
		switch (mode) {
		default: GO(body<R>(c, n, Tracked(param)));
		case 1: {
			auto t = body<R>(c, n, Tracked(param));
			if (!t || !(bool)t) c->log(ev(E_INVALID, n->id, 1));
			GO(t);
		}
		case 2: {
			auto t = body<R>(c, n, Tracked(param));
			auto u = std::move(t);
			if (t || !!t || !u) c->log(ev(E_INVALID, n->id, 2));
			GO(std::move(u));
		}
		case 3: {
			task<R> t(nullptr);
			if (t) c->log(ev(E_INVALID, n->id, 3));
			t = body<R>(c, n, Tracked(param));
			if (!t) c->log(ev(E_INVALID, n->id, 4));
			GO(t);
		}
		case 4: {
			// replaces a task that never ran
			auto t = body<R>(c, n, Tracked(param + 1));
			t = body<R>(c, n, Tracked(param));
			GO(t);
		}
		case 5: {
			std::vector<task<R>> v;
			for (int i = 0; i < 3; i++)
				v.push_back(body<R>(c, n, Tracked(param + (i == 1 ? 0 : i))));
			v.erase(v.begin());
			GO(v[0]);
		}
		case 6: {
			auto t = body<R>(c, n, Tracked(param));
			auto& r = t;
			t = std::move(r); // self move keeps it
			if (!t) c->log(ev(E_INVALID, n->id, 5));
			GO(t);
		}
		case 7: {
			auto p = std::make_unique<task<R>>(body<R>(c, n, Tracked(param)));
			GO(*p);
		}
		}
#undef GO
	}
	template<typename R>
	void drop(Ctx* c, const Node* n, int mode) {
		auto t = body<R>(c, n, Tracked(5));
		if (mode & 1) {
			auto u = std::move(t);
			if (mode & 2) t = std::move(u);
		}
	}
	task<int64_t> dispatch(Ctx* c, const Node* n, int64_t param, int mode) {
		switch (n->rt) {
		case R_INT: return via<int64_t>(c, n, param, mode);
		case R_TRACKED: return via<Tracked>(c, n, param, mode);
		case R_MOVE: return via<MoveOnly>(c, n, param, mode);
		case R_VOID: return via<void>(c, n, param, mode);
		default: return via<Vec>(c, n, param, mode);
		}
	}
	void drop_dispatch(Ctx* c, const Node* n, int mode) {
		switch (n->rt) {
		case R_INT: return drop<int64_t>(c, n, mode);
		case R_TRACKED: return drop<Tracked>(c, n, mode);
		case R_MOVE: return drop<MoveOnly>(c, n, mode);
		case R_VOID: return drop<void>(c, n, mode);
		default: return drop<Vec>(c, n, mode);
		}
	}
	template<typename R>
	task<R> body(Ctx* c, const Node* n, Tracked param) {
		Locals l;
		c->log(ev(E_START, n->id, param.get()));
		int i = 0;
		for (auto& o : n->ops) {
			i++;
			switch (o.k) {
			case LOG: c->log(ev(E_LOG, n->id, i)); break;
			case LOCAL: l.v.push_back(std::make_unique<Local>(c, ev(E_DTOR, n->id, i))); break;
			case SUSPEND:
				co_await h::manual{&c->slot};
				c->log(ev(E_RESUMED, n->id, i));
				break;
			case HOP:
				co_await hop{c, o.a};
				c->log(ev(E_RESUMED, n->id, i));
				break;
			case INLINE:
				if (o.a == 2)
					co_await inline_false{};
				else
					co_await inline_await{o.a};
				c->log(ev(E_RESUMED, n->id, i));
				break;
			case DROP:
				drop_dispatch(c, o.child.get(), o.mode);
				c->log(ev(E_LOG, n->id, i));
				break;
			case AWAIT:
				if (o.guarded) {
					try {
						int64_t v = co_await dispatch(c, o.child.get(), n->id * 10 + i, o.mode);
						c->log(ev(E_VALUE, n->id, v));
					} catch (const Err& e) {
						e.t.check();
						c->log(ev(E_CAUGHT, n->id, e.id));
					} catch (int e) { c->log(ev(E_CAUGHT_INT, n->id, e)); } catch (const h::copy_error&) {
						c->log(ev(E_CAUGHT_COPY, n->id));
					}
				} else {
					int64_t v = co_await dispatch(c, o.child.get(), n->id * 10 + i, o.mode);
					c->log(ev(E_VALUE, n->id, v));
				}
				break;
			case THROW: throw Err(n->id * 100 + i);
			case THROW_INT: throw (int)(n->id * 100 + i);
			}
		}
		c->log(ev(E_END, n->id));
		param.check();
		if constexpr (std::is_same_v<R, Tracked>) {
			if (n->ret == 1) co_return std::as_const(param);
			if (n->ret == 2) {
				vrt::Quiet q; // copies elsewhere on other threads would disturb the countdown: only used single threaded
				h::g_throw_copy = 1;
				co_return std::as_const(param);
			}
			if (n->ret == 3) co_return (int64_t) n->id;
			Tracked t(n->id);
			co_return t;
		} else if constexpr (!std::is_void_v<R>)
			co_return h::val<R>::make(n->id);
	}

	// Outermost coroutine: can be destroyed at any suspension
	struct rootco {
		struct promise_type {
			rootco get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
			std::suspend_always initial_suspend() noexcept { return {}; }
			std::suspend_always final_suspend() noexcept { return {}; }
			void return_void() {}
			void unhandled_exception() { vrt::fail("unexpected exception"); }
		};
		std::coroutine_handle<promise_type> hd;
	};
	rootco root(Ctx* c, const Node* n) {
		try {
			int64_t v = co_await dispatch(c, n, 3, 0);
			c->log(ev(E_ROOT, 1, v));
		} catch (const Err& e) { c->log(ev(E_ROOT, 2, e.id)); } catch (int e) {
			c->log(ev(E_ROOT, 3, e));
		} catch (const h::copy_error&) { c->log(ev(E_ROOT, 4)); }
	}
	void model_root(Model& m, const Node& n) {
		try {
			int64_t v = model(m, n, 3);
			m.log(ev(E_ROOT, 1, v));
		} catch (const Err& e) { m.log(ev(E_ROOT, 2, e.id)); } catch (int e) {
			m.log(ev(E_ROOT, 3, e));
		} catch (const h::copy_error&) { m.log(ev(E_ROOT, 4)); } catch (const Abandon&) {
		}
	}

	struct Gen {
		int next = 1, budget, workers;
		bool copy_throws;
		std::unique_ptr<Node> node(int depth) {
			auto n = std::make_unique<Node>();
			n->id = next++;
			n->rt = (RT)vrt::choose(R_COUNT);
			n->ret = vrt::choose(4);
			if (n->ret == 2 && !copy_throws) n->ret = 0;
			int ops = vrt::size(0, 6);
			for (int i = 0; i < ops && budget > 0; i++) {
				budget--;
				Op o;
				static const int w[] = {3, 4, workers ? 2 : 5, 5, 1, 8, 1, 1, 1};
				int weights[9];
				std::copy(w, w + 9, weights);
				weights[SUSPEND] = workers ? 2 : 5;
				weights[HOP] = workers ? 5 : 0;
				if (depth >= 6) weights[AWAIT] = 0;
				int sum = std::accumulate(weights, weights + 9, 0), x = vrt::choose(sum), k = 0;
				while (x >= weights[k])
					x -= weights[k++];
				o.k = (OK)k;
				switch (o.k) {
				case HOP: o.a = vrt::choose(workers); break;
				case INLINE: o.a = vrt::choose(3); break;
				case AWAIT:
				case DROP:
					o.mode = vrt::choose(8);
					o.guarded = vrt::chance(2, 5);
					o.child = node(depth + 1);
					break;
				default: break;
				}
				n->ops.push_back(std::move(o));
				if (k == THROW || k == THROW_INT) break;
			}
			return n;
		}
	};
	void dump(const Node& n, int d = 0) {
		static const char* rt[] = {"int", "Tracked", "MoveOnly", "void", "vector"};
		vrt::note("%*snode %d -> %s ret=%d", d * 2, "", n.id, rt[n.rt], n.ret);
		static const char* nm[] = {"log", "local", "suspend", "hop", "inline", "await", "drop", "throw", "throw int"};
		for (auto& o : n.ops) {
			vrt::note("%*s  %s a=%d mode=%d%s", d * 2, "", nm[o.k], o.a, o.mode, o.guarded ? " guarded" : "");
			if (o.child) dump(*o.child, d + 1);
		}
	}
	void compare(const Ctx& c, const Model& m, std::size_t upto, const char* when) {
		for (std::size_t i = 0; i < std::max(c.v.size(), upto); i++) {
			if (i < c.v.size() && i < upto && c.v[i] == m.v[i]) continue;
			vrt::fail("%s: step %zu is '%s', nested function calls do '%s'", when, i, i < c.v.size() ? show(c.v[i]).c_str() : "(nothing)",
					  i < upto ? show(m.v[i]).c_str() : "(nothing)");
		}
	}
	void classify(const Model& m) {
		if (m.awaits >= 1 && m.suspensions >= 1) vrt::nontrivial();
		if (m.abandon_at && m.abandon_at <= m.suspensions) vrt::label("destroyed while suspended");
		if (m.throws) vrt::label("an exception left a task");
		if (m.max_depth >= 4) vrt::label("nested 4 deep or more");
	}

	void programs() {
		Gen g{1, 26, 0, true};
		auto n = g.node(0);
		dump(*n);
		Model m;
		{
			Model probe;
			model_root(probe, *n);
			if (probe.suspensions && vrt::chance(2, 5)) m.abandon_at = 1 + vrt::choose(probe.suspensions);
		}
		model_root(m, *n);
		classify(m);
		Ctx c;
		auto r = root(&c, n.get());
		CHECK(c.v.empty(), "something ran before it was awaited");
		if (vrt::chance(1, 30)) {
			r.hd.destroy();
			CHECK(c.v.empty(), "a task ran although it was never awaited");
			return;
		}
		auto step = std::coroutine_handle<>(r.hd);
		for (int i = 0;; i++) {
			step.resume();
			if (i == (int)m.marks.size()) break;
			CHECK(!r.hd.done() && c.slot, "finished although suspension %d is pending", i + 1);
			compare(c, m, m.marks[i], "while suspended");
			if (i + 1 == m.abandon_at) break;
			step = std::exchange(c.slot, {});
		}
		if (m.abandon_at) {
			r.hd.destroy();
			compare(c, m, m.v.size(), "after destruction");
		} else {
			CHECK(r.hd.done() && !c.slot, "a step is missing at the end");
			compare(c, m, m.v.size(), "at the end");
			r.hd.destroy();
			compare(c, m, m.v.size(), "after the end");
		}
	}

	void threads() {
		int nw = vrt::range(1, 3), nr = vrt::range(1, 3);
		std::vector<std::unique_ptr<QueueDispatcher>> ws;
		for (int i = 0; i < nw; i++) {
			ws.push_back(std::make_unique<QueueDispatcher>(i));
			ws.back()->start();
		}
		struct Run {
			std::unique_ptr<Node> n;
			Model m;
			Ctx c;
			rootco r;
			int manual_abandon = 0;
		};
		std::vector<std::unique_ptr<Run>> rs;
		for (int i = 0; i < nr; i++) {
			Gen g{1, 14, nw, false};
			auto x = std::make_unique<Run>();
			x->n = g.node(0);
			dump(*x->n);
			model_root(x->m, *x->n);
			classify(x->m);
			x->c.workers = &ws;
			x->r = root(&x->c, x->n.get());
			rs.push_back(std::move(x));
		}
		for (auto& x : rs) {
			if (vrt::flip())
				ws[vrt::choose(nw)]->push([hd = x->r.hd] { hd.resume(); });
			else
				x->r.hd.resume();
		}
		while (true) {
			vrt::wait_idle();
			bool again = false;
			for (auto& x : rs) {
				if (!x->r.hd) continue;
				// everything is at a standstill: synchronise with the workers so that main may look
				for (auto& w : ws)
					(void)w->pending();
				if (x->r.hd.done()) {
					compare(x->c, x->m, x->m.v.size(), "at the end");
					x->r.hd.destroy();
					x->r.hd = nullptr;
				} else {
					CHECK((bool)x->c.slot, "a coroutine is stuck");
					bool on_a_mark = std::find(x->m.marks.begin(), x->m.marks.end(), x->c.v.size()) != x->m.marks.end();
					CHECK(on_a_mark, "suspended at an unexpected place");
					compare(x->c, x->m, x->c.v.size(), "while suspended");
					auto hd = std::exchange(x->c.slot, {});
					if (vrt::chance(1, 6)) {
						vrt::label("destroyed while suspended");
						auto rh = std::exchange(x->r.hd, {});
						if (vrt::flip())
							rh.destroy();
						else
							ws[vrt::choose(nw)]->push([rh] { rh.destroy(); });
						continue;
					}
					ws[vrt::choose(nw)]->push([hd] { hd.resume(); });
					again = true;
				}
			}
			if (!again) break;
		}
		for (auto& w : ws)
			w->stop();
		for (auto& x : rs)
			CHECK(!x->r.hd);
	}

	// ------------------------------------------------------------ stack use
	struct Meter {
		uintptr_t lo = UINTPTR_MAX, hi = 0;
		__attribute__((noinline)) void here() {
			auto p = (uintptr_t)__builtin_frame_address(0);
			lo = std::min(lo, p);
			hi = std::max(hi, p);
		}
	};
	template<typename R>
	task<R> leaf(Meter* m, std::coroutine_handle<>* slot, int kind) {
		m->here();
		if (kind == 1) co_await h::manual{slot};
		m->here();
		if (kind == 2) throw (int)1;
		if constexpr (!std::is_void_v<R>) co_return h::val<R>::make(1);
	}
	template<typename R>
	task<R> chain(Meter* m, std::coroutine_handle<>* slot, int depth, int kind) {
		m->here();
		if (depth == 0)
			co_await leaf<R>(m, slot, kind);
		else
			co_await chain<R>(m, slot, depth - 1, kind);
		m->here();
		if constexpr (!std::is_void_v<R>) co_return h::val<R>::make(depth);
	}
	template<typename R>
	task<R> loop(Meter* m, std::coroutine_handle<>* slot, int n, int kind, int* caught) {
		for (int i = 0; i < n; i++) {
			m->here();
			try {
				co_await leaf<R>(m, slot, kind);
			} catch (int) { ++*caught; }
		}
		if constexpr (!std::is_void_v<R>) co_return h::val<R>::make(1);
	}
	template<typename R>
	rootco deep_root(Meter* m, std::coroutine_handle<>* slot, bool is_loop, int n, int kind, bool* done, int* caught) {
		m->here();
		try {
			if (is_loop)
				co_await loop<R>(m, slot, n, kind, caught);
			else
				co_await chain<R>(m, slot, n, kind);
		} catch (int) { ++*caught; }
		m->here();
		*done = true;
	}
	template<typename R>
	void stack() {
		bool is_loop = vrt::flip();
		int n = vrt::range(1, 30) * 100, kind = vrt::choose(3), caught = 0;
		Meter m;
		std::coroutine_handle<> slot{};
		bool done = false;
		auto r = deep_root<R>(&m, &slot, is_loop, n, kind, &done, &caught);
		r.hd.resume();
		int resumed = 0;
		while (slot) {
			resumed++;
			std::exchange(slot, {}).resume();
		}
		vrt::note("%s n=%d kind=%d: %zu bytes of stack", is_loop ? "loop" : "chain", n, kind, (std::size_t)(m.hi - m.lo));
		CHECK(done, "did not finish");
		CHECK(caught == (kind == 2 ? (is_loop ? n : 1) : 0), "%d exceptions arrived", caught);
		CHECK(resumed == (kind == 1 ? (is_loop ? n : 1) : 0), "%d suspensions", resumed);
		CHECK(m.hi - m.lo < 8192, "%zu bytes of stack used for %d awaits", (std::size_t)(m.hi - m.lo), n);
		if (n >= 500) vrt::nontrivial();
		r.hd.destroy();
	}
} // namespace

SCENARIO(nested_programs, 60, vrt::NO_TSAN) { programs(); }
SCENARIO(cross_thread_programs, 40) { threads(); }
SCENARIO(stack_use, 1, vrt::NO_TSAN) {
	switch (vrt::choose(3)) {
	case 0: return stack<void>();
	case 1: return stack<int64_t>();
	default: return stack<Tracked>();
	}
}
