// C18: fiber<T> and fib_await. Programs whose nodes are fibers or tasks run against the same program as nested function calls.
#include "../lib/vrt_shim.h"
#include <asyncpp/dispatcher.h>
#include <asyncpp/fiber.h>
#include <asyncpp/task.h>
#include "../lib/helpers.h"
#include <csignal>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "C18_tu2.h"
using asyncpp::fiber;
using asyncpp::task;
using h::MoveOnly;
using h::QueueDispatcher;
using h::Tracked;

namespace {
	enum OK { LOG, LOCAL, SUSPEND, HOP, AWAIT, DROP, THROW, THROW_INT, CATCH, ROUND, CALC, DEEP };
	struct Node;
	struct Op {
		OK k;
		int a = 0, b = 0;
		bool guarded = false;
		std::unique_ptr<Node> child;
	};
	struct Node {
		int id = 0;
		bool is_fiber = true;
		int how = 0; // how the fiber object is awaited
		std::vector<Op> ops;
	};
	struct Err {
		int64_t id;
		Tracked t;
		explicit Err(int64_t i) : id(i), t(i) {}
	};
	struct Abandon {};
	enum EV { E_START = 1, E_LOG, E_DTOR, E_RESUMED, E_VALUE, E_CAUGHT, E_CAUGHT_INT, E_END, E_ROOT, E_IN_CATCH, E_DEEP, E_INVALID };
	int64_t ev(EV k, int64_t a, int64_t b = 0) { return ((int64_t)k << 48) | ((a & 0xffffff) << 24) | (b & 0xffffff); }
	std::string show(int64_t e) {
		static const char* n[] = {"?",	   "start",		 "log", "~local", "resumed",		 "value",
								  "caught", "caught int", "end", "root",	 "in catch handler", "deep", "invalid"};
		return std::string(n[e >> 48]) + " " + std::to_string((e >> 24) & 0xffffff) + "/" + std::to_string(e & 0xffffff);
	}
	struct Trace {
		std::vector<int64_t> v;
		void log(int64_t e) { v.push_back(e); }
	};
	struct Local {
		Trace* t;
		int64_t e;
		Tracked c;
		Local(Trace* t, int64_t e) : t(t), e(e), c(e & 0xffffff) {}
		Local(const Local&) = delete;
		~Local() { t->log(e); }
	};
	struct Locals {
		std::vector<std::unique_ptr<Local>> v;
		~Locals() {
			while (!v.empty())
				v.pop_back();
		}
	};

	// ------------------------------------------------------------ model
	struct Model : Trace {
		std::vector<std::size_t> marks;
		int suspensions = 0, abandon_at = 0;
		int fibers = 0, throws = 0, in_catch = 0;
		void suspension() {
			marks.push_back(v.size());
			if (++suspensions == abandon_at) throw Abandon{};
		}
	};
	// kinds of awaiting something that is not a child
	enum SU { S_VOID, S_TRUE, S_NOOP, S_LVALUE, S_VALUE, S_READY, S_FALSE, S_SELF, S_THROW, S_COUNT };
	bool suspends(int a) { return a <= S_VALUE; }
	int64_t model(Model& m, const Node& n, int64_t param);
	void model_deep(Model& m, const Node& n, const Op& o, int i, int depth) {
		if (depth == 0) {
			m.suspension();
			m.log(ev(E_RESUMED, n.id, i));
		} else {
			Local l(&m, ev(E_DTOR, n.id, 100 * depth + i));
			model_deep(m, n, o, i, depth - 1);
			m.log(ev(E_DEEP, n.id, depth));
		}
	}
	void model_catch(Model& m, const Node& n, const Op& o, int i) {
		m.in_catch++;
		try {
			m.throws++;
			throw Err(n.id * 100 + i);
		} catch (const Err& e) {
			if (o.a & 1) m.suspension();
			m.log(ev(E_IN_CATCH, n.id, e.id));
			if (o.a & 2) {
				try {
					throw (int)(n.id * 100 + i + 1);
				} catch (int x) {
					m.suspension();
					m.log(ev(E_IN_CATCH, n.id, x));
				}
				m.log(ev(E_IN_CATCH, n.id, e.id));
			}
			if (o.a & 4) throw;
		}
	}
	int64_t model(Model& m, const Node& n, int64_t param) {
		if (n.is_fiber) m.fibers++;
		Locals l;
		m.log(ev(E_START, n.id, param));
		int i = 0;
		for (auto& o : n.ops) {
			i++;
			switch (o.k) {
			case LOG: m.log(ev(E_LOG, n.id, i)); break;
			case LOCAL: l.v.push_back(std::make_unique<Local>(&m, ev(E_DTOR, n.id, i))); break;
			case SUSPEND:
				if (!n.is_fiber || suspends(o.a)) m.suspension();
				if (n.is_fiber && o.a == S_THROW)
					m.log(ev(E_CAUGHT, n.id, i));
				else
					m.log(ev(E_RESUMED, n.id, i));
				break;
			case HOP:
				m.suspension();
				m.log(ev(E_RESUMED, n.id, i));
				break;
			case AWAIT:
				if (o.guarded) {
					try {
						m.log(ev(E_VALUE, n.id, model(m, *o.child, n.id * 10 + i)));
					} catch (const Err& e) { m.log(ev(E_CAUGHT, n.id, e.id)); } catch (int e) {
						m.log(ev(E_CAUGHT_INT, n.id, e));
					}
				} else
					m.log(ev(E_VALUE, n.id, model(m, *o.child, n.id * 10 + i)));
				break;
			case DROP: m.log(ev(E_LOG, n.id, i)); break;
			case THROW: m.throws++; throw Err(n.id * 100 + i);
			case THROW_INT: m.throws++; throw (int)(n.id * 100 + i);
			case CATCH: model_catch(m, n, o, i); break;
			case ROUND:
			case CALC: break;
			case DEEP: model_deep(m, n, o, i, o.a); break;
			}
		}
		m.log(ev(E_END, n.id));
		return n.id;
	}

	// ------------------------------------------------------------ the real thing
	struct Ctx : Trace {
		std::coroutine_handle<> slot{};
		std::vector<std::unique_ptr<QueueDispatcher>>* workers = nullptr;
		std::vector<void*> stacks; // one address on each fiber stack seen
	};
	struct hop {
		Ctx* c;
		int w;
		bool await_ready() { return false; }
		void await_suspend(std::coroutine_handle<> hd) {
			auto& ws = *c->workers;
			ws[w % ws.size()]->push([hd] { hd.resume(); });
		}
		void await_resume() {}
	};
	struct AwVoid {
		Ctx* c;
		bool ready;
		bool await_ready() { return ready; }
		void await_suspend(std::coroutine_handle<> hd) { c->slot = hd; }
		void await_resume() {}
	};
	struct AwBool {
		Ctx* c;
		bool r;
		bool await_ready() { return false; }
		bool await_suspend(std::coroutine_handle<> hd) {
			if (r) c->slot = hd;
			return r;
		}
		void await_resume() {}
	};
	struct AwHandle {
		Ctx* c;
		bool self;
		bool await_ready() { return false; }
		std::coroutine_handle<> await_suspend(std::coroutine_handle<> hd) {
			if (self) return hd;
			c->slot = hd;
			return std::noop_coroutine();
		}
		void await_resume() {}
	};
	struct AwLvalue {
		Ctx* c;
		Tracked t{4};
		explicit AwLvalue(Ctx* c) : c(c) {}
		AwLvalue(const AwLvalue&) = delete;
		bool await_ready() { return false; }
		void await_suspend(std::coroutine_handle<> hd) { c->slot = hd; }
		int64_t await_resume() { return t.get(); }
	};
	struct AwValue {
		Ctx* c;
		MoveOnly v;
		bool await_ready() { return false; }
		bool await_suspend(std::coroutine_handle<> hd) {
			c->slot = hd;
			return true;
		}
		MoveOnly await_resume() { return std::move(v); }
	};
	struct AwThrow {
		bool await_ready() { return false; }
		void await_suspend(std::coroutine_handle<>) { throw Err(5); }
		void await_resume() { vrt::fail("await_resume was called although await_suspend failed"); }
	};

	// ------------------------------------------------------------ floating point
	const int modes[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
	__attribute__((noinline)) double divide(volatile double a, volatile double b) { return a / b; }
	__attribute__((noinline)) long double ldivide(volatile long double a, volatile long double b) { return a / b; }
	struct Expect {
		double d[4];
		long double l[4];
		Expect() {
			int old = fegetround();
			for (int i = 0; i < 4; i++) {
				fesetround(modes[i]);
				d[i] = divide(1, 3);
				l[i] = ldivide(-1, 3);
			}
			fesetround(old);
		}
	};
	const Expect expected;
	void calc(int mode, int id) {
		unsigned short cw;
		asm volatile("fnstcw %0" : "=m"(cw));
		unsigned mx = _mm_getcsr();
		// look before the first operation that would trap
		CHECK((cw & 0x3f) == 0x3f && (mx & 0x1f80) == 0x1f80, "floating point exceptions are unmasked (x87 %x, mxcsr %x) in node %d", cw, mx, id);
		CHECK((cw & 0x300) == 0x300, "x87 precision is reduced (%x) in node %d", cw, id);
		if (mode < 0) return;
		double d = divide(1, 3);
		long double l = ldivide(-1, 3);
		CHECK(d == expected.d[mode] && l == expected.l[mode], "rounding mode %d is not in effect in node %d", mode, id);
	}

	// ------------------------------------------------------------ nodes
	struct Res {
		int kind = 0; // 0 value, 1 Err, 2 int
		Tracked v;
		Res(int k, int64_t v) : kind(k), v(v) {}
		int64_t unpack() const {
			if (kind == 1) throw Err(v.get());
			if (kind == 2) throw (int)v.get();
			return v.get();
		}
	};
	struct MoveRes {
		int kind;
		MoveOnly v;
		MoveRes(int k, int64_t v) : kind(k), v(v) {}
		int64_t unpack() const { return Res(kind, v.get()).unpack(); }
	};
	int64_t fbody(Ctx* c, const Node* n, int64_t param);
	task<int64_t> tbody(Ctx* c, const Node* n, Tracked param);

	template<typename R>
	R guarded(Ctx* c, const Node* n, int64_t param) {
		try {
			return R(0, fbody(c, n, param));
		} catch (const Err& e) { return R(1, e.id); } catch (int e) {
			return R(2, e);
		}
	}
	template<typename R>
	struct Fn {
		Ctx* c;
		const Node* n;
		Tracked param;
		R operator()() const { return guarded<R>(c, n, param.get()); }
	};
	struct FnOut { // for fiber<void>
		Ctx* c;
		const Node* n;
		Tracked param;
		std::optional<Res>* out;
		void operator()() { out->emplace(guarded<Res>(c, n, param.get())); }
	};
	std::size_t stack_size(const Node* n) { return 160000 + n->id % 5 * 20001; }

	// the object stays in scope while it is awaited
#define WITH_FIBER(AWAIT)                                                                                              \
	switch (n->how) {                                                                                                  \
	case 0: {                                                                                                          \
		fiber<Res> f(Fn<Res>{c, n, param}, stack_size(n));                                                             \
		return_value(AWAIT(f).unpack());                                                                               \
	}                                                                                                                  \
	case 1: {                                                                                                          \
		fiber<Res> f(Fn<Res>{c, n, param}, stack_size(n));                                                             \
		return_value(AWAIT(std::move(f)).unpack());                                                                    \
	}                                                                                                                  \
	case 2: {                                                                                                          \
		fiber<MoveRes> f(Fn<MoveRes>{c, n, param}, stack_size(n));                                                     \
		return_value(AWAIT(std::move(f)).unpack());                                                                    \
	}                                                                                                                  \
	case 3: {                                                                                                          \
		fiber<Res> f, g(Fn<Res>{c, n, param}, stack_size(n));                                                          \
		f = std::move(g);                                                                                              \
		auto k(std::move(f));                                                                                          \
		return_value(AWAIT(k).unpack());                                                                               \
	}                                                                                                                  \
	case 4: {                                                                                                          \
		std::optional<Res> out;                                                                                        \
		fiber<void> f(FnOut{c, n, param, &out}, stack_size(n));                                                        \
		AWAIT(f);                                                                                                      \
		return_value(out->unpack());                                                                                   \
	}                                                                                                                  \
	case 5: {                                                                                                          \
		/* callable given as an lvalue that does not live long */                                                      \
		std::optional<Res> out;                                                                                        \
		fiber<void> f;                                                                                                 \
		{                                                                                                              \
			auto fn = std::make_unique<FnOut>(FnOut{c, n, param, &out});                                               \
			f = fiber<void>(*fn, stack_size(n));                                                                       \
		}                                                                                                              \
		AWAIT(std::move(f));                                                                                           \
		return_value(out->unpack());                                                                                   \
	}                                                                                                                  \
	case 6: {                                                                                                          \
		/* replaces a fiber that never ran, and is awaited twice */                                                    \
		fiber<Res> f(Fn<Res>{c, n, Tracked(param.get() + 1)}, stack_size(n));                                          \
		f = fiber<Res>(Fn<Res>{c, n, param}, stack_size(n));                                                           \
		auto first = AWAIT(f);                                                                                         \
		auto second = AWAIT(f);                                                                                        \
		if (first.kind != second.kind || !(first.v == second.v)) c->log(ev(E_INVALID, n->id, 1));                      \
		return_value(first.unpack());                                                                                  \
	}                                                                                                                  \
	case 7: {                                                                                                          \
		/* a callable that changes itself */                                                                           \
		fiber f([c, n, param, calls = 0]() mutable {                                                                   \
			if (++calls != 1) vrt::fail("the function of a fiber ran %d times", calls);                                \
			return guarded<Res>(c, n, param.get());                                                                    \
		});                                                                                                            \
		return_value(AWAIT(f).unpack());                                                                               \
	}                                                                                                                  \
	case 8: {                                                                                                          \
		/* made by another translation unit */                                                                         \
		std::optional<Res> out;                                                                                        \
		auto f = c18_make(FnOut{c, n, param, &out}, stack_size(n));                                                    \
		AWAIT(f);                                                                                                      \
		return_value(out->unpack());                                                                                   \
	}                                                                                                                  \
	default: return_value(AWAIT(fiber<Res>(Fn<Res>{c, n, param}, stack_size(n))).unpack());                            \
	}
	task<int64_t> await_fiber(Ctx* c, const Node* n, Tracked param) {
#define return_value co_return
#define DO_AWAIT(x) (co_await (x))
		WITH_FIBER(DO_AWAIT)
#undef DO_AWAIT
#undef return_value
	}
	auto awaiter_of(fiber<Res>& f) { return f.operator co_await(); }
	auto awaiter_of(fiber<Res>&& f) { return std::move(f).operator co_await(); }
	auto awaiter_of(fiber<MoveRes>&& f) { return std::move(f).operator co_await(); }
	auto awaiter_of(fiber<void>& f) { return f.operator co_await(); }
	auto awaiter_of(fiber<void>&& f) { return std::move(f).operator co_await(); }
	int64_t fib_await_fiber(Ctx* c, const Node* n, Tracked param) {
#define return_value return
#define DO_AWAIT(x) (fib_await awaiter_of(x))
		WITH_FIBER(DO_AWAIT)
#undef DO_AWAIT
#undef return_value
	}
	task<int64_t> child_from_task(Ctx* c, const Node* n, int64_t param) {
		if (n->is_fiber) return await_fiber(c, n, Tracked(param));
		return tbody(c, n, Tracked(param));
	}
	int64_t child_from_fiber(Ctx* c, const Node* n, int64_t param) {
		if (n->is_fiber) return fib_await_fiber(c, n, Tracked(param));
		auto t = tbody(c, n, Tracked(param));
		auto a = t.operator co_await();
		return n->how & 1 ? fib_await a : fiber<void>::fiber_await(std::move(a));
	}
	void drop(Ctx* c, const Node* n) {
		if (n->how & 1) {
			fiber<void> f(FnOut{c, n, Tracked(1), nullptr}, stack_size(n));
			auto g = std::move(f);
		} else {
			fiber<Res> f(Fn<Res>{c, n, Tracked(1)}, stack_size(n));
			if (n->how & 2) f = fiber<Res>();
		}
	}
	__attribute__((noinline)) void deep(Ctx* c, const Node* n, const Op* o, int i, int depth) {
		if (depth == 0) {
			if (c->workers)
				fib_await hop{c, o->b};
			else
				fib_await AwVoid{c, false};
			c->log(ev(E_RESUMED, n->id, i));
			return;
		}
		volatile unsigned char block[1500];
		for (std::size_t k = 0; k < sizeof(block); k++)
			block[k] = (unsigned char)(k * 7 + depth + n->id);
		Local l(c, ev(E_DTOR, n->id, 100 * depth + i));
		deep(c, n, o, i, depth - 1);
		for (std::size_t k = 0; k < sizeof(block); k++)
			if (block[k] != (unsigned char)(k * 7 + depth + n->id)) vrt::fail("the stack of fiber %d was overwritten", n->id);
		c->log(ev(E_DEEP, n->id, depth));
	}
	void pause_in_catch(Ctx* c, int w) {
		if (c->workers)
			fib_await hop{c, w};
		else
			c18_pause(&c->slot);
	}
	void catcher(Ctx* c, const Node* n, const Op& o, int i) {
		try {
			throw Err(n->id * 100 + i);
		} catch (const Err& e) {
			auto before = std::current_exception();
			if (o.a & 1) pause_in_catch(c, o.b);
			e.t.check();
			c->log(ev(E_IN_CATCH, n->id, e.id));
			if (o.a & 2) {
				try {
					throw (int)(n->id * 100 + i + 1);
				} catch (int x) {
					pause_in_catch(c, o.b);
					c->log(ev(E_IN_CATCH, n->id, x));
					try {
						std::rethrow_exception(std::current_exception());
					} catch (int y) { CHECK(x == y, "another exception is current"); }
				}
				c->log(ev(E_IN_CATCH, n->id, e.id));
			}
			CHECK(std::current_exception() == before, "another exception is current in the handler of fiber %d", n->id);
			if (o.a & 4) throw;
		}
	}
	int64_t fbody(Ctx* c, const Node* n, int64_t param) {
		int round = -1;
		Locals l;
		c->log(ev(E_START, n->id, param));
		if (!c->workers) c->stacks.push_back(__builtin_frame_address(0));
		calc(round, n->id);
		int i = 0;
		for (auto& o : n->ops) {
			i++;
			switch (o.k) {
			case LOG: c->log(ev(E_LOG, n->id, i)); break;
			case LOCAL: l.v.push_back(std::make_unique<Local>(c, ev(E_DTOR, n->id, i))); break;
			case SUSPEND:
				switch (o.a) {
				case S_VOID:
					if (o.b & 1)
						c18_pause(&c->slot);
					else
						fib_await AwVoid{c, false};
					break;
				case S_TRUE: fib_await AwBool{c, true}; break;
				case S_NOOP: fib_await AwHandle{c, false}; break;
				case S_LVALUE: {
					AwLvalue a(c);
					if (int64_t v = fib_await a; v != 4) c->log(ev(E_INVALID, n->id, 2));
					break;
				}
				case S_VALUE: {
					MoveOnly v = fib_await AwValue{c, MoveOnly(9)};
					if (v.get() != 9) c->log(ev(E_INVALID, n->id, 3));
					break;
				}
				case S_READY: fib_await AwVoid{c, true}; break;
				case S_FALSE: fib_await AwBool{c, false}; break;
				case S_SELF: fib_await AwHandle{c, true}; break;
				case S_THROW:
					try {
						fib_await AwThrow{};
						c->log(ev(E_INVALID, n->id, 4));
					} catch (const Err& e) {
						if (e.t.get() != 5) c->log(ev(E_INVALID, n->id, 5));
						c->log(ev(E_CAUGHT, n->id, i));
					}
					break;
				}
				if (o.a != S_THROW) c->log(ev(E_RESUMED, n->id, i));
				break;
			case HOP:
				fib_await hop{c, o.b};
				CHECK(asyncpp::dispatcher::current() == (*c->workers)[o.b % c->workers->size()].get(), "fiber %d is on another dispatcher", n->id);
				c->log(ev(E_RESUMED, n->id, i));
				break;
			case AWAIT:
				if (o.guarded) {
					try {
						c->log(ev(E_VALUE, n->id, child_from_fiber(c, o.child.get(), n->id * 10 + i)));
					} catch (const Err& e) {
						e.t.check();
						c->log(ev(E_CAUGHT, n->id, e.id));
					} catch (int e) { c->log(ev(E_CAUGHT_INT, n->id, e)); }
				} else
					c->log(ev(E_VALUE, n->id, child_from_fiber(c, o.child.get(), n->id * 10 + i)));
				break;
			case DROP:
				drop(c, o.child.get());
				c->log(ev(E_LOG, n->id, i));
				break;
			case THROW: throw Err(n->id * 100 + i);
			case THROW_INT: throw (int)(n->id * 100 + i);
			case CATCH: catcher(c, n, o, i); break;
			case ROUND:
				round = o.a;
				fesetround(modes[round]);
				break;
			case CALC: calc(round, n->id); break;
			case DEEP: deep(c, n, &o, i, o.a); break;
			}
			calc(round, n->id);
		}
		c->log(ev(E_END, n->id));
		return n->id;
	}
	task<int64_t> tbody(Ctx* c, const Node* n, Tracked param) {
		Locals l;
		c->log(ev(E_START, n->id, param.get()));
		int i = 0;
		for (auto& o : n->ops) {
			i++;
			switch (o.k) {
			case LOG: c->log(ev(E_LOG, n->id, i)); break;
			case LOCAL: l.v.push_back(std::make_unique<Local>(c, ev(E_DTOR, n->id, i))); break;
			case SUSPEND:
				co_await h::manual{&c->slot};
				c->log(ev(E_RESUMED, n->id, i));
				break;
			case HOP:
				co_await hop{c, o.b};
				c->log(ev(E_RESUMED, n->id, i));
				break;
			case AWAIT:
				if (o.guarded) {
					try {
						int64_t v = co_await child_from_task(c, o.child.get(), n->id * 10 + i);
						c->log(ev(E_VALUE, n->id, v));
					} catch (const Err& e) { c->log(ev(E_CAUGHT, n->id, e.id)); } catch (int e) {
						c->log(ev(E_CAUGHT_INT, n->id, e));
					}
				} else {
					int64_t v = co_await child_from_task(c, o.child.get(), n->id * 10 + i);
					c->log(ev(E_VALUE, n->id, v));
				}
				break;
			case DROP:
				drop(c, o.child.get());
				c->log(ev(E_LOG, n->id, i));
				break;
			case THROW: throw Err(n->id * 100 + i);
			case THROW_INT: throw (int)(n->id * 100 + i);
			default: break;
			}
		}
		c->log(ev(E_END, n->id));
		co_return n->id;
	}
	struct rootco {
		struct promise_type {
			rootco get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
			std::suspend_always initial_suspend() noexcept { return {}; }
			std::suspend_always final_suspend() noexcept { return {}; }
			void return_void() {}
			void unhandled_exception() { vrt::fail("unexpected exception"); }
		};
		std::coroutine_handle<promise_type> hd;
	};
	rootco root(Ctx* c, const Node* n) {
		try {
			int64_t v = co_await child_from_task(c, n, 3);
			c->log(ev(E_ROOT, 1, v));
		} catch (const Err& e) { c->log(ev(E_ROOT, 2, e.id)); } catch (int e) {
			c->log(ev(E_ROOT, 3, e));
		}
	}
	void model_root(Model& m, const Node& n) {
		try {
			int64_t v = model(m, n, 3);
			m.log(ev(E_ROOT, 1, v));
		} catch (const Err& e) { m.log(ev(E_ROOT, 2, e.id)); } catch (int e) {
			m.log(ev(E_ROOT, 3, e));
		} catch (const Abandon&) {
		}
	}

	struct Gen {
		int next = 1, budget, workers, fibers;
		std::unique_ptr<Node> node(int depth) {
			auto n = std::make_unique<Node>();
			n->id = next++;
			n->is_fiber = depth == 0 || (fibers > 0 && vrt::choose(3) != 2);
			if (n->is_fiber) fibers--;
			n->how = vrt::choose(10);
			int ops = vrt::size(0, 6);
			for (int i = 0; i < ops && budget > 0; i++) {
				budget--;
				// LOG, LOCAL, SUSPEND, HOP, AWAIT, DROP, THROW, THROW_INT, CATCH, ROUND, CALC, DEEP
				int w[] = {1, 4, workers ? 3 : 8, workers ? 7 : 0, 6, 1, 1, 1, 2, 2, 1, 1};
				if (depth >= 4) w[AWAIT] = 0;
				if (!n->is_fiber) w[CATCH] = w[ROUND] = w[CALC] = w[DEEP] = 0;
				int x = vrt::choose(std::accumulate(std::begin(w), std::end(w), 0)), k = 0;
				while (x >= w[k])
					x -= w[k++];
				Op o;
				o.k = (OK)k;
				if (workers) o.b = vrt::choose(workers);
				switch (o.k) {
				case SUSPEND:
					o.a = vrt::choose(S_COUNT);
					if (o.a == S_VOID && !workers) o.b = vrt::choose(2);
					break;
				case CATCH: o.a = vrt::choose(8); break;
				case ROUND: o.a = vrt::choose(4); break;
				case DEEP: o.a = vrt::range(1, 12); break;
				case AWAIT:
				case DROP:
					o.guarded = vrt::chance(2, 5);
					o.child = node(depth + 1);
					break;
				default: break;
				}
				n->ops.push_back(std::move(o));
				if (k == THROW || k == THROW_INT) break;
			}
			return n;
		}
	};
	void dump(const Node& n, int d = 0) {
		static const char* nm[] = {"log", "local", "suspend", "hop", "await", "drop", "throw", "throw int", "catch", "round", "calc", "deep"};
		vrt::note("%*s%s %d how=%d", d * 2, "", n.is_fiber ? "fiber" : "task", n.id, n.how);
		for (auto& o : n.ops) {
			vrt::note("%*s  %s %d%s", d * 2, "", nm[o.k], o.a, o.guarded ? " guarded" : "");
			if (o.child) dump(*o.child, d + 1);
		}
	}
	void compare(const Ctx& c, const Model& m, std::size_t upto, const char* when) {
		for (std::size_t i = 0; i < std::max(c.v.size(), upto); i++) {
			if (i < c.v.size() && i < upto && c.v[i] == m.v[i]) continue;
			vrt::fail("%s: step %zu is '%s', nested function calls do '%s'", when, i, i < c.v.size() ? show(c.v[i]).c_str() : "(nothing)",
					  i < upto ? show(m.v[i]).c_str() : "(nothing)");
		}
	}
	void classify(const Model& m) {
		if (m.suspensions >= 1 && m.fibers >= 1) vrt::nontrivial();
		if (m.fibers >= 2) vrt::label("several fibers");
		if (m.throws) vrt::label("exceptions thrown");
		if (m.in_catch) vrt::label("handlers in fibers");
		if (m.abandon_at) vrt::label("destroyed while suspended");
	}
	bool mapped(void* p) {
		unsigned char vec;
		auto page = (void*)((uintptr_t)p & ~(uintptr_t)4095);
		return mincore(page, 4096, &vec) == 0 || errno != ENOMEM;
	}
	void check_stacks(Ctx& c) {
		// only one fiber ran per mapping; later mappings may have reused the place
		for (auto p : c.stacks)
			CHECK(!mapped(p), "the stack of a fiber still exists");
	}
	// resume in the middle of other exceptional things
	void resume_somehow(std::coroutine_handle<> hd, int how) {
		if (how == 1) {
			try {
				throw std::runtime_error("outer");
			} catch (const std::runtime_error& e) {
				hd.resume();
				CHECK(std::string(e.what()) == "outer");
				auto cur = std::current_exception();
				CHECK((bool)cur, "the exception handled by the resuming code is not current anymore");
				try {
					throw;
				} catch (const std::runtime_error& e2) { CHECK(&e2 == &e, "rethrow found another exception"); }
			}
		} else if (how == 2) {
			struct R {
				std::coroutine_handle<> hd;
				~R() {
					int before = std::uncaught_exceptions();
					hd.resume();
					CHECK(std::uncaught_exceptions() == before, "%d uncaught exceptions instead of %d", std::uncaught_exceptions(), before);
				}
			};
			try {
				R r{hd};
				throw 5;
			} catch (int x) { CHECK(x == 5); }
		} else
			hd.resume();
	}

	struct Run {
		std::unique_ptr<Node> n;
		Model m;
		Ctx c;
		rootco r;
		std::size_t mark = 0;
		bool started = false, over = false;
	};
	// several programs take turns on one thread
	void programs() {
		int nr = vrt::range(1, 3);
		std::vector<std::unique_ptr<Run>> rs;
		for (int i = 0; i < nr; i++) {
			Gen g{1, 16 / nr + 4, 0, 5};
			auto x = std::make_unique<Run>();
			x->n = g.node(0);
			dump(*x->n);
			{
				Model probe;
				model_root(probe, *x->n);
				if (probe.suspensions && vrt::chance(2, 5)) x->m.abandon_at = 1 + vrt::choose(probe.suspensions);
			}
			model_root(x->m, *x->n);
			classify(x->m);
			x->r = root(&x->c, x->n.get());
			rs.push_back(std::move(x));
		}
		if (nr > 1) vrt::label("interleaved programs");
		int left = nr;
		while (left) {
			// pick one that is not over
			int k = vrt::choose(left), idx = 0;
			for (;; idx++)
				if (!rs[idx]->over && k-- == 0) break;
			auto& x = *rs[idx];
			auto step = x.started ? std::exchange(x.c.slot, {}) : std::coroutine_handle<>(x.r.hd);
			x.started = true;
			int how = vrt::chance(1, 4) ? 1 + vrt::choose(2) : 0;
			vrt::note("resume program %d (how %d)", idx, how);
			resume_somehow(step, how);
			calc(0, -1);
			if (x.mark == x.m.marks.size()) {
				CHECK(x.r.hd.done() && !x.c.slot, "a step is missing at the end");
				compare(x.c, x.m, x.m.v.size(), "at the end");
				x.r.hd.destroy();
				compare(x.c, x.m, x.m.v.size(), "after the end");
				x.over = true;
			} else {
				CHECK(!x.r.hd.done() && x.c.slot, "finished although suspension %zu is pending", x.mark + 1);
				compare(x.c, x.m, x.m.marks[x.mark], "while suspended");
				if ((int)++x.mark == x.m.abandon_at) {
					vrt::note("destroy program %d", idx);
					if (vrt::chance(1, 4)) {
						// destruction during unwinding
						struct R {
							std::coroutine_handle<> hd;
							~R() { hd.destroy(); }
						};
						try {
							R r{x.r.hd};
							throw 5;
						} catch (int e) { CHECK(e == 5); }
					} else
						x.r.hd.destroy();
					calc(0, -1);
					compare(x.c, x.m, x.m.v.size(), "after destruction");
					x.over = true;
				}
			}
			if (x.over) left--;
		}
		for (auto& x : rs)
			check_stacks(x->c);
	}

	void threads() {
		int nw = vrt::range(1, 3), nr = vrt::range(1, 3);
		std::vector<std::unique_ptr<QueueDispatcher>> ws;
		for (int i = 0; i < nw; i++) {
			ws.push_back(std::make_unique<QueueDispatcher>(i));
			ws.back()->start();
		}
		std::vector<std::unique_ptr<Run>> rs;
		for (int i = 0; i < nr; i++) {
			Gen g{1, 12, nw, 4};
			auto x = std::make_unique<Run>();
			x->n = g.node(0);
			dump(*x->n);
			model_root(x->m, *x->n);
			classify(x->m);
			x->c.workers = &ws;
			x->r = root(&x->c, x->n.get());
			rs.push_back(std::move(x));
		}
		for (auto& x : rs) {
			if (vrt::flip())
				ws[vrt::choose(nw)]->push([hd = x->r.hd] { hd.resume(); });
			else
				x->r.hd.resume();
		}
		while (true) {
			vrt::wait_idle();
			bool again = false;
			for (auto& w : ws)
				(void)w->pending();
			for (auto& x : rs) {
				if (!x->r.hd) continue;
				if (x->r.hd.done()) {
					compare(x->c, x->m, x->m.v.size(), "at the end");
					x->r.hd.destroy();
					x->r.hd = nullptr;
				} else {
					CHECK((bool)x->c.slot, "a fiber or coroutine is stuck");
					bool on_a_mark = std::find(x->m.marks.begin(), x->m.marks.end(), x->c.v.size()) != x->m.marks.end();
					CHECK(on_a_mark, "suspended at an unexpected place");
					compare(x->c, x->m, x->c.v.size(), "while suspended");
					auto hd = std::exchange(x->c.slot, {});
					again = true;
					if (vrt::chance(1, 6)) {
						vrt::label("destroyed while suspended");
						auto rh = std::exchange(x->r.hd, {});
						ws[vrt::choose(nw)]->push([rh] { rh.destroy(); });
						continue;
					}
					ws[vrt::choose(nw)]->push([hd] { hd.resume(); });
				}
			}
			if (!again) break;
		}
		for (auto& w : ws)
			w->stop();
		for (auto& x : rs)
			CHECK(!x->r.hd);
	}

	// ------------------------------------------------------------ awaiting and destroying from outside
	// A fiber awaited by a coroutine that does not own it, destroyed at any point.
	h::co no_owner(fiber<void>* f, bool* resumed, std::coroutine_handle<>* self_slot) {
		struct spy {
			fiber<void>* f;
			std::coroutine_handle<>* out;
			decltype(f->await()) a;
			bool await_ready() { return a.await_ready(); }
			auto await_suspend(std::coroutine_handle<> h) {
				*out = h;
				return a.await_suspend(h);
			}
			void await_resume() { a.await_resume(); }
		};
		co_await spy{f, self_slot, f->await()};
		*resumed = true;
	}
	h::co second(fiber<void>* f, int* outcome) {
		try {
			co_await *f;
			*outcome = 1;
		} catch (const std::logic_error&) { *outcome = 2; }
	}
	void outside() {
		int suspensions = vrt::choose(4), stop = vrt::choose(suspensions + 2);
		Ctx c;
		int unwound = 0, ran = 0;
		bool resumed = false;
		std::coroutine_handle<> self{};
		bool swallow = vrt::chance(1, 3);
		auto f = std::make_unique<fiber<void>>([&, suspensions] {
			struct U {
				int& u;
				Tracked t{1};
				~U() { u++; }
			} u{unwound};
			ran++;
			for (int i = 0; i < suspensions; i++) {
				if (swallow) {
					try {
						fib_await AwVoid{&c, false};
					} catch (...) { return; }
				} else
					fib_await AwVoid{&c, false};
			}
		});
		CHECK(ran == 0, "ran before it was awaited");
		if (stop == 0) {
			f.reset();
			CHECK(ran == 0 && unwound == 0, "destroying an unstarted fiber ran its function");
			return;
		}
		vrt::nontrivial();
		no_owner(f.get(), &resumed, &self);
		bool dup = false;
		for (int i = 1; i < stop; i++) {
			CHECK(!resumed && c.slot, "finished early");
			if (vrt::chance(1, 4)) {
				int outcome = 0;
				dup = true;
				second(f.get(), &outcome);
				CHECK(outcome == 2, "a second coroutine awaited the fiber: %d", outcome);
			}
			std::exchange(c.slot, {}).resume();
		}
		bool finished = stop == suspensions + 1;
		CHECK(ran == 1 && resumed == finished && unwound == (finished ? 1 : 0), "after %d of %d suspensions: resumed=%d unwound=%d", stop - 1,
			  suspensions, resumed, unwound);
		if (finished) {
			int outcome = 0;
			second(f.get(), &outcome);
			CHECK(outcome == 1, "awaiting a finished fiber: %d", outcome);
		}
		f.reset();
		CHECK(unwound == 1, "the locals of a destroyed fiber were destroyed %d times", unwound);
		CHECK(resumed == finished, "destroying a fiber completed its awaiter");
		if (!finished) self.destroy();
		(void)dup;
		// api
		fiber<void> e;
		fiber<int> e2;
		int threw = 0;
		try {
			(void)e.await();
		} catch (const std::logic_error&) { threw++; }
		try {
			(void)e2.await();
		} catch (const std::logic_error&) { threw++; }
		CHECK(threw == 2, "awaiting an empty fiber");
	}

	// ------------------------------------------------------------ stack space
#define NO_SAN __attribute__((noinline, no_sanitize("address"), no_sanitize("undefined"), no_sanitize("thread")))
	// writes (or verifies) the stack from here down to the given depth below top; returns the first address that differs
	NO_SAN std::size_t stack_pattern(char* top, std::size_t depth, unsigned char salt, bool suspend, Ctx* c) {
		char here = 0;
		std::size_t used = static_cast<std::size_t>(top - &here) + 64;
		if (used >= depth) return 0;
		std::size_t n = depth - used;
		auto block = static_cast<volatile unsigned char*>(__builtin_alloca(n));
		for (std::size_t i = n; i > 0; i -= std::min<std::size_t>(i, 64))
			block[i - 1] = (unsigned char)(i * 31 + salt);
		block[0] = salt;
		if (suspend) fib_await AwVoid{c, false};
		std::size_t bad = block[0] != salt ? 1 : 0;
		for (std::size_t i = n; i > 0 && !bad; i -= std::min<std::size_t>(i, 64))
			if (i > 1 && block[i - 1] != (unsigned char)(i * 31 + salt)) bad = i;
		return bad;
	}
	struct Spacious {
		Ctx c;
		std::size_t size = 0;
		int rounds = 0, done = 0;
		std::size_t bad = 0;
		fiber<void> f;
	};
	constexpr std::size_t entry_overhead = 3000;  // frames of the library above the entry function
	constexpr std::size_t suspend_overhead = 9000; // ... and below the caller of fib_await (sanitizer builds)
	void stack_space_impl() {
		vrt::nontrivial();
		int n = vrt::range(1, 4);
		std::vector<std::unique_ptr<Spacious>> fs;
		for (int i = 0; i < n; i++) {
			auto s = std::make_unique<Spacious>();
			// sizes close to (above and below) multiples of the page size matter most
			std::size_t pages = 5 + vrt::choose(60);
			s->size = pages * 4096;
			switch (vrt::choose(4)) {
			case 0: break;
			case 1: s->size -= 1 + vrt::choose(64); break;
			case 2: s->size += 1 + vrt::choose(64); break;
			default: s->size += vrt::choose(4096);
			}
			s->rounds = vrt::choose(3);
			vrt::note("fiber %d: %zu byte, %d suspensions", i, s->size, s->rounds);
			s->f = fiber<void>(
				[s = s.get(), i] {
					char* top = static_cast<char*>(__builtin_frame_address(0));
					if ((s->bad = stack_pattern(top, s->size - entry_overhead, (unsigned char)i, false, nullptr))) return;
					for (int r = 0; r < s->rounds; r++)
						if ((s->bad = stack_pattern(top, s->size - suspend_overhead, (unsigned char)(i + 16 * r), true, &s->c))) return;
					s->done++;
				},
				s->size);
			fs.push_back(std::move(s));
		}
		for (auto& s : fs) {
			bool resumed = false;
			[](fiber<void>* f) -> h::co { co_await *f; }(&s->f);
			(void)resumed;
		}
		for (bool any = true; any;) {
			any = false;
			for (auto& s : fs) {
				if (!s->c.slot) continue;
				any = true;
				if (vrt::flip()) continue;
				std::exchange(s->c.slot, {}).resume();
			}
			if (any) {
				for (auto& s : fs)
					if (s->c.slot) {
						std::exchange(s->c.slot, {}).resume();
						break;
					}
			}
		}
		for (auto& s : fs) {
			CHECK(s->bad == 0, "the stack was overwritten at offset %zu", s->bad);
			CHECK(s->done == 1, "a fiber did not finish");
		}
	}
	// using more than the stack faults at once instead of writing to foreign memory
	NO_SAN void overflow(char* top, std::size_t from, std::size_t to, volatile std::size_t* depth) {
		for (std::size_t d = from; d < to; d += 128) {
			*depth = d;
			*static_cast<volatile char*>(top - d) = 1;
		}
	}
	void stack_overflow_impl() {
		std::size_t size = 5 * 4096 + vrt::choose(20 * 4096);
		int before = vrt::choose(3), after = vrt::choose(3);
		vrt::note("%zu byte, %d fibers made before, %d after", size, before, after);
		vrt::nontrivial();
		auto depth = static_cast<volatile std::size_t*>(::mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
		CHECK(depth != MAP_FAILED);
		*depth = 0;
		pid_t pid = fork();
		if (pid == 0) {
			signal(SIGSEGV, SIG_DFL);
			signal(SIGBUS, SIG_DFL);
			std::vector<std::unique_ptr<fiber<void>>> more;
			for (int i = 0; i < before; i++)
				more.push_back(std::make_unique<fiber<void>>([] {}, size));
			fiber<void> f(
				[&] {
					char* top = static_cast<char*>(__builtin_frame_address(0));
					overflow(top, 12000, size + 4096 + 4096 + 4096, depth);
				},
				size);
			for (int i = 0; i < after; i++)
				more.push_back(std::make_unique<fiber<void>>([] {}, size));
			[](fiber<void>* f) -> h::co { co_await *f; }(&f);
			_exit(41);
		}
		int st = 0;
		if (pid > 0) waitpid(pid, &st, 0);
		std::size_t d = *depth;
		::munmap(const_cast<std::size_t*>(depth), 4096);
		if (pid < 0) return;
		CHECK(WIFSIGNALED(st) && (WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGBUS), "using more than the stack ended with wait status %x", st);
		CHECK(d + 128 + entry_overhead >= size, "a stack of %zu byte faulted at %zu", size, d);
		CHECK(d <= size + 2 * 4096, "a stack of %zu byte faulted only at %zu", size, d);
	}
} // namespace

SCENARIO(stack_space, 50, vrt::NO_TSAN) { stack_space_impl(); }
SCENARIO(stack_overflow, 10, vrt::NO_TSAN) { stack_overflow_impl(); }
SCENARIO(interleaved_programs, 600, vrt::NO_TSAN) { programs(); }
SCENARIO(cross_thread_programs, 400) { threads(); }
SCENARIO(awaited_from_outside, 50, vrt::NO_TSAN) { outside(); }
// Many fibers, many suspensions
SCENARIO(many_fibers, 1, vrt::NO_TSAN) {
	vrt::step_limit(20'000'000);
	int n = vrt::chance(1, 4) ? (int)vrt::range(60, 300) : (int)vrt::range(1, 40);
	int rounds = vrt::chance(1, 10) ? 70000 / n : (int)vrt::range(0, 300 / n + 2);
	struct F {
		Ctx c;
		std::optional<fiber<int>> f;
		int at = 0, result = -1;
	};
	std::vector<std::unique_ptr<F>> fs;
	for (int i = 0; i < n; i++) {
		fs.push_back(std::make_unique<F>());
		auto* f = fs.back().get();
		f->f.emplace(
			[f, i, rounds]() -> int {
				Tracked t(i);
				double d = i;
				for (int r = 0; r < rounds; r++) {
					fib_await AwVoid{&f->c, false};
					CHECK(t.get() == i && d == i + r, "locals changed across a suspension");
					CHECK(f->at == r);
					f->at++;
					d += 1;
				}
				return i + rounds;
			},
			64 * 1024);
	}
	int destroyed = vrt::flip() ? 0 : (int)vrt::choose((uint32_t)n);
	for (auto& f : fs)
		[](F* f) -> h::co { f->result = co_await *f->f; }(f.get());
	for (int r = 0; r < rounds; r++)
		for (int i = 0; i < n; i++) {
			auto& f = *fs[r % 2 ? i : n - 1 - i];
			CHECK(f.c.slot, "a fiber is not suspended");
			std::exchange(f.c.slot, {}).resume();
		}
	for (int i = 0; i < n; i++)
		CHECK(fs[i]->result == i + rounds && fs[i]->at == rounds, "fiber %d returned %d after %d rounds", i, fs[i]->result, fs[i]->at);
	(void)destroyed;
	if (n > 1 && rounds > 2) vrt::nontrivial();
}
// The handles of fibers: moved between each other, replaced, awaited when empty, created without enough memory
namespace {
	template<typename T>
	struct Handles {
		static constexpr int N = 4;
		struct F {
			Ctx c;
			int steps = 0, at = 0, awaited = 0, resumed = 0, alive = 0, result = -1;
			bool taken = false;
		};
		std::vector<std::unique_ptr<F>> fs;
		fiber<T> obj[N];
		int held[N] = {-1, -1, -1, -1};
		// a callable that counts its copies
		struct Fn {
			F* f;
			int id;
			Fn(F* f, int id) : f(f), id(id) { f->alive++; }
			Fn(const Fn& o) : f(o.f), id(o.id) { f->alive++; }
			~Fn() { f->alive--; }
			T operator()() {
				Fn local(*this);
				for (; f->at < f->steps; f->at++)
					fib_await AwVoid{&f->c, false};
				if constexpr (!std::is_void_v<T>) return T(id);
			}
		};
		static h::co await_it(fiber<T>* o, F* f, int how) {
			f->awaited++;
			if constexpr (std::is_void_v<T>) {
				if (how & 1)
					co_await *o;
				else
					co_await o->await();
			} else {
				if (how == 0) {
					T r = co_await *o;
					f->result = r.get();
				} else if (how == 1) {
					T r = co_await o->await();
					f->result = r.get();
				} else {
					f->taken = true;
					if (how == 2) {
						T r = co_await std::move(*o);
						f->result = r.get();
					} else {
						T r = co_await std::move(*o).await();
						f->result = r.get();
					}
				}
			}
			f->resumed++;
		}
		static h::co await_empty(fiber<T>* o, int how, int* outcome) {
			try {
				if (how == 0)
					co_await *o;
				else if (how == 1)
					co_await std::move(*o);
				else if (how == 2)
					(void)o->await();
				else
					(void)std::move(*o).await();
				*outcome = 1;
			} catch (const std::logic_error&) { *outcome = 2; }
		}
		void gone(int i) {
			if (held[i] < 0) return;
			auto& f = *fs[held[i]];
			CHECK(f.alive == 0, "fiber %d was destroyed but its function or its locals were not", held[i]);
			held[i] = -1;
		}
		void check() {
			for (int i = 0; i < N; i++)
				if (held[i] >= 0) CHECK(fs[held[i]]->alive > 0, "fiber %d was destroyed although it is held", held[i]);
			for (auto& f : fs) {
				bool fin = f->awaited && f->at == f->steps;
				CHECK(f->resumed == (fin ? f->awaited : 0), "a fiber that %s resumed its awaiter %d times", fin ? "finished" : "did not finish", f->resumed);
				if (!std::is_void_v<T> && f->resumed && !f->taken) CHECK(f->result >= 0 && fs[f->result].get() == f.get(), "returned the result %d", f->result);
			}
		}
		void run() {
			int n = (int)vrt::range(3, 25), moved = 0, failed = 0;
			for (int k = 0; k < n; k++) {
				int i = (int)vrt::choose(N), j = (int)vrt::choose(N);
				auto* f = held[i] >= 0 ? fs[held[i]].get() : nullptr;
				switch (vrt::choose(8)) {
				case 0:
				case 1: { // new fiber, replaces the one held (unless it is awaited: nobody could destroy the awaiter)
					if (f && f->awaited > f->resumed) break;
					fs.push_back(std::make_unique<F>());
					int id = (int)fs.size() - 1;
					auto* nf = fs.back().get();
					nf->steps = (int)vrt::choose(4);
					std::size_t size = 16384 + vrt::choose(20000);
					int fail = (int)vrt::choose(8);
					if (fail == 1) size = std::size_t(1) << (50 + vrt::choose(14));
					if (fail == 2) size = std::numeric_limits<std::size_t>::max() - vrt::choose(4 * 4096);
					vrt::note("obj %d = new fiber %d, %zu byte", i, id, size);
					bool threw = false;
					try {
						auto make = [&] {
							if (vrt::flip()) {
								Fn lv(nf, id);
								return fiber<T>(lv, size);
							}
							return fiber<T>(Fn(nf, id), size);
						};
						fiber<T> made;
						if (fail == 3) {
							
							if (h::out_of_memory([&] { made = make(); }, 4)) throw std::bad_alloc();
						} else
							made = make();
						CHECK(fail != 1 && fail != 2, "a fiber with a stack of %zu byte was made", size);
						obj[i] = std::move(made);
					} catch (const std::bad_alloc&) { threw = true; }
					if (threw) {
						CHECK(fail >= 1 && fail <= 3, "a fiber could not be made");
						CHECK(nf->alive == 0, "the function of a fiber that could not be made was not destroyed");
						fs.pop_back();
						failed++;
					} else {
						gone(i);
						held[i] = id;
					}
					break;
				}
				case 2: // move assign
					if (i != j && f && f->awaited > f->resumed) break;
					vrt::note("obj %d = move(obj %d)", i, j);
					{
						auto& r = obj[i] = std::move(obj[j]);
						CHECK(&r == &obj[i]);
					}
					if (i == j) break;
					moved++;
					gone(i);
					held[i] = std::exchange(held[j], -1);
					break;
				case 3: { // swap
					vrt::note("swap %d and %d", i, j);
					std::swap(obj[i], obj[j]);
					std::swap(held[i], held[j]);
					moved++;
					break;
				}
				case 4: { // await
					int how = (int)vrt::choose(4);
					if (!f) {
						int outcome = 0;
						vrt::note("await the empty obj %d", i);
						await_empty(&obj[i], how, &outcome);
						CHECK(outcome == 2, "awaiting an empty fiber: %d", outcome);
						break;
					}
					if (f->taken || f->awaited > f->resumed) break;
					vrt::note("await fiber %d", held[i]);
					await_it(&obj[i], f, how);
					break;
				}
				case 5: // a step of any fiber
				case 6:
					if (!f || !f->c.slot) break;
					vrt::note("step of fiber %d", held[i]);
					std::exchange(f->c.slot, {}).resume();
					break;
				default: // destroy
					if (!f || f->awaited > f->resumed) break;
					vrt::note("destroy fiber %d", held[i]);
					obj[i] = fiber<T>();
					gone(i);
				}
				check();
			}
			for (int i = 0; i < N; i++) {
				auto* f = held[i] >= 0 ? fs[held[i]].get() : nullptr;
				while (f && f->c.slot)
					std::exchange(f->c.slot, {}).resume();
			}
			check();
			for (int i = 0; i < N; i++) {
				obj[i] = {};
				gone(i);
			}
			for (auto& f : fs)
				CHECK(f->alive == 0, "the function or the locals of a fiber were not destroyed");
			if (moved && fs.size() > 1) vrt::nontrivial();
			if (failed) vrt::label("creation failed");
		}
	};
} // namespace
SCENARIO(handles, 60, vrt::NO_TSAN) {
	if (vrt::flip())
		Handles<void>{}.run();
	else
		Handles<Tracked>{}.run();
}
